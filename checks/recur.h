void recur_gen(void); void recur_run(void); void recur_show(FILE *);
void recur_try(void); void recur_protect(void); void recur_guard(void); void recur_recover(void);
