/* The getopt of compat/getopt.c beside the C library's, under other names. */
#define _GNU_VERSIONS_H 1       /* what makes it leave itself out here */
#define getopt o_getopt
#define getopt_long o_getopt_long
#define getopt_long_only o_getopt_long_only
#define optarg o_optarg
#define optind o_optind
#define opterr o_opterr
#define optopt o_optopt
#define _getopt_internal o_getopt_internal
#define __getopt_initialized o_initialized
#include <stdio.h>
#include <string.h>
#include <unistd.h>
/* what it prints goes to memory */
static FILE *o_err;
static char *o_text;
static size_t o_length;
#undef stderr
#define stderr o_err
char o_message[512];
void o_quiet(void) { if (!o_err) o_err = open_memstream(&o_text, &o_length); else if (ftell(o_err)) rewind(o_err); }
int o_messages(void) {
    int i, n = 0, k = ftell(o_err);
    if (k == 0) return 0;
    fflush(o_err);
    if (k > (int)sizeof o_message - 1) k = sizeof o_message - 1;
    memcpy(o_message, o_text, k); o_message[k] = 0;
    for (i = 0; i < k; i++) n += o_message[i] == '\n';
    return n ? n : 1;
}
#include "compat/getopt.c"
