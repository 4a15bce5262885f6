#!/usr/bin/env python3
"""check.py ID [quick|thorough]   builds the check for one property from /repo's working tree, runs
it, writes evidence/ID.json; exit 0: held on everything explored, 1: VIOLATION line printed.
check.py ID replay FILE   runs the case of a replay file again and shows it."""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
sys.path.insert(0, HERE)
from checks.table import CHECKS, CONFIGS

BASE = ['-std=gnu90', '-w', '-g', '-fno-omit-frame-pointer', '-D_GNU_SOURCE', '-include', 'stdlib.h', '-include', 'malloc.h',
        '-include', 'stdbool.h', '-DC_API=extern', '-DFORCEINLINE=inline __attribute__((always_inline))']
ZE = ['-DZE_MALLOC=malloc', '-DZE_FREE=free', '-DZE_REALLOC=realloc', '-DZE_CALLOC=calloc', '-DZE_MEMALIGN=memalign']
ZEMC = ['-DZE_MALLOC=mc_malloc', '-DZE_FREE=mc_free', '-DZE_REALLOC=mc_realloc', '-DZE_CALLOC=mc_calloc', '-DZE_MEMALIGN=mc_memalign']
MC = ['-DRAII_MALLOC=mc_malloc', '-DRAII_FREE=mc_free', '-DRAII_REALLOC=mc_realloc', '-DRAII_CALLOC=mc_calloc',
      '-DRAII_MEMALIGN=mc_memalign', '-include', 'mc_alloc.h']
PLAIN = ['-DRAII_MALLOC=malloc', '-DRAII_FREE=free', '-DRAII_REALLOC=realloc', '-DRAII_CALLOC=calloc', '-DRAII_MEMALIGN=memalign']


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def build(chk, cname, tmp):
    """One executable: the check, the engine, and the repository's sources."""
    cname, part = (cname + '+').split('+')[:2]
    if part:
        chk = chk['also']
    cfg = CONFIGS[cname]
    cc = cfg.get('cc', 'gcc')
    inc = ['-I', REPO + '/include', '-I', HERE + '/lib', '-I', HERE + '/checks']
    alloc = PLAIN if chk.get('plain_alloc') else MC
    threads = chk.get('engine') == 'sched'
    common = BASE + inc + alloc + (ZEMC if threads else ZE)
    d = os.path.join(tmp, cname + part)
    os.makedirs(d, exist_ok=True)
    jobs = []
    instr = ['-fsanitize=thread', '--param=tsan-distinguish-volatile=1', '-fno-builtin-memcpy', '-fno-builtin-memmove', '-fno-builtin-memset'] if threads else []
    for s in sorted(glob.glob(REPO + '/src/*.c')):
        # swar.c reads whole words, on purpose
        fl = [] if threads and s.endswith('/swar.c') else instr
        jobs.append((s, common + cfg['flags'] + fl + chk.get('src_flags', [])))
    for s in chk['src']:
        # some of the repository's functions are declared inline, but defined elsewhere
        jobs.append((HERE + '/checks/' + s, common + cfg['flags'] + ['-UFORCEINLINE', '-DFORCEINLINE='] + instr + chk.get('cflags', [])))
    for s in chk.get('repo_src', []):
        jobs.append((REPO + '/' + s, common + cfg['flags'] + chk.get('repo_src_flags', [])))
    libs = ['sched.c', 'stub.c'] if threads else ['mc.c', 'mc_alloc.c', 'stub.c']
    for s in libs + chk.get('lib', []):
        jobs.append((HERE + '/lib/' + s, BASE + ['-O2', '-DMC_FILL=%d' % (list(CONFIGS).index(cname) % 2), '-I', HERE + '/lib', '-I', REPO + '/include'] + chk.get('lib_flags', [])))
    objs = []

    def one(job):
        src, fl = job
        o = os.path.join(d, re.sub(r'\W', '_', src) + '.o')
        r = run([cc] + fl + ['-c', src, '-o', o])
        if r.returncode:
            raise RuntimeError('cannot compile %s:\n%s' % (src, r.stdout.decode(errors='replace')))
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, jobs))
    exe = os.path.join(d, 'check')
    r = run([cc, '-g'] + objs + ['-o', exe, '-rdynamic', '-lpthread', '-lm'] +
            (['-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset'] if threads else []) + chk.get('ldflags', []))
    if r.returncode:
        raise RuntimeError('cannot link:\n' + r.stdout.decode(errors='replace'))
    return exe


def known(pid):
    keys = {}
    p = os.path.join(HERE, 'known-findings.txt')
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\w+) key=(\S+)\s+(.*)', line)
        if m and m.group(1) == pid:
            keys[m.group(2)] = m.group(3)
    return keys


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    chk = CHECKS[pid]
    if tier == 'replay':
        tmp = tempfile.mkdtemp(prefix='mc.%s.' % pid)
        try:
            cname = re.search(r'-([\w+]+)\.txt$', sys.argv[3]).group(1)
            sys.exit(subprocess.run([build(chk, cname, tmp), '--replay', os.path.abspath(sys.argv[3])] + (['--thorough'] if '-thorough-' in sys.argv[3] else []), cwd=tmp).returncode)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    t0 = time.time()
    total = chk.get('budget', {}).get(tier, 240 if tier == 'quick' else 3000)
    # a check may have a second executable, for the other engine: config+also
    configs = chk['configs'][tier] + [c + '+also' for c in chk.get('also', {}).get('configs', {}).get(tier, [])]
    suites, violation, unconfirmed, findings = [], None, 0, []
    tmp = tempfile.mkdtemp(prefix='mc.%s.' % pid)
    evdir = os.path.join(HERE, 'evidence')
    repdir = os.path.join(evdir, 'replay')
    os.makedirs(repdir, exist_ok=True)
    try:
        with concurrent.futures.ThreadPoolExecutor(len(configs)) as ex:
            exes = list(ex.map(lambda c: build(chk, c, tmp), configs))
        for i, c in enumerate(configs):
            left = max(5.0, (total - (time.time() - t0)) / (len(configs) - i))
            rep = os.path.join(repdir, '%s-%s-%s.txt' % (pid, tier, c))
            if os.path.exists(rep):
                os.unlink(rep)
            outf = os.path.join(tmp, c + '.out')
            cmd = [exes[i], '--jobs', '8', '--budget', '%.1f' % left, '--out', outf, '--replay-out', rep]
            cmd += ['--hang', str(chk.get('hang', 40))]
            if tier == 'thorough':
                cmd.append('--thorough')
            for k in known(pid):
                cmd += ['--known', k]
            env = dict(os.environ, LC_ALL='C')
            r = subprocess.run(cmd, cwd=tmp, env=env, stdin=subprocess.DEVNULL)
            for line in open(outf) if os.path.exists(outf) else []:
                j = json.loads(line)
                j['config'] = c
                if 'violation' in j:
                    violation = (j['violation'], rep)
                elif 'finding' in j:
                    findings.append((j['finding'], j['what']))
                elif 'unconfirmed' in j:
                    unconfirmed += 1
                else:
                    suites.append(j)
            if violation:
                break
            if r.returncode not in (0, 1):
                raise RuntimeError('the explorer ended with %d' % r.returncode)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    cap = [s for s in suites if s['capped']]
    cov = {
        'states': sum(s['states'] for s in suites),
        'transitions': sum(s['transitions'] for s in suites),
        'traces_validated_against_impl': sum(s.get('schedules', s['cases']) + s['extra'] for s in suites),
        'samples': ['%s/%s: %s' % (s['config'], s['suite'], s['sample']) for s in suites if s['sample']][:12] or ['(violated before one could be kept)'],
        'distinct_outcomes': sum(s['outcomes'] for s in suites),
        'exhaustive': not cap and not violation and not unconfirmed,
        'capped_suites': ['%s/%s' % (s['config'], s['suite']) for s in cap],
        'unconfirmed': unconfirmed,
        'suites': [{k: s[k] for k in s if k != 'sample'} for s in suites],
        'explanation': chk['covers'] + (' Every schedule of every program is one execution of the real code, built in the configurations listed under suites; every execution is watched for data races, use of freed memory, deadlock and endless waiting.' if chk.get('engine') == 'sched' else ' Every case is executed on the real code, built in the configurations listed under suites, and compared with the reference.') +
            (' The suites under config+also run threads: every schedule of every program within the bounds is one execution, watched for data races, use of freed memory, deadlock and endless waiting.' if 'also' in chk else ''),
    }
    if chk.get('engine') == 'sched':
        cov['programs'] = sum(s['cases'] for s in suites)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
          'coverage': cov, 'assumptions': chk.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
          'violations': 1 if violation else 0}
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    desc = known(pid)
    for k, what in sorted(set(findings)):
        print('KNOWN-FINDING: property=%s %s' % (pid, desc.get(k, what)))
    print('%s %s: %d cases, %d states, %d transitions, %d outcomes, %.1f s%s' % (
        pid, tier, cov['traces_validated_against_impl'], cov['states'], cov['transitions'], cov['distinct_outcomes'],
        time.time() - t0, ', capped: ' + ' '.join(cov['capped_suites']) if cap else ''))
    if violation:
        print('# ' + violation[0])
        print('VIOLATION property=%s replay=%s' % (pid, violation[1]))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    try:
        main()
    except RuntimeError as e:
        print('ERROR: %s' % e)
        sys.exit(2)
