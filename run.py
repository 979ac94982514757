#!/usr/bin/env python3
"""Driver: builds the library variants a check needs from /repo's working tree, runs the harness
processes, replays what they report, writes evidence/<id>.json.

  run.py <ID>              run the check for property <ID> (tier from VERIF_TIER)
  run.py replay <file>     re-run a recorded violation
  run.py build [ID...]     build only
Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: error of the check."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
SRC = V + '/src'
BUILD = os.environ.get('MC_BUILD', V + '/build')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = min(8, len(os.sched_getaffinity(0)))
sys.path.insert(0, V)
from checks import CHECKS  # noqa

LIBC = ['fl2_common.c', 'fl2_compress.c', 'fl2_decompress.c', 'fl2_pool.c', 'fl2_threading.c', 'dict_buffer.c',
        'lzma2_dec.c', 'lzma2_enc.c', 'radix_bitpack.c', 'radix_mf.c', 'radix_struct.c', 'range_enc.c', 'util.c', 'xxhash.c']
REN = ['malloc', 'calloc', 'realloc', 'free'] + ['pthread_' + x for x in
       ['create', 'join', 'detach', 'self', 'mutex_init', 'mutex_destroy', 'mutex_lock', 'mutex_trylock', 'mutex_unlock', 'cond_init',
        'cond_destroy', 'cond_signal', 'cond_broadcast', 'cond_wait', 'cond_timedwait', 'cond_clockwait']] + ['gettimeofday', 'sched_yield', 'sysconf', 'fopen']
RENF = ['-D%s=mc_%s' % (r, r) for r in REN]
MEMF = ['-D%s=mc_%s' % (r, r) for r in ['memcpy', 'memmove', 'memset']] + ['-fno-builtin']
ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer']
# name: (library flags, use assembly decoder, harness/link flags)
VARIANTS = {
    'asan':   (['-O1', '-g1'] + ASAN, False, ASAN),
    'fast':   (['-O2', '-g1'], True, []),
    'fastc':  (['-O2', '-g1'], False, []),
    'small':  (['-O1', '-g1', '-DFL2_MODEL_CHECK'] + ASAN, False, ASAN),
    'smallf': (['-O2', '-g1', '-DFL2_MODEL_CHECK'], True, []),
    'sched':  (['-O1', '-g1', '-DFL2_MODEL_CHECK', '-fsanitize=thread', '-DMC_SCHED'] + MEMF, False, ['-DMC_SCHED']),
}

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def digest(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

class BuildError(Exception):
    pass

def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-6000:])

def repo_files():
    return sorted(glob.glob(REPO + '/*.[chS]'))

def build(pairs):
    """pairs: set of (harness source, variant). Returns {(harness, variant): executable}."""
    os.makedirs(BUILD, exist_ok=True)
    rf, out, tasks, links = repo_files(), {}, {}, []
    for h, v in sorted(pairs):
        lf, use_asm, hf = VARIANTS[v]
        vdir = '%s/%s-%s' % (BUILD, v, digest(rf, (lf, use_asm, RENF)))
        os.makedirs(vdir, exist_ok=True)
        objs = []
        for c in sorted(os.path.basename(f) for f in rf if f.endswith('.c')):
            o = '%s/%s.o' % (vdir, c); objs.append(o)
            if not os.path.exists(o):
                fl = lf + (['-DLZMA2_DEC_OPT'] if use_asm else [])
                tasks[o] = ['gcc', '-std=gnu99', '-w'] + fl + RENF + ['-I', REPO, '-c', REPO + '/' + c, '-o', o + '.tmp']
        if use_asm:
            o = vdir + '/lzma_dec_x86_64.o'; objs.append(o)
            if not os.path.exists(o):
                tasks[o] = ['gcc', '-DMS_x64_CALL=0', '-c', REPO + '/lzma_dec_x86_64.S', '-o', o + '.tmp']
        hflags = ['-std=c++17', '-O2', '-g1', '-w', '-I', SRC, '-I', REPO] + hf + [x for x in lf if x.startswith('-DFL2_')]
        hs = glob.glob(SRC + '/*.h') + [r for r in rf if r.endswith('.h')]
        hd = '%s/h-%s-%s' % (BUILD, v, digest(hs + [SRC + '/mc_rt.cpp', SRC + '/mark_a.cpp', SRC + '/mark_b.cpp', SRC + '/' + h], hflags))
        os.makedirs(hd, exist_ok=True)
        for s in ['mc_rt.cpp', 'mark_a.cpp', 'mark_b.cpp', h]:
            o = '%s/%s.o' % (hd, s)
            if not os.path.exists(o):
                tasks[o] = ['g++'] + hflags + ['-c', SRC + '/' + s, '-o', o + '.tmp']
        exe = '%s/%s-%s' % (hd, os.path.splitext(h)[0], digest([], objs))
        out[(h, v)] = exe
        if not os.path.exists(exe):
            links.append((exe, ['g++', '-no-pie'] + [x for x in hf if x.startswith('-fsan')] + [hd + '/mc_rt.cpp.o', '%s/%s.o' % (hd, h), hd + '/mark_a.cpp.o'] + objs + [hd + '/mark_b.cpp.o', '-lpthread', '-o', exe + '.tmp']))
    def comp(it):
        sh(it[1]); os.replace(it[0] + '.tmp', it[0])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(comp, tasks.items()))
        list(ex.map(comp, links))
    return out

def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:quarantine_size_mb=32:allocator_may_return_null=1:exitcode=12:handle_abort=1:detect_stack_use_after_return=0:max_free_fill_size=0:malloc_context_size=6'
    return e

def read_state(path):
    try:
        b = open(path, 'rb').read()
    except OSError:
        return None
    z = lambda o, n: b[o:o + n].split(b'\0', 1)[0].decode('latin1')
    idx = int.from_bytes(b[8:16], 'little')
    return dict(seq=int.from_bytes(b[0:8], 'little'), idx=idx, fam=z(16, 64), desc=z(80, 3000), msg=z(3080, 2048), sched=z(5128, 4096))

def job_cmd(exe, pid, job, run, tier, extra):
    return [exe, '--prop', pid, '--job', job['name'], '--run', run, '--tier', tier] + extra

def run_alone(exe, pid, job, run, tier, st, timeout):
    cmd = job_cmd(exe, pid, job, run, tier, ['--only', '%s:%d' % (st['fam'], st['idx'])] + job.get('args', []))
    if st['sched']:
        cmd += ['--sched', st['sched']]
    try:
        p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, err = p.returncode, p.stderr.decode('latin1')
    except subprocess.TimeoutExpired as e:
        rc, err = 11, 'timeout'
    s2 = read_state('%s/%s.replay.state' % (run, job['name']))
    return rc, err, s2

def run_shard(exe, pid, job, run, tier, shard, timeout):
    """The whole shard again (deterministic): for a failure that depends on the cases before it."""
    cmd = job_cmd(exe, pid, dict(name='again'), run, tier, ['--shard', shard, '--jobname', job['name']] + job.get('args', []))
    try:
        p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, err = p.returncode, p.stderr.decode('latin1')
    except subprocess.TimeoutExpired:
        rc, err = 11, 'timeout'
    return rc, err, read_state('%s/again.%s.state' % (run, shard.split('/')[0]))

def known_list(pid):
    r = []
    try:
        for l in open(V + '/known_findings.txt'):
            m = re.match(r'known: property=(\S+) case=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return r

def check(pid, tier):
    t0 = time.time()
    c = CHECKS[pid]
    jobs = [j for j in c['jobs'] if tier == 'thorough' or not j.get('thorough_only')]
    exes = build({(j['harness'], j['variant']) for j in jobs})
    tb = time.time() - t0
    log('%s: built in %.1fs' % (pid, tb))
    rundir = '%s/run-%s-%d' % (BUILD, pid, os.getpid())
    shutil.rmtree(rundir, ignore_errors=True); os.makedirs(rundir)
    limit = (c.get('thorough_s', 3000) if tier == 'thorough' else c.get('quick_s', 420))
    t1 = time.time()
    queue = []
    for j in jobs:
        n = j.get('shards', 16)
        for s in range(n):
            queue.append((j, s, n))
    # jobs in order, shards interleaved so that a long job starts early
    running, bad, errs = [], None, []
    def start(j, s, n):
        ef = open('%s/%s.%d.err' % (rundir, j['name'], s), 'wb')
        cmd = job_cmd(exes[(j['harness'], j['variant'])], pid, j, rundir, tier,
                      ['--shard', '%d/%d' % (s, n), '--deadline', '%.1f' % max(5, limit - (time.time() - t1))] + j.get('args', []))
        return (subprocess.Popen(cmd, env=env(), stdout=ef, stderr=ef, preexec_fn=os.setpgrp), j, s, n)
    try:
        while queue or running:
            while queue and len(running) < NCPU:
                running.append(start(*queue.pop(0)))
            time.sleep(0.02)
            for r in list(running):
                rc = r[0].poll()
                if rc is None:
                    continue
                running.remove(r)
                if rc != 0:
                    bad = (rc, r[1], r[2], r[3]); break
            if bad:
                break
            if time.time() - t1 > limit + 200:
                errs.append('time limit'); break
    finally:
        for r in running:
            try:
                os.killpg(r[0].pid, signal.SIGKILL)
            except OSError:
                pass
            r[0].wait()
    viol = None
    if bad:
        rc, j, s, n = bad
        st = read_state('%s/%s.%d.state' % (rundir, j['name'], s))
        err = open('%s/%s.%d.err' % (rundir, j['name'], s), 'rb').read().decode('latin1')
        log('worker %s shard %d ended with %d at %s:%s [%s] %s' % (j['name'], s, rc, st and st['fam'], st and st['idx'], st and st['desc'], st and st['msg']))
        if rc in (3, 4, 5) or not st or not st['fam']:
            errs.append('worker error %d: %s' % (rc, err[-2000:]))
        else:
            exe = exes[(j['harness'], j['variant'])]
            reps = [run_alone(exe, pid, j, rundir, tier, st, 300)]
            if reps[0][0] not in (0, 3, 5):
                reps.append(run_alone(exe, pid, j, rundir, tier, st, 300))
            ok, hist = all(x[0] not in (0, 3, 5) for x in reps), None
            if not ok:
                hist = '%d/%d' % (s, n)
                x = run_shard(exe, pid, j, rundir, tier, hist, 400)
                ok = x[0] not in (0, 3, 4, 5) and bool(x[2]) and (x[2]['fam'], x[2]['idx']) == (st['fam'], st['idx'])
                reps = [x]
            if ok:
                msg = st['msg'] or first_line(reps[0][1]) or ('crash, status %d' % rc)
                os.makedirs(V + '/evidence/replay', exist_ok=True)
                name = '%s/evidence/replay/%s-%s-%d.json' % (V, pid, st['fam'].replace('/', '_'), st['idx'])
                json.dump(dict(property=pid, job=j['name'], harness=j['harness'], variant=j['variant'], tier=tier, family=st['fam'], index=st['idx'],
                               case=st['desc'], schedule=st['sched'], shard=hist, args=j.get('args', []), message=msg, status=rc,
                               stderr=reps[0][1][-4000:]), open(name, 'w'), indent=1)
                viol = (name, msg, st)
            else:
                errs.append('violation did not replay (%s): %s:%d %s %s / %s' % ([x[0] for x in reps], st['fam'], st['idx'], st['desc'], st['msg'], err[-1500:]))
    cov = merge(rundir, jobs)
    wall = time.time() - t0
    ev = evidence(pid, c, tier, cov, wall, tb, viol, jobs)
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    shutil.rmtree(rundir, ignore_errors=True)
    if os.environ.get('MC_PROFILE'):
        for k, n in sorted(cov['times'].items(), key=lambda x: -x[1])[:25]:
            log('  %8.1f s  %s (%d cases)' % (n, k, cov['families'].get(k, 0)))
    if viol:
        log('  case: %s' % viol[2]['desc']); log('  %s' % viol[1])
        print('VIOLATION property=%s replay=%s' % (pid, viol[0])); return 1
    if errs:
        for e in errs:
            log('ERROR', e)
        return 2
    for case, text in known_list(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    log('%s: held; %d cases, %d distinct states, %.1fs%s' % (pid, cov['cases'], cov['states'], wall, ' (capped)' if cov['capped'] else ''))
    return 0

def first_line(err):
    for l in err.splitlines():
        if 'ERROR: AddressSanitizer' in l or 'SUMMARY' in l or l.startswith('FAIL'):
            return l[:500]
    return err.strip().splitlines()[-1][:500] if err.strip() else ''

def merge(rundir, jobs):
    cov = dict(cases=0, states=0, capped=False, families={}, counters={}, samples=[], times={})
    for f in sorted(glob.glob(rundir + '/*.json')):
        d = json.load(open(f)); jn = os.path.basename(f).split('.')[0]
        cov['capped'] |= d['capped']; cov['states'] += d['states']
        for k, n in d['families'].items():
            key = jn + '/' + k
            cov['families'][key] = cov['families'].get(key, 0) + n; cov['cases'] += n
        for k, n in d.get('times', {}).items():
            cov['times'][jn + '/' + k] = cov['times'].get(jn + '/' + k, 0) + n
        for k, n in d['counters'].items():
            cov['counters'][k] = max(cov['counters'].get(k, 0), n) if k.startswith('max:') else cov['counters'].get(k, 0) + n
        if len(cov['samples']) < 60:
            have = {}
            for x in cov['samples']:
                have[x.split(':')[0]] = have.get(x.split(':')[0], 0) + 1
            for x in d['samples']:
                k = jn + '/' + x.split(':')[0]
                if have.get(k, 0) < 2:
                    have[k] = have.get(k, 0) + 1; cov['samples'].append(jn + '/' + x)
    return cov

def evidence(pid, c, tier, cov, wall, tb, viol, jobs):
    k = dict(cov['counters']); lvl = c['level']
    if lvl == 'model_checking':
        # states: distinct observed end states/outcomes; transitions: operations of the real code executed
        coverage = dict(states=cov['states'], transitions=k.pop('transitions', 0), traces_validated_against_impl=cov['cases'] + k.pop('executions', 0), samples=cov['samples'])
    else:
        coverage = dict(evaluations=cov['cases'] + k.pop('executions', 0), distinct_nontrivial=cov['states'], rule=c['rule'], samples=cov['samples'])
    coverage.update(exhaustive=not cov['capped'], bounds=c.get('bounds', ''), families=cov['families'], counters=k,
                    variants=sorted({j['variant'] for j in jobs}), build_s=round(tb, 1))
    return dict(property=pid, tier=tier, seed=SEED, level=lvl, coverage=coverage, wall_s=round(wall, 2), violations=1 if viol else 0)

def replay(path):
    d = json.load(open(path))
    exes = build({(d['harness'], d['variant'])})
    run = '%s/replay-%d' % (BUILD, os.getpid()); os.makedirs(run, exist_ok=True)
    st = dict(fam=d['family'], idx=d['index'], sched=d['schedule'])
    exe, job = exes[(d['harness'], d['variant'])], dict(name=d['job'], args=d.get('args', []))
    if d.get('shard'):
        rc, err, s2 = run_shard(exe, d['property'], job, run, d['tier'], d['shard'], 1200)
    else:
        rc, err, s2 = run_alone(exe, d['property'], job, run, d['tier'], st, 600)
    shutil.rmtree(run, ignore_errors=True)
    print(err[-6000:])
    print('status', rc)
    return 1 if rc else 0

def main():
    if sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    if sys.argv[1] == 'build':
        ids = sys.argv[2:] or list(CHECKS)
        build({(j['harness'], j['variant']) for i in ids for j in CHECKS[i]['jobs']})
        return 0
    if sys.argv[1] == 'exe':   # run.py exe harness.cpp variant
        print(build({(sys.argv[2], sys.argv[3])})[(sys.argv[2], sys.argv[3])]); return 0
    try:
        return check(sys.argv[1], TIER)
    except BuildError as e:
        log('BUILD FAILED\n' + str(e)); return 2

if __name__ == '__main__':
    sys.exit(main())
