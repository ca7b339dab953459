#!/usr/bin/env python3
"""Builds one check's harness against /repo's working tree, explores it on all
cores, replays what it found, and writes evidence/<id>.json.

  run.py C05              the check (tier from VERIF_TIER, default quick)
  run.py C05 --thorough   the same, deeper
  run.py --replay FILE    replay one violation alone
Exit 0: held on everything explored.  1: VIOLATION.  2: the check itself failed.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, struct

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS, FLAGS

LIB = ['irk.cpp', 'erk.cpp', 'newton.cpp']
ENV = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LC_ALL='C',
           ASAN_OPTIONS='detect_leaks=0:abort_on_error=1', UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1')
NCPU = min(8, os.cpu_count() or 4)


def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def build(pid, cfg, bdir):
    """-> {variant: executable}"""
    os.makedirs(bdir, exist_ok=True)
    jobs, exes, links = [], {}, []
    for var, extra in cfg.get('variants', [('std', [])]):
        cc = ['g++'] + FLAGS + extra + ['-I', REPO, '-I', os.path.join(HERE, 'mc')]
        objs = []
        srcs = [(os.path.join(HERE, 'mc', cfg['src']), 'harness')]
        if cfg.get('lib', True):
            srcs += [(os.path.join(REPO, s), s) for s in LIB]
        for src, n in srcs:
            o = os.path.join(bdir, '%s_%s.o' % (var, n.replace('.', '_')))
            jobs.append(cc + ['-c', src, '-o', o])
            objs.append(o)
        exe = os.path.join(bdir, 'h_' + var)
        links.append(['g++'] + [f for f in FLAGS + extra if f.startswith('-fsan')] + objs + ['-o', exe] +
                     cfg.get('link', ['-larmadillo', '-llapack', '-lblas']))
        exes[var] = exe
    for src, exe, extra in cfg.get('drivers', []):   # programs of the repository, linked with its library sources
        cc = ['g++', '-std=c++11', '-O1', '-w', '-I', REPO] + extra
        o = os.path.join(bdir, exe + '.o')
        jobs.append(cc + ['-c', os.path.join(REPO, src), '-o', o])
        lib = []
        for s in LIB:
            lo = os.path.join(bdir, 'std_%s.o' % s.replace('.', '_'))
            lib.append(lo)
        links.append(['g++', o] + lib + ['-o', os.path.join(bdir, exe), '-larmadillo', '-llapack', '-lblas'])
        ENV['MC_DRIVER_' + exe.upper()] = os.path.join(bdir, exe)
    for cmds in (jobs, links):
        procs = []
        for c in cmds:
            while len([p for p, _, _ in procs if p.poll() is None]) >= NCPU:
                time.sleep(0.05)
            log = tempfile.TemporaryFile()
            procs.append((subprocess.Popen(c, stdout=log, stderr=log), c, log))
        for p, c, log in procs:
            if p.wait() != 0:
                log.seek(0)
                print(' '.join(c))
                print('\n'.join(l for l in log.read().decode(errors='replace').split('\n') if 'rror' in l)[:3000])
                die('%s does not build' % pid)
    return exes


def read_progress(f):
    try:
        return open(f, 'rb').read().split(b'\0')[0].decode()
    except OSError:
        return ''


def replay(exe, choices, tier, limit, wd):
    """-> (key, msg, desc) or None if nothing is wrong"""
    out = os.path.join(wd, 'replay.json')
    if os.path.exists(out):
        os.remove(out)
    try:
        p = subprocess.run([exe, '--tier', tier, '--replay', choices, '--out', out], env=ENV, cwd=wd,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit)
    except subprocess.TimeoutExpired:
        return ('hang', 'no end after %d s' % limit, '')
    if p.returncode == 77:
        die('replay of %s diverged: %s' % (choices, p.stderr.decode(errors='replace')[-500:]))
    if p.returncode != 0:
        return ('crash-%d' % p.returncode, 'ended with %d: %s' % (p.returncode, p.stderr.decode(errors='replace')[-1500:]), '')
    d = json.load(open(out))
    v = d['violations']
    return (v[0]['key'], v[0]['msg'], v[0]['desc']) if v else None


def replay_history(exe, tier, limit, wd, shard, nsh, key):
    """the violation depends on what ran before it in the same process: run all of it again"""
    out = os.path.join(wd, 'history.json')
    try:
        p = subprocess.run([exe, '--tier', tier, '--shard', str(shard), '--nshards', str(nsh), '--out', out, '--limit', str(limit)],
                           env=ENV, cwd=wd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=limit + 60)
    except subprocess.TimeoutExpired:
        return None
    if p.returncode != 0:
        return None
    for v in json.load(open(out))['violations']:
        if v['key'] == key:
            return (key, v['msg'] + ' (only after the executions before it in the same process)', v['desc'])
    return None


def die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def explore(pid, var, exe, tier, limit, wd, nshards):
    procs = []
    for k in range(nshards):
        o = os.path.join(wd, 'out_%s_%d.json' % (var, k))
        pr = os.path.join(wd, 'prog_%s_%d' % (var, k))
        for f in (o, pr):
            if os.path.exists(f):
                os.remove(f)
        err = open(os.path.join(wd, 'err_%s_%d' % (var, k)), 'w+b')
        swd = os.path.join(wd, 'cwd_%s_%d' % (var, k))
        os.makedirs(swd, exist_ok=True)
        p = subprocess.Popen([exe, '--tier', tier, '--shard', str(k), '--nshards', str(nshards), '--out', o,
                              '--progress', pr, '--limit', str(limit)], env=ENV, cwd=swd,
                             stdout=subprocess.DEVNULL, stderr=err, start_new_session=True, preexec_fn=die_with_parent)
        procs.append((p, o, pr, err))
    hard = time.time() + limit + 45
    res, bad, suspicious = [], [], []
    for p, o, pr, err in procs:
        try:
            rc = p.wait(max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 'timeout'
        if rc == 0:
            d = json.load(open(o))
            d['shard'] = int(o.rsplit('_', 1)[1][:-5])
            res.append((d, o + '.states'))
            continue
        if rc == 77:
            err.seek(0)
            die('exploration diverged: ' + err.read().decode(errors='replace')[-500:])
        if rc == -9:
            rc = 'timeout'       # ended from outside: replay alone decides
        suspicious.append((read_progress(pr), rc))
    return res, suspicious


def load_findings(pid):
    known = {}
    for line in open(os.path.join(HERE, 'known-findings.txt')):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
        if m and m.group(1) == pid:
            known[m.group(2)] = m.group(3).strip()
    return known


def main():
    args = sys.argv[1:]
    if args and args[0] == '--replay':
        r = json.load(open(args[1]))
        pid, tier = r['property'], r['tier']
        wd = os.path.join(HERE, 'build', 'replay-' + pid)
        exes = build(pid, CHECKS[pid], wd)
        if r.get('history'):
            got = replay_history(exes[r['variant']], tier, 900, wd, r['history'][0], r['history'][1], r['key'])
        else:
            got = replay(exes[r['variant']], r['choices'], tier, 300, wd)
        print('replay of %s (%s): %s' % (pid, r['choices'], got))
        sys.exit(1 if got else 0)
    pid = args[0]
    tier = 'thorough' if '--thorough' in args else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    cfg = CHECKS[pid]
    t0 = time.time()
    limit = cfg.get('limit_thorough', 3000) if tier == 'thorough' else cfg.get('limit_quick', 240)
    wd = os.path.join(HERE, 'build', pid)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    exes = build(pid, cfg, wd)
    tb = time.time() - t0
    nsh = 1 if cfg.get('single') else NCPU
    ENV['MC_KNOWN'] = ','.join(load_findings(pid))     # these do not count towards the limit on violations
    agg = dict(executions=0, configurations=0, transitions=0, validated=0)
    extra, samples, states, capped, found = {}, [], set(), False, []
    for var, exe in exes.items():
        res, susp = explore(pid, var, exe, tier, limit, wd, nsh)
        for d, sf in res:
            for k in agg:
                agg[k] += d[k]
            for k, v in d['extra'].items():
                extra[k] = max(extra.get(k, 0), v) if k.startswith('largest') else extra.get(k, 0) + v
            for s in d['samples']:
                if len(samples) < 6:
                    samples.append('[%s] %s' % (var, s))
            b = open(sf, 'rb').read()
            states.update(struct.unpack('<%dQ' % (len(b)//8), b))
            capped |= d['capped']
            for v in d['violations']:
                found.append((var, exe, v['key'], v['msg'], v['choices'], v['desc'], d['shard']))
        for choices, rc in susp:
            got = replay(exe, choices, tier, 120, wd)
            if got:
                found.append((var, exe, got[0], got[1], choices, got[2], 0))
            elif rc == 'timeout':
                capped = True
            else:
                die('shard ended with %s at %s, but not when replayed alone' % (rc, choices))
    known = load_findings(pid)
    rdir = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'):
            os.remove(os.path.join(rdir, f))
    fresh, hit, seen, hists = [], {}, set(), {}
    for var, exe, key, msg, choices, desc, shard in found:
        if key in known:
            hit.setdefault(key, (msg, desc))
            continue
        if (var, key) in seen or len(fresh) >= 5:
            continue
        seen.add((var, key))
        got = replay(exe, choices, tier, 240, wd)      # replay before report
        if got is None:                                # it may need the executions before it in the same process
            got = replay_history(exe, tier, limit, wd, shard, nsh, key)
            hist = [shard, nsh]
            if got is None:
                die('violation %s of %s does not replay: %s' % (key, choices, msg))
        else:
            hist = None
        hists[(var, key)] = hist
        fresh.append((var, key, got[1] or msg, choices, desc))
    for k in sorted(hit):
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, known[k], hit[k][0][:300]))
    for i, (var, key, msg, choices, desc) in enumerate(fresh):
        rp = os.path.join(rdir, '%s-%d.json' % (pid, i))
        json.dump(dict(property=pid, tier=tier, variant=var, choices=choices, key=key, msg=msg, case=desc,
                       history=hists.get((var, key)),
                       how='python3 /verif/run.py --replay ' + rp), open(rp, 'w'), indent=1)
        print('%s [%s] %s: %s\n    case: %s' % (pid, var, key, msg[:1500], desc))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    cov = dict(states=len(states), transitions=agg['transitions'], traces_validated_against_impl=agg['validated'],
               samples=samples or ['(none)'], executions=agg['executions'], configurations=agg['configurations'],
               exhaustive=not capped, space=cfg['space'], bound=cfg.get('bound', ''),
               variants=[v for v in exes], counts={k: int(v) if abs(v) < 1e300 and v == int(v) else v for k, v in extra.items()},
               known_findings_hit=sorted(hit), build_s=round(tb, 1))
    if len(states) >= 1000000:
        cov['states_note'] = 'each process counts distinct states up to 1000000, so there were at least this many'
    if capped:
        cov['cap'] = 'time limit of %d s hit: configurations are explored in order, so a prefix of each shard was covered' % limit
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=cov, assumptions=cfg.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d executions of %d configurations, %d states, %d transitions, %d validated, %.1f s (build %.1f)%s %s' %
          (pid, tier, agg['executions'], agg['configurations'], len(states), agg['transitions'], agg['validated'],
           time.time() - t0, tb, ' CAPPED' if capped else '', cov['counts']))
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(wd, ignore_errors=True)
    if agg['executions'] == 0 and not fresh:
        die('nothing was explored')
    sys.exit(1 if fresh else 0)


main()
