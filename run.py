#!/usr/bin/env python3
"""Runs one check: builds the conformance harness from /repo's working tree,
records traces of the real code, and lets TLC decide them against the TLA+
specification in /verif/spec; also model-checks the design specification.

usage: run.py <property id>        (tier from VERIF_TIER, seed from VERIF_SEED)
       run.py --build-all          (setup: builds every harness)
       run.py --replay FILE        (re-checks a recorded rejected case)
exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from checks import CHECKS

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = os.path.join(REPO, 'planner/src')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CXX = ['g++', '-std=c++17', '-O2', '-g1', '-UNDEBUG', '-include', 'cassert', '-include', 'algorithm',
       '-DPP_ENABLE_ASSERT', '-w', '-I' + SRC, '-I' + os.path.join(VERIF, 'harness')]
CXX += os.environ.get('VP_CXXFLAGS', '').split()  # development: other roundings (e.g. -mfma) must not raise alarms
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                          errors='replace', **kw)


# ------------------------------------------------------------------ building
def sanitizer():
    """Memory errors of the code under test end the recorder (a crash event no specification allows),
    provided AddressSanitizer runs in this environment."""
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'asan-probe')
    flags = ['-fsanitize=address', '-D_GLIBCXX_ASSERTIONS']
    try:
        if not os.path.exists(exe):
            tmp = '%s.%d' % (exe, os.getpid())
            subprocess.run(['g++', '-x', 'c++', '-', '-o', tmp] + flags, input='#include <vector>\nint main(int c, char**) { std::vector<int> v(c); return v[0]; }',
                           text=True, check=True, timeout=120, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.replace(tmp, exe)
        if all(subprocess.run([exe], timeout=20, env=san_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 for _ in range(5)):
            return flags
    except (OSError, subprocess.SubprocessError):
        pass
    return []


def san_env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:allow_user_segv_handler=1'
    return e


def tree_hash(SRC=SRC):
    h = hashlib.sha256(os.environ.get('VP_CXXFLAGS', '').encode())
    for root, dirs, files in os.walk(SRC):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.h', '.hpp', '.cpp', '.inl', '.ipp', '.tpp', '.cc', '.cxx')):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, SRC).encode() + b'\0')
                h.update(open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:16]


def compile_one(src, obj, extra=()):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = '%s.%d.tmp.o' % (obj, os.getpid())
    r = sh(CXX + list(extra) + ['-c', src, '-o', tmp], 600)
    if r.returncode != 0:
        raise CheckError('cannot compile %s:\n%s' % (src, '\n'.join(x for x in r.stdout.split('\n') if 'error' in x)[:1500]))
    os.replace(tmp, obj)


def build(harness):
    """Builds the planner library from /repo's working tree and one harness."""
    th = tree_hash()
    if harness.startswith('py_'):
        return build_python(harness, th)
    hsrc = os.path.join(VERIF, 'harness', harness + '.cpp')
    san = sanitizer()
    hh = hashlib.sha256(th.encode() + ' '.join(CXX + san).encode())
    for f in [hsrc] + sorted(os.path.join(VERIF, 'harness', x) for x in os.listdir(os.path.join(VERIF, 'harness')) if x.endswith('.h')):
        hh.update(open(f, 'rb').read())
    d = os.path.join(BUILD, th)
    exe = os.path.join(d, harness + '-' + hh.hexdigest()[:12])
    if os.path.exists(exe):
        return exe
    jobs, objs = [], []
    for root, dirs, files in os.walk(SRC):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), SRC)
            # logging and profiling are compiled out, as in /opt/vp/build.sh
            if f.endswith('.cpp') and rel not in ('core/log.cpp', 'debug/profiler.cpp'):
                obj = os.path.join(d, 'a' if san else 'o', rel[:-4] + '.o')
                objs.append(obj)
                if not os.path.exists(obj):
                    jobs.append((os.path.join(SRC, rel), obj, san))
    hobj = os.path.join(d, 'h', harness + '-' + hh.hexdigest()[:12] + '.o')
    jobs.insert(0, (hsrc, hobj, san))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r in [ex.submit(compile_one, *j) for j in jobs]:
            r.result()
    tmp = '%s.%d.tmp' % (exe, os.getpid())
    r = sh(['g++', hobj] + san + os.environ.get('VP_CXXFLAGS', '').split() + sorted(objs) + ['-llz4', '-lpthread', '-o', tmp], 300)
    if r.returncode != 0:
        raise CheckError('cannot link %s:\n%s' % (harness, r.stdout[-3000:]))
    os.replace(tmp, exe)
    # keep the build directory small: drop other trees' objects
    for other in os.listdir(BUILD):
        if other != th:
            p = os.path.join(BUILD, other)
            if time.time() - os.path.getmtime(p) > 3600:
                shutil.rmtree(p, ignore_errors=True)
    return exe


def build_python(harness, th):
    """Builds the Python module from /repo's working tree and a launcher of the harness."""
    psrc = os.path.join(REPO, 'interfaces/python/src')
    inc = subprocess.run(['/usr/bin/python3', '-c', 'import sysconfig as s; print(s.get_paths()["include"], s.get_config_var("EXT_SUFFIX"))'], stdout=subprocess.PIPE, text=True).stdout.split()
    flags = ['-fPIC', '-fvisibility=hidden', '-O1', '-I' + inc[0], '-I' + psrc]
    ph = hashlib.sha256((th + tree_hash(psrc) + ' '.join(CXX + flags)).encode()).hexdigest()[:12]
    d = os.path.join(BUILD, th, 'py-' + ph)
    exe = os.path.join(d, harness)
    if os.path.exists(exe):
        return exe
    jobs, objs = [], []
    for top, sub in ((psrc, 'm'), (SRC, 'o')):
        for root, dirs, files in os.walk(top):
            for f in files:
                rel = os.path.relpath(os.path.join(root, f), top)
                if f.endswith('.cpp') and rel not in ('core/log.cpp', 'debug/profiler.cpp'):
                    obj = os.path.join(d, sub, rel[:-4] + '.o')
                    objs.append(obj)
                    if not os.path.exists(obj):
                        jobs.append((os.path.join(top, rel), obj, flags))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r in [ex.submit(compile_one, *j) for j in jobs]:
            r.result()
    so = os.path.join(d, 'pyplanning' + inc[1])
    tmp = '%s.%d.tmp' % (so, os.getpid())
    r = sh(['g++', '-shared'] + os.environ.get('VP_CXXFLAGS', '').split() + sorted(objs) + ['-llz4', '-lpthread', '-o', tmp], 300)
    if r.returncode != 0:
        raise CheckError('cannot link the Python module:\n%s' % r.stdout[-3000:])
    os.replace(tmp, so)
    tmp = '%s.%d.tmp' % (exe, os.getpid())
    with open(tmp, 'w') as f:
        f.write('#!/bin/sh\nPYTHONPATH="%s" PYTHONDONTWRITEBYTECODE=1 exec /usr/bin/python3 "%s" "$@"\n' % (d, os.path.join(VERIF, 'harness', harness + '.py')))
    os.chmod(tmp, 0o755)
    os.replace(tmp, exe)
    return exe


# ----------------------------------------------------------------------- TLC
def tlc(module, cfg, workdir, env=None, workers=1, timeout=800, heap='2g', extra=()):
    meta = tempfile.mkdtemp(prefix='meta_', dir=workdir)
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC', '-Xmx' + heap, '-Xss64m',
           '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module + '.tla']
    try:
        r = sh(cmd, timeout, cwd=SPEC, env=e)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r


def tlc_counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def run_mc(mc, workdir):
    """Exhaustive model checking of the design specification."""
    for attempt in (1, 2):
        r = tlc(mc['module'], mc.get('cfg', mc['module'] + '.cfg'), workdir, workers=mc.get('workers', 2),
                timeout=mc.get('timeout', 700), heap=mc.get('heap', '4g'), env=mc.get('env'), extra=mc.get('extra', ()))
        if r.returncode == 0 and 'No error has been found' in r.stdout:
            g, d = tlc_counts(r.stdout)
            if d < mc.get('min_states', 1):
                raise CheckError('model %s explored only %d states' % (mc['module'], d))
            return dict(module=mc['module'], cfg=mc.get('cfg', mc['module'] + '.cfg'), generated=g, distinct=d)
    # the design model does not depend on /repo: a failure here is an error of the check, never an alarm
    raise CheckError('model checking of %s failed:\n%s' % (mc['module'], r.stdout[-3000:]))


def run_harness(exe, run, seed, tier, shard, shards, out, workdir):
    cases = run['cases'] if tier == 'quick' else run.get('thorough_cases', run['cases'] * 8)
    cmd = [exe, '--out', out, '--seed', str(seed), '--shard', str(shard), '--shards', str(shards),
           '--cases', str(max(1, cases // shards)), '--tier', tier, '--mode', run.get('mode', 'default')]
    if run.get('aux'):
        cmd += ['--aux', os.path.join(VERIF, run['aux'])]
    try:
        r = sh(cmd, run.get('timeout', 600 if tier == 'quick' else 3000), cwd=workdir, env=san_env())
    except subprocess.TimeoutExpired:
        with open(out, 'a') as f:
            f.write('\n{"e":"hang"}\n')
        return
    if r.returncode == 3:
        raise CheckError('harness set-up failure: ' + r.stdout[-500:])
    if r.returncode != 0:
        # the code under test took the process down in a way the recorder could not log
        with open(out, 'a') as f:
            f.write('\n{"e":"crash"}\n')


def clean_trace(path):
    """A crash can leave a partial last line: drop what is not a JSON object."""
    lines = []
    with open(path, errors='replace') as f:
        for ln in f:
            ln = ln.strip()
            if ln.startswith('{') and ln.endswith('}'):
                lines.append(ln)
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return lines


def check_trace(trace_module, path, workdir, env=None):
    """-> (accepted, index of the rejected line (1-based), diagnostics, counts)"""
    last = None
    for attempt in (1, 2):
        e = {'TRACE': path}
        e.update(env or {})
        r = tlc(trace_module, trace_module + '.cfg', workdir, env=e, timeout=2400)
        m = re.search(r'TRACE-ACCEPTED (\d+)', r.stdout)
        if m and r.returncode == 0:
            return True, 0, [], tlc_counts(r.stdout)
        m = re.search(r'TRACE-REJECTED (\d+)', r.stdout)
        if m:
            return False, int(m.group(1)), sorted(set(re.findall(r'BROKEN-CLAUSE ([^"\n]*)', r.stdout))), tlc_counts(r.stdout)
        last = r
    raise CheckError('TLC gave no verdict on a trace of %s:\n%s' % (trace_module, last.stdout[-3000:]))


def case_of(lines, idx):
    """The lines of the case that contains line idx (1-based)."""
    idx = min(idx, len(lines))
    start = 0
    for i in range(idx - 1, -1, -1):
        if lines[i].startswith('{"e":"case"'):
            start = i
            break
    return lines[start:idx]


def shard_job(exe, run, seed, tier, shard, shards, workdir):
    path = os.path.join(workdir, '%s-%s-%s-%d.ndjson' % (run['harness'], run['trace'], run.get('mode', 'default'), shard))
    run_harness(exe, run, seed, tier, shard, shards, path, workdir)
    lines = clean_trace(path)
    if not lines:
        raise CheckError('the harness recorded nothing')
    ok, idx, diag, counts = check_trace(run['trace'], path, workdir, run.get('env'))
    bad = None
    if not ok:
        # report a rejection only if recording and checking again repeats it
        path2 = path + '.again'
        for attempt in range(4):
            run_harness(exe, run, seed, tier, shard, shards, path2, workdir)
            lines2 = clean_trace(path2)
            ok2, idx2, diag2, _ = check_trace(run['trace'], path2, workdir, run.get('env'))
            if not ok2:
                break
        if ok2:
            raise CheckError('a rejection of %s did not repeat' % run['trace'])
        bad = dict(trace=run['trace'], mode=run.get('mode', 'default'), seed=seed, shard=shard, shards=shards, tier=tier,
                   clauses=diag2 or diag, line=idx2, case=case_of(lines2, idx2))
    ncase = sum(1 for ln in lines if ln.startswith('{"e":"case"'))
    dist = set()
    cur = hashlib.md5()
    n_in_case = 0
    for ln in lines:
        if ln.startswith('{"e":"case"'):
            if n_in_case:
                dist.add(cur.digest())
            cur, n_in_case = hashlib.md5(re.sub(r'"id":\d+', '', ln).encode()), 1
        else:
            cur.update(ln.encode())
            n_in_case += 1
    if n_in_case:
        dist.add(cur.digest())
    sample = [ln if len(ln) < 1500 else ln[:1500] + '...' for ln in case_of(lines, 1)[:1] + lines[1:6]]
    os.unlink(path)
    return dict(bad=bad, events=len(lines), cases=ncase, distinct=len(dist), counts=counts, sample=sample, mode=run.get('mode', 'default'))


# -------------------------------------------------------------------- driver
def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) (.*)', ln.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == '--build-all':
        for h in sorted(set(r['harness'] for c in CHECKS.values() for r in c['runs'])):
            build(h)
        return 0
    if sys.argv[1] == '--replay':
        rec = json.load(open(sys.argv[2]))
        wd = tempfile.mkdtemp(prefix='vp_')
        try:
            p = os.path.join(wd, 'case.ndjson')
            open(p, 'w').write('\n'.join(rec['case']) + '\n')
            ok, idx, diag, _ = check_trace(rec['trace'], p, wd)
            print('recorded case: %s (line %d) %s' % ('accepted' if ok else 'rejected', idx, diag))
            return 0 if ok else 1
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    pid = sys.argv[1]
    chk = CHECKS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    workdir = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        exes = {}
        for h in sorted(set(r['harness'] for r in chk['runs'])):
            exes[h] = build(h)
        results, models = [], []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = []
            for mc in chk.get('mc', []):
                if tier == 'thorough' or not mc.get('thorough_only'):
                    futs.append(('mc', ex.submit(run_mc, mc, workdir)))
            for run in chk['runs']:
                if run.get('thorough_only') and tier != 'thorough':
                    continue
                shards = run.get('shards', NCPU)
                for s in range(shards):
                    futs.append(('run', ex.submit(shard_job, exes[run['harness']], run, seed, tier, s, shards, workdir)))
            errors = []
            for kind, f in futs:
                try:
                    (models if kind == 'mc' else results).append(f.result())
                except CheckError as e:
                    errors.append(e)
        bad = [r['bad'] for r in results if r['bad']]
        if errors and not bad:
            raise errors[0]
        mg = sum(m['generated'] for m in models)
        md = sum(m['distinct'] for m in models)
        tg = sum(r['counts'][0] for r in results)
        td = sum(r['counts'][1] for r in results)
        cov = dict(states=md + td, transitions=mg + tg,
                   traces_validated_against_impl=sum(r['cases'] for r in results if not r['bad']),
                   distinct_cases=sum(r['distinct'] for r in results),
                   impl_events_checked=sum(r['events'] for r in results),
                   design_models=models, exhaustive=False,
                   rule=chk.get('rule', ''),
                   samples=[dict(mode=r['mode'], lines=r['sample']) for r in results[:1] + results[-1:]])
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
                  assumptions=chk.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(bad))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in known_findings(pid):
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
        if bad:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            for n, b in enumerate(bad[:3]):
                p = os.path.join(VERIF, 'replays', '%s-%d.json' % (pid, n))
                json.dump(dict(property=pid, **b), open(p, 'w'), indent=1)
                print('rejected: %s mode=%s clauses=%s at %s' % (b['trace'], b['mode'], b['clauses'], b['case'][-1][:400]))
                print('VIOLATION property=%s replay=%s' % (pid, p))
            return 1
        print('OK %s: %d traces, %d events, %d model states, %.1f s' % (pid, cov['traces_validated_against_impl'],
                                                                    cov['impl_events_checked'], md, time.time() - t0))
        return 0
    except CheckError as e:
        print('CHECK-ERROR %s: %s' % (pid, e))
        return 2
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
