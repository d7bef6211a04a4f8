#!/usr/bin/env python3
"""Build and run the monitors that decide one property.

    tools/check.py C01 [--tier quick|thorough] [--seed N]
    tools/check.py --build-all            compile every harness (setup)
    tools/check.py C01 --replay SECTION:CASE[:HARNESS[:VARIANT]]

Exit 0: held on everything explored (known findings are printed). Exit 1: a line
VIOLATION property=<id> replay=<path>. Exit 2: the check itself could not decide.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
EVID = os.path.join(VERIF, 'evidence')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from harnesses import HARNESSES, CHECKS  # noqa: E402

CXX = '/usr/bin/g++'
COMMON = ['-std=c++17', '-w', '-include', 'bits/stdc++.h', '-I', REPO, '-I', os.path.join(VERIF, 'harness'),
          '-DADEPT_RECORDING_PAUSABLE', '-DADEPT_STORAGE_THREAD_SAFE', '-pthread', '-fno-omit-frame-pointer', '-g1']
PYTHON = ['-isystem', '/usr/include/python3.12', '-DWITH_PYTHON']
VARIANTS = {
    'asan': ['-O1', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern'],
    'tsan': ['-O1', '-fsanitize=thread', '-DVMON_TSAN'],
    'plain': ['-O2', '-D_GLIBCXX_ASSERTIONS'],
}
LINK = {
    'asan': ['-fsanitize=address,undefined'],
    'tsan': ['-fsanitize=thread'],
    'plain': [],
}
LIBS = ['-lboost_serialization', '-lboost_system', '-lboost_log', '-lboost_thread', '-lboost_date_time']
JOBS = 8


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


_file_hash = {}


def file_hash(path):
    if path not in _file_hash:
        try:
            with open(path, 'rb') as f:
                _file_hash[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _file_hash[path] = 'missing'
    return _file_hash[path]


_slots = threading.Semaphore(JOBS)
_locks, _locks_guard = {}, threading.Lock()


def compile_one(source, flags):
    """Object for `source`; reused only if no file it was made from has changed."""
    key = sha(source, ' '.join(flags))[:24]
    with _locks_guard:
        lock = _locks.setdefault(key, threading.Lock())
    with lock:
        return compile_locked(source, flags, key)


def compile_locked(source, flags, key):
    base = os.path.join(BUILD, 'obj', key)
    obj, dep, rec = base + '.o', base + '.d', base + '.json'
    if os.path.exists(obj) and os.path.exists(rec):
        try:
            deps = json.load(open(rec))
            if all(file_hash(p) == h for p, h in deps.items()):
                return obj, ''
        except ValueError:
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = '%s.%d.tmp' % (base, os.getpid())
    cmd = [CXX] + flags + ['-MMD', '-MF', dep, '-c', source, '-o', tmp]
    try:
        with _slots:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    except subprocess.TimeoutExpired:
        return None, 'compiler timed out: ' + source
    if p.returncode != 0:
        return None, '$ %s\n%s' % (' '.join(map(shlex.quote, cmd)), p.stdout.decode(errors='replace')[:6000])
    os.replace(tmp, obj)
    txt = open(dep).read().replace('\\\n', ' ')
    files = txt.split(':', 1)[1].split() if ':' in txt else []
    deps = {f: file_hash(f) for f in files if not f.startswith('/usr/')}
    deps[source] = file_hash(source)
    with open(rec, 'w') as f:
        json.dump(deps, f)
    return obj, ''


def compile_many(sources, flags):
    objs, errors = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for s, (o, e) in zip(sources, ex.map(lambda s: compile_one(s, flags), sources)):
            (objs.append(o) if o else errors.append(e))
    if errors:
        raise BuildError('\n'.join(errors))
    return objs


EXCLUDE = re.compile(r'(python_module|mpi_environment|/walras/|mathematics/variable\.cpp)')


def all_sources():
    out = []
    for root, _, names in os.walk(os.path.join(REPO, 'esl')):
        out += [os.path.join(root, n) for n in names if n.endswith('.cpp')]
    return sorted(s for s in out if not EXCLUDE.search(s))


def link(objs, exe, variant, libs):
    cmd = [CXX] + LINK[variant] + ['-pthread', '-o', exe] + objs + libs
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    return p.returncode, p.stdout.decode(errors='replace')


def build(name, variant):
    h = HARNESSES[name]
    src = [os.path.join(VERIF, 'harness', s) for s in h['src']]
    esl = [os.path.join(REPO, 'esl', s) for s in h['esl']]
    esl = [s for s in esl if os.path.exists(s)]
    exe = os.path.join(BUILD, 'bin', '%s-%s' % (name, variant))
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    last = ''
    extra = [a.replace('@VERIF@', VERIF).replace('@REPO@', REPO) for a in h.get('flags', [])]
    for python in (False, True):
        flags = extra + COMMON + (PYTHON if python else []) + VARIANTS[variant]
        libs = h.get('libs', []) + LIBS + (['-lboost_python312', '-lpython3.12'] if python else [])
        try:
            objs = compile_many(src + esl, flags)
        except BuildError as e:
            last = str(e)
            continue
        rc, out = link(objs, exe, variant, libs)
        if rc != 0:
            # definitions may have moved: offer every source of the library,
            # as an archive so that only what is missing is pulled in
            rest, archive = [s for s in all_sources() if s not in esl], exe + '.a'
            extra_objs = []
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for o, _ in ex.map(lambda s: compile_one(s, flags), rest):
                    if o:
                        extra_objs.append(o)
            if os.path.exists(archive):
                os.remove(archive)
            subprocess.run(['/usr/bin/ar', 'rcs', archive] + extra_objs, check=True)
            rc, out2 = link(objs + [archive], exe, variant, libs)
            if rc != 0:
                last = out + out2
                continue
        return exe
    raise BuildError(last)


SAN = [
    (re.compile(r'ERROR: AddressSanitizer: ([\w-]+)'), 'asan'),
    (re.compile(r'ERROR: (LeakSanitizer): detected'), 'lsan'),
    (re.compile(r'WARNING: ThreadSanitizer: ([^\n(]+)'), 'tsan'),
    (re.compile(r'runtime error: ([^\n]+)'), 'ubsan'),
    (re.compile(r"Assertion [`']([^\n]+)' failed"), 'assert'),
    (re.compile(r"terminate called after throwing an instance of '([^']+)'"), 'terminate'),
    (re.compile(r'terminate called (without an active exception|recursively)'), 'terminate'),
]


def classify(text, rc):
    """A stable key for an abnormal ending: kind and the first frame in ESL."""
    kind = 'signal-%d' % -rc if rc < 0 else 'exit-%d' % rc
    for rx, k in SAN:
        m = rx.search(text)
        if m:
            msg = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1)).strip()
            kind = k + ':' + msg[:90]
            text = text[m.start():] if k != 'ubsan' else text[max(0, text.rfind('\n', 0, m.start())):]
            break
    where = ''
    for m in re.finditer(re.escape(REPO) + r'/(esl/[\w./+-]+)', text):
        where = m.group(1)
        break
    return 'crash:%s@%s' % (kind, where or '?')


def run_env(variant, leaks):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=%d:exitcode=98:abort_on_error=0:detect_stack_use_after_return=1:max_uar_stack_size_log=16:strict_init_order=1:allocator_may_return_null=0:detect_container_overflow=1' % (1 if leaks else 0)
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=98'
    env['TSAN_OPTIONS'] = 'exitcode=98:halt_on_error=1:second_deadlock_stack=1:history_size=4'
    env['LSAN_OPTIONS'] = 'exitcode=98:suppressions=' + os.path.join(VERIF, 'tools', 'lsan.supp')
    return env


def execute(exe, variant, prop, tier, seed, scratch, extra, leaks=False, timeout=1500):
    result = os.path.join(scratch, 'result.json')
    progress = os.path.join(scratch, 'progress')
    for p in (result, progress):
        if os.path.exists(p):
            os.remove(p)
    cmd = [exe, '--property', prop, '--tier', tier, '--seed', str(seed), '--result', result, '--progress', progress,
           '--scratch', scratch] + extra
    if variant == 'tsan' and shutil.which('setarch'):
        # the race detector needs a predictable address layout on recent kernels
        probe = subprocess.run(['setarch', os.uname().machine, '-R', 'true'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if probe.returncode == 0:
            cmd = ['setarch', os.uname().machine, '-R'] + cmd
    outp = os.path.join(scratch, 'output.txt')
    with open(outp, 'wb') as o:
        p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT, cwd=scratch, env=run_env(variant, leaks), start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 97
    with open(outp, 'rb') as f:
        data = f.read()
    text = data.decode(errors='replace')
    if len(text) > 400000:
        text = text[:200000] + '\n...\n' + text[-200000:]
    res = None
    if os.path.exists(result):
        try:
            res = json.load(open(result))
        except ValueError:
            res = None
    prog = ''
    if os.path.exists(progress):
        prog = open(progress, 'rb').read().split(b'\0')[0].decode(errors='replace')
    return rc, text, res, prog, cmd


def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(path)) if os.path.exists(path) else {'known': [], 'fixed': []}


def main():
    a = sys.argv[1:]
    if a and a[0] == '--build-all':
        bad = 0
        todo = sorted({(h, v) for runs in CHECKS.values() for h, v, *_ in runs['runs']})
        for h, v in todo:
            t = time.time()
            try:
                build(h, v)
                print('built %s-%s in %.1f s' % (h, v, time.time() - t), flush=True)
            except BuildError as e:
                bad = 1
                print('BUILD FAILED %s-%s\n%s' % (h, v, e), flush=True)
        return 2 if bad else 0
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 2
        elif a[i] == '--seed': seed = int(a[i + 1]); i += 2
        elif a[i] == '--replay': replay = a[i + 1]; i += 2
        else: print('unknown argument', a[i]); return 2
    spec = CHECKS[prop]
    started = time.time()
    scratch_root = tempfile.mkdtemp(prefix='vmon-')
    try:
        return decide(prop, tier, seed, replay, spec, started, scratch_root)
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)


def decide(prop, tier, seed, replay, spec, started, scratch_root):
    runs = spec['runs']
    known = {k['key']: k for k in known_findings().get('known', []) if k['property'] == prop}
    failures, errors = [], []
    total = {'evaluations': 0, 'distinct': 0, 'cases': 0}
    events, sections, samples, variants = {}, {}, [], []
    slowest = 0.
    build_s = 0.0

    def one(job):
        n, (h, v, *opt) = job
        opt = opt[0] if opt else {}
        out = {'failures': [], 'errors': [], 'res': None, 'name': '%s-%s' % (h, v)}
        scratch = os.path.join(scratch_root, str(n))
        os.makedirs(scratch, exist_ok=True)
        exe = opt['exe']
        extra = list(opt.get('args', [])) + [w for k in known for w in ('--known', k)]
        leaks = opt.get('leaks', False)
        limit = 1000 if tier == 'quick' else 20000

        def go(x, t=limit):
            return execute(exe, v, prop, tier, seed, scratch, extra + x, leaks, t)
        only = []
        if replay:
            parts = replay.split(':')
            if len(parts) > 2 and parts[2] != h: return out
            if len(parts) > 3 and parts[3] != v: return out
            only = ['--section', parts[0], '--case', parts[1], '--verbose']
        rc, text, res, prog, cmd = go(only)
        if replay:
            print(text)
        base = [c for c in cmd if c]
        if rc == 97:
            # a time limit: run the same case again alone before believing it
            sec, _, case = prog.partition(' ')
            if sec and not sec.startswith('('):
                rc2, text2, res2, _, cmd2 = go(['--section', sec, '--case', case, '--timeout', '120'], 200)
                if rc2 == 97:
                    out['failures'].append({'property': prop, 'key': 'hang:%s' % sec, 'section': sec, 'case': int(case or 0),
                                            'detail': 'the case did not finish within 120 s, twice\n' + text2[-2000:], 'cmd': cmd2})
                    return out
                rc, text, res, prog, cmd = go(['--timeout', '240'])
        if rc in (0, 1) and res and res.get('complete'):
            for f in res['failures']:
                f['cmd'] = base + ['--section', f['section'], '--case', str(f['case']), '--verbose']
                out['failures'].append(f)
            out['res'] = res
            if res['missing'] and not res['failures']:
                out['errors'].append('%s observed nothing of: %s' % (out['name'], ', '.join(res['missing'])))
            return out
        if rc == 97:
            sec, _, case = prog.partition(' ')
            out['failures'].append({'property': prop, 'key': 'hang:%s' % sec, 'section': sec, 'case': int(case) if case.isdigit() else -1,
                                    'detail': 'did not finish\n' + text[-2000:], 'cmd': base})
            return out
        if rc == 2 and 'no section for property' in text:
            out['errors'].append('%s has no section for %s' % (out['name'], prop))
            return out
        # abnormal ending: sanitizer report, assertion, signal, uncaught exception
        sec, _, case = prog.partition(' ')
        key = classify(text, rc)
        if rc == -9:
            out['errors'].append('%s was killed (memory?) in %s' % (out['name'], prog))
            return out
        m = re.search(r'(ERROR: \w+Sanitizer|WARNING: ThreadSanitizer|runtime error:|Assertion|terminate called|VMON)', text)
        pos = max(0, (m.start() if m else len(text) - 3000) - 300)
        cmdr = base if sec.startswith('(') or not sec else base + ['--section', sec, '--case', case]
        out['failures'].append({'property': prop, 'key': key, 'section': sec, 'case': int(case) if case.isdigit() else -1,
                                'detail': 'the run ended abnormally (rc %d) in %s\n%s' % (rc, prog, text[pos:pos + 7000]), 'cmd': cmdr})
        # failures recorded before the crash
        for l in re.finditer(r'VMON-FAIL property=(\S+) key=(\S+) section=(\S+) case=(\d+) :: ([^\n]*)', text):
            if l.group(1) == prop:
                out['failures'].append({'property': prop, 'key': l.group(2), 'section': l.group(3), 'case': int(l.group(4)),
                                        'detail': l.group(5), 'cmd': base + ['--section', l.group(3), '--case', l.group(4), '--verbose']})
        return out

    jobs = []
    t = time.time()
    needed = sorted({(h, v) for h, v, *opt in runs if not (opt and opt[0].get('tier') and opt[0]['tier'] != tier)})
    exes = {}

    def make(hv):
        try:
            return hv, build(*hv), None
        except BuildError as e:
            return hv, None, str(e)
    with cf.ThreadPoolExecutor(max(1, len(needed))) as ex:
        for hv, exe, err in ex.map(make, needed):
            if err is not None:
                print('ERROR: cannot build harness %s-%s against %s\n%s' % (hv[0], hv[1], REPO, err[:8000]))
                return 2
            exes[hv] = exe
    build_s = time.time() - t
    for n, (h, v, *opt) in enumerate(runs):
        opt = dict(opt[0]) if opt else {}
        if opt.get('tier') and opt['tier'] != tier:
            continue
        opt['exe'] = exes[(h, v)]
        jobs.append((n, (h, v, opt)))
    with cf.ThreadPoolExecutor(spec.get('parallel', 4)) as ex:
        outs = list(ex.map(one, jobs))
    for o in outs:
        failures += o['failures']
        errors += o['errors']
        variants.append(o['name'])
        r = o['res']
        if r:
            total['evaluations'] += r['evaluations']
            total['distinct'] += r['distinct']
            total['cases'] += r['cases']
            for k, v in r['events'].items():
                events[k] = events.get(k, 0) + v
            for k, v in r['sections'].items():
                sections['%s/%s' % (o['name'], k)] = v[0]
                if len(v) > 2:
                    slowest = max(slowest, v[2])
            samples += r['samples'][:3]
    if replay:
        return 1 if failures else 0

    new, seen_known = [], {}
    for f in failures:
        if f['key'] in known:
            seen_known[f['key']] = f
        else:
            new.append(f)
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    wall = time.time() - started
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total['evaluations'], 'distinct_nontrivial': total['distinct'],
            'rule': spec['rule'], 'samples': samples[:8] or ['(none: the run ended abnormally)'],
            'cases': total['cases'], 'events_observed': events, 'cases_per_workload': sections, 'slowest_case_s': round(slowest, 3),
            'builds': variants, 'build_seconds': round(build_s, 1),
            'known_findings_seen': sorted(seen_known),
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for k in known:
        if k in seen_known:
            print('KNOWN-FINDING: property=%s %s [%s]' % (prop, known[k]['what'], k))
        else:
            print('NOTE: listed finding not seen on this tree: %s' % k)
    if new:
        path = os.path.join(EVID, 'replay', '%s-%s-seed%d.txt' % (prop, tier, seed))
        with open(path, 'w') as f:
            for x in new:
                f.write('property: %s\nkey: %s\nsection: %s case: %s\ncommand: %s\n%s\n\n' % (
                    x['property'], x['key'], x['section'], x['case'], ' '.join(map(shlex.quote, x['cmd'])), x['detail']))
        shown = set()
        for x in new:
            if x['key'] in shown:
                continue
            shown.add(x['key'])
            print('  %s (%s #%s): %s' % (x['key'], x['section'], x['case'], x['detail'].split('\n--- case')[0][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors:
            print('ERROR:', e)
        return 2
    if not total['evaluations'] or not total['distinct']:
        print('ERROR: nothing was observed')
        return 2
    print('OK property=%s evaluations=%d distinct=%d cases=%d events=%s (%.1f s, of which build %.1f s)' % (
        prop, total['evaluations'], total['distinct'], total['cases'], json.dumps(events)[:700], wall, build_s))
    return 0


if __name__ == '__main__':
    sys.exit(main())
