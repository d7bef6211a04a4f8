#!/usr/bin/env python3
"""Authoring helper for /verif/seeded: turns edits plus a demonstration into a planted bug and confirms it in a scratch copy.
usage: mkseed.py SPEC.py   (SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ text, build=...)])
Not used by any check."""
import json, os, subprocess, sys, shutil
V = os.environ.get('SEEDED', '/verif/seeded')
W = '/tmp/seedw/repo'
DEMO = '''#!/bin/bash
# exits 0 when the property holds for the demonstrated history, nonzero otherwise
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
PY=$(ls -d /usr/include/python3.*/ | head -1)
/usr/bin/g++ -std=c++17 -O0 -w -include cstdint -include functional -include unordered_map -I"$PWD" -I"$PY" -DESL_RELEASE=1 %(flags)s "$here/demo.cpp" %(src)s -o "$out/demo" %(link)s -lboost_serialization -pthread
cd "$out"
timeout %(timeout)s ./demo
'''


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors='replace', **kw)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    if not os.path.isdir(W):
        run(f'cp -a /repo {W}')
        shutil.rmtree(f'{W}/_build', ignore_errors=True)
    run(f'git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD')
    sys.path.insert(0, '/verif/tools')
    import harnesses
    names = {k: getattr(harnesses, k) for k in ('SIM', 'BOOK', 'OWNER', 'EXCHANGE', 'FINANCE', 'WALRAS')}
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        d = f"{V}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        run(f'git -C {W} checkout -q -- .')
        ok = True
        for f, old, new in b['edits']:
            p = f'{W}/{f}'
            s = open(p).read()
            if s.count(old) != b.get('count', 1):
                print(b['id'], 'edit occurs', s.count(old), 'times:', old[:70]); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        diff = run(f'git -C {W} diff').stdout
        open(f'{d}/patch.diff', 'w').write(diff)
        src = b.get('src', 'lib')
        if src == 'lib':
            s, link = '', '-L"$PWD/_build" -lesl -Wl,-rpath,"$PWD/_build"'
        elif src == 'sim':
            s, link = 'esl/computation/environment.cpp', '-L"$PWD/_build" -lesl -Wl,-rpath,"$PWD/_build"'
        elif isinstance(src, str) and src in names:
            s, link = ' '.join('esl/' + x for x in names[src]), ''
        else:
            s, link = ' '.join('esl/' + x for x in src), ''
        open(f'{d}/demo.sh', 'w').write(DEMO % dict(flags=b.get('flags', ''), src=s, link=link, timeout=b.get('timeout', 100)))
        open(f'{d}/demo.cpp', 'w').write(b['demo'].lstrip())
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
        # confirm
        run(f'git -C {W} checkout -q -- .')
        lib = src in ('lib', 'sim')
        script = open('/opt/vp/build.sh').read().replace('/repo', W)
        def build():
            return subprocess.run(['bash', '-c', script], capture_output=True, text=True, cwd=W)
        if lib and build().returncode:
            print(b['id'], 'clean build failed'); continue
        r = run(f'bash {d}/demo.sh', cwd=W)
        if r.returncode:
            print(b['id'], 'DEMO FAILS CLEAN', r.returncode, r.stdout[-1500:], r.stderr[-3000:]); continue
        a = run(f'git -C {W} apply {d}/patch.diff')
        if a.returncode:
            print('apply', a.stderr); continue
        br = build()
        if br.returncode:
            print(b['id'], 'BUILD FAILS', br.stdout[-3000:]); continue
        t = run(f'python3 /opt/vp/run_boost_tests.py {W}/_build > /tmp/seedw/res.txt; python3 /opt/vp/results.py /tmp/seedw/res.json lines:/tmp/seedw/res.txt')
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base.get('stable', base.get('passed', base)) if isinstance(base, dict) else base
        res = json.load(open('/tmp/seedw/res.json'))
        miss = [x for x in stable if x not in res['passed']]
        r = run(f'bash {d}/demo.sh', cwd=W)
        print(b['id'], b['property'], 'demo with patch:', r.returncode, (r.stdout + r.stderr)[-200:].strip().replace('\n', ' / '), '| tests missing:', miss)
        run(f'git -C {W} checkout -q -- .')


main()
