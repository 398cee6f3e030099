"""usage: batch.py FILE [ID ...]: plant each change described in FILE (a Python file that defines BUGS) in a copy of
/repo of its own, and say whether the stable tests, the demonstration and the property's check notice it. What
qualifies goes to seeded/ID with --keep."""
import json, os, pathlib, runpy, shutil, subprocess, sys, concurrent.futures as cf
V = pathlib.Path('/verif'); W = pathlib.Path('/tmp/w/bb'); TEST = '''
cd $T/tests; export PYTHONPATH=$T/src PYTHONDONTWRITEBYTECODE=1 HOME=$T.home; mkdir -p $HOME/Downloads $T.cli; cp test_cli/expected-*.txt $T.cli
run() { cd $T/tests; [ $1 = test_cli ] && cd $T.cli; /opt/venv/bin/python -m pytest -q -p no:cacheprovider -c $T/pyproject.toml --rootdir=$T --continue-on-collection-errors $T/tests/$1 2>&1 | grep -E "^FAILED|^ERROR|passed|failed"; }
export -f run
for t in test_*.py */; do t=${t%/}; case $t in __pycache__|data) continue;; esac; printf '%s\\0' $t; done | xargs -0 -n1 -P4 bash -c 'run "$1"' run | grep -v "NonExist\\|test_diff" | awk '/passed/{match($0,/[0-9]+ passed/); p+=substr($0,RSTART)+0} /FAILED|ERROR/{print} END{print p " passed"}'
'''
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''
def sh(cmd, env=None, cwd=None, t=900):
    try: r = subprocess.run(['bash', '-c', cmd], env={**os.environ, **(env or {})}, cwd=cwd, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired: return 124, 'timeout'
    return r.returncode, r.stdout + r.stderr
def one(b):
    i = b['id']; T = W / i; shutil.rmtree(T, ignore_errors=True); sh(f'cp -a {os.environ.get("BASE", "/repo")} {T}; git -C {T} checkout -q -- .')
    d = W / (i + '.d'); d.mkdir(exist_ok=True)
    (d / 'demo.py').write_text(b['demo'].lstrip('\n')); (d / 'demo.sh').write_text(SH)
    (d / 'meta.json').write_text(json.dumps(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), indent=1) + '\n')
    out = [i]
    rc, o = sh(f'bash {d}/demo.sh', cwd=T, t=300)
    out.append(f'clean demo {rc}' + ('' if rc == 0 else ' !!! ' + o[-300:]))
    for path, old, new in b['edits']:
        p = T / 'src/eprempy' / path; s = p.read_text()
        if s.count(old) != 1: return i, f'{i}: {path}: {s.count(old)} matches of {old[:60]!r}', False
        p.write_text(s.replace(old, new))
    _, diff = sh(f'git -C {T} diff'); (d / 'patch.diff').write_text(diff)
    rc1, o = sh(f'bash {d}/demo.sh', cwd=T, t=300)
    out.append(f'patched demo {rc1}' + ('' if rc1 else ' !!!') + ' ' + (o.strip().splitlines() or [''])[-1][:100])
    _, o = sh(TEST, env={'T': str(T)}); tests = o.strip(); ok = tests.splitlines()[-1:] == ['342 passed']
    out.append('tests ' + ('ok' if ok else '!!! ' + tests[-400:]))
    for p in b.get('checks', b['prop']).split():
        rc2, o = sh(f'./check {p}', env={'EPREMPY_REPO': str(T), 'EVIDENCE': str(d)}, cwd=V)
        v = [l for l in o.splitlines() if 'VIOLATION' in l and l.startswith('VIOL')]
        out.append(f'{p}: rc={rc2} ' + ('CAUGHT' if rc2 == 1 and v else 'MISSED') + (' ' + o.strip()[-300:] if rc2 not in (0, 1) else ''))
    sh(f'rm -rf {T} {T}.home {T}.cli')
    good = ok and rc == 0 and rc1 != 0
    return i, '\n   '.join(out), good
if __name__ == '__main__':
    keep = '--keep' in sys.argv; a = [x for x in sys.argv[1:] if not x.startswith('-')]
    bugs = [b for b in runpy.run_path(a[0])['BUGS'] if not a[1:] or b['id'] in a[1:]]
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for i, text, good in ex.map(one, bugs):
            print(text, flush=True)
            if keep and good:
                t = V / 'seeded' / i; shutil.rmtree(t, ignore_errors=True); shutil.copytree(W / (i + '.d'), t)
