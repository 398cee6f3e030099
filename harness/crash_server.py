"""Runs under LD_PRELOAD=crash.so: kills or fails project operations at every file-system call.

argv: jobs file, result file.  A job is {pre, op, allowed}.
"""
import ctypes, json, os, pathlib, random, shutil, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import core
from d_project import STUB
from eprempy import project

lib = ctypes.CDLL(None)
lib.verif_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int]


def entries(raw, work):
    out = {}
    for k, v in raw.items():
        if k in ('config', 'output'):
            continue
        parts = pathlib.Path(k).relative_to(work).parts
        out[(parts[0], parts[1], parts[-1])] = v
    return out


def main(jobsfile, resultfile):
    jobs = json.loads(pathlib.Path(jobsfile).read_text())
    results = []
    with core.scratchdir('verif_crash_') as top:
        work, tmpl, bin_ = top / 'work', top / 'tmpl', top / 'bin'
        work.mkdir(); tmpl.mkdir(); bin_.mkdir()
        f = bin_ / 'mpirun'; f.write_text(STUB.format(rc=0)); f.chmod(0o755)
        e = bin_ / 'eprem'; e.write_text('#!/bin/sh\n'); e.chmod(0o755)
        cfg = top / 'c.cfg'; cfg.write_text('kind=x\n')
        env = {'mpirun': str(f), 'eprem': str(e)}
        p = work / 'p'
        built = None
        for job in jobs:
            if built != job['pre']:
                shutil.rmtree(p, ignore_errors=True)
                shutil.rmtree(tmpl / 'p', ignore_errors=True)
                with core.quiet():
                    i = project.Interface(p, branches=['A', 'B'])
                    for n, s in enumerate(job['pre']):
                        i.run(cfg, name=s['r'], branches=s['b'], nproc=n + 1, environment=env, silent=True)
                shutil.copytree(p, tmpl / 'p')
                built = job['pre']
            res = one(job, work, tmpl, cfg, env, top)
            results.append(res)
    pathlib.Path(resultfile).write_text(json.dumps(results))


def act(i, op, cfg, env, work):
    k = op['op']
    if k == 'run':
        i.run(cfg, name=op['r'], nproc=9, environment=env, silent=True)
    elif k == 'mv':
        i.mv(op['r'], op['q'], silent=True)
    elif k == 'rm':
        i.rm(op['r'], silent=True)
    elif k == 'reset':
        i.reset(silent=True)
    elif k == 'rename':
        i.rename(work / 'q', silent=True)
    elif k == 'open':
        project.Interface(work / 'p')


def one(job, work, tmpl, cfg, env, top):
    allowed = {(tuple(sorted(map(tuple, l))), c) for l, c in job['allowed']}
    p, q = work / 'p', work / 'q'
    before = json.loads((tmpl / 'p' / 'runs.json').read_text())
    conf0 = json.loads((tmpl / 'p' / '.eprem.conf').read_text())
    old = entries(before, work)
    counter = top / 'count'

    def attempt(n, mode):
        shutil.rmtree(work)
        work.mkdir()
        shutil.copytree(tmpl / 'p', p)
        counter.write_text('0')
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                with core.quiet():
                    i = project.Interface(p)
                    os.chdir(work)
                    lib.verif_arm(str(work).encode(), n, mode)
                    try:
                        act(i, job['op'], cfg, env, work)
                    finally:
                        c = lib.verif_count()
                        lib.verif_disarm()
                        counter.write_text(str(c))
            except BaseException:
                code = 1
            os._exit(code)
        return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])

    def inspect(n, mode, code):
        bad = []
        where = [d for d in (p, q) if (d / '.eprem.conf').exists() or (d / 'runs.json').exists()]
        if len(where) != 1:
            return [f'project found at {[str(d) for d in where]}']
        d = where[0]
        try:
            raw = json.loads((d / 'runs.json').read_text())
            conf = json.loads((d / '.eprem.conf').read_text())
        except Exception as err:
            texts = {x: (d / x).read_text()[:80] if (d / x).exists() else None for x in ('runs.json', '.eprem.conf')}
            return [f'damaged file: {type(err).__name__}: {err}: {texts}']
        try:
            now = entries(raw, work)
        except Exception as err:
            return [f'bad log: {raw}']
        conf_at = pathlib.Path(conf['root']).name
        if (tuple(sorted(now)), conf_at) not in allowed:
            bad.append(f'log {sorted(now)} settings {conf_at}; allowed: {sorted(allowed)}')
        if {k: v for k, v in conf.items() if k not in ('root', 'inputs')} != \
                {k: v for k, v in conf0.items() if k not in ('root', 'inputs')}:
            bad.append(f'settings changed: {conf}')
        if {k: raw.get(k) for k in ('config', 'output')} != {k: before.get(k) for k in ('config', 'output')}:
            bad.append('common attributes changed')
        known = {json.dumps(v, sort_keys=True) for v in old.values()}
        o = job['op']
        for k, v in now.items():
            if json.dumps(v, sort_keys=True) not in known:
                if not (o['op'] == 'run' and k[2] == o['r'] and (('p',) + k[1:]) not in old and ' -n 9 ' in v['command']):
                    bad.append(f'entry {k} is {v}')
            elif o['op'] != 'mv' and old.get(('p',) + k[1:]) != v:
                bad.append(f'entry {k} changed to {v}')
        with core.quiet():
            kind, r = core.outcome(lambda: project.Interface(d))
        if kind == 'err':
            bad.append(f'cannot be opened again: {r!r}')
        else:
            if dict(r.log) != raw or r.root != d:
                bad.append(f'reopened at {r.root} with log {dict(r.log)}')
            if (p.exists() and q.exists()):
                bad.append('reopening created a second project directory')
        return bad

    code = attempt(0, 0)
    total = int(counter.read_text())
    fails = []
    if code != 0:
        fails.append((0, 0, ['operation failed without any fault']))
    b = inspect(0, 0, code)
    if b:
        fails.append((0, 0, b))
    tried = 1
    for n in range(1, total + 1):
        for mode in (0, 1, 2):
            code = attempt(n, mode)
            tried += 1
            b = inspect(n, mode, code)
            if b:
                fails.append((n, mode, b))
    return dict(pre=job['pre'], op=job['op'], calls=total, tried=tried, fails=fails)


if __name__ == '__main__':
    main(*sys.argv[1:])
