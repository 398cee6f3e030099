"""Replays behaviours of specs/Project.tla on real project directories."""
#: P01 P02 P03 P04
import contextlib, io, itertools, json, os, pathlib, random, runpy, shutil, subprocess, sys, tempfile
import core

ALLOPTS = {'config': 'my.cfg', 'inputs': 'setup', 'output': 'out.txt', 'rundir': 'sims', 'logname': 'history'}
DEFAULTS = {'config': 'eprem.cfg', 'inputs': 'inputs', 'output': 'eprem.log', 'rundir': 'runs', 'logname': 'runs'}
FLAG = {'branches': '-b', 'config': '-c', 'inputs': '-i', 'output': '-o', 'rundir': '-d', 'logname': '-l'}

STUB = '''#!/bin/sh
# stands in for mpirun: mpirun --mca btl_base_warn_component_unused 0 -n N EPREM CONFIG
n=""; eprem=""; cfg=""
while [ $# -gt 0 ]; do
  case "$1" in
    --mca) shift 3;;
    -n) n="$2"; shift 2;;
    *) if [ -z "$eprem" ]; then eprem="$1"; else cfg="$1"; fi; shift;;
  esac
done
[ -f "$cfg" ] || {{ echo "no config $cfg"; exit 9; }}
{{ cat "$cfg"; echo "n=$n"; echo "eprem=$(basename "$eprem")"; }} > data.out
echo "ran $n"
exit {rc}
'''


def settings(opt):
    s = {k: (ALLOPTS[k] if k in opt else v) for k, v in DEFAULTS.items()}
    s['logname'] += '.json'
    return s


class World:
    """A scratch directory with projects, stand-in binaries and live handles."""

    def __init__(self, root, rng, routes=True):
        from eprempy import project
        self.project = project
        self.rng = rng
        self.top = root
        self.work = root / 'work'
        self.work.mkdir()
        self.bin = root / 'bin'
        self.bin.mkdir()
        for name, rc in (('good', 0), ('bad', 3)):
            d = self.bin / name
            d.mkdir()
            f = d / 'mpirun'
            f.write_text(STUB.format(rc=rc))
            f.chmod(0o755)
        self.eprem = self.bin / 'eprem'
        self.eprem.write_text('#!/bin/sh\nexit 0\n')
        self.eprem.chmod(0o755)
        (root / 'ext').mkdir()
        self.ext = root / 'ext' / 'y.cfg'
        self.ext.write_text('kind=y\n')
        self.fext = root / 'ext' / 'f.cfg'
        self.fext.write_text('kind=f\n')
        self.handle = {}
        self.n = 0
        self.routes = routes
        self.route = None
        self.names = {}

    def path(self, name):
        return self.work / name

    # -- actions ---------------------------------------------------------
    def do(self, l, state):
        """Perform one action of the model; returns ('ok'|'err', info)."""
        op = l['op']
        choices = ['api']
        if self.routes:
            if op in ('create', 'rename', 'remove', 'reset', 'copy'):
                choices += ['cli']
            if op in ('run', 'mv', 'rm'):
                choices += ['script']
        self.route = self.rng.choices(choices, weights=[3, 1][:len(choices)])[0]
        with core.quiet() as out, self.argv():
            kind, value = core.outcome(getattr(self, f'do_{op}_{self.route}'), l, state)
        self.out = out.getvalue()
        return kind, value

    @contextlib.contextmanager
    def argv(self):
        old, cwd, sp = sys.argv, os.getcwd(), list(sys.path)
        os.chdir(self.work)
        try:
            yield
        finally:
            sys.argv = old
            os.chdir(cwd)
            sys.path[:] = sp

    def cli(self, *args):
        sys.argv = ['eprempy.project', *map(str, args)]
        try:
            self.project.cli.run()
        except SystemExit as e:
            if e.code:
                raise AssertionError(f'command line rejected: {args}')

    def script(self, h, *args):
        root = self.path(h)
        sys.argv = [str(root / '__main__.py'), *map(str, args)]
        try:
            runpy.run_path(str(root / '__main__.py'), run_name='__main__')
        except SystemExit as e:
            if e.code:
                raise AssertionError(f'project script rejected: {args}')

    def kwargs(self, l):
        kw = {k: ALLOPTS[k] for k in l['opt']}
        if l['br']:
            kw['branches'] = self.rng.choice([tuple, list])(l['br'])
        return kw

    def spelled(self, name):
        """The path of a project in one of its equivalent spellings."""
        p = self.path(name)
        return self.rng.choice([p, str(p), name, f'./{name}', str(self.work / 'nope' / '..' / name)])

    def seed_inputs(self, name, opt):
        d = self.path(name) / settings(opt)['inputs']
        (d / 'x.cfg').write_text('kind=x\n')

    def do_create_api(self, l, state):
        fresh = not self.path(l['n']).exists()
        self.handle[l['h']] = self.project.Interface(self.spelled(l['n']), **self.kwargs(l))
        if fresh:
            self.seed_inputs(l['n'], l['opt'])

    def do_create_cli(self, l, state):
        fresh = not self.path(l['n']).exists()
        args = ['create', self.spelled(l['n'])]
        for k in l['opt']:
            args += [FLAG[k], ALLOPTS[k]]
        if l['br']:
            args += ['-b', *l['br']]
        self.cli(*args)
        if fresh:
            self.seed_inputs(l['n'], l['opt'])
        self.handle[l['h']] = self.project.Interface(self.path(l['n']))

    def do_copy_api(self, l, state):
        self.handle[l['h']] = self.project.Interface(
            self.spelled(l['n']), copy=self.spelled(l['m']), **self.kwargs(l))

    def do_copy_cli(self, l, state):
        args = ['create', self.spelled(l['n']), '--copy', self.spelled(l['m'])]
        for k in l['opt']:
            args += [FLAG[k], ALLOPTS[k]]
        if l['br']:
            args += ['-b', *l['br']]
        self.cli(*args)
        self.handle[l['h']] = self.project.Interface(self.path(l['n']))

    def do_rename_api(self, l, state):
        self.handle[l['h']].rename(self.spelled(l['n']), force=l['force'], silent=self.rng.random() < .5)

    def do_rename_cli(self, l, state):
        self.cli('rename', self.spelled(state['hnd'][l['h'] - 1]), self.spelled(l['n']), *(['-f'] if l['force'] else []))
        self.handle[l['h']] = self.project.Interface(self.path(l['n']))

    def do_remove_api(self, l, state):
        h = self.handle[l['h']]
        h.remove(force=self.rng.random() < .5, silent=self.rng.random() < .5)
        assert not h, 'a removed project is still valid'

    def do_remove_cli(self, l, state):
        self.cli('remove', self.spelled(state['hnd'][l['h'] - 1]))

    def run_args(self, l):
        self.n += 1
        config = {'x': 'x.cfg', 'y': str(self.ext), 'f': str(self.fext), 'm': 'missing.cfg'}[l['k']]
        mpirun = self.bin / ('bad' if l['k'] == 'f' else 'good') / 'mpirun'
        return config, mpirun

    def do_run_api(self, l, state):
        config, mpirun = self.run_args(l)
        bs = self.selection(l['bs'])
        self.handle[l['h']].run(
            config, name=l['r'], branches=bs, nproc=self.n,
            environment={'mpirun': str(mpirun), 'eprem': str(self.eprem)},
            errors=l['strict'], silent=self.rng.random() < .5)

    def do_run_script(self, l, state):
        config, mpirun = self.run_args(l)
        args = ['run', config, '-t', l['r'], '-n', self.n, '-m', mpirun, '-e', self.eprem]
        if l['bs']:
            args += ['-b', *sorted(l['bs'])]
        if not l['strict']:
            args += ['-f']
        self.script(state['hnd'][l['h'] - 1], *args)

    def selection(self, bs):
        if not bs:
            return self.rng.choice([None, ()])
        if len(bs) == 1 and self.rng.random() < .5:
            return bs[0]
        return self.rng.choice([list, tuple, set])(bs)

    def do_mv_api(self, l, state):
        self.handle[l['h']].mv(l['r'], l['q'], branches=self.selection(l['bs']), errors=l['strict'],
                               silent=self.rng.random() < .5)

    def do_mv_script(self, l, state):
        args = ['mv', l['r'], l['q']]
        if l['bs']:
            args += ['-b', *sorted(l['bs'])]
        if not l['strict']:
            args += ['-f']
        self.script(state['hnd'][l['h'] - 1], *args)

    def do_rm_api(self, l, state):
        self.handle[l['h']].rm(l['pat'], branches=self.selection(l['bs']), errors=self.rng.random() < .5,
                               silent=self.rng.random() < .5)

    def do_rm_script(self, l, state):
        args = ['rm', l['pat']]
        if l['bs']:
            args += ['-b', *sorted(l['bs'])]
        self.script(state['hnd'][l['h'] - 1], *args)

    def do_reset_api(self, l, state):
        self.handle[l['h']].reset(silent=self.rng.random() < .5)

    def do_reset_cli(self, l, state):
        self.cli('reset', self.path(state['hnd'][l['h'] - 1]))

    # -- observation -----------------------------------------------------
    def project_state(self, name, spec):
        """The abstract state of one project directory, and complaints."""
        root = self.path(name)
        bad = []
        if not root.exists():
            return core.canon({'on': False}), bad
        conf = json.loads((root / '.eprem.conf').read_text())
        opt = [k for k in sorted(DEFAULTS) if pathlib.Path(str(conf[k])).with_suffix('').name ==
               pathlib.Path(ALLOPTS[k]).with_suffix('').name]
        cfg = settings(opt)
        br = list(conf['branches'])
        if conf['root'] != str(root):
            bad.append(f"settings of {name} give root {conf['root']}")
        dirs = []
        for b in (br or ['-']):
            d = root / cfg['rundir'] if b == '-' else root / b / cfg['rundir']
            if not d.is_dir():
                bad.append(f'no run directory {d}')
                continue
            for r in sorted(d.iterdir()):
                files = {f.name: f.read_text() for f in r.iterdir()} if r.is_dir() else {}
                want = {cfg['config'], cfg['output'], 'data.out'}
                if set(files) != want:
                    bad.append(f'{r} holds {sorted(files)}, not {sorted(want)}')
                text = files.get(cfg['config'], '')
                k = text.split('=')[-1].strip()
                n = files.get('data.out', '').split('n=')[-1].split('\n')[0]
                if files.get('data.out') != f'{text}n={n}\neprem=eprem\n':
                    bad.append(f"{r}/data.out is {files.get('data.out')!r}")
                if files.get(cfg['output']) != f'ran {n}\n':
                    bad.append(f"{r}/{cfg['output']} is {files.get(cfg['output'])!r}")
                dirs.append({'b': b, 'r': r.name, 'k': k, 'n': n})
        expected = {'.eprem.conf', '__main__.py', cfg['inputs'], cfg['logname'], *(br or [cfg['rundir']])}
        if {f.name for f in root.iterdir()} != expected:
            bad.append(f'{name} contains {sorted(f.name for f in root.iterdir())}, not {sorted(expected)}')
        inputs = {f.name: f.read_text() for f in (root / cfg['inputs']).iterdir()}
        if inputs != {'x.cfg': 'kind=x\n'}:
            bad.append(f'inputs of {name}: {inputs}')
        raw = json.loads((root / cfg['logname']).read_text())
        common = {k: raw.pop(k, None) for k in ('config', 'output')}
        if common != {k: cfg[k] for k in common}:
            bad.append(f'common log attributes of {name}: {common}')
        log = []
        slots = {}
        for d in dirs:
            b = root / cfg['rundir'] if d['b'] == '-' else root / d['b'] / cfg['rundir']
            slots[str(b / d['r'])] = d
        for key, entry in raw.items():
            d = slots.get(key)
            if d is None:
                bad.append(f'log entry for {key}, which is not a run directory')
                log.append({'b': '?', 'r': key, 'k': '?'})
                continue
            log.append({x: d[x] for x in 'brk'})
            if set(entry) != {'command', 'time'} or f" -n {d['n']} " not in entry['command'] \
                    or not entry['command'].endswith(cfg['config']):
                bad.append(f'log entry of {key} is {entry}, but the run is number {d["n"]}')
        state = {'on': True, 'br': br, 'opt': opt,
                 'dirs': [{x: d[x] for x in 'brk'} for d in dirs], 'log': log}
        return normal(state), bad

    def handle_state(self, h, name, sp, others):
        """Check what the live handle h says about the project."""
        i = self.handle[h]
        bad = []

        def eq(what, got, want):
            if got != want:
                bad.append(f'handle {h} on {name}: {what} is {got!r}, not {want!r}')
        root = self.path(name)
        cfg = settings(sp['opt'])
        eq('bool', bool(i), True)
        eq('root', i.root, root)
        eq('name', i.name, name)
        eq('str', str(i), name)
        runs, brs = {}, {b: set() for b in sp['br']}
        for d in sp['dirs']:
            runs.setdefault(d['r'], set())
            if d['b'] != '-':
                runs[d['r']].add(d['b'])
                brs[d['b']].add(d['r'])
        eq('runs', i.runs, runs)
        eq('branches', i.branches, brs)
        log = i.log
        eq('log path', log.path, root / cfg['logname'])
        base = {b: (root / cfg['rundir'] if b == '-' else root / b / cfg['rundir']) for b in (sp['br'] or ['-'])}
        keys = {str(base[d['b']] / d['r']) for d in sp['log']}
        eq('log keys', set(log) - {'config', 'output'}, keys)
        eq('len(log)', len(log), len(keys) + 2)
        for k in keys:
            if 'command' not in log[k]:
                bad.append(f'log[{k}] is {log[k]}')
        if core.outcome(lambda: log['no such run'])[0] != 'err':
            bad.append('log gives a value for an unknown run')
        eq('run directories', sorted(map(str, i.directories)), sorted(map(str, base.values())))
        with core.quiet() as out:
            i.show('*')
        text = out.getvalue()
        shown = {line for line in text.splitlines() if line.startswith('/')}
        eq('show(*)', shown, {str(base[d['b']] / d['r']) for d in sp['dirs']})
        with core.quiet() as out:
            i.show()
        text = out.getvalue().splitlines()
        for k, v in {'root': root, 'config': cfg['config'], 'inputs': root / cfg['inputs'], 'output': cfg['output'],
                     'rundir': cfg['rundir'], 'logname': cfg['logname']}.items():
            if f'{k}: {v}' not in text:
                bad.append(f'handle {h} on {name}: show() does not say {k}: {v}')
        for run in {d['r'] for d in sp['dirs']}:
            if run not in text:
                bad.append(f'handle {h} on {name}: show() does not list {run}')
        return bad


def normal(p):
    p = dict(p)
    for k in ('dirs', 'log'):
        if k in p:
            p[k] = sorted(p[k], key=core.canon)
    if 'opt' in p:
        p['opt'] = sorted(p['opt'])
    return core.canon(p)


def replay(job):
    """Replay one walk; returns (steps, failures)."""
    walk, seed, deep = job
    rng = random.Random(seed)
    fails, steps, trail, counts = [], 0, [], {}
    with core.scratchdir('verif_prj_') as d:
        w = World(d, rng)
        for pre, lab, post in walk:
            steps += 1
            counts[lab['op']] = counts.get(lab['op'], 0) + 1
            kind, value = w.do(lab, pre)
            trail.append(describe(lab, w.route))
            bad = []
            if (kind == 'ok') != lab['ok']:
                bad.append(f"outcome is {kind} ({value!r}), should be {'ok' if lab['ok'] else 'refused'}")
            if isinstance(value, AssertionError):
                bad.append(str(value))
            try:
                for name, sp in post['prj'].items():
                    got, b = w.project_state(name, sp)
                    bad += b
                    if got != normal(sp):
                        bad.append(f'project {name} is {got}, should be {normal(sp)}')
                extra = {f.name for f in w.work.iterdir()} - {n for n, sp in post['prj'].items() if sp['on']}
                if extra:
                    bad.append(f'unexpected paths {sorted(extra)}')
                if not bad:
                    live = [(h + 1, n) for h, n in enumerate(post['hnd']) if n != 'none']
                    for h, n in live:
                        bad += w.handle_state(h, n, post['prj'][n], live)
                    for h, n in live:
                        for g, m in live:
                            if (w.handle[h] == w.handle[g]) != (n == m):
                                bad.append(f'handles on {n} and {m}: == is {w.handle[h] == w.handle[g]}')
                    if deep or rng.random() < .2:
                        for n, sp in post['prj'].items():
                            if sp['on']:
                                fresh = w.project.Interface(w.path(n))
                                w.handle[99] = fresh
                                bad += [f'reopened: {x}' for x in w.handle_state(99, n, sp, [])]
                                for h, m in live:
                                    if (w.handle[h] == fresh) != (n == m):
                                        bad.append(f'reopened {n} == handle on {m}: {w.handle[h] == fresh}')
            except Exception as e:
                import traceback
                bad.append(f'observation failed: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}')
            if bad:
                fails.append((describe(lab, None), ' ; '.join(trail[-12:]) + '\n  ' + '\n  '.join(bad)
                              + f'\n  output: {w.out[-300:]!r}'))
                break
    return steps, fails, counts


def describe(l, route):
    args = ','.join(f'{k}={l[k]}' for k in sorted(l) if k not in ('op', 'ok', 'h'))
    return f"{l['op']}({args})" + (f'@{route}/h{l["h"]}' if route else '')


BASE = dict(Names='{"p"}', Handles='{1}', Runs='{"r1","r2","s1"}', BranchLists='{<<>>}', OptSets='{{}}',
            CopyOpts='{{}}', Kinds='{"x","y","f","m"}', Selections='{{}}', Patterns='{"r1","s1","*","r*","nope"}',
            Lifecycle='FALSE', MaxRuns='9')
ALL = '{"config","inputs","output","rundir","logname"}'

MODELS = {
    'plain': dict(Kinds='{"x","f","m"}'),
    'twohandles': dict(Handles='{1,2}', Runs='{"r1","s1"}', OptSets='{%s}' % ALL),
    'branches': dict(BranchLists='{<<"A","B">>}', Runs='{"r1","s1"}', Kinds='{"x","f","m"}',
                     Selections='{{},{"B"},{"A","Z"}}', Patterns='{"r1","*","?1","nope"}'),
    'branches3': dict(BranchLists='{<<"B","A","C">>}', Runs='{"r1","r2"}', Kinds='{"x","y","f","m"}',
                      Selections='{{},{"B"},{"A","C"},{"Z"}}', Patterns='{"r1","*"}', MaxRuns='4'),
    'life': dict(Names='{"p","q"}', BranchLists='{<<>>,<<"A","B">>}', Runs='{"r1"}', Kinds='{"x"}', Patterns='{"*"}',
                 OptSets='{{},{"rundir"},{"config","inputs"},%s}' % ALL, CopyOpts='{{},{"output"}}', Lifecycle='TRUE',
                 MaxRuns='1'),
    'life2': dict(Names='{"p","q"}', Handles='{1,2}', BranchLists='{<<>>,<<"A","B">>}', Runs='{"r1"}', Kinds='{"x"}',
                  Patterns='{"*"}', OptSets='{{},%s}' % ALL, CopyOpts='{{}}', Lifecycle='TRUE', MaxRuns='1'),
    'life3': dict(Names='{"p","pp","s"}', BranchLists='{<<>>,<<"A">>}', Runs='{"r1"}', Kinds='{"x"}',
                  Patterns='{"*"}', OptSets='{{},%s}' % ALL, CopyOpts='{{},{"output"}}', Lifecycle='TRUE', MaxRuns='1'),
}


# The names of the model stand for any distinct names: concrete ones include names that are parts of each other, that
# equal the name of another kind of thing, and that contain spaces and dots. Patterns keep what they match.
NAMES = [
    {},
    {'r1': 'r', 'r2': 'r.x', 's1': 'ar', 'r*': 'r*', '?1': '*r', 'A': 'a', 'B': 'ab', 'C': 'b', 'Z': 'z', 'p': 'ab',
     'q': 'a', 'pp': 'abab', 's': 'b'},
    {'r1': 'runs 2', 'r2': 'runs', 's1': 'a run 2', 'r*': 'run*', '?1': '*2', 'A': 'xy', 'B': 'x', 'C': 'y', 'Z': 'runs',
     'nope': 'ru', 'p': 'x', 'q': 'x.y', 'pp': 'x x', 's': 'y'},
    {'r1': 'éü', 'r2': 'é', 's1': 'xéü', 'r*': 'é*', '?1': '*éü', 'A': 'runs.', 'B': 'é', 'C': 'runs', 'Z': 'run',
     'p': 'runs', 'q': 'run', 'pp': 'runs.json', 's': 'eprem.log'},
]


def renamed(x, table):
    if isinstance(x, str):
        return table.get(x, x)
    if isinstance(x, dict):
        return {k: {table.get(n, n): renamed(w, table) for n, w in v.items()} if k == 'prj' else renamed(v, table)
                for k, v in x.items()}
    return [renamed(v, table) for v in x] if isinstance(x, list) else x


def campaign(check, plan):
    jobs, turn = [], itertools.count(check.rng.randrange(4))
    for name, walks, extra in plan:
        r = check.tlc('Project', consts={**BASE, **MODELS[name]})
        init = next(x['pre'] for x in r.records if not any(p['on'] for p in x['pre']['prj'].values()))
        g = core.Graph(r.records, init)
        ws = list(g.cover(check.rng, maxlen=50, budget=walks))
        ws += list(g.random_walks(check.rng, extra, 40))
        for w in ws:
            t = NAMES[next(turn) % len(NAMES)]
            jobs.append(([tuple(renamed(x, t) for x in (g.state[a], l, g.state[b])) for a, l, b in w],
                         check.rng.random(), check.thorough))
        check.extra.setdefault('models', {})[name] = dict(
            transitions=g.n, walks=len(ws), covered=len({(a, core.canon(l), b) for w in ws for a, l, b in w}))
    check.rng.shuffle(jobs)
    for (walk, *_), (steps, fails, counts) in zip(jobs, core.pmap(replay, jobs, chunk=1)):
        check.steps += steps
        check.traces += 1
        for k, v in counts.items():
            check.count(k, v)
        for key, detail in fails:
            check.violation(key, detail)
    if jobs:
        check.sample(' ; '.join(describe(l, None) for _, l, _ in jobs[0][0][:12]))


def check_P01(check):
    runlog_campaign(check)
    t = check.thorough
    campaign(check, [('plain', 400 if t else 40, 50 if t else 4), ('branches', None if t else 50, 60 if t else 6),
                     ('twohandles', None if t else 14, 60 if t else 6), ('branches3', 400 if t else 8, 60 if t else 4),
                     ('life', 100 if t else 4, 40 if t else 6)])


def check_P02(check):
    t = check.thorough
    campaign(check, [('branches', None if t else 40, 60 if t else 6), ('plain', None if t else 16, 50 if t else 4),
                     ('branches3', 500 if t else 12, 60 if t else 4), ('life', 300 if t else 24, 60 if t else 8),
                     ('life2', 200 if t else 8, 60 if t else 8)])


def check_P03(check):
    t = check.thorough
    campaign(check, [('life', None if t else 60, 100 if t else 20), ('life2', 800 if t else 16, 200 if t else 30),
                     ('life3', 600 if t else 8, 200 if t else 30), ('twohandles', 60 if t else 3, 10 if t else 2)])


def check_P04(check):
    """Every crash point and failing call of every operation, against specs/Crash.tla."""
    check.level = 'model_checking'
    # the specification itself must forbid truncate-and-write (otherwise NeverTorn is vacuous)
    try:
        core.tlc('Crash', consts={'Atomic': 'FALSE'})
        raise core.SpecError('Crash.tla accepts a non-atomic update')
    except core.SpecError as e:
        if 'NeverTorn is violated' not in str(e):
            raise
    r = check.tlc('Crash')
    allowed = {}
    for x in r.records:
        key = (core.canon(sorted(x['pre'], key=core.canon)), core.canon(x['op']))
        log = sorted([e['at'], e['b'], e['r']] for e in x['log']['e'])
        allowed.setdefault(key, {})[core.canon([log, x['conf']])] = [log, x['conf']]
    keys = sorted(allowed)
    pres = sorted({k[0] for k in keys})
    if not check.thorough:
        must = [p for p in pres if len(json.loads(p)) in (0, 4)]
        pres = must + check.rng.sample([p for p in pres if p not in must], 4)
    jobs = [dict(pre=json.loads(a), op=json.loads(b), allowed=list(allowed[a, b].values()))
            for a, b in keys if a in pres]
    with core.scratchdir('verif_crashctl_') as d:
        so = d / 'crash.so'
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', str(so),
                        str(core.VERIF / 'harness' / 'native' / 'crash.c'), '-ldl'], check=True)
        J = 8
        procs = []
        for j in range(J):
            part = jobs[j::J]
            part.sort(key=lambda x: core.canon(x['pre']))
            (d / f'in{j}').write_text(json.dumps(part))
            env = dict(os.environ, LD_PRELOAD=str(so), EPREMPY_REPO=str(core.REPO))
            procs.append(subprocess.Popen(
                [sys.executable, str(core.VERIF / 'harness' / 'crash_server.py'), str(d / f'in{j}'), str(d / f'out{j}')],
                env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for j, p in enumerate(procs):
            text, _ = p.communicate(timeout=800)
            if p.returncode:
                raise RuntimeError(f'crash server failed: {text[-2000:]}')
            for res in json.loads((d / f'out{j}').read_text()):
                check.traces += res['tried']
                check.steps += res['tried']
                check.count(res['op']['op'] + ' crash points', res['calls'])
                if len(check.samples) < 5 and res['calls']:
                    check.sample(f"{describe(res['op'], None)} on {len(res['pre'])} runs: {res['calls']} calls, "
                                 f"{res['tried']} crashes/faults")
                for n, mode, bad in res['fails']:
                    check.violation(f"{describe(res['op'], None)} with {len(res['pre'])} runs, "
                                    f"{['crash before', 'crash during', 'error in'][mode]} call {n}",
                                    f"runs before: {res['pre']}\n  " + '\n  '.join(bad))
    if not sum(v for v in check.perlabel.values()):
        raise RuntimeError('no file-system call was intercepted')


def replay_runlog(job):
    """Replay a walk of RunLog.tla on RunLog objects."""
    from eprempy import project
    walk, seed = job
    rng = random.Random(seed)
    fails, trail = [], []
    with core.scratchdir('verif_log_') as top:
        d = top / 'd1'
        d.mkdir()
        (top / 'afile').write_text('')
        # a key outside the log's directory must survive relocation unchanged
        logs = [project.RunLog(d / 'runs.json', config='c.cfg', where=top / 'elsewhere')]
        logs.append(project.RunLog(str(d / 'runs.json')))

        def key(k, dirname):
            # k2 lies outside of the directory, with a name that starts like it
            return str(top / dirname / 'runs' / k) if k == 'k1' else str(top / 'd10' / k)
        for pre, l, post in walk:
            op = l['op']
            log = rng.choice(logs)

            def act():
                K = key(l['k'], pre['dir']) if 'k' in l else None
                KP = rng.choice([K, pathlib.Path(K)]) if K else None
                m = dict(l['m']) if l.get('m') else {}
                if op == 'create':
                    if l['how'] == 'map':
                        log.create(KP, m)
                    elif l['how'] == 'items':
                        log.create(KP, **m)
                    else:
                        log.create(KP, m, f=1)
                elif op == 'load':
                    f = top / f"src.{l['type']}"
                    f.write_text(json.dumps(m))
                    if rng.random() < .5:
                        log.load(KP, f)
                    else:
                        g = top / 'src.dat'
                        g.write_text(json.dumps(m))
                        log.load(KP, g, filetype=l['type'])
                elif op == 'append':
                    log.append(KP, l['f'], l['v'])
                elif op == 'appendbad':
                    log.append(KP, l['f'], object())
                elif op == 'mv':
                    log.mv(KP, key(l['q'], pre['dir']))
                elif op == 'rm':
                    log.rm(KP)
                elif op == 'relocate':
                    if l['how'] == 'ok':
                        (top / pre['dir']).rename(top / l['d'])
                        try:
                            log.update_directory(top / l['d'])
                        finally:
                            logs[:] = [log, project.RunLog(top / l['d'] / 'runs.json')]
                    else:
                        log.update_directory(top / ('nothing' if l['how'] == 'missing' else 'afile'))
                elif op == 'reopen':
                    if l['common']:
                        project.RunLog(log.path, config='x')
                    else:
                        logs[1] = project.RunLog(log.path)
            kind, v = core.outcome(act)
            trail.append(describe(l, None))
            bad = []
            if (kind == 'ok') != l['ok']:
                bad.append(f'outcome {kind} ({v!r})')
            want = {key(k, post['dir']): dict(m) if m else {} for k, m in post['log'].items() if m != {'none': True}}
            common = {'config': 'c.cfg', 'where': str(top / 'elsewhere')}
            for i, log in enumerate(logs):
                kind, got = core.outcome(lambda: {k: log[k] for k in log})
                if kind == 'err' or got != {**want, **common}:
                    bad.append(f'log {i} holds {got!r}, should be {({**want, **common})!r}')
                elif len(log) != len(got) or log.path != top / post['dir'] / 'runs.json':
                    bad.append(f'log {i}: len {len(log)} at {log.path}')
                if core.outcome(lambda: log['nothing'])[0] != 'err':
                    bad.append('unknown key accepted')
            if bad:
                fails.append(('RunLog.' + describe(l, None), ' ; '.join(trail[-10:]) + '\n  ' + '\n  '.join(bad)))
                break
    return len(trail), fails, {}


def runlog_campaign(check):
    r = check.tlc('RunLog')
    init = dict(log={'k1': {'none': True}, 'k2': {'none': True}}, dir='d1')
    g = core.Graph(r.records, init)
    ws = list(g.cover(check.rng, maxlen=80, budget=None if check.thorough else 60))
    ws += list(g.random_walks(check.rng, 20, 60))
    jobs = [([(g.state[a], l, g.state[b]) for a, l, b in w], check.rng.random()) for w in ws]
    for steps, fails, _ in core.pmap(replay_runlog, jobs):
        check.steps += steps
        check.traces += 1
        check.count('RunLog steps', steps)
        for k, d in fails:
            check.violation(k, d)
