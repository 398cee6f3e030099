"""Shared machinery: running TLC, reading what it emits, reporting."""
import atexit, collections, contextlib, fnmatch, io, json, os, pathlib, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPECS = VERIF / 'specs'
REPO = pathlib.Path(os.environ.get('EPREMPY_REPO', '/repo'))
sys.dont_write_bytecode = True
if str(REPO / 'src') not in sys.path:
    sys.path.insert(0, str(REPO / 'src'))

KNOWN = VERIF / 'known_findings.json'


def canon(x):
    """A hashable, canonical form of a JSON value."""
    return json.dumps(x, sort_keys=True)


class SpecError(Exception):
    """TLC reported an error in the specification itself."""


Emitted = collections.namedtuple('Emitted', 'records states distinct depth wall')


def tlc(spec, cfg=None, *, consts=None, workers=1, extra=(), timeout=800, xmx='6g', cfgtext=None):
    """Run TLC on specs/<spec>.tla; return the JSON records it printed plus statistics.

    consts: textual constant overrides appended to the configuration.
    """
    scratch = pathlib.Path(tempfile.mkdtemp(prefix='verif_tlc_'))
    try:
        for f in SPECS.glob('*.tla'):
            shutil.copy(f, scratch / f.name)
        text = cfgtext if cfgtext is not None else (SPECS / f'{cfg or spec}.cfg').read_text()
        # constants are bound through a generated root module, so that they can be any TLA+ expression
        defs, binds = [], []
        for k, v in (consts or {}).items():
            text = re.sub(rf'(?m)^\s*{re.escape(k)}\s*(=|<-).*$', '', text)
            defs.append(f'c_{k} == {v}')
            binds.append(f'  {k} <- c_{k}')
        root = f'MC_{spec}'
        (scratch / f'{root}.tla').write_text(
            f'---- MODULE {root} ----\nEXTENDS {spec}\n' + '\n'.join(defs) + '\n====\n')
        if binds:
            text += '\nCONSTANTS\n' + '\n'.join(binds) + '\n'
        (scratch / 'run.cfg').write_text(text)
        cmd = ['tlc', '-config', 'run.cfg', '-workers', str(workers), '-noGenerateSpecTE',
               '-metadir', str(scratch / 'meta'), *extra, f'{root}.tla']
        env = dict(os.environ)
        env['JAVA_TOOL_OPTIONS'] = f'-Xmx{xmx} -Xss64m -XX:+UseParallelGC'
        t0 = time.time()
        p = subprocess.Popen(cmd, cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        records, other = [], []
        try:
            deadline = t0 + timeout
            for line in p.stdout:
                if line.startswith('"') and line.rstrip().endswith('"') and line[1:2] in '{[':
                    records.append(json.loads(json.loads(line)))
                else:
                    other.append(line)
                if time.time() > deadline:
                    p.kill()
                    raise SpecError(f'TLC timed out on {spec}')
            rc = p.wait()
        finally:
            if p.poll() is None:
                p.kill()
        text = ''.join(other)
        if rc != 0 or 'Error:' in text:
            raise SpecError(f'TLC failed on {spec} (rc={rc}):\n{text[-6000:]}')
        states = distinct = depth = 0
        if m := re.findall(r'(\d+) states generated, (\d+) distinct states found', text):
            states, distinct = int(m[-1][0]), int(m[-1][1])
        if m := re.findall(r'depth of the complete state graph search is (\d+)', text):
            depth = int(m[-1])
        return Emitted(records, states, distinct, depth, time.time() - t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


class Graph:
    """The transition graph emitted by TLC: records {pre, last, post}."""

    def __init__(self, records, init=None):
        self.state = {}
        self.out = collections.defaultdict(list)
        seen = set()
        for r in records:
            a, b = canon(r['pre']), canon(r['post'])
            self.state[a], self.state[b] = r['pre'], r['post']
            k = (a, canon(r['last']), b)
            if k in seen:
                continue
            seen.add(k)
            self.out[a].append((r['last'], b))
        self.n = len(seen)
        posts = {b for es in self.out.values() for _, b in es}
        if init is not None:
            self.init = canon(init)
        else:
            self.init = canon(records[0]['pre'])

    def paths(self):
        """BFS tree: shortest label path from the initial state to each state."""
        parent = {self.init: None}
        q = collections.deque([self.init])
        while q:
            s = q.popleft()
            for lab, t in self.out[s]:
                if t not in parent:
                    parent[t] = (s, lab)
                    q.append(t)
        return parent

    def cover(self, rng, maxlen=60, budget=None):
        """Walks from the initial state that together take every transition.

        Greedy: follow an untaken edge if there is one here, else go to the nearest state with one.
        """
        todo = {s: [i for i in range(len(es))] for s, es in self.out.items()}
        for l in todo.values():
            rng.shuffle(l)
        left = sum(len(v) for v in todo.values())
        # distance to any state with work is recomputed lazily by BFS
        walks = 0
        while left:
            walk, s = [], self.init
            while len(walk) < maxlen and left:
                if todo.get(s):
                    i = todo[s].pop()
                    left -= 1
                    lab, t = self.out[s][i]
                    walk.append((s, lab, t))
                    s = t
                    continue
                hop = self._nearest(s, todo)
                if hop is None:
                    break
                if len(walk) + len(hop) >= maxlen and walk:
                    # restart is cheaper, but only if this walk made progress
                    break
                walk.extend(hop)
                s = hop[-1][2]
            if not walk:
                break
            walks += 1
            yield walk
            if budget is not None and walks >= budget:
                return

    def _nearest(self, s, todo):
        parent = {s: None}
        q = collections.deque([s])
        while q:
            u = q.popleft()
            if todo.get(u) and u != s:
                path = []
                while parent[u] is not None:
                    v, lab = parent[u]
                    path.append((v, lab, u))
                    u = v
                return path[::-1]
            for lab, t in self.out[u]:
                if t not in parent:
                    parent[t] = (u, lab)
                    q.append(t)
        return None

    def random_walks(self, rng, n, length):
        for _ in range(n):
            s, walk = self.init, []
            for _ in range(length):
                if not self.out[s]:
                    break
                lab, t = rng.choice(self.out[s])
                walk.append((s, lab, t))
                s = t
            yield walk


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random(self.seed)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.bad = collections.OrderedDict()
        self.known_hit = collections.OrderedDict()
        self.known = []
        if KNOWN.exists():
            for e in json.loads(KNOWN.read_text())['findings']:
                if e.get('property') == pid and e.get('status') == 'known':
                    self.known.append(e)
        self.perlabel = collections.Counter()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def tlc(self, spec, cfg=None, **kw):
        r = tlc(spec, cfg, **kw)
        self.states += r.distinct
        self.transitions += max(r.states, len(r.records))
        self.extra.setdefault('tlc_runs', []).append(
            dict(spec=spec, cfg=cfg or spec, generated=r.states, distinct=r.distinct, depth=r.depth,
                 emitted=len(r.records), wall_s=round(r.wall, 1)))
        return r

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x if isinstance(x, (str, dict, list)) else str(x))

    def count(self, kind, n=1):
        self.perlabel[kind] += n

    def violation(self, key, detail):
        """Report that case `key` (a short stable string) fails."""
        for e in self.known:
            if any(fnmatch.fnmatchcase(key, pat) for pat in e['keys']):
                self.known_hit.setdefault(e['id'], (e, []))[1].append(key)
                return
        if key not in self.bad:
            self.bad[key] = detail

    @contextlib.contextmanager
    def guard(self, key, detail=''):
        """Report any exception from the code under test as a violation of case `key`."""
        try:
            yield
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as err:
            self.violation(key, f'{detail}\nunexpected {type(err).__name__}: {err}\n{traceback.format_exc()[-3000:]}')

    def expect(self, key, got, want, detail=''):
        if got != want:
            self.violation(key, f'{detail}\n  expected: {want!r}\n  observed: {got!r}')
            return False
        return True

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ['(none)'],
                   impl_steps=self.steps, per_label=dict(self.perlabel))
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.bad))
        (VERIF / 'evidence').mkdir(exist_ok=True)
        (VERIF / 'evidence' / f'{self.pid}.json').write_text(json.dumps(ev, indent=1, default=str))
        for e, keys in self.known_hit.values():
            print(f"KNOWN-FINDING: property={self.pid} {e['what']} [{len(keys)} case(s), e.g. {keys[0]}]")
        print(f"{self.pid} {self.tier}: states={self.states} transitions={self.transitions} "
              f"traces={self.traces} impl_steps={self.steps} violations={len(self.bad)} wall={wall:.1f}s")
        if self.bad:
            rdir = VERIF / 'evidence' / 'replay'
            rdir.mkdir(parents=True, exist_ok=True)
            path = rdir / f'{self.pid}.json'
            path.write_text(json.dumps([dict(case=k, detail=v) for k, v in self.bad.items()], indent=1, default=str))
            for k, v in list(self.bad.items())[:8]:
                print(f'--- {k}\n{str(v)[:1500]}')
            print(f'VIOLATION property={self.pid} replay={path}')
            return 1
        return 0


@contextlib.contextmanager
def scratchdir(prefix='verif_'):
    d = pathlib.Path(tempfile.mkdtemp(prefix=prefix)).resolve()
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        yield buf


def outcome(f, *a, **k):
    """('ok', value) or ('err', exception)."""
    try:
        return 'ok', f(*a, **k)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        return 'err', e


def pmap(fn, items, jobs=8, chunk=None):
    """Parallel map with forked workers (results in order)."""
    import multiprocessing as mp
    items = list(items)
    if len(items) < 2 or jobs == 1:
        return [fn(x) for x in items]
    with mp.get_context('fork').Pool(jobs) as pool:
        return pool.map(fn, items, chunksize=chunk or max(1, len(items) // (jobs * 4)))
