"""Containers and collection helpers (P23).

TLC enumerates calls of the pure helpers with what they must answer (specs/Collections.tla), small tables with every
request to them (specs/Tables.tla), histories of a registry (specs/Registry.tla) and of a graph (specs/Edges.tla).
"""
#: P23
import collections, itertools, types
import core
from core import outcome

POOLS = [['a', 'b', 'c', 'd'], [1, 2, 3, 4], ['a', 1, 'b', 2.5], [(1, 2), 'ab', None, 3], ['', 0, 'x', -1], [0.5, 'a', (), ('b',)]]


def pool(rng, hashable=True):
    p = rng.choice(POOLS if hashable else POOLS + [[[1], 'a', {'k': 1}, []], [[], [[]], {}, {1}]])
    p = list(p)
    rng.shuffle(p)
    return dict(zip('abcd', p))


def same(got, want):
    """Equality of collections element by element, minding types of elements."""
    return len(got) == len(want) and all(type(g) is type(w) and g == w for g, w in zip(got, want))


def error(got):
    return f'{type(got).__name__}: {got}'


def sequence(s, rng):
    return rng.choice([list, tuple, list, lambda x: iter(list(x))])(s)


# --- pure helpers ---------------------------------------------------------------------------------------------------

def do_unique(c, lab, rng, violation):
    p = pool(rng, hashable=False)
    s, want = [p[x] for x in lab['s']], [p[x] for x in lab['r']]
    form = rng.choice(['one', 'one', 'many', 'strict', 'strict one'])
    if form == 'strict one':
        args, kw, want = (s,), {'strict': True}, [s]
    elif form == 'strict':
        args, kw = tuple(s), {'strict': True}
    elif form == 'many' and len(s) > 1:
        args, kw = tuple(s), {}
    else:
        args, kw = (sequence(s, rng),), {}
    how, got = outcome(lambda: list(c.unique(*args, **kw)))
    if how == 'err' or not same(got, want):
        violation(f'unique of {s!r} ({form}): {error(got) if how == "err" else got!r}; expected {want!r}')


def do_merge(c, lab, rng, violation):
    p = pool(rng)
    x, y = [p[v] for v in lab['x']], [p[v] for v in lab['y']]
    how, got = outcome(lambda: list(c.merge(sequence(x, rng), sequence(y, rng))))
    text = f'merge({x!r}, {y!r})'
    if lab['refused']:
        if how == 'ok' or not isinstance(got, c.MergeError):
            violation(f'{text}: {error(got) if how == "err" else got!r}; expected a MergeError')
        return
    if how == 'err':
        return violation(f'{text}: {error(got)}')
    inv = {v: k for k, v in p.items()}
    names = [inv.get(v) for v in got] if all(isinstance(v, collections.abc.Hashable) for v in got) else None
    if not names or sorted(map(str, names)) != sorted(lab['elements']):
        if names or lab['elements']:
            return violation(f'{text} gave {got!r}; expected each element once')
    for a, b in lab['before']:
        if names.index(a) > names.index(b):
            return violation(f'{text} gave {got!r}, with {p[b]!r} before {p[a]!r}')


def do_nearest(c, lab, rng, violation):
    import numpy
    scale = rng.choice([1, .5, .25, 8, -1])
    v, t = [scale * x for x in lab['v']], scale * lab['t']
    bound = lab['b']
    if scale < 0:
        bound = {'lower': 'upper', 'upper': 'lower'}.get(bound, bound)
    form = rng.choice([list, tuple, numpy.array])(v)
    index = lambda n: n - 1
    if len(v) == 4 and rng.random() < .5:
        form = numpy.array(v).reshape(2, 2) if rng.random() < .5 else [v[:2], v[2:]]
        index = lambda n: ((n - 1) // 2, (n - 1) % 2)
    if rng.random() < .3:
        t = numpy.float64(t)
    args = () if bound == 'none' and rng.random() < .5 else (None if bound == 'none' else bound,)
    how, got = outcome(c.nearest, form, t, *args)
    text = f'nearest({form!r}, {t!r}, {", ".join(map(repr, args))})'
    want = [(index(n), v[n - 1]) for n in lab['r']]
    if how == 'err':
        return violation(f'{text}: {error(got)}')
    i = tuple(map(int, got.index)) if isinstance(got.index, tuple) else got.index
    if (i, got.value) not in want:
        violation(f'{text} gave {got!r}; expected one of {want}')


def do_slice2range(c, lab, rng, violation):
    none = lambda x: None if x == 99 else x
    s, w = slice(none(lab['a']), none(lab['b']), none(lab['s'])), none(lab['w'])
    how, got = outcome(lambda: c.slice2range(s, stop=w) if w is not None or rng.random() < .5 else c.slice2range(s))
    text = f'slice2range({s}, stop={w})'
    if lab['refused']:
        if how == 'ok' or not isinstance(got, TypeError):
            violation(f'{text}: {error(got) if how == "err" else got!r}; expected a TypeError')
    elif how == 'err':
        violation(f'{text}: {error(got)}')
    elif not isinstance(got, range) or list(got) != lab['r']:
        violation(f'{text} gave {got!r}; expected {lab["r"]}')


def build(t, rng):
    if t['k'] in ('list', 'tuple'):
        return (list if t['k'] == 'list' else tuple)(build(x, rng) for x in t['v'])
    return {'int': lambda: rng.choice([0, 1, 7, -2]), 'float': lambda: rng.choice([.5, 2.0, -1.5]), 'str': lambda: rng.choice(['ab', 'a', '', '1, 2'])}[t['k']]()


def do_tree(c, lab, rng, violation):
    import numpy
    t = lab['t']
    x = build(t, rng)
    def say(name, want, how, got):
        violation(f'{name} of {x!r}: {error(got) if how == "err" else repr(got)}; expected {want!r}', name)
    for name in ('isseparable', 'isshapelike'):
        want = lab['separable' if name == 'isseparable' else 'shapelike']
        how, got = outcome(getattr(c, name), x)
        if how == 'err' or bool(got) is not want:
            say(name, want, how, got)
    if lab['shapelike'] and rng.random() < .3:
        for y in (numpy.array(x), tuple(numpy.int64(i) for i in x)):
            how, got = outcome(c.isshapelike, y)
            if how == 'err' or not got:
                violation(f'isshapelike of {y!r}: {error(got) if how == "err" else got!r}; expected True', 'isshapelike')
    how, got = outcome(c.size, x)
    if lab['separable']:
        if (how, got) != ('ok', lab['size']):
            say('size', lab['size'], how, got)
    elif how == 'ok' or not isinstance(got, TypeError):
        say('size', TypeError, how, got)
    n = len(x) if lab['separable'] or t['k'] == 'str' else 0
    how, got = outcome(c.length, x)
    if (how, got) != ('ok', n):
        say('length', n, how, got)
    # unwrapping: the structure decides, so compare with the same elements
    def strip(t, x):
        return strip(t['v'][0], x[0]) if t['k'] in ('list', 'tuple') and len(t['v']) == 1 else x
    bare = strip(t, x)
    how, got = outcome(c.unwrap, x)
    if how == 'err' or type(got) is not type(bare) or got != bare:
        say('unwrap', bare, how, got)
    items = list(bare) if lab['bare']['k'] in ('list', 'tuple') else [bare]
    for new in (list, tuple):
        how, got = outcome(lambda: c.unwrap(x, newtype=new))
        if how == 'err' or type(got) is not new or list(got) != items:
            say('unwrap with newtype', new(items), how, got)
    want = list(x) if lab['separable'] else [x]
    how, got = outcome(c.wrap, x)
    if how == 'err' or type(got) is not list or got != want:
        say('wrap', want, how, got)
    how, got = outcome(c.Wrapper, x)
    if how == 'err':
        return say('Wrapper', want, how, got)
    for name, f, w in (('list', list, want), ('len', len, len(want)), ('in', lambda g: all(v in g for v in want), True),
                       ('not in', lambda g: 'none of these' in g, False), ('str', lambda g: isinstance(str(g), str), True)):
        how, res = outcome(f, got)
        if (how, res) != ('ok', w):
            say(f'Wrapper {name}', w, how, res)
    # wrapped collections are equal if they hold the same elements equally often, in any order
    try:
        sorted(want)
    except TypeError:
        return
    others = [list(want), list(want)[::-1], want + want[:1], want[1:], want[:-1] + want[:1], want[:1] + want, [v for v in want for _ in (0, 1)]]
    for other in others:
        equal = sorted(other) == sorted(want)
        how, res = outcome(lambda: (got == c.Wrapper(other), got != c.Wrapper(other)))
        if (how, res) != ('ok', (equal, not equal)):
            say(f'Wrapper =={other!r}', equal, how, res)


TYPES = dict(int=int, float=float, str=str, list=list, tuple=tuple)


def do_hastype(c, lab, rng, violation):
    x = build(lab['t'], rng)
    ts = [TYPES[k] for k in lab['types']]
    rng.shuffle(ts)
    ts = ts[0] if len(ts) == 1 and rng.random() < .7 else tuple(ts)
    ws = [TYPES[k] for k in lab['wrappers']]
    rng.shuffle(ws)
    how, got = outcome(lambda: c.hastype(x, ts, *ws, strict=lab['strict']) if lab['strict'] or rng.random() < .5 else c.hastype(x, ts, *ws))
    if how == 'err' or bool(got) is not lab['r']:
        violation(f'hastype({x!r}, {ts}, {ws}, strict={lab["strict"]}): {error(got) if how == "err" else got}; expected {lab["r"]}')


def do_first(c, lab, rng, violation):
    s = [build(t, rng) for t in lab['s']]
    how, got = outcome(c.find_first, TYPES[lab['k']], *s)
    want = s[lab['r'] - 1] if lab['r'] else None
    if how == 'err' or got is not want:
        violation(f'find_first({lab["k"]}, {s!r}): {error(got) if how == "err" else got!r}; expected {want!r}')


def do_distribute(c, lab, rng, violation):
    p = pool(rng)
    while any(isinstance(v, tuple) for v in p.values()):
        p = pool(rng)
    form = lambda k, s: p[s[0]] if k == 'one' else rng.choice([list, tuple])(p[v] for v in s)
    a, b = form(lab['ka'], lab['a']), form(lab['kb'], lab['b'])
    how, got = outcome(lambda: list(c.distribute(a, b)))
    text = f'distribute({a!r}, {b!r})'
    if lab['refused']:
        if how == 'ok' or not isinstance(got, TypeError):
            violation(f'{text}: {error(got) if how == "err" else got!r}; expected a TypeError')
        return
    want = [(p[x], p[y]) for x, y in lab['r']]
    if how == 'err' or got != want:
        violation(f'{text}: {error(got) if how == "err" else got!r}; expected {want!r}')


def do_bijection(c, lab, rng, violation):
    keys, values = pool(rng), pool(rng)
    k = lambda n: keys['abcd'[n - 1]]
    v = lambda n: values['abcd'[n - 1]]
    m = {k(n): v(x) for n, x in enumerate(lab['m'], start=1)}
    how, b = outcome(c.Bijection, m)
    if lab['refused']:
        if how == 'ok' or not isinstance(b, (c.InjectiveTypeError, c.NonInvertibleError)):
            violation(f'Bijection({m!r}) was not refused: {error(b) if how == "err" else dict(b)}')
        return
    if how == 'err':
        return violation(f'Bijection({m!r}): {error(b)}')
    inverse = {v(x): k(n) for x, n in lab['inverse']}
    given = dict(m)
    if rng.random() < .3:
        m.clear()   # the mapping it was made from does not matter any more
    missing = 'nowhere'
    checks = [('forward', lambda: dict(b.items()), given), ('len', lambda: len(b), len(given)), ('inverse', lambda: dict(b.invert()), inverse),
              ('inverse twice', lambda: dict(b.invert().invert()), given),
              ('find', lambda: {x: b.find(x) for x in inverse}, inverse), ('find with default', lambda: {x: b.find(x, missing) for x in inverse}, inverse),
              ('inverse find', lambda: {x: b.invert().find(x) for x in given}, given),
              ('default', lambda: b.find(missing, 5), 5), ('get', lambda: {x: b.get(x) for x in given}, given),
              ('forward', lambda: {x: b[x] for x in given}, given)]
    rng.shuffle(checks)
    for name, f, want in checks:
        how, got = outcome(f)
        if how == 'err' or got != want:
            violation(f'{name} of Bijection({given!r}): {error(got) if how == "err" else got!r}; expected {want!r}')
    for f in (lambda: b.find(missing), lambda: b[missing]):
        how, got = outcome(f)
        if how == 'ok' or not isinstance(got, KeyError):
            violation(f'missing value of Bijection({given!r}): {error(got) if how == "err" else got!r}; expected a KeyError')


def helpers(check, records):
    from eprempy import container
    for lab in records:
        f = lab['f']
        check.steps += 1
        check.count(f)
        def violation(detail, key=None):
            check.violation(key or f, detail)
        with check.guard(f, str(lab)[:200]):
            globals()[f'do_{f}'](container, lab, check.rng, violation)
        check.traces += 1
    check.sample(f'{len(records)} calls of pure helpers')


# --- tables ---------------------------------------------------------------------------------------------------------

class Record(collections.abc.Mapping):
    """A record which is not a dictionary."""
    def __init__(self, d): self._d = d
    def __getitem__(self, k): return self._d[k]
    def __iter__(self): return iter(self._d)
    def __len__(self): return len(self._d)


def tables(check, records):
    from eprempy import container
    rng = check.rng
    groups = {}
    for r in records:
        groups.setdefault(core.canon(r['table']), []).append(r)
    for group in groups.values():
        raw = group[0]['table']
        for _ in range(2 if check.thorough else 1):
            val = dict(zip((1, 2, 3), rng.choice([['p', 'q', 'r'], [1, 2, 3], ['', 'x', 'y'], [0, 1, 'one'], [(1,), 'b', 2.5]])))
            kind = rng.choice([dict, dict, Record])
            entries = [kind({k: val[e[k]] for k in rng.sample('abc', 3) if e[k]}) for e in raw]
            order = list(range(len(entries)))
            rng.shuffle(order)
            rows = [entries[i] for i in order]
            how, table = outcome(container.Table, rng.choice([list, tuple])(rows))
            if how == 'err':
                check.violation('table', f'{raw}: {error(table)}')
                continue
            if outcome(lambda: [len(table), list(table)]) != ('ok', [len(rows), rows]):
                check.violation('table', f'{raw}: has {outcome(lambda: list(table))}')
            for rec in group:
                lab = rec['last']
                check.steps += 1
                check.count(lab['op'])
                requests(check, container, table, entries, order, lab, val, raw)
        check.traces += 1
    how, got = outcome(lambda: [len(container.Table([])), list(container.Table([])), set(container.Table([]).keys), container.Table([]).get('a')])
    if (how, got) != ('ok', [0, [], set(), ()]):
        check.violation('empty', f'the empty table: {error(got) if how == "err" else got}')
    for f, e in ((lambda: container.Table([])['a'], container.TableKeyError), (lambda: container.Table([])(a=1), container.TableKeyError),
                 (lambda: container.Table([]).find(1), container.MissingValueError)):
        how, got = outcome(f)
        if how == 'ok' or not isinstance(got, e):
            check.violation('empty', f'the empty table: {error(got) if how == "err" else got}; expected {e.__name__}')


def requests(check, container, table, entries, order, lab, val, raw):
    rng = check.rng
    errors = dict(key=container.TableKeyError, lookup=container.TableLookupError, ambiguous=container.AmbiguousRequestError)
    shown = [dict(e) for e in entries]
    if lab['op'] == 'request':
        pairs = {k: val[v] for k, v in lab['req']}
        for mode in ('strict', 'iterative'):
            want = lab[mode]
            kw = {'strict': True} if mode == 'strict' else rng.choice([{}, {'strict': False}])
            how, got = outcome(lambda: table(**pairs, **kw) if rng.random() < .5 else table(**{**kw, **pairs}))
            text = f'{mode} request {pairs!r} to {shown!r}: {error(got) if how == "err" else got!r}; expected {want["out"]}'
            allowed = want['out'].split(' or ')
            if how == 'ok':
                if 'ok' not in allowed:
                    check.violation(f'{mode}:refuse', text)
                elif got != entries[want['row'] - 1]:
                    check.violation(mode, f'{text} {shown[want["row"] - 1]!r}')
            elif not any(a in errors and isinstance(got, errors[a]) for a in allowed):
                check.violation(f'{mode}:{allowed[0]}', text)
            elif how == 'err' and not isinstance(outcome(str, got)[1], str):
                check.violation('message', text)
    elif lab['op'] == 'find':
        want = [entries[i] for i in order if i + 1 in lab['rows']]
        v = val[lab['v']]
        for unique in (False, True):
            how, got = outcome(lambda: table.find(v, unique=True) if unique else table.find(v))
            text = f'find({v!r}, unique={unique}) in {shown!r}: {error(got) if how == "err" else got!r}'
            if not want:
                if how == 'ok' or not isinstance(got, container.MissingValueError):
                    check.violation('find:missing', text)
            elif unique and len(want) > 1:
                if how == 'ok' or not isinstance(got, container.AmbiguousValueError):
                    check.violation('find:ambiguous', text)
            elif how == 'err' or got != (want[0] if unique else want):
                check.violation('find', f'{text}; expected {want!r}')
    elif lab['op'] == 'column':
        k = lab['k']
        vals = [lab['values'][i] for i in order]
        default = rng.choice([None, -1, 'none'])
        checks = [('get', lambda: table.get(k) if default is None else table.get(k, default), tuple(val.get(v, default) for v in vals)),
                  ('keys', lambda: k in table.keys, lab['common'])]
        if lab['common']:
            checks.append(('[]', lambda: table[k], tuple(val[v] for v in vals)))
        else:
            how, got = outcome(lambda: table[k])
            if how == 'ok' or not isinstance(got, container.TableKeyError):
                check.violation('[]:key', f'{k} in {shown!r}: {got!r}')
        rng.shuffle(checks)
        for name, f, want in checks:
            how, got = outcome(f)
            if how == 'err' or got != want or type(got) is not type(want):
                check.violation(name, f'{name} {k!r} of {shown!r}: {error(got) if how == "err" else got!r}; expected {want!r}')


# --- registries -----------------------------------------------------------------------------------------------------

class Named:
    """An object with a name but without a qualified one."""
    def __init__(self, name): self.__name__ = name


def thing(name, n, rng):
    how = rng.choice(['function', 'class', 'named', 'value'])
    if how == 'class':
        return type(name, (), {'n': n})
    if how == 'named':
        return Named(name)
    def f(): return n
    f.__name__ = f.__qualname__ = name
    return f


class Registries:
    """A registry under test, with what was put into it."""

    def __init__(self, init, rng):
        from eprempy import container
        self.rng, self.ok = rng, rng.choice(['object', 'object', 'func', 'o'])
        self.known, mapping = {}, {}
        for key, n in init:
            obj, meta = rng.choice([[2, 3], 'value', len, 5.0]), self.meta(n)
            self.known[n] = (obj, meta)
            mapping[key] = {self.ok: obj, **meta} if meta or rng.random() < .5 else obj
        self.mapping, self.before = mapping, {k: dict(v) if isinstance(v, dict) else v for k, v in mapping.items()}
        args = () if not mapping and rng.random() < .5 else (mapping,)
        self.items = container.ObjectRegistry(*args, **({} if self.ok == 'object' and rng.random() < .5 else {'object_key': self.ok}))
        self.other = None

    def meta(self, n):
        return self.rng.choice([{}, {'color': f'c{n}'}, {'unit': 'cm/s', 'n': n}])

    def step(self, op, count):
        """Perform an operation; return what is wrong with its result."""
        rng = self.rng
        if op['op'] == 'register':
            obj, meta = thing(op['nm'], count, rng), self.meta(count)
            kw = dict(meta)
            if op['ask'] or rng.random() < .2:
                kw['name'] = op['ask'] or None
            if op['over'] or (op['ask'] and rng.random() < .3):
                kw['overwrite'] = op['over']
            form = rng.choice(['decorate', 'direct'])
            result = self.items.register(obj, **kw) if form == 'direct' else self.items.register(**kw)(obj)
            self.known[count] = (obj, meta)
            if result is not obj:
                return f'register returned {result!r}'
        elif op['op'] == 'reset':
            self.items.reset()
        elif op['op'] == 'copy':
            self.other = self.items.copy()
        elif op['op'] == 'swap':
            self.items, self.other = self.other, self.items

    def project(self, reg):
        """The content of a registry as the model sees it, or what is wrong with it."""
        if reg is None:
            return []
        out = []
        keys = list(reg)
        if len(keys) != len(reg) or len(set(keys)) != len(keys):
            return f'has {len(reg)} entries and keys {keys}'
        for key in keys:
            entry = reg[key]
            found = [n for n, (obj, meta) in self.known.items() if entry.get(self.ok) is obj and {k: v for k, v in entry.items() if k != self.ok} == meta]
            if len(found) < 1 or key not in reg:
                return f'{key!r} has {entry!r}'
            out.append((key, found))
        return out


def matches(out, want):
    """Whether what was observed may be the content the model expects."""
    return isinstance(out, list) and sorted(k for k, _ in out) == sorted(k for k, _ in want) and all(dict(map(tuple, want))[k] in n for k, n in out)


def registries(check, records, walks):
    rng = check.rng
    by = collections.defaultdict(lambda: collections.defaultdict(list))
    todo = set()
    for r in records:
        by[core.canon(r['pre'])][core.canon(r['last'])].append(r)
        todo.add((core.canon(r['pre']), core.canon(r['last'])))
    total = len(todo)
    starts = sorted(s for s in by if all(r['pre']['count'] == 10 and r['pre']['home'] and not r['pre']['other'] for rs in by[s].values() for r in rs))
    for _ in range(walks):
        s = rng.choice(starts)
        pre = next(iter(by[s].values()))[0]['pre']
        reg = Registries(pre['items'], rng)
        trail = [f'base {pre["items"]}']
        while s in by:
            fresh = [o for o in by[s] if (s, o) in todo]
            o = rng.choice(sorted(fresh) if fresh and rng.random() < .8 else sorted(by[s]))
            todo.discard((s, o))
            options = by[s][o]
            op, count = options[0]['last'], options[0]['post']['count']
            trail.append(' '.join(str(v) for v in op.values()))
            check.steps += 1
            check.count(op['op'])
            how, bad = outcome(reg.step, op, count)
            text = '; '.join(trail)
            if how == 'err' or bad:
                check.violation(op['op'], f'{text}: {error(bad) if how == "err" else bad}')
                break
            if reg.mapping != reg.before:
                check.violation('mapping', f'{text}: the mapping given became {reg.mapping}')
                break
            got, other = outcome(reg.project, reg.items)[1], outcome(reg.project, reg.other)[1]
            good = [r for r in options if matches(got, r['post']['items']) and matches(other, r['post']['other'])]
            if not good:
                check.violation(op['op'], f'{text}: holds {got}, the copy {other}; expected one of {[r["post"]["items"] for r in options][:3]}')
                break
            s = core.canon(good[0]['post'])
        check.traces += 1
    check.extra['registry_operations_covered'] = f'{total - len(todo)} of {total}'


# --- graphs ---------------------------------------------------------------------------------------------------------

def edges(check, records):
    from eprempy import container
    rng = check.rng
    g = core.Graph(records, init=[])
    w = lambda x: None if x == 99 else 2.0 ** x if x < 0 else rng.choice([2 ** x, 2.0 ** x])
    wanted = lambda E: {(s, e): None if x == 99 else 2.0 ** x for s, e, x in E}
    for walk in g.cover(rng, maxlen=3):
        path = [{'last': lab, 'post': g.state[t]} for _, lab, t in walk]
        graph = container.Graph() if rng.random() < .5 else container.Graph({})
        trail = []
        if rng.random() < .3:
            distinct = {}
            for r in path:
                distinct.setdefault((r['last']['s'], r['last']['e']), w(r['last']['w']))
            # an initial mapping keeps only one weight per edge, as adding does
            graph = container.Graph(distinct)
            trail, path_ = [f'Graph({distinct})'], path[-1:]
        else:
            path_ = path
        for r in path_:
            lab = r['last']
            if path_ is path:
                weight = w(lab['w'])
                args = (lab['s'], lab['e']) + (() if weight is None and rng.random() < .5 else (weight,))
                trail.append(f'add{args}')
                how, got = outcome(graph.add_connection, *args)
                if how == 'err':
                    check.violation('graph', f'{trail}: {error(got)}')
                    break
            check.steps += 1
            check.count('graph')
            want = wanted(r['post'])
            nodes = {n for k in want for n in k}
            checks = [('edges', lambda: dict(graph.connections), want), ('iter', lambda: sorted(graph), sorted(want)), ('len', lambda: len(graph), len(want)),
                      ('nodes', lambda: set(graph.nodes), nodes), ('in', lambda: {(a, b) for a in 'xyz' for b in 'xyz' if (a, b) in graph}, set(want)),
                      ('weight', lambda: {k: graph.get_weight(*k) for k in want}, want),
                      ('adjacencies', lambda: {n: dict(graph.get_adjacencies(n)) for n in 'xyz'}, {n: {b: v for (a, b), v in want.items() if a == n} for n in 'xyz'})]
            rng.shuffle(checks)
            for name, f, x in checks:
                how, got = outcome(f)
                if how == 'err' or got != x:
                    check.violation(f'graph:{name}', f'{trail}: {error(got) if how == "err" else got}; expected {x}')
            for a, b in itertools.product('xyz', 'xyz'):
                if (a, b) not in want and not isinstance(outcome(graph.get_weight, a, b)[1], KeyError):
                    check.violation('graph:missing', f'{trail}: weight of {a} to {b}')
        check.traces += 1


def check_P23(check):
    t = check.thorough
    c = check.tlc('Collections', consts={'NearMax': '5'} if t else None)
    for _ in range(2 if not t else 4):
        helpers(check, c.records)
    tables(check, check.tlc('Tables', consts={'MaxRows': '5'} if t else None).records)
    bases = '{{}, {<<"f", 1>>}, {<<"f_1", 1>>, <<"g", 2>>}, {<<"f", 1>>, <<"f_2", 2>>, <<"g_1", 3>>}}'
    r = check.tlc('Registry', consts={'Bases': bases, 'Depth': '4' if t else '3', 'MaxNum': '6'})
    registries(check, r.records, 20000 if t else 4000)
    edges(check, check.tlc('Edges', consts={'Depth': '3'}).records)
    check.assumptions += ['merge of collections which repeat elements, empty collections given to a strict hastype, and nearest values where none is on the required side are unspecified']
