"""Numpy functions on arrays (P28).

TLC enumerates functions, axes, spacings and histories (specs/ArrayFuncs.tla) with the exact outcome each must
have.  The driver builds real arrays, physical arrays, tensors, vectors and scalars, calls numpy, and compares
values, units, dimensions and the labels of every axis that remains.
"""
#: P28
import fractions, math, random
import core
from core import outcome
from d_physops import sameunit

F = fractions.Fraction
GENS = [('m', 's', 'cm', 'rad'), ('hJ', 'day', 'J', 'rad'), ('hPa', 's', 'Pa', 'rad')]
FUNCS = dict(sqrt=math.sqrt, sin=math.sin, cos=math.cos, tan=math.tan, log=math.log, log10=math.log10, log2=math.log2,
             log1p=math.log1p)
LABELS = dict(points=lambda d, p: 7 + 3 * p, range=lambda d, p: p, symbols=lambda d, p: f'{d}{p}',
              coords=lambda d, p: 0.5 + 1.25 * p + p * p)


def num(q):
    return F(q[0], q[1])


def unit(u, gens):
    terms = []
    for g, n in zip(gens, u):
        if n:
            e = F(n, 2)
            terms.append(g if e == 1 else f'{g}^{e}' if e.denominator == 1 else f'{g}^{e.numerator}/{e.denominator}')
    return ' '.join(terms) or '1'


def near(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-30) or abs(a - b) < 1e-13


class World:
    def __init__(self, rng, kind):
        self.rng, self.kind = rng, kind
        self.gens = rng.choice(GENS)
        self.name = dict(zip('abc', rng.choice([('time', 'shell', 'species'), ('x', 'xy', 'y'), ('c', 'b', 'a')])))
        self.kinds = {d: rng.choice(list(LABELS)) for d in 'abc'}
        if kind != 'real' and rng.random() < .3:
            self.gens = self.gens[:3] + ('deg',)

    def build(self, a):
        import numpy
        from eprempy import physical, real, measured
        v = [num(q) for q in a['v']]
        shape = [len(a['pos'][d]) for d in a['dims']]
        ints = all(q.denominator == 1 for q in v) and self.rng.random() < .3
        data = numpy.array([int(q) if ints else float(q) for q in v]).reshape(shape)
        if self.kind == 'real':
            return real.array(data, dimensions=[self.name[d] for d in a['dims']])
        u = unit(a['u'], self.gens)
        if self.kind == 'tensor':
            if not shape:
                return physical.scalar(v[0] if False else (int if ints else float)(v[0]), unit=u)
            if len(shape) == 1 and self.rng.random() < .7:
                return physical.vector(data, unit=u)
            return physical.tensor(data, unit=u)
        axes = {}
        for d in a['dims']:
            labels = [LABELS[self.kinds[d]](d, p) for p in a['pos'][d]]
            axes[self.name[d]] = measured.sequence(labels, unit='au') if self.kinds[d] == 'coords' else labels
        return physical.array(data, unit=u, axes=physical.axes(**axes))

    def wrong(self, obj, a, values=None):
        """What is wrong with `obj`, which should be the array `a`."""
        import numpy
        from eprempy import physical, real
        dims = tuple(self.name[d] for d in a['dims'])
        shape = tuple(len(a['pos'][d]) for d in a['dims'])
        types = dict(real=(real.Array,), physical=(physical.Array,),
                     tensor=(physical.Vector, physical.Tensor) if shape else (physical.Scalar,))[self.kind]
        if type(obj) not in types:
            return f'a {type(obj).__name__} instead of {types[0].__name__}: {obj!r}'
        got = numpy.array(obj.data if self.kind == 'tensor' else obj)
        if got.shape != shape:
            return f'shape {got.shape}; expected {shape}'
        want = values if values is not None else [float(num(q)) for q in a['v']]
        flat = got.ravel().tolist()
        if not all(near(x, y) for x, y in zip(flat, want)):
            return f'values {flat}; expected {want}'
        if self.kind != 'tensor' and tuple(obj.dimensions) != dims:
            return f'dimensions {tuple(obj.dimensions)}; expected {dims}'
        if self.kind != 'real':
            bad = self.wrongunit(obj, a['u'])
            if bad:
                return bad
        if self.kind == 'physical':
            if tuple(obj.axes) != dims:
                return f'axes {tuple(obj.axes)}; expected {dims}'
            if tuple(obj.data.dimensions) != dims or numpy.array(obj.data).shape != shape:
                return f'data with dimensions {obj.data.dimensions} and shape {numpy.array(obj.data).shape}; expected {dims}, {shape}'
            for d in a['dims']:
                ax, k = obj.axes[self.name[d]], self.kinds[d]
                labels = [LABELS[k](d, p) for p in a['pos'][d]]
                held = list(ax.data) if k == 'symbols' else numpy.array(ax.data).tolist()
                if held != labels:
                    return f'axis {self.name[d]} holds {held}; expected {labels}'
                if k == 'coords' and not sameunit(ax.unit, 'au'):
                    return f'axis {self.name[d]} has unit {ax.unit}'

    def wrongunit(self, obj, u):
        want = unit(u, self.gens)
        if not hasattr(obj, 'unit'):
            return f'no unit: {obj!r}; expected {want}'
        if not sameunit(obj.unit, want):
            return f'unit {obj.unit}; expected {want}'
        for i in range(4):
            other = unit([n + 2 * (k == i) for k, n in enumerate(u)], self.gens)
            if obj.unit == other:
                return f'unit {obj.unit} is equal to {other}'

    def one(self, obj, u, q):
        """What is wrong with `obj`, which should be one value."""
        import numpy
        if self.kind != 'real':
            bad = self.wrongunit(obj, u)
            if bad:
                return bad
        got = numpy.array(getattr(obj, 'data', obj) if self.kind != 'real' else obj)
        if got.ndim != 0:
            return f'shape {got.shape}; expected one value'
        if not near(float(got), float(num(q))):
            return f'value {float(got)}; expected {float(num(q))}'

    def flat(self, obj, u, v):
        import numpy
        from eprempy import physical
        if self.kind != 'real':
            if type(obj) not in (physical.Vector, physical.Tensor):
                return f'a {type(obj).__name__} instead of a Vector'
            bad = self.wrongunit(obj, u)
            if bad:
                return bad
        got = numpy.array(obj.data if self.kind != 'real' else obj)
        want = [float(num(q)) for q in v]
        if got.ndim != 1 or len(got) != len(want) or not all(near(x, y) for x, y in zip(got.tolist(), want)):
            return f'values {got.tolist()}; expected {want}'


def spacing(s, n, w, method):
    """The argument which stands for spacing `s` along an axis of length `n`."""
    import numpy
    from eprempy import physical, real, quantity, measured
    rng, sec = w.rng, w.gens[1]
    full = [0.0, 1.0, 3.0, 7.0][:n]
    if s == 'one':
        return rng.choice([1, 1.0])
    if s == 'half':
        return rng.choice([0.5, numpy.float64(0.5)])
    if s == 'half s':
        return physical.scalar(0.5, unit=sec)
    if s == 'coords':
        forms = [list, tuple, numpy.array, real.array]
        if n == 1:
            forms = [numpy.array]
        return rng.choice(forms)(full)
    forms = [lambda: physical.vector(full, unit=sec), lambda: physical.array(full, unit=sec),
             lambda: physical.array(full, unit=sec, axes=physical.axes(**{'zz': range(n)}))]
    return rng.choice(forms)()


#: which units of the model the spacings along the first axis and along the others have
MIXTURES = {'s and none': (1, None), 'first and third': (0, 2), 'third and first': (2, 0)}


def call(w, obj, a, op, alt):
    """Apply `op` to `obj`; a pair of the outcome and how it was spelled."""
    import numpy
    from eprempy import physical
    rng, rank = w.rng, len(a['dims'])
    lens = [len(a['pos'][d]) for d in a['dims']]
    neg = lambda k: rng.choice([k - 1, k - 1 - rank])
    name = op[0]
    args, kwargs = [obj], {}
    if name in ('reduce', 'squeeze', 'cumsum'):
        f = getattr(numpy, op[1] if name == 'reduce' else name)
        A = sorted(op[2]) if name == 'reduce' else sorted(op[1]) if name == 'squeeze' else [op[1]] if op[1] else []
        if name == 'reduce' and len(A) == rank and rng.random() < .6:
            if rng.random() < .3:
                kwargs['axis'] = None
        elif not A:
            if name == 'cumsum' and rng.random() < .3:
                kwargs['axis'] = None
        else:
            ax = [neg(k) for k in A]
            rng.shuffle(ax)
            ax = ax[0] if len(ax) == 1 and (name == 'cumsum' or rng.random() < .7) else tuple(ax)
            if rng.random() < .3:
                args.append(ax)
            else:
                kwargs['axis'] = ax
        if name == 'reduce' and rng.random() < .15:
            kwargs['keepdims'] = False
        if alt:
            kwargs['keepdims'] = True
    elif name == 'transpose':
        f = numpy.transpose
        q = op[1] if isinstance(op[1], list) else []
        if q == list(range(rank, 0, -1)) and rng.random() < .5:
            if rng.random() < .3:
                kwargs['axes'] = None
        else:
            ax = rng.choice([list, tuple])(neg(k) for k in q)
            if rng.random() < .3:
                args.append(ax)
            else:
                kwargs['axes'] = ax
    elif name == 'trapz':
        f, k, s = numpy.trapz, op[1], op[2]
        if not (k == rank and rng.random() < .4):
            kwargs['axis'] = neg(k)
        if not (s == 'one' and rng.random() < .5):
            x = spacing(s, lens[k - 1], w, 'trapz')
            if s in ('coords', 'coords s'):
                if rng.random() < .5:
                    args.append(x)
                else:
                    kwargs['x'] = x
            else:
                kwargs['dx'] = x
    elif name == 'gradient':
        f, k, s = numpy.gradient, op[1], op[2]
        if k:
            kwargs['axis'] = neg(k)
        if s in MIXTURES:
            one, rest = (w.gens[i] for i in MIXTURES[s]) if s != 's and none' else (w.gens[1], '1')
            alike = rng.random() < .5

            def step(u, n):
                if alike or n < 2:
                    return physical.scalar(0.5, unit=u)
                return physical.vector([0.5 * i for i in range(n)], unit=u)
            args += [step(one if i == 0 else rest, n) for i, n in enumerate(lens)]
        elif not (s == 'one' and rng.random() < .5):
            if s in ('coords', 'coords s') and not k:
                args += [spacing(s, n, w, 'gradient') for n in lens]
            else:
                args.append(spacing(s, lens[k - 1] if k else 0, w, 'gradient'))
    elif name == 'take':
        idx = [p - 1 for p in op[2]]
        n = lens[op[1] - 1]
        subs = [slice(None)] * rank
        subs[op[1] - 1] = (slice(None, None, -1) if len(idx) > 1 and idx == list(range(n))[::-1] and w.rng.random() < .5 else
                           slice(idx[0], idx[0] + 1) if len(idx) == 1 and w.rng.random() < .5 else list(idx))
        return outcome(lambda: obj[tuple(subs)]), f'[{", ".join(map(repr, subs))}]'
    elif name == 'convert':
        u = unit([0 if i in (0, 2) else n for i, n in enumerate(a['u'])], w.gens)
        other = [a['u'][2], a['u'][1], a['u'][0], a['u'][3]]
        return outcome(lambda: obj.withunit(unit(other, w.gens))), f'.withunit({unit(other, w.gens)!r})'
    else:
        f = getattr(numpy, name)
    spelled = f'numpy.{f.__name__}({", ".join(["a"] + [repr(x) for x in args[1:]] + [f"{k}={v!r}" for k, v in kwargs.items()])})'
    return outcome(lambda: f(*args, **kwargs)), spelled


def judge(w, got, rec, alt):
    """What is wrong with the outcome `got` of the step `rec`; None if nothing."""
    r, a = rec['last']['r'], rec['pre']
    if r['out'] == 'refused':
        return f'gave {got[1]!r}; expected a refusal' if got[0] == 'ok' else None
    if got[0] == 'err':
        if r['out'] == 'maybe':
            return None
        return f'raised {type(got[1]).__name__}: {str(got[1])[:150]}'
    obj = got[1]
    if alt:
        # the axes which were collapsed remain, with one position each
        A = rec['last']['op'][2]
        v = r['a']['v'] if r['out'] == 'array' else [r['v']]
        return w.wrong(obj, dict(dims=a['dims'], u=a['u'], v=v,
                                 pos={d: [0] if m + 1 in A else a['pos'][d] for m, d in enumerate(a['dims'])}))
    if r['out'] == 'array':
        return w.wrong(obj, r['a'])
    if r['out'] == 'scalar':
        return w.one(obj, r['u'], r['v'])
    if r['out'] == 'flat':
        return w.flat(obj, r['u'], r['v'])
    if r['out'] in ('list', 'maybe'):
        if not isinstance(obj, (list, tuple)) or len(obj) != len(r['as']):
            return f'{obj!r}; expected {len(r["as"])} arrays'
        for i, (x, y) in enumerate(zip(obj, r['as'])):
            bad = w.wrong(x, y)
            if bad:
                return f'at {i}: {bad}'
        return None
    turn = math.pi / 180 if w.gens[3] == 'deg' and r['f'] in ('sin', 'cos', 'tan') else 1
    values = [FUNCS[r['f']](float(num(q)) * turn) for q in r['a']['v']]
    return w.wrong(obj, dict(r['a'], u=r['u']), values)


def applies(w, rec):
    """Is the step specified for objects of this kind?"""
    op, r = rec['last']['op'], rec['last']['r']
    if w.kind == 'real':
        # real arrays have no unit
        if op[0] in FUNCS or op[0] == 'convert' or (op[0] in ('trapz', 'gradient') and (op[2].endswith(' s') or op[2] in MIXTURES)):
            return False
    if w.kind != 'tensor' and not rec['pre']['dims']:
        return False
    if w.kind == 'tensor' and op[0] == 'take':
        return False
    return True


def finding(w, rec, got):
    """The name of the finding which accounts for this very outcome, if there is one."""
    import numpy
    op, a, r = rec['last']['op'], rec['pre'], rec['last']['r']
    if got[0] != 'ok':
        return None
    if op[0] == 'transpose' and w.kind != 'tensor' and op[1] != list(range(len(a['dims']), 0, -1)):
        data = numpy.array([float(num(q)) for q in a['v']]).reshape([len(a['pos'][d]) for d in a['dims']])
        if tuple(got[1].dimensions) == tuple(w.name[d] for d in r['a']['dims']) and numpy.array_equal(numpy.array(got[1]), data.T):
            return 'numpy.transpose with axes'
    if op[0] in ('sin', 'cos', 'tan') and w.gens[3] == 'deg' and r['out'] == 'term':
        if not w.wrong(got[1], dict(r['a'], u=r['u']), [FUNCS[r['f']](num(q)) for q in r['a']['v']]):
            return 'trigonometry of degrees'
    return None


def known(w, rec):
    """May this step run into a finding, after which a history cannot go on?"""
    op, a = rec['last']['op'], rec['pre']
    return (op[0] == 'transpose' and w.kind != 'tensor' and op[1] != list(range(len(a['dims']), 0, -1))
            or op[0] in ('sin', 'cos', 'tan') and w.gens[3] == 'deg')


def prepare(records):
    for r in records:
        for a in (r['pre'], r['post'], r['last']['r'].get('a')):
            if a is not None and not a['pos']:
                a['pos'] = {}
    return records


def step(check, w, obj, rec, trail, key, alt=False):
    """Replay one step; the object it leads to, or None if something was wrong."""
    import numpy
    before = (numpy.array(getattr(obj, 'data', obj)).tolist(), str(getattr(obj, 'unit', '')))
    got, how = call(w, obj, rec['pre'], rec['last']['op'], alt)
    check.steps += 1
    bad = judge(w, got, rec, alt)
    after = (numpy.array(getattr(obj, 'data', obj)).tolist(), str(getattr(obj, 'unit', '')))
    if not bad and before != after:
        bad = f'changed its argument from {before} to {after}'
    if bad:
        named = finding(w, rec, got)
        check.violation(f'{named or key + ' ' + str(rec["last"]["op"][0])} on {w.kind}',
                        f'{w.kind} array {show(rec["pre"], w)} {trail}: {how}: {bad}')
        return None, how
    return (got[1] if got[0] == 'ok' else obj), how


def show(a, w):
    return f'{dict((w.name[d], a["pos"][d]) for d in a["dims"])} {unit(a["u"], w.gens)} {[str(num(q)) for q in a["v"]]}'


KINDS = ['physical', 'real', 'tensor']


def arr(dims, lens, values, u=(0, 0, 0, 0)):
    pos = ' @@ '.join(f'("{d}" :> <<{", ".join(str(i) for i in range(n))}>>)' for d, n in zip(dims, lens)) or '<<>>'
    v = ', '.join(f'<<{F(q).numerator}, {F(q).denominator}>>' for q in values)
    return (f'[dims |-> <<{", ".join(chr(34) + d + chr(34) for d in dims)}>>, pos |-> {pos}, '
            f'u |-> <<{", ".join(map(str, u))}>>, v |-> <<{v}>>]')


M, ONE, RAD = (2, 0, 0, 0), (0, 0, 0, 0), (0, 0, 0, 2)
STARTS = [
    ('ab', (2, 3), [1, 4, F(9, 4), 16, F(1, 4), 25], M),
    ('abc', (2, 1, 3), [-1, 3, 0, F(5, 2), 2, -4], M),
    ('a', (4,), [3, -1, F(1, 2), 6], M),
    ('ba', (2, 2), [1, 2, 4, 8], ONE),
    ('a', (3,), [F(1, 2), -1, 3], RAD),
    ('ab', (1, 1), [F(5, 2)], M),
    ('', (), [F(9, 4)], M),
    ('', (), [3], ONE),
    ('', (), [F(1, 4)], RAD),
    ('cab', (2, 2, 2), [1, 9, 4, 16, 25, 1, 36, 4], M),
    ('abc', (3, 2, 4), [n * n - 7 * n + F(n % 3, 2) for n in range(24)], M),
]


def check_P28(check):
    big = check.thorough
    import collections
    for group, depth, variants in ([(range(0, 9), 2, 1)] if not big else [(range(0, 9), 2, 4), ((9,), 2, 4), ((10,), 2, 1)]) + [((9, 10), 1, 4)]:
        records = prepare(check.tlc('ArrayFuncs', consts=dict(
            Starts='<<' + ', '.join(arr(*STARTS[i]) for i in group) + '>>', Depth=str(depth)), xmx='8g').records)
        by = collections.defaultdict(list)
        for r in records:
            by[core.canon(r['pre'])].append(r)
        starts = [r['pre'] for r in records]
        # every step, from an array made for it
        jobs = [(r, k) for r in records for k in KINDS]
        rng = check.rng
        for r, k in jobs:
            for v in range(variants):
                w = World(rng, k)
                if not applies(w, r):
                    continue
                try:
                    obj = w.build(r['pre'])
                except Exception as e:
                    check.violation(f'building {k}', f'{show(r["pre"], w)}: {type(e).__name__}: {e}')
                    continue
                step(check, w, obj, r, 'made at once', f'depth {depth}')
                if k == 'real' and r['last']['op'][0] == 'reduce' and rng.random() < .3:
                    step(check, w, obj, r, 'made at once', 'keepdims', alt=True)
        # histories
        n = (400 if big else 80)
        firsts = [core.canon(p) for p in starts]
        roots = sorted(set(firsts))
        for _ in range(n * 4):
            w = World(rng, rng.choice(KINDS))
            state = rng.choice(roots)
            recs = [r for r in by[state] if applies(w, r)]
            if not recs:
                continue
            obj, trail = w.build(recs[0]['pre']), []
            for _ in range(12):
                recs = [r for r in by.get(state, []) if applies(w, r) and not known(w, r)]
                if not recs:
                    break
                r = rng.choice(recs)
                new, how = step(check, w, obj, r, 'after ' + '; '.join(trail), 'history')
                if new is None:
                    break
                if core.canon(r['post']) != state or r['last']['r']['out'] == 'array' and core.canon(r['last']['r']['a']) == core.canon(r['post']):
                    obj = new if r['last']['r']['out'] == 'array' else obj
                    trail.append(how)
                state = core.canon(r['post'])
            check.traces += 1
