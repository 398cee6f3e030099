"""Arithmetic on physical quantities (P13) and on labelled arrays (P14).

TLC enumerates operators, operands and histories (specs/PhysOps.tla, specs/ArrayArith.tla) together with
the exact outcome each must have.  The drivers build the operands in every accepted form, apply the real
operators, and compare outcomes, and that the operands are as they were.
"""
#: P13 P14
import fractions, math, operator, random
import core
from core import outcome

F = fractions.Fraction

BINARY = dict(add=operator.add, sub=operator.sub, mul=operator.mul, truediv=operator.truediv, floordiv=operator.floordiv,
              mod=operator.mod, pow=operator.pow, lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge,
              eq=operator.eq, ne=operator.ne)
INPLACE = dict(add=operator.iadd, sub=operator.isub, mul=operator.imul, truediv=operator.itruediv,
               floordiv=operator.ifloordiv, mod=operator.imod, pow=operator.ipow)
UFUNC = dict(add='add', sub='subtract', mul='multiply', truediv='true_divide', floordiv='floor_divide', mod='remainder',
             lt='less', le='less_equal', gt='greater', ge='greater_equal')
UNARY = dict(neg=operator.neg, pos=operator.pos, abs=operator.abs, round=round, floor=math.floor, ceil=math.ceil,
             trunc=math.trunc, int=int, float=float, complex=complex)
#: what the generators of the model stand for
GENS = [('m', 's', 'km'), ('eV', 's', 'MeV'), ('K', 'm', 'mK'), ('s', 'kg', 'day'), ('au', 's', 'km'),
        ('m', 's', 'mm'), ('cm', 's', 'm'), ('km', 'kg', 'm'), ('s', 'm', 'ms'), ('g', 's', 'kg'),
        ('A', 's', 'mA'), ('min', 'm', 's'), ('day', 'm', 'h'), ('rad', 's', 'deg'), ('nuc', 's', 'kg')]
#: products of these may come out in terms of base units, which denotes the same unit but is not equal to it
DERIVED = [('J', 's', 'kJ'), ('T', 'm', 'mT'), ('V', 'kg', 'MV'), ('eV', 'cm', 'erg')]
#: values come from the model as [numerator, denominator]


def num(q):
    return F(q[0], q[1])


def unit(u, gens, rng):
    """A spelling of the unit with (doubled) exponents `u`."""
    terms = [(g, F(n, 2)) for g, n in zip(gens, u) if n]
    if not terms:
        return '1'
    rng.shuffle(terms)
    top, bottom = [(g, e) for g, e in terms if e > 0], [(g, e) for g, e in terms if e < 0]

    def one(g, e):
        if e == 1:
            return g
        return f'{g}^{e}' if e.denominator == 1 else f'{g}^({e})' if rng.random() < 0 else f'{g}^{e.numerator}/{e.denominator}'
    if top and bottom and all(e.denominator == 1 for g, e in terms) and rng.random() < .5:
        down = ' '.join(one(g, -e) for g, e in bottom)
        return ' '.join(one(g, e) for g, e in top) + ' / ' + (f'({down})' if len(bottom) > 1 else down)
    return ' '.join(one(g, e) for g, e in terms)


AXES = {'array1': ('t',), 'array2': ('t', 'x')}


class Pool:
    """Concrete objects for the abstract operands of the model."""

    def __init__(self, gens, rng):
        self.gens, self.rng = gens, rng
        self.labels = rng.choice([dict(t=range(2), x=['a', 'b']), dict(t=[3, 7], x=range(2))])
        self.coords = rng.random() < .5

    def axes(self, kind):
        from eprempy import physical, measured
        ax = {d: self.labels[d] for d in AXES[kind]}
        if self.coords:
            ax['t'] = measured.sequence([0.5, 2.0], unit='day')
        return physical.axes(**ax)

    def make(self, x, op, free=False):
        """An object of the abstract form `x`, to be used with operator `op`.

        With `free`, measured objects which are no physical objects may stand for them."""
        import numpy
        from eprempy import physical, measured, quantity
        rng, kind = self.rng, x['kind']
        v = [num(q) for q in x['v']]
        whole = all(q.denominator == 1 for q in v)
        ints = whole and op not in ('pow', 'truediv') and rng.random() < .3
        data = [int(q) if ints else float(q) for q in v]
        if kind == 'number':
            forms = [float, numpy.float64, numpy.float32]
            if whole:
                forms += [int, int] + ([numpy.int64, numpy.int32] if op != 'pow' else [])
            return rng.choice(forms)(v[0] if not whole else int(v[0]))
        u = unit(x['u'], self.gens, rng)
        given = rng.choice([u, u, quantity_unit(u)])
        if kind == 'scalar':
            d = int(v[0]) if whole and rng.random() < .4 else rng.choice([float, float, numpy.float64])(v[0])
            if free and rng.random() < .2:
                return rng.choice([measured.value(d, unit=given), (d, u) if op in ('add', 'sub', 'mul', 'truediv') else
                                   measured.value(d, unit=given)])
            return physical.scalar(d, unit=given)
        if kind == 'vector':
            if free and rng.random() < .2:
                return rng.choice([measured.sequence(data, unit=given), quantity.measurement(data, unit=given)])
            return physical.vector(rng.choice([list, tuple, numpy.array])(data), unit=given)
        if kind == 'tensor':
            return physical.tensor(numpy.array(data).reshape(2, 2), unit=given)
        d = numpy.array(data)
        return physical.array(d if kind == 'array1' else d.reshape(2, 2), unit=given, axes=self.axes(kind))


def sameunit(a, b):
    from eprempy import metric
    if a == b:
        return True
    try:
        return abs(float(metric.conversion(str(a), str(metric.unit(b)))) - 1) < 1e-9
    except Exception:
        return False


def quantity_unit(u):
    from eprempy import metric
    return metric.unit(u)


def flat(x):
    import numpy
    from eprempy import measured
    d = x.data if isinstance(x, measured.Object) else x
    return [F(complex(t).real) if complex(t) == complex(t).real else complex(t) for t in numpy.ravel(numpy.array(d)).tolist()]


def near(a, b):
    return a == b or abs(float(a) - float(b)) <= 1e-9 * max(abs(float(a)), abs(float(b)), 1e-300)


def allnear(a, b):
    return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))


TYPES = dict(scalar='Scalar', vector='Vector', tensor='Tensor', array1='Array', array2='Array')
SHAPES = dict(vector=(2,), tensor=(2, 2), array1=(2,), array2=(2, 2))


def wrong(obj, want, pool):
    """What is wrong with the real quantity `obj`, which should be `want`."""
    import numpy
    from eprempy import physical
    cls = getattr(physical, TYPES[want['kind']])
    if type(obj) is not cls:
        return f'a {type(obj).__name__} instead of a {cls.__name__}: {obj!r}'
    if not sameunit(obj.unit, unit(want['u'], pool.gens, pool.rng)):
        return f'unit {obj.unit}; expected {unit(want["u"], pool.gens, random.Random(1))}'
    for i in range(3):
        other = [n + 2 * (k == i) for k, n in enumerate(want['u'])]
        if obj.unit == unit(other, pool.gens, pool.rng):
            return f'unit {obj.unit} is equal to {unit(other, pool.gens, random.Random(1))}'
    v = [num(q) for q in want['v']]
    if not allnear(flat(obj), v):
        return f'values {[float(t) for t in flat(obj)]}; expected {[float(t) for t in v]}'
    if want['kind'] in SHAPES and numpy.array(obj.data).shape != SHAPES[want['kind']]:
        return f'shape {numpy.array(obj.data).shape}'
    if want['kind'] in AXES:
        ref = pool.axes(want['kind'])
        if tuple(obj.axes) != AXES[want['kind']] or not obj.axes == ref or tuple(obj.dimensions) != AXES[want['kind']]:
            return f'axes {obj.axes}; expected {ref}'
    return None


def snap(x):
    import numpy
    from eprempy import measured
    if isinstance(x, measured.Object):
        return (type(x), str(x.unit), numpy.array(x.data).tolist(), repr(getattr(x, 'axes', None)))
    return (type(x), x)


def ops_records(check, name, pool, starts, binary, unary, depth):
    q = lambda x: f'<<{x.numerator}, {x.denominator}>>'
    rec = lambda k, u, v: f'[kind |-> "{k}", u |-> <<{", ".join(map(str, u))}>>, v |-> <<{", ".join(q(F(x)) for x in v)}>>]'
    r = check.tlc('PhysOps', consts=dict(
        Pool='<<' + ', '.join(rec(*x) for x in pool) + '>>', Starts='{' + ', '.join(map(str, starts)) + '}',
        Binary='{' + ', '.join(f'"{x}"' for x in binary) + '}', Unary='{' + ', '.join(f'"{x}"' for x in unary) + '}',
        Depth=str(depth)), xmx='8g')
    return r.records


U0, M, S, KM, V = (0, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 2), (2, -2, 0)
H = F(1, 2)
FULL = [('number', U0, [2]), ('number', U0, [-3]), ('number', U0, [H]), ('number', U0, [-1]), ('number', U0, [3]), ('number', U0, [0]),
        ('scalar', M, [4]), ('scalar', M, [F(-7, 2)]), ('scalar', U0, [2]), ('scalar', U0, [-H]), ('scalar', U0, [H]), ('scalar', V, [9]), ('scalar', KM, [3]),
        ('scalar', (1, 0, 0), [4]), ('scalar', M, [F(5, 2)]), ('scalar', U0, [0]),
        ('vector', M, [4, 9]), ('vector', U0, [2, -1]), ('vector', V, [F(1, 4), -3]), ('vector', S, [-5, 2]),
        ('tensor', M, [4, -2, 9, 1]), ('tensor', U0, [1, 2, 2, -1]), ('tensor', KM, [1, 4, 9, 16]),
        ('array1', M, [4, 1]), ('array1', U0, [2, 3]), ('array1', S, [-F(3, 2), 7]),
        ('array2', M, [4, -2, 9, F(5, 4)]), ('array2', U0, [1, 2, -1, 3]), ('array2', V, [-4, 4, 1, 16])]
SMALL = [('number', U0, [-2]), ('scalar', M, [3]), ('scalar', U0, [2]), ('vector', M, [4, -1]), ('tensor', U0, [1, 2, 3, -2]),
         ('array1', U0, [2, -3]), ('array2', M, [1, -2, 4, 3])]


def run(check, records, variants, key):
    rng = check.rng
    for n in range(variants):
        pool = Pool(rng.choice(DERIVED if n % 2 else GENS), rng)
        others = [(Pool(g, rng), {}) for g in (GENS + DERIVED if n % 2 else GENS)]
        store = {}
        for r in records:
            # what must be refused must be so for every pair of units
            if r['last']['r']['out'] == 'refused' or rng.random() < .2:
                p, s = rng.choice(others)
                perform(check, r, p, s, key)
            else:
                perform(check, r, pool, store, key)
        for p, s in others:
            for o, x in [y for objs in s.values() for y in objs]:
                if snap(o) != x:
                    check.violation(f'{key}:modified', f'{x} became {snap(o)}')
        for state, objs in store.items():
            for o, s in objs:
                if snap(o) != s:
                    check.violation(f'{key}:modified', f'{s} became {snap(o)}')


def label(x, pool):
    v = [float(num(q)) for q in x['v']]
    return f"{x['kind']} {v if len(v) > 1 else v[0]} {unit(x['u'], pool.gens, random.Random(1))}"


def perform(check, r, pool, store, key):
    import numpy
    from eprempy import measured, physical
    rng, lab, pre = pool.rng, r['last'], r['pre']
    op, side, res = lab['op'], lab['side'], lab['r']
    kept = store.setdefault(core.canon(pre), [])
    # a new object, or one which came out of earlier operations
    if kept and rng.random() < .6 and not (op == 'pow' and any(isinstance(t, int) for t in numpy.ravel(numpy.array(kept[0][0].data)).tolist())):
        a, before = rng.choice(kept)
        if op == 'pow' and numpy.array(a.data).dtype.kind == 'i':
            a = pool.make(pre, op)
            before = snap(a)
    else:
        a = pool.make(pre, op)
        before = snap(a)
        if len(kept) < 2:
            kept.append((a, before))
    check.steps += 1
    check.count(op)
    if not side:
        how, got = outcome(UNARY[op], a)
        b, bsnap, what = None, None, f'{op}({label(pre, pool)})'
    else:
        x = lab['x']
        b = pool.make(x, op, free=op in ('add', 'sub', 'mul', 'truediv') and not pre['kind'].startswith('array')
                      and (x['kind'] == 'scalar' or pre['kind'] not in ('scalar',)))
        bsnap = snap(b)
        left, right = (a, b) if side == 'right' else (b, a)
        f, form = BINARY[op], op
        kinds = (pre['kind'], x['kind'])
        if op in UFUNC and rng.random() < .15 and not isinstance(b, tuple):
            f, form = getattr(numpy, UFUNC[op]), 'numpy.' + UFUNC[op]
        elif op in INPLACE and rng.random() < .15:
            f, form = INPLACE[op], op + '='
        how, got = outcome(f, left, right)
        la, lb = label(pre, pool), label(x, pool) + f' ({type(b).__name__})'
        what = f'{form}: {la} and {lb}' if side == 'right' else f'{form}: {lb} and {la}'
    kind = f'{key}:{op}'
    if snap(a) != before or b is not None and snap(b) != bsnap:
        check.violation(f'{key}:modified', f'{what}: an operand was modified')
        store.pop(core.canon(pre))
        return
    if res['out'] == 'refused':
        if how == 'ok' and got is not NotImplemented:
            check.violation(kind + ':refused', f'{what} gave {got!r}')
        return
    if how == 'err':
        check.violation(kind, f'{what}: {type(got).__name__}: {got}')
        return
    if res['out'] == 'plain':
        v = [num(q) for q in res['v']]
        if op in ('eq', 'ne') and type(got) is not bool and not isinstance(got, numpy.bool_):
            check.violation(kind, f'{what} gave {got!r}')
        elif op in ('int', 'float', 'complex') and type(got) is not {'int': int, 'float': float, 'complex': complex}[op]:
            check.violation(kind, f'{what} gave {got!r}')
        elif not allnear(flat(got), v):
            check.violation(kind, f'{what} gave {got!r}; expected {[float(t) for t in v]}')
        return
    bad = wrong(got, res, pool)
    if bad:
        check.violation(kind, f'{what}: {bad}')
        return
    s = core.canon(r['post'])
    if s != core.canon(pre) and rng.random() < .5:
        now = store.setdefault(s, [])
        if len(now) < 3:
            now.append((got, snap(got)))
    check.traces += 1
    check.sample(what)


def check_P13(check):
    big = check.thorough
    allb, allu = list(BINARY), list(UNARY)
    starts = [i + 1 for i, x in enumerate(FULL) if x[0] != 'number']
    for pool, st, binary, unary, depth, variants in [
            (FULL, starts, allb, allu, 1, 6 if big else 2),
            (SMALL, range(2, 8), ['add', 'sub', 'mul', 'truediv', 'pow', 'lt'], ['neg', 'abs', 'round'], 2, 3 if big else 1)] + (
            [(SMALL, range(2, 8), allb, allu, 2, 1)] if big else []):
        records = ops_records(check, 'ops', pool, st, binary, unary, depth)
        for r in records:
            if r['last']['i']:
                k, u, v = pool[r['last']['i'] - 1]
                r['last']['x'] = dict(kind=k, u=list(u), v=[[F(q).numerator, F(q).denominator] for q in v])
        run(check, records, variants, f'depth {depth}')


# ---------------------------------------------------------------- P14: labelled arrays

CLASSES = dict(product=['mul', 'mul', 'truediv', 'floordiv', 'mod'], sum=['add', 'sub'], power=['pow'])
LABELS = dict(points=lambda d, p: 7 + 3 * p, range=lambda d, p: p, symbols=lambda d, p: f'{d}{p}',
              coords=lambda d, p: 0.5 + 1.25 * (p % 5) + (p % 5) ** 2)


class World:
    """The concrete names, labels and units of one family of arrays."""

    def __init__(self, rng):
        names = rng.choice([('time', 'shell', 'species'), ('shell', 'energy', 'mu'), ('x', 'xy', 'y'), ('b', 'c', 'a')])
        self.rng, self.name = rng, dict(zip('abc', names))
        self.kinds = {d: rng.choice(list(LABELS)) for d in 'abc'}
        self.cunit = rng.choice(['au', 'day', 'MeV'])
        self.units = rng.choice([('m', 's'), ('km', 'MeV'), ('1', 'm'), ('1', '1')])

    def axis(self, d, pos):
        from eprempy import measured
        labels = [LABELS[self.kinds[d]](d, p) for p in pos]
        if self.kinds[d] == 'coords':
            # the positions from 5 on have the same numbers, in another unit
            return measured.sequence(labels, unit=self.cunit if max(pos) < 5 else 'J')
        if self.kinds[d] == 'range' and pos == list(range(len(pos))) and self.rng.random() < .5:
            return range(len(pos))
        return labels

    def axes(self, x):
        from eprempy import physical
        return physical.axes(**{self.name[d]: self.axis(d, x['pos'][d]) for d in x['dims']})

    def values(self, x):
        import numpy
        n = math.prod(len(p) for p in x['pos'].values())
        return numpy.array([self.rng.choice([-1, 1]) * self.rng.randint(1, 4000) / 8 for _ in range(n)])

    def build(self, x, data, unit, real):
        from eprempy import physical, real as reals
        shaped = data.reshape([len(x['pos'][d]) for d in x['dims']])
        names = [self.name[d] for d in x['dims']]
        if real:
            return reals.array(shaped, dimensions=names)
        return physical.array(shaped, unit=unit, axes=self.axes(x))


def text(x):
    return '(' + ', '.join(f"{d}:{''.join(map(str, x['pos'][d]))}" for d in x['dims']) + ')'


def judge(obj, r, clash, want, unit, w, real):
    """What is wrong with `obj`, which should be the array `r` with values `want` (in the order of `r`)."""
    import numpy
    from eprempy import metric, physical, real as reals
    if type(obj) is not (reals.Array if real else physical.Array):
        return f'a {type(obj)}'
    back = {v: k for k, v in w.name.items()}
    dims = [back.get(n) for n in obj.dimensions]
    if sorted(map(str, dims)) != sorted(r['dims']):
        return f'dimensions {tuple(obj.dimensions)}'
    a = numpy.array(obj)
    shape = tuple(len(r['pos'][d]) for d in dims)
    if a.shape != shape or obj.shape != shape:
        return f'shape {a.shape}, .shape {obj.shape}; expected {shape} for {dims}'
    b = want.reshape([len(r['pos'][d]) for d in r['dims']]).transpose([r['dims'].index(d) for d in dims])
    if not numpy.allclose(a, b, rtol=1e-12, atol=0):
        return f'values {a.tolist()}; expected {b.tolist()} for {dims}'
    if real:
        return None
    if not obj.unit == unit:
        return f'unit {obj.unit}; expected {unit}'
    if list(obj.axes) != list(obj.dimensions) or tuple(obj.data.dimensions) != tuple(obj.dimensions):
        return f'axes {list(obj.axes)}, dimensions {tuple(obj.dimensions)}, of the data {tuple(obj.data.dimensions)}'
    for d in dims:
        ax = obj.axes[w.name[d]]
        if len(ax) != len(r['pos'][d]):
            return f'axis {d} of length {len(ax)} for data of length {len(r["pos"][d])}'
        if d in clash:
            continue
        labels = [LABELS[w.kinds[d]](d, p) for p in r['pos'][d]]
        got = list(ax.data) if w.kinds[d] == 'symbols' else list(numpy.array(ax.data))
        if got != labels or w.kinds[d] == 'coords' and not ax.unit == metric.unit(w.cunit if max(r['pos'][d]) < 5 else 'J'):
            return f'axis {d} has {got} (unit {getattr(ax, "unit", None)}); expected {labels}'
    return None


def order(dims, x, y):
    """Whether `dims` keeps the orders of both operands."""
    return [d for d in dims if d in x['dims']] == x['dims'] and [d for d in dims if d in y['dims']] == y['dims']


def aligned(check, records, key, real=False):
    import numpy
    rng = check.rng
    store, w, n = {}, None, 0
    for r in records:
        if n % 200 == 0:
            store, w = {}, World(rng)
        n += 1
        pre, lab = r['pre'], r['last']
        if not isinstance(pre['pos'], dict):
            continue
        x, o = lab['x'], lab['o']
        op = rng.choice(CLASSES[lab['class']])
        one = op == 'pow'
        u1, u2 = ('1', '1') if one else (w.units if lab['class'] == 'product' else (w.units[0],) * 2)
        va, vx = w.values(pre), w.values(x)
        if one:
            va, vx = abs(va) / 100 + .5, abs(vx) / 100 + .5
        kept = store.get(core.canon(pre)) if not one else None
        if kept and kept[2] == u1 and rng.random() < .5:
            a, va = kept[0], kept[1]
        else:
            a = w.build(pre, va, u1, real)
        b = w.build(x, vx, u2, real)
        sa, sb = snap2(a), snap2(b)
        left, right = (a, b) if lab['side'] == 'right' else (b, a)
        vl, vr = (va, vx) if lab['side'] == 'right' else (vx, va)
        lx, rx = (pre, x) if lab['side'] == 'right' else (x, pre)
        ul, ur = (u1, u2) if lab['side'] == 'right' else (u2, u1)
        f = BINARY[op]
        if not real and op in UFUNC and rng.random() < .1:
            f = getattr(numpy, UFUNC[op])
        check.steps += 1
        check.count(('real ' if real else '') + op)
        what = f'{op}: {text(lx)} and {text(rx)}, axes {w.kinds}'
        kind = f'{key}:{op}'
        how, got = outcome(f, left, right)
        if snap2(a) != sa or snap2(b) != sb:
            check.violation(kind + ':modified', f'{what}: an operand was modified')
        refused = o['out'] == 'refused'
        if real and lab['class'] == 'sum':
            # arrays without axes have no coordinates to disagree about
            same = lx['dims'] == rx['dims']
            fit = all(len(lx['pos'][d]) == len(rx['pos'][d]) or 1 in (len(lx['pos'][d]), len(rx['pos'][d])) for d in lx['dims'] if d in rx['dims'])
            if refused and same and fit:
                continue
        if refused:
            if how == 'ok' and got is not NotImplemented:
                check.violation(kind + ':refused', f'{what} gave {got!r}')
            continue
        if how == 'err':
            check.violation(kind, f'{what}: {type(got).__name__}: {got}')
            continue
        g = BINARY[op]
        want = numpy.array([g(vl[i], vr[j]) for i, j in o['meets']])
        unit = None
        if not real:
            from eprempy import metric
            unit = metric.unit(ul) if op in ('add', 'sub', 'pow') else (metric.unit(ul) * metric.unit(ur) if op == 'mul' else metric.unit(ul) / metric.unit(ur))
        clash = o['clash'] if isinstance(o['clash'], list) else []
        bad = judge(got, o['r'], clash, want, unit, w, real)
        if not bad:
            back = {v: k for k, v in w.name.items()}
            if not order([back[t] for t in got.dimensions], lx, rx):
                bad = f'dimensions {tuple(got.dimensions)} do not keep the order of {lx["dims"]} and {rx["dims"]}'
        if bad:
            check.violation(kind, f'{what}: {bad}')
            continue
        if not clash and not real and op in ('mul', 'add', 'sub'):
            order_ = [{v: k for k, v in w.name.items()}[t] for t in got.dimensions]
            if order_ == o['r']['dims']:
                store[core.canon(r['post'])] = (got, want, str(got.unit))
        check.traces += 1
        check.sample(what)


def snap2(x):
    import numpy
    return (str(getattr(x, 'unit', '')), numpy.array(x).tolist(), tuple(x.dimensions), repr(getattr(x, 'axes', None)))


def arith_records(check, left, right, choices, classes, depth):
    seqs = lambda s: '{' + ', '.join('<<' + ', '.join(f'"{d}"' for d in x) + '>>' for x in s.split()) + '}'
    ch = ' @@ '.join(f'("{d}" :> {{{", ".join("<<" + ", ".join(c) + ">>" for c in cs.split())}}})' for d, cs in choices.items())
    return check.tlc('ArrayArith', consts=dict(LeftDims=seqs(left), RightDims=seqs(right), Choices=ch,
                     Classes='{' + ', '.join(f'"{c}"' for c in classes) + '}', Depth=str(depth)), xmx='8g').records


def check_P14(check):
    big = check.thorough
    some = dict(a='01 1 012', b='012 0 12', c='01 2')
    full = dict(a='01 1 012 10 56', b='012 0 12 02', c='01 2 1 5 56')
    every = 'a b c ab ba ac ca bc cb abc acb bac bca cab cba'
    runs = [('a ab ba abc ca', 'a b c ab ba ac bc cb abc cba', full if big else dict(some, b='012 0'), ['product'], 1),
            ('a ab ba bc abc', 'a ab ba bc abc', full, ['sum'], 1),
            ('a ab abc', 'a ab ba abc', some, ['power'], 1),
            ('a ab b', 'a b ca', dict(a='01 1', b='012 0', c='01'), ['product', 'sum'], 2)]
    if big:
        runs += [(every, every, some, ['product'], 1),
                 ('a ab b bc', 'a b ab ca', dict(a='01 1', b='012 0', c='01'), ['product', 'sum'], 3)]
    for left, right, choices, classes, depth in runs:
        records = arith_records(check, left, right, choices, classes, depth)
        if not big and len(records) > 15000:
            records = check.rng.sample(records, 15000)
        aligned(check, records, '-'.join(classes))
        if classes == ['product'] or classes == ['sum']:
            aligned(check, records if big else records[::3], 'real ' + '-'.join(classes), real=True)
