"""Labelled arrays: units, subscripts, transpositions, arithmetic, axes (P12-P16, P25, P26, P28).

TLC enumerates histories of operations on labelled arrays (specs/ArrayChain.tla and friends) and says
what each array holds: which original positions along which named dimensions, in which order, in which
unit.  The drivers replay those histories on real objects of every kind and compare all of it.
"""
#: P12 P15
import fractions, itertools, math, random
import core
from core import outcome

F = fractions.Fraction
NOINT = 99


def expr(e, rng, inner=True):
    """A concrete Python index for one axis."""
    import numpy
    if e['k'] == 'int':
        return rng.choice([int, int, numpy.int64, numpy.int32])(e['i'])
    if e['k'] == 'slice':
        i, j, s = [None if e[x] == NOINT else e[x] for x in 'ijs']
        if (i, j, s) == (None, None, None):
            return slice(None)
        return slice(i, j, s)
    if e['k'] == 'list':
        return rng.choice([list, list, lambda l: numpy.array(l, dtype=int)])(e['l'])
    return Ellipsis


def subscript(x, rng, shape=()):
    """A concrete Python index for an array of this shape."""
    import numpy
    from eprempy import numeric
    out = tuple(expr(e, rng) for e in x)
    dots = [e['k'] for e in x].index('ell') if any(e['k'] == 'ell' for e in x) else len(x)
    for k, e in enumerate(x):
        d = k if k < dots else len(shape) - (len(x) - k)
        l = e.get('l')
        if e['k'] == 'list' and 0 <= d < len(shape) and l and sorted(set(l)) == l and l[0] >= 0 and l[-1] < shape[d] and rng.random() < .3:
            # the same selection as a mask, or as a range
            if rng.random() < .7:
                o = rng.choice([list, numpy.array])([i in l for i in range(shape[d])])
            else:
                o = range(l[0], l[-1] + 1) if len(l) == l[-1] - l[0] + 1 else numpy.array(l)
            out = out[:k] + (o,) + out[k + 1:]
            if len(out) == 1 and not isinstance(o, list) and rng.random() < .5:
                return o
            return out
    if rng.random() < .2:
        # indices as axes give them
        make = dict(int=numeric.index.value, list=numeric.index.sequence)
        out = tuple(make[e['k']](e['i'] if e['k'] == 'int' else e['l']) if e['k'] in make else o for e, o in zip(x, out))
    if len(out) == 1 and x[0]['k'] not in ('list',) and rng.random() < .7:
        return out[0]
    return out


def show(x):
    def one(e):
        if e['k'] == 'int':
            return str(e['i'])
        if e['k'] == 'slice':
            return ':'.join('' if e[k] == NOINT else str(e[k]) for k in 'ijs')
        return str(e['l']) if e['k'] == 'list' else '...'
    return '[' + ', '.join(one(e) for e in x) + ']'


#: alternatives to the units of the model (1 m = 100 cm = 1/1000 km)
UNITS = [dict(m='m', cm='cm', km='km'), dict(m='J', cm='cJ', km='kJ'), dict(m='m s^-1', cm='cm s^-1', km='km s^-1'),
         dict(m='V', cm='cV', km='kV'), dict(m='1 / m^2 s', cm='1 / hm^2 das', km='1 / m^2 ms')][:4]
FOREIGN = ['s', 'kg', 'm^2', '1', 'K']
AXISKINDS = ['points', 'range', 'symbols', 'coords', 'default']


class Maker:
    """Builds the original array of a model, and says what its axes should be labelled."""

    def __init__(self, start, lengths, rng):
        self.start, self.lengths = list(start), dict(lengths)
        names = rng.choice([('time', 'shell', 'species'), ('shell', 'time', 'energy'), ('a', 'b', 'c'), ('mu', 'm', 'u')])
        self.name = dict(zip(sorted(start), names))
        self.kinds = {d: rng.choice(AXISKINDS[:4]) for d in start}
        self.units = rng.choice(UNITS)
        self.cunit = rng.choice(['au', 's', 'MeV', 'km s^-1'])
        self.dtype = rng.choice([float, float, int])

    def label(self, d, p):
        k = self.kinds[d]
        return {'points': 7 + 3 * p, 'range': p, 'symbols': f'{d}{p}', 'coords': 0.5 + 1.25 * p + p * p}[k]

    def axis(self, d):
        from eprempy import physical, measured
        labels = [self.label(d, p) for p in range(self.lengths[d])]
        k = self.kinds[d]
        if k == 'coords':
            return measured.sequence(labels, unit=self.cunit)
        return range(self.lengths[d]) if k == 'range' else labels

    def axes(self):
        from eprempy import physical
        return physical.axes(**{self.name[d]: self.axis(d) for d in self.start})

    def data(self, seen):
        import numpy
        return numpy.array(seen['values'], dtype=self.dtype).reshape([self.lengths[d] for d in self.start])

    def array(self, seen):
        from eprempy import physical
        return physical.array(self.data(seen), unit=self.units['m'], axes=self.axes())


def close(a, b):
    return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def compare(obj, seen, mk, values=True):
    """What is wrong with `obj`, given what the model says it is; None if nothing."""
    import numpy
    from eprempy import physical
    shape = tuple(len(seen['pos'][d]) for d in seen['dims'])
    if type(obj) is not physical.Array:
        return f'type {type(obj)}'
    a = numpy.array(obj)
    if a.shape != shape or obj.shape != shape or obj.ndim != len(shape) or obj.size != a.size:
        return f'shape {a.shape}, .shape {obj.shape}, ndim {obj.ndim}, size {obj.size}; expected {shape}'
    dims = tuple(mk.name[d] for d in seen['dims'])
    if tuple(obj.dimensions) != dims or tuple(obj.axes) != dims or tuple(obj.data.dimensions) != dims:
        return f'dimensions {obj.dimensions}, axes {tuple(obj.axes)}, of the data {obj.data.dimensions}; expected {dims}'
    if dict(obj.shapemap) != dict(zip(dims, shape)):
        return f'shapemap {obj.shapemap}'
    if not obj.unit == mk.units[seen['unit']]:
        return f'unit {obj.unit}; expected {mk.units[seen["unit"]]}'
    f = F(seen['num'], seen['den'])
    want = [v * f for v in seen['values']]
    for i, (g, w) in enumerate(zip(a.ravel(), want)):
        if not close(float(g), float(w)):
            return f'values {a.ravel().tolist()}; expected {[float(w) for w in want]}'
    b = numpy.array(obj.data)
    if not numpy.array_equal(a, b):
        return f'the array of .data {b.tolist()} is not that of the object {a.tolist()}'
    b = numpy.array(obj.squeezed)
    if b.shape != tuple(n for n in shape if n != 1) or not numpy.array_equal(a.ravel(), b.ravel()):
        return f'.squeezed {b.tolist()}; expected {a.squeeze().tolist()}'
    if a.size == 1:
        one = a.ravel()[0]
        if float(obj) != one or int(obj) != int(one) or complex(obj) != complex(one):
            return f'converts to {float(obj)!r}, {int(obj)!r}, {complex(obj)!r}; its value is {one!r}'
    elif outcome(float, obj)[0] == 'ok' or outcome(int, obj)[0] == 'ok':
        return f'{a.size} values were converted to one number'
    for d in seen['dims']:
        ax = obj.axes[mk.name[d]]
        want = [mk.label(d, p) for p in seen['pos'][d]]
        got = list(numpy.array(ax.data)) if mk.kinds[d] != 'symbols' else list(ax.data)
        if len(ax) != len(want) or len(got) != len(want) or any(x != y for x, y in zip(got, want)):
            return f'axis {d} has {got} (length {len(ax)}); expected {want}'
        if mk.kinds[d] == 'coords' and not ax.unit == mk.cunit:
            return f'axis {d} has unit {ax.unit}; expected {mk.cunit}'
    return None


def units(names='m cm km'):
    r = {'m': (1, 1), 'cm': (100, 1), 'km': (1, 1000)}
    return '<<' + ', '.join(f'[name |-> "{n}", num |-> {r[n][0]}, den |-> {r[n][1]}]' for n in names.split()) + '>>'


def chain(check, start, lengths, exprs, templates, depth, unitnames='m cm km', foreign='{"s"}'):
    n = len(start)
    place = dict(zip(start, [17, 5, 1] if n == 3 else [7, 1] if n == 2 else [3]))
    fn = lambda d: ' @@ '.join(f'("{k}" :> {v})' for k, v in d.items())
    r = check.tlc('ArrayChain', consts=dict(
        Start='<<' + ', '.join(f'"{d}"' for d in start) + '>>', Lengths=fn(lengths), Place=fn(place),
        Units=units(unitnames), Foreign=foreign, Exprs='{' + ', '.join(exprs) + '}',
        Templates='{' + ', '.join(templates) + '}', Depth=str(depth)), xmx='8g')
    first = [x for x in r.records if 'init' in x][0]['init']
    records = [x for x in r.records if 'init' not in x]
    g = core.Graph(records, init=dict(a=dict(dims=list(start), pos={d: list(range(lengths[d])) for d in start}), u=1))
    g.seen = {core.canon(x['post']): x['seen'] for x in records}
    g.seen[g.init] = first
    return g


def apply(obj, lab, mk, rng):
    """Take the step `lab` on the real array `obj`."""
    op = lab['op']
    if op == 'withunit':
        return obj.withunit(mk.units[lab['unit']])
    if op == 'subscript':
        return obj[subscript(lab['x'], rng, obj.shape)]
    if op == 'transpose':
        names, order = [mk.name[d] for d in lab['names']], lab['order']
        n = len(names)
        how = rng.randrange(6)
        if how == 0:
            return obj.transpose(*names)
        if how == 1:
            return obj.transpose(rng.choice([list, tuple])(names))
        if how == 2:
            return obj.transpose(*order)
        if how == 3:
            return obj.transpose(rng.choice([list, tuple])(order))
        if how == 4:
            return obj.transpose(*[k - n if rng.random() < .5 else k for k in order])
        return obj.transpose(tuple(k - n for k in order))
    raise AssertionError(op)


def describe(lab):
    if lab['op'] in ('subscript', 'refuse subscript'):
        return show(lab['x'])
    if lab['op'] == 'transpose':
        return 'transpose' + str(tuple(lab['names']))
    return f"{lab['op']}({lab['unit']})"


def replay(check, g, walk, start, lengths, rng, key):
    mk = Maker(start, lengths, rng)
    init = g.seen[g.init]
    obj = mk.array(init)
    held = [(obj, init, 'the original')]
    trail = []
    for s, lab, t in walk:
        trail.append(describe(lab))
        check.steps += 1
        check.count(lab['op'])
        detail = f'axes {mk.kinds}, unit {mk.units["m"]}, history ' + ' '.join(trail)
        name = f'{key}:{lab["op"]}'
        if lab['op'] == 'refuse unit':
            u = rng.choice([f for f in FOREIGN if mk.units['m'] != f])
            how, got = outcome(obj.withunit, u)
            if how == 'ok':
                check.violation(name, f'{detail}: conversion to {u!r} gave {got}')
            continue
        if lab['op'] == 'refuse subscript':
            how, got = outcome(lambda: obj[subscript(lab['x'], rng, obj.shape)])
            if how == 'ok':
                check.violation(name, f'{detail}: {got}')
            continue
        how, new = outcome(apply, obj, lab, mk, rng)
        if how == 'err':
            check.violation(name, f'{detail}: {type(new).__name__}: {new}')
            return
        bad = compare(new, g.seen[t], mk)
        if bad:
            check.violation(name, f'{detail}: {bad}')
            return
        obj = new
        held.append((obj, g.seen[t], ' '.join(trail)))
    for o, seen, what in held[:6] + held[-2:]:
        bad = compare(o, seen, mk)
        if bad:
            check.violation(f'{key}:modified', f'axes {mk.kinds}, unit {mk.units["m"]}: the array from {what} '
                            f'is changed after {" ".join(trail)}: {bad}')
    check.traces += 1
    check.sample(' '.join(trail[:12]))


SMALL = ['At(0)', 'At(-1)', 'Slice(1, NoInt, NoInt)', 'Slice(NoInt, NoInt, -1)', 'List(<<1, 0>>)', 'At(2)', 'Slice(0, 9, NoInt)']


def walks(check, g, n, length):
    yield from g.cover(check.rng, maxlen=40)
    yield from g.random_walks(check.rng, n, length)


def check_P12(check):
    big = check.thorough
    for start, lengths, exprs, templates, depth in [
            ('a', dict(a=3), SMALL, ['<<1>>', '<<-1>>'], 5),
            ('ab', dict(a=2, b=3), SMALL, ['<<1>>', '<<-1, 1>>', '<<1, -1>>', '<<0>>'], 5 if big else 4),
            ('abc', dict(a=2, b=3, c=2), SMALL[:5 if big else 3], ['<<1>>', '<<-1, 1>>', '<<1, -1, 1>>'], 4 if big else 3)]:
        g = chain(check, start, lengths, exprs, templates, depth)
        for w in walks(check, g, 400 if not big else 4000, 12):
            replay(check, g, w, start, lengths, check.rng, f'{len(start)}-D')
        if len(start) < 3:
            for _ in range(3000 if big else 600):
                plain(check, g, start, lengths, check.rng, 6)


def plain(check, g, start, lengths, rng, length):
    """Replay a history on an object that has no named axes (or is an axis)."""
    import numpy
    from eprempy import physical, measured, quantity
    mk = Maker(start, lengths, rng)
    init = g.seen[g.init]
    data, unit = mk.data(init), mk.units['m']
    makers = dict(tensor=physical.tensor)
    if len(start) == 1:
        makers.update(vector=physical.vector, sequence=measured.sequence, measurement=quantity.measurement,
                      coordinates=lambda x, unit: physical.coordinates(measured.sequence(x, unit=unit)))
    kind = rng.choice(sorted(makers))
    given = data.tolist() if rng.random() < .3 and kind != 'tensor' else data
    obj = makers[kind](given, unit=unit)
    single = {physical.Scalar, measured.Value}
    held, trail, state = [(obj, init)], [], g.init

    def wrong(o, seen):
        if not o.unit == mk.units[seen['unit']]:
            return f'unit {o.unit}; expected {mk.units[seen["unit"]]}'
        d = o.data
        if isinstance(d, (measured.Object,)):
            d = d.data
        got = [float(x) for x in numpy.ravel(numpy.array(d))]
        want = [float(v * F(seen['num'], seen['den'])) for v in seen['values']]
        if len(got) != len(want) or not all(close(x, y) for x, y in zip(got, want)):
            return f'values {got}; expected {want}'
    for _ in range(length):
        options = [(lab, t) for lab, t in g.out[state] if lab['op'] in ('withunit', 'refuse unit') or
                   lab['op'] == 'subscript' and type(obj) not in single and all(e['k'] != 'ell' for e in lab['x'])
                   and (kind != 'coordinates' or lab['x'][0]['k'] != 'int')
                   and (len(start) == 1 or len(lab['x']) == 1 and lab['x'][0]['k'] in ('slice', 'list'))]
        if not options:
            break
        lab, t = rng.choice(options)
        check.steps += 1
        check.count(f'{kind} {lab["op"]}')
        trail.append(describe(lab))
        detail = f'{kind} of {unit}, history {" ".join(trail)}'
        if lab['op'] == 'refuse unit':
            u = rng.choice([f for f in FOREIGN if mk.units['m'] != f])
            how, got = outcome(obj.withunit, u)
            if how == 'ok':
                check.violation(f'{kind}:refuse unit', f'{detail}: conversion to {u!r} gave {got}')
            continue
        if lab['op'] == 'withunit':
            how, new = outcome(obj.withunit, mk.units[lab['unit']])
            if how == 'ok' and type(new) is not type(obj):
                check.violation(f'{kind}:withunit', f'{detail}: a {type(obj)} became {type(new)}')
        else:
            i = expr(lab['x'][0], rng)
            how, new = outcome(lambda: obj[i])
        if how == 'err':
            check.violation(f'{kind}:{lab["op"]}', f'{detail}: {type(new).__name__}: {new}')
            return
        bad = wrong(new, g.seen[t])
        if bad:
            check.violation(f'{kind}:{lab["op"]}', f'{detail}: {bad}')
            return
        obj, state = new, t
        held.append((obj, g.seen[t]))
    for o, seen in held:
        bad = wrong(o, seen)
        if bad:
            check.violation(f'{kind}:modified', f'{kind} of {unit}, after {" ".join(trail)}: {bad}')
    check.traces += 1


WIDE = ([f'At({i})' for i in (0, 1, 2, -1, -2, -3, -4, 3)] +
        [f'Slice({i}, {j}, {s})' for i, j, s in [
            ('NoInt', 'NoInt', 'NoInt'), (1, 'NoInt', 'NoInt'), ('NoInt', -1, 'NoInt'), (0, 9, 'NoInt'), (-9, 2, 'NoInt'),
            ('NoInt', 'NoInt', 2), ('NoInt', 'NoInt', -1), (-1, 0, -1), (2, 1, 'NoInt'), (-2, 'NoInt', 'NoInt'), (9, 'NoInt', -2),
            (0, 0, 'NoInt'), (0, 1, 'NoInt')]] +
        [f'List(<<{l}>>)' for l in ('0', '1, 0', '-1', '0, 0', '1, -1, 0', '3', '-4, 0')])


def check_P15(check):
    big = check.thorough
    some = [WIDE[i] for i in (0, 3, 6, 9, 11, 14, 16, 21, 22, 24)]
    two = ['<<1>>', '<<1, 2>>', '<<-1, 1>>', '<<1, -1>>', '<<-1, 1, 2>>', '<<1, 2, -1>>', '<<1, -1, 2>>', '<<-1>>', '<<0>>', '<<-1, -1>>', '<<1, -1, -1>>', '<<1, 2, 1>>']
    three = ['<<1>>', '<<1, 2>>', '<<1, 2, 3>>', '<<-1, 1>>', '<<1, -1>>', '<<1, -1, 2>>', '<<-1, 1, 2>>', '<<1, 0, 2>>', '<<0, 1>>', '<<1, 2, -1>>', '<<1, 2, 3, -1>>', '<<-1, 1, 2, -1>>', '<<1, 2, 3, 1>>']
    jobs = [
        ('a', dict(a=3), WIDE, ['<<1>>', '<<-1>>', '<<1, -1>>', '<<1, 1>>', '<<-1, -1>>'], 3),
        ('a', dict(a=1), WIDE, ['<<1>>', '<<-1>>'], 2),
        ('ab', dict(a=2, b=3), WIDE, two, 1),
        ('ab', dict(a=3, b=2), some[:7] if not big else some, ['<<1>>', '<<1, 2>>', '<<-1, 1>>'], 2 if not big else 3),
        ('abc', dict(a=2, b=3, c=2), some if not big else WIDE, three, 1),
        ('abc', dict(a=3, b=1, c=2), some[:5], ['<<1>>', '<<1, 2>>', '<<-1, 1>>', '<<1, -1, 2>>'], 2)]
    for start, lengths, exprs, templates, depth in jobs:
        g = chain(check, start, lengths, exprs, templates, depth, unitnames='m', foreign='{}')
        for w in walks(check, g, 100, 8):
            replay(check, g, w, start, lengths, check.rng, f'{len(start)}-D')
