"""Axes: looking up coordinates (P16), ordered sets of dimensions and axes (P25).

TLC enumerates axes, what is done to them, and what a lookup must find (specs/AxisLookup.tla); the
driver builds real axes of every kind, spells targets in every way that is accepted, and compares.
"""
#: P16 P25
import fractions, random
import core
from core import outcome
from d_array import NOINT, expr, show

F = fractions.Fraction
#: units with their exact value in the first
FAMILIES = [dict(m=F(1), cm=F(1, 100), km=F(1000)), dict(s=F(1), hour=F(3600), min=F(60)), dict(J=F(1), kJ=F(1000), erg=F(1, 10**7)),
            {'m/s': F(1), 'km/s': F(1000), 'cm s^-1': F(1, 100)}, {'cm': F(1), 'm': F(100), 'mm': F(1, 10)}]
FOREIGN = ['K', 'A', 'mol']
#: values of the abstract coordinates, as numbers of the first unit
VALUES = [lambda c: F(c, 4) + F(1, 8), lambda c: F(c - 3) * F(5, 4), lambda c: F(10) ** (c - 4) * 3, lambda c: F(1) + F(c, 5000),
          lambda c: F(c * c, 2) - 40 if c < 4 else F(c * c, 2) + 1000, lambda c: F(c), lambda c: F(c) / 10]
WORDS = ['a', 'aa', 'B', 'b', 'H+', 'He+2', 'He', '', 'r 1', 'z9', 'Z', '3']


class World:
    def __init__(self, kind, rng):
        self.kind, self.rng = kind, rng
        self.family = rng.choice(FAMILIES)
        self.units = dict(zip(('u0', 'u1', 'u2'), rng.sample(list(self.family), 3)))
        self.f = rng.choice(VALUES)
        self.words = rng.sample(WORDS, len(WORDS))
        self.base = rng.choice([0, 0, 5, 1000])

    def number(self, c, unit):
        """The coordinate `c` as a number of `unit` (u0, u1, u2)."""
        return float(self.f(c) * self.family[next(iter(self.family))] / self.family[self.units[unit]])

    def label(self, c):
        return self.words[c] if self.kind == 'symbols' else self.base + 3 * c

    def build(self, ax):
        import numpy
        from eprempy import physical, measured, quantity
        rng = self.rng
        if self.kind == 'coords':
            v, u = [self.number(c, ax['unit']) for c in ax['pos']], self.units[ax['unit']]
            k = rng.randrange(4)
            if k == 0:
                return physical.coordinates(measured.sequence(v, unit=u))
            if k == 1:
                return physical.axes(x=measured.sequence(numpy.array(v), unit=u))['x']
            if k == 2:
                return physical.axes(x=(*v, u))['x']
            return physical.coordinates(quantity.measure(*v, u))
        v = [self.label(c) for c in ax['pos']]
        if self.kind == 'symbols':
            return physical.symbols(v) if rng.random() < .5 else physical.axes(x=v)['x']
        k = rng.randrange(4)
        if v == list(range(len(v))) and rng.random() < .5:
            v = range(len(v))
        if k == 0:
            return physical.axes(x=v)['x']
        if k == 1:
            return physical.points(numpy.array(v))
        if k == 2:
            return physical.axes(x=numpy.array(v))['x']
        return physical.points(v)

    def spell(self, lab, axunit):
        """Arguments that look up the targets of `lab`."""
        import numpy
        from eprempy import physical, measured, quantity
        rng, ts = self.rng, lab['ts']
        if self.kind == 'symbols':
            return tuple(self.label(c) for c in ts)
        if self.kind == 'points':
            v = [self.label(c) for c in ts]
            k = rng.randrange(5)
            if k == 0:
                return (v,)
            if k == 1:
                return (numpy.array(v),)
            if k == 2:
                return (tuple(v),)
            if k == 3:
                return tuple(numpy.int64(x) for x in v)
            return tuple(v)
        if lab['unit'] == 'none':
            v = [self.number(c, axunit) for c in ts]
            k = rng.randrange(4)
            if k == 0:
                return (v,)
            if k == 1:
                return (tuple(v),)
            if k == 2:
                return (measured.sequence(v),)
            return tuple(v)
        v, u = [self.number(c, lab['unit']) for c in ts], self.units[lab['unit']]
        k = rng.randrange(9 if len(v) == 1 else 6)
        if k == 0:
            return (*v, u)
        if k == 1:
            return ((*v, u),)
        if k == 2:
            return (measured.sequence(v, unit=u),)
        if k == 3:
            return (quantity.measure(*v, u),)
        if k == 4:
            return (physical.coordinates(measured.sequence(v, unit=u)),)
        if k == 5:
            return tuple((x, u) for x in v) if len(v) > 1 else ((v[0], u),)
        if k == 6:
            return (measured.value(v[0], unit=u),)
        if k == 7:
            return (physical.scalar(v[0], unit=u),)
        return (repr(v[0]), u)


def wrong(obj, ax, w):
    """What is wrong with axis `obj`, which should be `ax`."""
    import numpy
    from eprempy import physical
    if type(obj).__name__ != dict(points='Points', symbols='Symbols', coords='Coordinates')[w.kind]:
        return f'type {type(obj)}'
    if len(obj) != len(ax['pos']) or obj.length != len(ax['pos']):
        return f'length {len(obj)} ({obj.length}); expected {len(ax["pos"])}'
    if w.kind == 'coords':
        want = [w.number(c, ax['unit']) for c in ax['pos']]
        got = [float(x) for x in numpy.array(obj.data)]
        from eprempy import metric
        if not obj.unit == metric.unit(w.units[ax['unit']]):
            return f'unit {obj.unit}; expected {w.units[ax["unit"]]}'
        if any(abs(g - v) > 1e-12 * abs(v) for g, v in zip(got, want)):
            return f'values {got}; expected {want}'
        got = [float(x) for x in obj]
        if any(abs(g - v) > 1e-12 * abs(v) for g, v in zip(got, want)):
            return f'iterates over {got}; expected {want}'
        return None
    want = [w.label(c) for c in ax['pos']]
    if list(obj.data) != want or list(obj) != want:
        return f'labels {list(obj.data)} (iterates over {list(obj)}); expected {want}'
    return None


def positions(idx):
    from eprempy import numeric
    if isinstance(idx, numeric.index.Value):
        return [int(idx)]
    return [int(i) for i in idx]


def look(check, obj, ax, lab, w, trail):
    args = w.spell(lab, ax['unit'])
    kw = {} if lab['side'] == 'none' else dict(closest=lab['side'])
    name = f'{w.kind}:lookup' + (':' + lab['side'] if kw else '')
    text = f'{obj!r} ({trail}): index({", ".join(map(repr, args))}{", closest=" + lab["side"] if kw else ""})'
    how, got = outcome(lambda: obj.index(*args, **kw))
    if lab['found']['out'] == 'refused':
        if how == 'ok':
            check.violation(name + ':refused', f'{text} gave {got!r}')
    elif how == 'err':
        check.violation(name, f'{text}: {type(got).__name__}: {got}')
    elif positions(got) != lab['found']['at']:
        check.violation(name, f'{text} gave {positions(got)}; expected {lab["found"]["at"]}')
    if lab['side'] == 'none' and lab['unit'] == 'none' and len(lab['ts']) == 1:
        # membership is what can be looked up
        x = args[0]
        if w.kind == 'coords':
            from eprempy import measured
            c = lab['ts'][0]
            x = obj.data[ax['pos'].index(c)] if lab['inside'][0] else measured.value(w.number(c, ax['unit']), unit=obj.unit)
        elif w.kind == 'points':
            x = w.label(lab['ts'][0])
        how, got = outcome(lambda: x in obj)
        if how == 'err' or bool(got) != lab['inside'][0]:
            check.violation(f'{w.kind}:in', f'{x!r} in {obj!r}: {got!r}')


def refusals(check, obj, ax, w):
    """Targets that no axis of this kind has."""
    rng = w.rng
    if w.kind == 'coords':
        x = w.number(ax['pos'][0], ax['unit'])
        cases = [(x, rng.choice(FOREIGN)), (None,), ('nothing',)]
    elif w.kind == 'points':
        cases = [(w.label(ax['pos'][0]) + 1,), (-1 - w.label(ax['pos'][0]),), (w.label(ax['pos'][0]) + .5,)]
    else:
        cases = [(None,), (0,), (w.label(ax['pos'][0]) + '?',), (w.label(ax['pos'][0]), 'no such symbol')]
    for args in cases:
        for kw in [{}] if w.kind != 'coords' or args[0] == x else [{}, dict(closest='lower')]:
            how, got = outcome(lambda: obj.index(*args, **kw))
            check.steps += 1
            if how == 'ok':
                check.violation(f'{w.kind}:refused', f'{obj!r}.index{args} gave {got!r}')


def plain(check, ax, lab, w):
    """Look up positions on an axis without labels."""
    import numpy
    from eprempy import physical
    rng, n, ts = w.rng, len(ax['pos']), lab['ts']
    obj = physical.Axis(rng.choice([list, tuple, numpy.array])([w.rng.randrange(100) for _ in range(n)]))
    args = rng.choice([lambda: tuple(ts), lambda: (list(ts),), lambda: (numpy.array(ts),), lambda: (tuple(ts),),
                       lambda: tuple(numpy.int32(t) for t in ts)])()
    check.steps += 1
    how, got = outcome(lambda: obj.index(*args))
    text = f'Axis of length {n}: index({", ".join(map(repr, args))})'
    if lab['out'] == 'refused':
        if how == 'ok':
            check.violation('plain:lookup:refused', f'{text} gave {got!r}')
    elif how == 'err':
        check.violation('plain:lookup', f'{text}: {type(got).__name__}: {got}')
    elif [i % n for i in positions(got)] != [t % n for t in ts]:
        check.violation('plain:lookup', f'{text} gave {positions(got)}')
    how, got = outcome(lambda: obj.index())
    if how == 'err' or positions(got) != list(range(n)):
        check.violation('plain:all', f'Axis of length {n}: index() gave {got!r}')


def origins(check, obj, sources, n, w, text):
    """Does the axis know the positions at which it was selected, in what it was selected from or in the first axis?"""
    for call in (lambda: obj.indices, lambda: obj.index()):
        how, got = outcome(call)
        check.steps += 1
        if how == 'err' or not any([i % m for i in positions(got)] == at for at, m in sources):
            check.violation(f'{w.kind}:indices', f'{text}: indices {got!s}; expected {sources[0][0]}')
            return


def seq(s):
    return '<<' + ', '.join(s) + '>>'


def check_P16(check):
    import d_array, numpy
    big, rng = check.thorough, check.rng
    starts = ['1357', '3', '15', '7531', '3175', '1353'] + (['135791', '9137', '2468'] if big else [])
    exprs = d_array.WIDE if big else [d_array.WIDE[i] for i in (0, 2, 3, 6, 8, 9, 12, 14, 15, 18, 21, 22, 23, 24, 26)]
    one = [str(i) for i in range(0, 10 if big else 9)]
    many = ['13', '31', '11', '135', '157', '14', '41', '02', '8', '753'] + (['1357', '7777', '963', '4682', '0099'] if big else [])
    r = check.tlc('AxisLookup', consts=dict(
        Starts='{' + ', '.join(seq(s) for s in starts) + '}', Targets='{' + ', '.join(seq(s) for s in sorted(set(one + many))) + '}',
        Exprs='{' + ', '.join(exprs) + '}', Depth='4' if big else '3'), xmx='12g')
    by = {}
    for rec in r.records:
        by.setdefault(core.canon(rec['pre']), []).append(rec)
    starts_ = [k for k in by if by[k][0]['pre']['pos'] in [[int(c) for c in s] for s in starts] and by[k][0]['pre']['unit'] == 'u0']
    budget = 60000 if big else 8000
    done = set()
    for n in range(budget):
        # a history of the axis, with lookups after every step
        key = rng.choice(starts_) if n >= len(starts_) * 4 else starts_[n % len(starts_)]
        ax = by[key][0]['pre']
        w = World(ax['kind'], rng)
        obj = w.build(ax)
        held, trail = [(obj, ax)], []
        root = (list(range(len(ax['pos']))), len(ax['pos']))
        for _ in range(4 if big else 3):
            bad = wrong(obj, ax, w)
            if bad:
                op = trail[-1].split('(')[0].split('[')[0] or 'subscript' if trail else 'build'
                check.violation(f'{w.kind}:{op}', f'{" ".join(trail)}: {bad}')
                break
            looks = [x['last'] for x in by[core.canon(ax)] if x['last']['op'] == 'lookup']
            if rng.random() < .3:
                for lab in rng.sample(plains := [x['last'] for x in by[core.canon(ax)] if x['last']['op'] == 'plain'], min(3, len(plains))):
                    plain(check, ax, lab, w)
            if not trail and (w.kind != 'points' or [w.label(c) for c in ax['pos']] == list(range(len(ax['pos'])))):
                origins(check, obj, [(list(range(len(ax['pos']))), len(ax['pos']))], 0, w, f'{obj!r}')
            for lab in rng.sample(looks, min(4, len(looks))):
                check.steps += 1
                check.count(f'{w.kind} lookup {lab["side"]} {"own unit" if lab["unit"] == "none" else "unit"}')
                look(check, obj, ax, lab, w, ' '.join(trail))
            if rng.random() < .1:
                refusals(check, obj, ax, w)
            moves = [x for x in by[core.canon(ax)] if x['last']['op'] not in ('lookup', 'plain')]
            if not moves:
                break
            rec = rng.choice(moves)
            lab = rec['last']
            check.steps += 1
            check.count(f'{w.kind} {lab["op"]}')
            done.add(core.canon([ax, lab]))
            if lab['op'] == 'convert':
                u = w.units[lab['unit']]
                trail.append(f'withunit({u})')
                how, new = outcome(obj.withunit, u)
            else:
                i = expr(lab['expr'], rng)
                at = list(lab['at'])
                if lab['expr']['k'] == 'list' and at and sorted(set(at)) == at and rng.random() < .5:
                    # the same selection as a mask
                    i = rng.choice([list, numpy.array])([p in at for p in range(len(ax['pos']))])
                trail.append(show([lab['expr']]))
                how, new = outcome(lambda: obj[i])
                if lab['out'] == 'refused':
                    if how == 'ok':
                        check.violation(f'{w.kind}:subscript:refused', f'{obj!r} {trail}: {new!r}')
                    trail.pop()
                    continue
            if how == 'err':
                check.violation(f'{w.kind}:{lab["op"]}', f'{obj!r} {trail}: {type(new).__name__}: {new}')
                break
            if lab['op'] == 'sub':
                m = len(ax['pos'])
                sources = [(at, m)] + ([([root[0][p] for p in at], root[1])] if root else [])
                if at != list(range(m)):
                    origins(check, new, sources, m, w, f'{obj!r}[{i!r}]')
                root = ([root[0][p] for p in at], root[1]) if root else None
            else:
                root = None
            obj, ax = new, rec['post']
            held.append((obj, ax))
        for o, a in held:
            bad = wrong(o, a, w)
            if bad:
                check.violation(f'{w.kind}:modified', f'after {" ".join(trail)}: {bad}')
        check.traces += 1
        check.sample(f'{w.kind} {held[0][1]["pos"]} ' + ' '.join(trail))
    check.extra['distinct_moves'] = len(done)


# ---------------------------------------------------------------- P25: names

NAMES = [dict(a='time', b='shell', c='species', d='mu'), dict(a='x', b='y', c='xy', d='yx'), dict(a='c', b='a', c='b', d='aa'),
         dict(a='x1', b='x0', c='x2', d='x')]


def operand(y, name, rng, mapping=None, left=False):
    """A dimensions-like object with the names of `y`."""
    from eprempy import numeric
    names = [name[n] for n in y['names']]
    forms = [list, tuple] if left else [list, tuple, lambda x: numeric.dimensions(*x), lambda x: numeric.dimensions(x)]
    if len(names) == 1 and not left:
        forms.append(lambda x: x[0])
    return rng.choice(forms)(names)


def dims_step(obj, lab, name, rng):
    """The operation `lab` on dimensions `obj`, as a function."""
    from eprempy import numeric
    op = lab['op']
    if 'y' in lab and op != 'compare':
        left = op.startswith('r')
        y = operand(lab['y'], name, rng, left=left and rng.random() < .7)
        if isinstance(y, str) and op == 'rsub':
            y = [y]
        x = obj
        if left:
            x, y = y, x
        f = dict(or_=lambda: x | y, and_=lambda: x & y, sub=lambda: x - y, xor=lambda: x ^ y)[
            {'or': 'or_', 'ror': 'or_', 'and': 'and_', 'rand': 'and_', 'sub': 'sub', 'rsub': 'sub', 'xor': 'xor', 'rxor': 'xor'}[op]]
        return f, f'{x!s} {op} {y!s}'
    if op == 'permute':
        q = lab['q']
        k = rng.randrange(3)
        text = f'{obj!s}.permute({q})'
        if k == 0 and q:
            return (lambda: obj.permute(*q)), text
        return ((lambda: obj.permute(q)) if k == 1 else (lambda: obj.permute(order=tuple(q)))), text
    if op == 'replace':
        return (lambda: obj.replace(name[lab['old']], name[lab['new']])), f'{obj!s}.replace({name[lab["old"]]}, {name[lab["new"]]})'
    if op == 'insert':
        i = lab['i']
        return (lambda: obj.insert(name[lab['name']], i) if i >= 0 else obj.insert(name[lab['name']])), f'{obj!s}.insert({name[lab["name"]]}, {i})'
    if op == 'insert odd':
        return (lambda: obj.insert(name[lab['name']], lab['i'])), f'{obj!s}.insert({name[lab["name"]]}, {lab["i"]})'
    if op == 'without':
        return (lambda: obj - name[lab['name']]), f'{obj!s} - {name[lab["name"]]}'
    if op == 'build':
        s = [name[n] for n in lab['s']]
        k = rng.randrange(3)
        return (lambda: numeric.dimensions(*s) if k == 0 and s else numeric.dimensions(tuple(s) if k == 1 else s)), f'dimensions({s})'
    return None, None


def dims_wrong(obj, st, name):
    from eprempy import numeric
    want = [name[n] for n in st['names']]
    if type(obj) is not numeric.Dimensions:
        return f'type {type(obj)}'
    if list(obj) != want or len(obj) != len(want) or [obj[i] for i in range(len(want))] != want:
        return f'{list(obj)}; expected {want}'
    if any(obj[i - len(want)] != want[i] or want[i] not in obj or obj.index(want[i]) != i for i in range(len(want))):
        return f'{list(obj)}: item, membership or index disagree'
    if any(name[n] in obj for n in name if n not in st['names']) or obj.count(want[0] if want else 'x') != len(want[:1]):
        return f'{list(obj)}: membership'
    if not (obj == want and obj == tuple(want)) or obj != list(want) or (want and obj == want[1:]) or (len(want) > 1 and obj == want[::-1]):
        return f'{list(obj)}: equality'
    twin = numeric.dimensions(*want)
    if not obj == twin or hash(obj) != hash(twin) or not obj == obj.copy():
        return f'{list(obj)}: equality with its like'
    return None


def names_of(check, names, tags, wild, maxlen=3):
    r = check.tlc('Names', consts=dict(Names='{' + ', '.join(f'"{n}"' for n in names) + '}', Tags='{' + ', '.join(map(str, tags)) + '}',
                                       Wild=wild, MaxLen=str(maxlen)), xmx='12g')
    return r.records


def preserves(got, a, b):
    return sorted(got) == sorted(set(a) | set(b)) and [x for x in got if x in a] == a and [x for x in got if x in b] == b


def compare_step(check, a, b, lab, text, kind):
    import operator
    clash = kind == 'axes' and lab['clash']
    le, ge = lab['le'], lab['ge']
    for sym, want in (('lt', le and not ge), ('le', le), ('gt', ge and not le), ('ge', ge)):
        how, got = outcome(getattr(operator, sym), a, b)
        if clash:
            if how == 'ok':
                check.violation(f'{kind}:compare', f'{text}: {sym} gave {got!r} though shared axes differ')
        elif how == 'err' or got != want:
            check.violation(f'{kind}:compare', f'{text}: {sym} gave {got!r}; expected {want}')
    eq = lab['same'] if kind == 'axes' else lab['eq']
    if (a == b) is not eq or (a != b) is eq:
        check.violation(f'{kind}:eq', f'{text}: == gave {a == b!r}; expected {eq}')


def check_dims(check, by, n):
    import operator
    from eprempy import numeric
    rng = check.rng
    states = list(by)
    todo = [(k, i) for k in states for i in range(len(by[k]))]
    rng.shuffle(todo)
    for key, i in todo[:n]:
        name = rng.choice(NAMES)
        rec = by[key][i]
        st = rec['pre']
        obj = numeric.dimensions(*[name[x] for x in st['names']])
        held = [(obj, st)]
        for _ in range(3):
            lab = rec['last']
            op = lab['op']
            check.steps += 1
            check.count('dims ' + op)
            if op == 'compare':
                y = operand(lab['y'], name, rng)
                if not isinstance(y, str):
                    compare_step(check, obj, y, lab, f'{obj!s} and {y!s}', 'dims')
                    how, got = outcome(obj.mismatch, y)
                    if (how == 'ok') is not lab['match']:
                        check.violation('dims:mismatch', f'{obj!s}.mismatch({y!s}): {got!r}')
            else:
                f, text = dims_step(obj, lab, name, rng)
                if f:
                    how, got = outcome(f)
                    if lab['out'] == 'refused':
                        if how == 'ok':
                            check.violation(f'dims:{op}:refused', f'{text} gave {got!s}')
                    elif how == 'err' and lab['out'] == 'maybe':
                        pass
                    elif how == 'err':
                        check.violation(f'dims:{op}', f'{text}: {type(got).__name__}: {got}')
                    else:
                        to = rec['post']
                        if op in ('or', 'ror', 'xor', 'rxor') and isinstance(got, numeric.Dimensions):
                            back = {v: k for k, v in name.items()}
                            w = [back.get(x) for x in got]
                            a, b = st['names'], lab['y']['names']
                            if op.endswith('xor'):
                                a, b = [x for x in a if x not in lab['y']['names']], [x for x in b if x not in st['names']]
                            if preserves(w, a, b):
                                to = dict(to, names=w)
                        bad = dims_wrong(got, to, name)
                        if bad:
                            check.violation(f'dims:{op}', f'{text}: {bad}')
                            break
                        obj, st = got, to
                        held.append((obj, st))
            k = next((x for x in states if by[x][0]['pre']['names'] == st['names']), None)
            if k is None:
                break
            rec = rng.choice(by[k])
        for o, s in held:
            bad = dims_wrong(o, s, name)
            if bad:
                check.violation('dims:modified', bad)
        check.traces += 1


class Labels:
    """The axes that names stand for: one for each name and tag."""

    def __init__(self, rng):
        from eprempy import physical, measured
        self.name = rng.choice(NAMES)
        self.made = {}
        for n in self.name:
            k = rng.randrange(4)
            if k == 0:
                v = [0.5, 1.5, 4.0][:rng.choice([2, 3])]
                two = [(v, 'au'), (v, 's')] if rng.random() < .5 else [(v, 'au'), (v[:-1] + [7.0], 'au')]
                make = [measured.sequence(x, unit=u) for x, u in two]
            elif k == 1:
                make = [['p', 'q'], ['q', 'p']]
            elif k == 2:
                make = [range(3), [0, 1, 3]]
            else:
                make = [[2, 4], [2, 4, 6]]
            self.made[n] = [physical.axes(x=m)['x'] for m in make]
            if rng.random() < .2:
                self.made[n].reverse()

    def axis(self, n, t):
        return self.made[n][t - 1]

    def axes(self, st, rng):
        from eprempy import physical
        m = {self.name[n]: self.axis(n, st['tag'][n]) for n in st['names']}
        k = rng.randrange(3)
        if k == 0:
            return physical.axes(**m)
        return physical.axes(m) if k == 1 else physical.axes(dimensions=list(m), axes=list(m.values()))


def axes_wrong(obj, st, w):
    import numpy
    from eprempy import physical
    if not isinstance(obj, physical.Axes):
        return f'type {type(obj)}'
    want = [w.name[n] for n in st['names']]
    if list(obj) != want or list(obj.names) != want or list(obj.dimensions) != want or len(obj) != len(want) or list(obj.keys()) != want:
        return f'names {list(obj)}, {obj.names}, {obj.dimensions}; expected {want}'
    for i, n in enumerate(st['names']):
        a = w.axis(n, st['tag'][n])
        for got in (obj[w.name[n]], obj[i], obj[i - len(want)], obj.get(w.name[n])):
            if type(got) is not type(a) or list(got.data) != list(a.data) or getattr(got, 'unit', 0) != getattr(a, 'unit', 0):
                return f'axis {w.name[n]} is {got!r}; expected {a!r}'
        if w.name[n] not in obj:
            return f'{w.name[n]} not in {obj!r}'
    for n in w.name:
        if n not in st['names'] and w.name[n] in obj:
            return f'{w.name[n]} in {obj!r}'
    how, got = outcome(lambda: obj[len(want)])
    if how == 'ok' or not isinstance(got, KeyError):
        return f'axes[{len(want)}] gave {got!r}'
    if not obj == obj.copy() or obj != obj.copy():
        return f'{obj!r} is not equal to its copy'
    return None


def axes_step(obj, lab, w, rng):
    op = lab['op']
    if op in ('or', 'ror'):
        y = w.axes(lab['y'], rng)
        if op == 'ror':
            return (lambda: y | obj), f'{y} | {obj}'
        z = dict(y) if rng.random() < .3 else y
        return (lambda: obj | z), f'{obj} | {z}'
    if op == 'permute':
        q, k = lab['q'], rng.randrange(3)
        return (lambda: obj.permute(*q) if k == 0 and q else obj.permute(q) if k == 1 else obj.permute(order=q)), f'{obj}.permute({q})'
    if op == 'permute names':
        s, k = [w.name[n] for n in lab['s']], rng.randrange(3)
        return (lambda: obj.permute(*s) if k == 0 and s else obj.permute(s) if k == 1 else obj.permute(order=s)), f'{obj}.permute({s})'
    if op == 'extract':
        s = [w.name[n] for n in lab['s']]
        return (lambda: obj.extract(*s)), f'{obj}.extract({s})'
    if op == 'without':
        n = w.name[lab['name']]
        strict = lab['there'] and rng.random() < .5
        return (lambda: obj.without(n, strict=True) if strict else obj.without(n)), f'{obj}.without({n}, {strict})'
    if op == 'replace':
        old, new, a = w.name[lab['old']], w.name[lab['new']], w.axis(lab['new'], lab['t'])
        if old == new and rng.random() < .5:
            return (lambda: obj.replace(old, a)), f'{obj}.replace({old}, {a})'
        return (lambda: obj.replace(old, **{new: a})), f'{obj}.replace({old}, {new}={a})'
    if op == 'insert':
        n, i, a = w.name[lab['name']], lab['i'], w.axis(lab['name'], lab['t'])
        return (lambda: obj.insert(n, a) if i < 0 else obj.insert(n, a, index=i)), f'{obj}.insert({n}, {a}, index={i})'
    if op == 'insert odd':
        n, i, a = w.name[lab['name']], lab['i'], w.axis(lab['name'], lab['t'])
        return (lambda: obj.insert(n, a, index=i)), f'{obj}.insert({n}, {a}, index={i})'
    if op == 'insert by':
        n, old, a = w.name[lab['name']], w.name[lab['old']], w.axis(lab['name'], lab['t'])
        return (lambda: obj.insert(n, a, **{lab['where']: old})), f'{obj}.insert({n}, {a}, {lab["where"]}={old!r})'
    return None, None


def other_side(st, lab):
    """The axes after an insertion on the side opposite to the requested one."""
    names = list(st['names'])
    names.insert(names.index(lab['old']) + (lab['where'] == 'before'), lab['name'])
    return dict(st, names=names, tag=dict(st['tag'], **{lab['name']: lab['t']}))


def check_axes(check, by, n):
    rng = check.rng
    states = [k for k in by if by[k][0]['pre']['names']]
    todo = [(k, i) for k in states for i in range(len(by[k]))]
    rng.shuffle(todo)
    w = None
    for j, (key, i) in enumerate(todo[:n]):
        if j % 50 == 0:
            w = Labels(rng)
        rec = by[key][i]
        st = rec['pre']
        obj = w.axes(st, rng)
        held = [(obj, st)]
        for _ in range(3):
            lab = rec['last']
            op = lab['op']
            check.steps += 1
            check.count('axes ' + op)
            y = lab.get('y')
            if op == 'compare':
                if y['names']:
                    b = w.axes(y, rng)
                    compare_step(check, obj, b, lab, f'{obj} and {b}', 'axes')
            elif not (y and not y['names']):
                f, text = axes_step(obj, lab, w, rng)
                if f:
                    how, got = outcome(f)
                    refused = lab['out'] == 'refused' or op == 'replace' and not lab['there']
                    if refused:
                        if how == 'ok':
                            check.violation(f'axes:{op}:refused', f'{text} gave {got}')
                    elif how == 'err' and lab['out'] == 'maybe':
                        pass
                    elif how == 'err':
                        check.violation(f'axes:{op}', f'{text}: {type(got).__name__}: {got}')
                        break
                    elif op == 'insert by' and not axes_wrong(got, other_side(st, lab), w):
                        check.violation('axes:insert on the other side', f'{text} gave {got}')
                        obj, st = got, other_side(st, lab)
                    elif rec['post']['names']:
                        to = rec['post']
                        if op in ('or', 'ror'):
                            back = {v: k for k, v in w.name.items()}
                            g = [back.get(x) for x in got]
                            if preserves(g, st['names'], y['names']):
                                to = dict(to, names=g)
                        bad = axes_wrong(got, to, w)
                        if bad:
                            check.violation(f'axes:{op}', f'{text}: {bad}')
                            break
                        obj, st = got, to
                        held.append((obj, st))
            k = core.canon(st)
            if k not in by:
                break
            rec = rng.choice(by[k])
        for o, s in held:
            bad = axes_wrong(o, s, w)
            if bad:
                check.violation('axes:modified', bad)
        check.traces += 1


def group(records):
    by = {}
    for r in records:
        for k in ('pre', 'post'):
            r[k]['names'] = list(r[k]['names'])
        by.setdefault(core.canon(r['pre']), []).append(r)
    return by


def check_P25(check):
    import d_array
    big = check.thorough
    wild = 'UNION {[1..n -> -3..2] : n \\in 0..3}'
    by = group(names_of(check, 'abc', [1, 2], wild))
    check_axes(check, by, 10**9 if big else 25000)
    plain = group(names_of(check, 'abcd', [1], wild if not big else 'UNION {[1..n -> -4..3] : n \\in 0..4}', 4 if big else 3))
    check_dims(check, plain, 10**9)
    check_axes(check, plain, 10**9 if big else 5000)
    # arrays permute names, data and axes together
    for start, lengths, depth in [('a', dict(a=3), 2), ('ab', dict(a=2, b=3), 4), ('abc', dict(a=2, b=3, c=2), 4 if big else 3), ('abc', dict(a=3, b=1, c=1), 3)]:
        g = d_array.chain(check, start, lengths, d_array.SMALL[:3], ['<<1>>'], depth, unitnames='m', foreign='{}')
        for w in d_array.walks(check, g, 3000 if big else 300, 8):
            d_array.replay(check, g, w, start, lengths, check.rng, f'{len(start)}-D')
