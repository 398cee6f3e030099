"""Index expressions, index arithmetic and restriction (P26).

TLC says what every bounded index expression denotes on every bounded shape (specs/IndexExprs.tla with
Index.tla), what arithmetic on indices gives (specs/IndexArith.tla), and which range encloses targets.
"""
#: P26
import itertools, operator
import core
from core import outcome
from d_array import NOINT, WIDE, expr, show

OPS = dict(add=operator.add, sub=operator.sub, mul=operator.mul, floordiv=operator.floordiv, mod=operator.mod, pow=operator.pow,
           eq=operator.eq, ne=operator.ne, lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge,
           neg=operator.neg, pos=operator.pos, abs=abs)


def concrete(e, rng, ix):
    """One index, possibly as an index object or a range."""
    import numpy
    if e['k'] == 'int' and rng.random() < .15:
        return ix.value(e['i'])
    if e['k'] == 'list' and rng.random() < .3:
        v = e['l']
        if v and v == list(range(v[0], v[0] + len(v))) and rng.random() < .5:
            return range(v[0], v[0] + len(v))
        return tuple(v) if rng.random() < .5 else ix.sequence(v)
    return expr(e, rng)


def expressions(check, records):
    import numpy
    from eprempy import numeric
    ix, rng = numeric.index, check.rng
    for rec in records:
        lab = rec['last']
        shape, x = tuple(rec['pre']['shape']), lab['x']
        a = numpy.arange(int(numpy.prod(shape))).reshape(shape) * 7 + 3
        args = tuple(concrete(e, rng, ix) for e in x)
        whole = all(e['k'] != 'list' for e in x)
        single = len(args) == 1 and x[0]['k'] != 'list' and rng.random() < .6
        arg = args[0] if single else (args if rng.random() < .8 or not whole else list(args))
        check.steps += 1
        check.count('select' if lab['ok'] else 'refuse')
        text = f'shape {shape}, {arg!r}'
        if lab['ok']:
            want = a[numpy.ix_(*[list(p) for p in lab['sel']])].ravel().tolist() if all(lab['sel']) else []
        for name in ('normalize', 'resolve'):
            f = getattr(ix, name)
            how, got = outcome(lambda: a[tuple(f(shape, arg)) if isinstance(f(shape, arg), list) else f(shape, arg)])
            if not lab['ok']:
                # numpy does not look at indices when another selects nothing; and it accepts an
                # ellipsis that stands for no axis anywhere
                if how == 'ok' and got.size and (lab['expandable'] or sum(e['k'] != 'ell' for e in x) > len(shape)):
                    check.violation(f'{name}:refused', f'{text}: {f(shape, arg)!r}')
            elif how == 'err':
                check.violation(name, f'{text}: {type(got).__name__}: {got}')
            elif numpy.ravel(got).tolist() != want:
                check.violation(name, f'{text}: selects {numpy.ravel(got).tolist()}; expected {want}')
        # expansion depends only on the number of dimensions
        how, got = outcome(ix.expand, len(shape), arg)
        if not lab['ok'] and not lab['expandable']:
            if how == 'ok':
                check.violation('expand:refused', f'{text}: {got!r}')
        elif how == 'err':
            check.violation('expand', f'{text}: {type(got).__name__}: {got}')
        elif lab['ok']:
            full = lab['full']
            if not isinstance(got, (tuple, list)) or any(g is Ellipsis for g in got) or len(got) > len(shape):
                check.violation('expand', f'{text}: {got!r}')
            else:
                if any(e['k'] == 'ell' for e in x) and len(got) != len(shape):
                    check.violation('expand', f'{text}: {got!r} has not {len(shape)} entries')
                for g, e in itertools.zip_longest(got, full, fillvalue=slice(None)):
                    want_ = [args[k] for k in range(len(x)) if x[k] == e and e['k'] != 'ell'] + ([slice(None)] if show([e]) == '[::]' else [])
                    if not any(type(g) is type(w) and numpy.array_equal(g, w) if not isinstance(g, (slice, numeric.index.Object)) else g is w or isinstance(g, slice) and g == w for w in want_):
                        check.violation('expand', f'{text}: {got!r} has {g!r} for {show([e])}')
                        break
        check.traces += 1
        check.sample(f'{shape} {show(x)}')


def index(x, rng, ix, left=None):
    import numpy
    if x['kind'] == 'int':
        return rng.choice([int, int, numpy.int64])(x['v'][0]) if left is not True else x['v'][0]
    if x['kind'] == 'value':
        v = x['v'][0]
        k = rng.randrange(4)
        return ix.value(v) if k < 2 else ix.value(numpy.array([v])) if k == 2 else ix.value(str(v))
    v = list(x['v'])
    k = rng.randrange(4)
    if v and v == list(range(v[0], v[0] + len(v))) and k == 0:
        return ix.sequence(range(v[0], v[0] + len(v)))
    return ix.sequence(v if k == 1 else tuple(v) if k == 2 else numpy.array(v, dtype=int))


def differs(obj, st, ix):
    import numpy
    if type(obj) is not (ix.Value if st['kind'] == 'value' else ix.Sequence):
        return f'type {type(obj)} ({obj!r})'
    if st['kind'] == 'value':
        if [int(obj)] != st['v'] or operator.index(obj) != st['v'][0] or not obj == st['v'][0]:
            return f'{int(obj)}; expected {st["v"][0]}'
        return None
    got = [int(i) for i in obj]
    if got != list(st['v']) or len(obj) != len(st['v']):
        return f'{got}; expected {st["v"]}'
    for i in range(-len(got), len(got)):
        if type(obj[i]) is not ix.Value or int(obj[i]) != got[i]:
            return f'item {i} of {got} is {obj[i]!r}'
    if [int(i) for i in obj[1:]] != got[1:] or [int(i) for i in obj[::-1]] != got[::-1]:
        return f'slices of {got}: {obj[1:]!r}, {obj[::-1]!r}'
    return None


def arithmetic(check, records, walks):
    import numpy
    from eprempy import numeric
    ix, rng = numeric.index, check.rng
    by = {}
    for r in records:
        by.setdefault(core.canon(r['pre']), []).append(r)
    starts = sorted(by)
    todo = list(records) + [None] * walks
    for rec in todo:
        steps = 1 if rec else 4
        rec = rec or rng.choice(by[rng.choice(starts)])
        st = rec['pre']
        obj = index(st, rng, ix)
        held = [(obj, st)]
        for _ in range(steps):
            lab = rec['last']
            op = lab['op']
            check.steps += 1
            check.count(op)
            if op == 'shift':
                kw = {}
                if lab['lo'] != NOINT:
                    kw['floor'] = lab['lo']
                if lab['hi'] != NOINT:
                    kw['ceil'] = lab['hi']
                text = f'{obj!r}.shift({lab["k"]}, {kw})'
                how, got = outcome(lambda: obj.shift(lab['k'], **kw))
            elif op in ('neg', 'pos', 'abs'):
                text = f'{op} {obj!r}'
                how, got = outcome(OPS[op], obj)
            else:
                l, r = ([obj, index(lab['r'], rng, ix)] if lab['l'] == st and lab['r'] != st or lab['l'] == st and rng.random() < .5
                        else [index(lab['l'], rng, ix, True), obj])
                text = f'{l!r} {op} {r!r}'
                if 'truth' in lab:
                    how, got = outcome(OPS[op], l, r)
                    if how == 'err':
                        check.violation(op, f'{text}: {type(got).__name__}: {got}')
                    elif numpy.ravel(got).tolist() != lab['truth']:
                        check.violation(op, f'{text} gave {got!r}; expected {lab["truth"]}')
                    how = None
                else:
                    how, got = outcome(OPS[op], l, r)
                    if lab['out'] == 'refused':
                        if how == 'ok':
                            check.violation(f'{op}:refused', f'{text} gave {got!r}')
                        how = None
            if how == 'err':
                check.violation(op, f'{text}: {type(got).__name__}: {got}')
                break
            if how == 'ok':
                bad = differs(got, rec['post'], ix)
                if bad:
                    check.violation(op, f'{text}: {bad}')
                    break
                obj, st = got, rec['post']
                held.append((obj, st))
            k = core.canon(st)
            if k not in by:
                break
            rec = rng.choice(by[k])
        for o, s in held:
            bad = differs(o, s, ix)
            if bad:
                check.violation('modified', bad)
        check.traces += 1
    factories(check, ix)
    # operands that are not whole numbers, and true division, are refused
    for a in (ix.value(3), ix.sequence([1, 2])):
        for b in (1.5, 'a', None):
            for op in ('add', 'sub', 'mul', 'floordiv', 'mod'):
                for l, r in ((a, b), (b, a)):
                    if isinstance(l, str) and op == 'mod':
                        continue
                    how, got = outcome(OPS[op], l, r)
                    check.steps += 1
                    if how == 'ok':
                        check.violation('float operands', f'{l!r} {op} {r!r} gave {got!r}')
        how, got = outcome(lambda: a / 2)
        if how == 'ok':
            check.violation('true division', f'{a!r} / 2 gave {got!r}')


def factories(check, ix):
    """Every spelling of one index or several makes the same index."""
    import numpy
    from eprempy import measured
    for v in ([3], [0], [-2], [1, 2], [4, 1, 1], [-1, 0, 5]):
        forms = [v, tuple(v), numpy.array(v), [str(i) for i in v], measured.sequence(v), ix.sequence(v), [ix.value(i) for i in v],
                 [numpy.int64(i) for i in v]]
        if len(v) == 1:
            forms += [v[0], str(v[0]), numpy.int64(v[0]), numpy.array(v[0]), ix.value(v[0]), measured.value(v[0])]
        if v == list(range(v[0], v[0] + len(v))):
            forms.append(range(v[0], v[0] + len(v)))
        for x in forms:
            for f, kind in ((ix.value, 'value'), (ix.sequence, 'sequence')):
                check.steps += 1
                how, got = outcome(f, x)
                if kind == 'value' and len(v) > 1:
                    if how == 'ok':
                        check.violation('value:refused', f'index.value({x!r}) gave {got!r}')
                    continue
                bad = f'{type(got).__name__}: {got}' if how == 'err' else differs(got, dict(kind=kind, v=v), ix)
                if bad:
                    check.violation(f'{kind}:{type(x).__name__}', f'index.{kind}({x!r}): {bad}')
    for x in (1.5, '1.5', 'a', None, numpy.array([1.5]), measured.value(1, unit='m'), {1: 2}):
        for f in (ix.value, ix.sequence):
            how, got = outcome(f, x)
            if how == 'ok':
                check.violation('factory:refused', f'{f.__name__}({x!r}) gave {got!r}')


VALUE = [lambda v: v, lambda v: v / 4 - 1, lambda v: 10.0 ** (v - 3), lambda v: v * 1e8 + .5]


def restriction(check, records):
    import numpy
    from eprempy import numeric
    rng = check.rng
    for rec in records:
        g, lab = rec['pre']['grid'], rec['last']
        f = rng.choice(VALUE)
        rows = numpy.array([[f(v) for v in row] for row in g], dtype=float)
        ts = [f(t) for t in lab['ts']]
        want = list(range(lab['lower'], lab['upper'] + 1))
        forms = [(rows, 1), (rows.T, 0), (rows, -1)]
        if len(g) == 1:
            forms += [(rows[0], 0), (rows[0], -1), (rows[0].tolist(), 0)]
        for arr, axis in forms:
            check.steps += 1
            check.count('restrict')
            text = f'restrict({numpy.array(arr).tolist()}, {ts}, axis={axis})'
            how, got = outcome(lambda: numeric.index.restrict(arr, *ts, axis=axis))
            if how == 'err':
                check.violation(f'restrict:{numpy.ndim(arr)}-D axis {axis}', f'{text}: {type(got).__name__}: {got}')
            elif [int(i) for i in got] != want:
                check.violation(f'restrict:{numpy.ndim(arr)}-D axis {axis}', f'{text} gave {got}; expected {want}')
        check.traces += 1


def seqs(items):
    return '{' + ', '.join('<<' + ', '.join(map(str, s)) + '>>' for s in items) + '}'


def check_P26(check):
    big, rng = check.thorough, check.rng
    ell = ['Ell']
    few = [WIDE[i] for i in (0, 3, 6, 8, 9, 13, 15, 16, 21, 22, 24, 26)]
    runs = [([(3,), (1,), (4,)], WIDE + ell, 2), ([(2, 3), (3, 1), (1, 1)], WIDE + ell if big else few + ell, 2),
            ([(2, 3), (2, 3, 2)], few[:8] + ell if big else few[:5] + ell, 4), ([(2, 3, 2), (3, 1, 4)], few + ell if big else few[:8] + ell, 3)]
    for shapes, exprs, n in runs:
        r = check.tlc('IndexExprs', consts=dict(Shapes=seqs(shapes), Exprs='{' + ', '.join(exprs) + '}', MaxLen=str(n)), xmx='12g')
        expressions(check, r.records)
    rows = [(2, 4, 6), (1, 5), (3,), (2, 3, 7, 8), (0, 2, 9), (4, 5, 6)]
    grids = [[r] for r in rows] + [[a, b] for a in rows for b in rows if len(a) == len(b)] + [[(2, 4, 6), (0, 2, 9), (4, 5, 6)]]
    ts = [t for n in range(1, 4 if big else 3) for t in itertools.product(range(10), repeat=n)]
    r = check.tlc('IndexExprs', consts=dict(Grids='{' + ', '.join('<<' + ', '.join('<<' + ', '.join(map(str, s)) + '>>' for s in g) + '>>' for g in grids) + '}',
                                            Targets=seqs(ts)), xmx='8g')
    restriction(check, r.records)
    numbers = '{-4, -2, -1, 0, 1, 3, 5}' if big else '{-3, -1, 0, 2, 5}'
    ops = [(0, 1), (2, -1), (3, 2), (-2, 0, 4), (1,), (1, 2, 3)] + ([(-1, -5), (4, 4, 1, 0)] if big else [])
    r = check.tlc('IndexArith', consts=dict(Numbers=numbers, Operands=seqs(ops), Starts=seqs(ops), Depth='2' if big else '1'), xmx='12g')
    recs = r.records
    if len(recs) > 60000:
        recs = rng.sample(recs, 60000)
    arithmetic(check, recs, 30000 if big else 4000)
