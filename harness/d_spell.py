"""Spellings of measurements (P27).

TLC enumerates nested spellings with their meaning (specs/Spellings.tla), and chains of measuring, converting and
subscripting measured objects (specs/Remeasure.tla).
"""
#: P27
import core
from core import outcome

NUMBERS = [1.1, 2.3, -5.8, 0.0, 7, 3, 0, -4, 12.5, 1e-3, 2e20, 40, 6.25, -1, 9]
UNITS = [dict(m=['m', 'meter', 'U:m'], cm=['cm', 'U:cm', 'centimeter']),
         dict(m=['m / s', 'm s^-1', 'U:m / s', 's^-1 m'], cm=['s', 'U:s', 'second']),
         dict(m=['au', 'U:au', 'astronomical unit'], cm=['m', 'U:m', 'meter']),
         dict(m=['nuc', 'U:nuc'], cm=['e', 'U:e'])]
FACTOR = {'m': 100, 'cm': 1, 'km': 100000, '1': 1}


def error(got):
    return f'{type(got).__name__}: {got}'


class Writer:
    """Writes a term, noting the numbers in it."""

    def __init__(self, rng):
        self.rng, self.values, self.units = rng, [], rng.choice(UNITS)

    def number(self):
        import fractions, numpy
        v = self.rng.choice(NUMBERS)
        self.values.append(v)
        how = self.rng.random()
        return (v if how < .6 else numpy.float64(v) if how < .8 else
                numpy.int64(v) if isinstance(v, int) and how < .9 else numpy.float32(v) if v == int(v) and abs(v) < 100 else v)

    def unit(self, name):
        from eprempy import metric
        if name in ('one', 'unit1'):
            return self.rng.choice(['1', metric.unit('1')]) if name == 'unit1' else '1'
        u = self.rng.choice(self.units[name])
        return metric.unit(u[2:]) if u.startswith('U:') else u

    def write(self, t):
        import numpy
        if t['k'] == 'num':
            return self.number()
        if t['k'] == 'str':
            v = self.rng.choice([n for n in NUMBERS if n != 1])
            self.values.append(float(v))
            return repr(v) if self.rng.random() < .7 else f' {v!r} ' if self.rng.random() < .5 else f'{v:+}'
        if t['k'] != 'list':
            return self.unit(t['k'])
        kinds = {x['k'] for x in t['v']}
        if self.arrays and kinds == {'num'} and len(t['v']) > 1 and self.rng.random() < .3:
            if self.rng.random() < .3:
                n = self.rng.randrange(5)
                self.values += range(n, n + len(t['v']))
                return range(n, n + len(t['v']))
            x = numpy.array([float(self.number()) for _ in t['v']])
            return x
        parts = [self.write(x) for x in t['v']]
        return parts if self.rng.random() < .5 else tuple(parts)


def arrays(t, top=True):
    """Whether plain lists of numbers in this term may be written as arrays: alone, or with a unit."""
    if t['k'] != 'list':
        return True
    if all(x['k'] == 'num' for x in t['v']):
        return True
    return len(t['v']) == 2 and t['v'][0]['k'] == 'list' and all(x['k'] == 'num' for x in t['v'][0]['v']) and t['v'][1]['k'] in ('m', 'cm')


def spellings(check, records):
    import numpy
    from eprempy import metric, quantity as q
    rng = check.rng
    refusals = (q.MeasuringTypeError, q.ParsingTypeError, q.ParsingValueError)
    accepted = [r for r in records if r['r']['out'] in ('ok', 'either')]
    for rec in records + accepted * (40 if check.thorough else 12):
        t, want = rec['t'], rec['r']
        if want['out'] == 'unspecified':
            continue
        w = Writer(rng)
        w.arrays = arrays(t)
        x = w.write(t)
        v = w.values
        name = want['unit']
        unit = None if want['out'] == 'refused' else metric.unit('1') if name == '1' else metric.unit(w.units[name][0].replace('U:', ''))
        text = f'{x!r}'
        check.steps += 1
        check.count(want['out'])
        args = tuple(x) if t['k'] == 'list' and isinstance(x, (list, tuple)) and x and rng.random() < .4 else (x,)
        how, got = outcome(q.measure, *args)
        parsed = outcome(lambda: q.parse(x) if rng.random() < .5 else q.parse(x, distribute=False))
        spread = outcome(lambda: q.parse(x, distribute=True))
        data = outcome(q.getdata, x)
        if want['out'] == 'refused' or want['out'] == 'either' and how == 'err' and parsed[0] == 'err':
            for name, (how, got) in dict(measure=(how, got), parse=parsed, distribute=spread).items():
                if how == 'ok':
                    check.violation(f'{name}:refuse', f'{name} {text} gave {got!r}; expected to be refused')
                elif not isinstance(got, refusals):
                    check.violation(f'{name}:error', f'{name} {text}: {error(got)}')
            if not (data[0] == 'ok' and data[1] is None) or outcome(q.hasdata, x) != ('ok', False):
                check.violation('getdata:refuse', f'getdata of {text}: {data[1]!r}')
            if outcome(q.ismeasurable, x) != ('ok', False) and want['out'] == 'refused' and not mixed(t):
                check.violation('ismeasurable:refuse', f'ismeasurable {text}: {outcome(q.ismeasurable, x)[1]!r}')
            continue
        check.traces += 1
        if how == 'err':
            check.violation('measure', f'measure {text} as {len(args)} argument(s): {error(got)}; expected {v} {unit}')
        elif want['out'] == 'either':
            # lists of lists of numbers may keep their shape
            if not (isinstance(got, q.Measurement) and got.unit == unit and numpy.ravel(got.data).tolist() == v):
                check.violation('measure:either', f'measure {text} gave {got!r}; expected {v} {unit}')
            continue
        elif not (isinstance(got, q.Measurement) and got.unit == unit and numpy.ndim(got.data) == 1 and list(got.data) == v):
            check.violation('measure', f'measure {text} gave {got!r}; expected {v} {unit}')
        else:
            again(check, q, got, v, unit, text)
        how, got = parsed
        if how == 'err' or not (len(got) == len(v) + 1 and list(got[:-1]) == v and isinstance(got[-1], str) and metric.unit(got[-1]) == unit):
            check.violation('parse', f'parse {text}: {error(got) if how == "err" else repr(got)}; expected {v} {unit}')
        how, got = spread
        if how == 'err' or not (isinstance(got, tuple) and len(got) == len(v) and all(isinstance(g, tuple) and len(g) == 2 for g in got)
                                and [g[0] for g in got] == v and all(isinstance(g[1], str) and metric.unit(g[1]) == unit for g in got)):
            check.violation('distribute', f'parse {text} with distribute: {error(got) if how == "err" else repr(got)}; expected {v} {unit}')
        how, got = data
        if how == 'err' or not numpy.array_equal(numpy.ravel(got), v):
            check.violation('getdata', f'getdata {text}: {error(got) if how == "err" else repr(got)}; expected {v}')
        if 'str' not in str(t) and want['out'] == 'ok' and plain(t) and outcome(q.ismeasurable, x) != ('ok', True):
            check.violation('ismeasurable', f'ismeasurable {text}: {outcome(q.ismeasurable, x)[1]!r}')
    check.sample(f'{len(records)} spellings')


def plain(t):
    """Whether this is one of the spellings listed as measurable, without superfluous lists inside."""
    if t['k'] == 'one':
        return False
    return t['k'] != 'list' or all(plain(x) for x in t['v'])


def mixed(t):
    """Whether parts of this have units of their own, or are not lists all alike."""
    return t['k'] == 'list' and (any(mixed(x) for x in t['v']) or sum(x['k'] == 'list' for x in t['v']) > 1)


def again(check, q, m, v, unit, text):
    import numpy
    how, got = outcome(lambda: [q.measure(m) == m, q.measurement(m) == m, q.measurement(v, unit=unit) == m, q.measure(v, unit) == m, q.ismeasurable(m)])
    if (how, got) != ('ok', [True] * 5):
        check.violation('again', f'measuring {text} again: {error(got) if how == "err" else got}')


def rejects(check):
    from eprempy import quantity as q, metric
    for x in (None, slice(None), slice(1, 2), {}, (), [], set(), object(), 1j, len, metric.unit('m'), 'word', '', [None], [None, 'm'], ['a', 'b', 'm'], [1, None], [[1, None], 'm'], [1j, 'm'], [[1j, 2], 'm'],
              [[], 'm'], [(), ()], [[[]]], [1, 2, None, 'm'], [object(), 'm'], [[1, 'a'], 'm'], ['x', 'm'], [['x', 'y'], 'm']):
        for name, f, e in (('measure', q.measure, q.MeasuringTypeError), ('parse', q.parse, (q.ParsingTypeError, q.ParsingValueError))):
            how, got = outcome(f, x)
            check.steps += 1
            if how == 'ok' or not isinstance(got, e):
                check.violation(f'{name}:reject', f'{name} {x!r}: {error(got) if how == "err" else repr(got)}')
        if x is not None and outcome(q.ismeasurable, x) != ('ok', False):
            check.violation('ismeasurable:reject', f'ismeasurable {x!r}: {outcome(q.ismeasurable, x)[1]!r}')
    if outcome(q.measure)[0] == 'ok':
        check.violation('measure:reject', 'measure of nothing')


class Explicit:
    """An object which can be measured."""
    def __init__(self, x, unit): self.x, self.unit = x, unit
    def __measure__(self):
        from eprempy import quantity
        return quantity.measurement(self.x, unit=self.unit)


def chains(check, records, walks):
    import numpy
    from eprempy import measured, physical, quantity as q, metric
    rng = check.rng
    by = {}
    for r in records:
        by.setdefault(core.canon(r['pre']), []).append(r)
    todo = list(records) + [None] * walks
    starts = sorted(by)
    make = dict(value=measured.value, sequence=measured.sequence, measurement=q.measurement, scalar=physical.scalar, vector=physical.vector, tensor=physical.tensor, array=physical.array)
    for rec in todo:
        steps = 1 if rec else 5
        rec = rec or rng.choice(by[rng.choice(starts)])
        pre = rec['pre']
        base = [rng.choice([500000, 12345, 100, -7, 3, 2e10, 250]) for _ in range(3)]
        val = lambda st: [base[n - 1] / FACTOR[st['unit']] for n in st['w']]
        v = val(pre)
        if pre['unit'] != '1' and all(x == int(x) for x in v) and rng.random() < .5:
            v = [int(x) for x in v]
        single = pre['kind'] in ('value', 'scalar')
        arg = v[0] if single else rng.choice([list, tuple, numpy.array])(v)
        unit = rng.choice([pre['unit'], metric.unit(pre['unit'])])
        how, obj = outcome(lambda: make[pre['kind']](arg) if pre['unit'] == '1' and rng.random() < .5 else make[pre['kind']](arg, unit=unit))
        trail = f'{pre["kind"]} of {v} {pre["unit"]}'
        if how == 'err':
            check.violation('make', f'{trail}: {error(obj)}')
            continue
        held = [(obj, pre)]
        for _ in range(steps):
            lab, post = rec['last'], rec['post']
            op = lab['op']
            check.steps += 1
            check.count(op)
            trail += f', {" ".join(map(str, lab.values()))}'
            if op == 'to':
                f = lambda: make[lab['kind']](obj)
            elif op == 'measure':
                how_ = rng.random()
                f = (lambda: q.measure(obj)) if how_ < .6 else (lambda: q.measure([obj])) if how_ < .8 else (lambda: q.measure(Explicit(obj.data, obj.unit))) if how_ < .9 else lambda: q.measure(obj)
            elif op == 'withunit':
                f = lambda: obj.withunit(rng.choice([lab['unit'], metric.unit(lab['unit'])]))
            else:
                n = lab['n'] - 1
                f = rng.choice([lambda: obj[n], lambda: list(obj)[n], lambda: obj[n - len(obj)]])
            how, got = outcome(f)
            if how == 'err':
                check.violation(op, f'{trail}: {error(got)}')
                break
            held.append((got, post))
            bad = None
            for o, st in [held[-1]] + rng.sample(held[:-1], min(len(held) - 1, 1)):
                bad = bad or wrong(o, st, val(st), make)
            if bad:
                check.violation(op, f'{trail}: {bad}')
                break
            obj = got
            nxt = by.get(core.canon(post))
            if not nxt:
                break
            rec = rng.choice(nxt)
        check.traces += 1


def close(x, y):
    return abs(float(x) - y) <= 1e-12 * abs(y)


def wrong(obj, st, v, make):
    import numpy
    from eprempy import measured, physical, quantity as q
    types = dict(value=measured.Value, sequence=measured.Sequence, measurement=q.Measurement, scalar=physical.Scalar, vector=physical.Vector, tensor=physical.Tensor, array=physical.Array)
    if not isinstance(obj, types[st['kind']]):
        return f'{type(obj).__name__} is not a {st["kind"]}'
    if obj.unit != st['unit'] or obj.isunitless != (st['unit'] == '1'):
        return f'{obj!r} has unit {obj.unit}; expected {st["unit"]}'
    single = st['kind'] in ('value', 'scalar')
    got = numpy.ravel(numpy.array(obj.data))
    if len(got) != len(v) or not all(map(close, got, v)) or (single and numpy.ndim(obj.data)):
        return f'{obj!r} is not {v} {st["unit"]}'
    if st['kind'] in ('sequence', 'measurement', 'vector'):
        if len(obj) != len(v) or not all(isinstance(x, measured.Object) and close(float(x), w) and x.unit == st['unit'] for x, w in zip(obj, v)):
            return f'{obj!r} has elements {list(obj)}'
        if st['kind'] != 'vector' and obj.size != len(v):
            return f'{obj!r} has size {obj.size}'
        if numpy.asarray(obj).shape != (len(v),):
            return f'{obj!r} as array: {numpy.asarray(obj)!r}'
    if single or (len(v) == 1 and st['kind'] == 'measurement'):
        if not close(float(obj), v[0]) or int(obj) not in (int(v[0]), int(float(obj))):
            return f'{obj!r} as number: {float(obj)}, {int(obj)}'
    elif st['kind'] == 'measurement' and not isinstance(outcome(float, obj)[1], TypeError):
        return f'{obj!r} as number: {outcome(float, obj)[1]}'
    m = q.measure(obj)
    if not (isinstance(m, q.Measurement) and m.unit == obj.unit and all(map(close, numpy.ravel(m.data), v))):
        return f'measured: {m!r}'
    if not (q.measure(m) == m):
        return f'measured again: {q.measure(m)!r}'
    if m != q.measure(obj):
        return f'{m!r} differs from {q.measure(obj)!r}'
    return None


def check_P27(check):
    t = check.thorough
    r = check.tlc('Spellings', consts={'Wide': '4'} if t else None, timeout=600)
    spellings(check, r.records)
    rejects(check)
    r = check.tlc('Remeasure')
    chains(check, r.records, 15000 if t else 1500)
    check.assumptions += ["'1' among numeric strings, text with a number and a unit, and unknown units are unspecified"]
