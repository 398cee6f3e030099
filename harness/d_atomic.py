"""Atomic species (P24).

TLC enumerates elements, charges, masses near those of the elements, and lists of them (specs/Atomic.tla), with the
species they stand for or their refusal.
"""
#: P24
import random
import core
from core import outcome


def wrong(sp, want, rng):
    """What is wrong with the species `sp`, whose parts are read in random order."""
    from eprempy import physical
    symbol = want['symbol'] + ''.join(want['signs'])
    mass = want['mass'] / 1000000
    unit = "nuc"
    checks = dict(symbol=lambda: sp.symbol == symbol, m=lambda: abs(sp.m - mass) < 1e-9, q=lambda: sp.q == want['charge'],
                  mass=lambda: (isinstance(sp.mass, physical.Scalar) and abs(float(sp.mass) - mass) < 1e-9 and sp.mass.unit == unit),
                  charge=lambda: (isinstance(sp.charge, physical.Scalar) and float(sp.charge) == want['charge'] and sp.charge.unit == 'e'),
                  str=lambda: symbol in str(sp))
    order = list(checks) * 2
    rng.shuffle(order)
    for name in order:
        got = outcome(checks[name])
        if got != ('ok', True):
            return f'{name}: {outcome(lambda: str(getattr(sp, name)))[1]} ({got[1]}); expected {symbol}, {mass} nucleons, {want["charge"]} e'


def masses(ms, rng):
    """Forms in which masses may be given."""
    import numpy
    from eprempy import physical
    v = [m // 1000000 if m % 1000000 == 0 and rng.random() < .6 else m / 1000000 for m in ms]
    forms = [lambda: list(v), lambda: tuple(v), lambda: numpy.array(v), lambda: physical.array(v, unit='nuc') if v else v,
             lambda: physical.vector(v, unit='nuc') if v else v]
    if len(v) == 1:
        forms += [lambda: v[0], lambda: v[0], lambda: numpy.float64(v[0])]
    return rng.choice(forms)()


def charges(qs, rng, exact=False):
    import numpy
    from eprempy import physical
    # a charge which was converted to another unit and back is off by rounding
    v = [q if exact or rng.random() < .6 else float(q) * rng.choice([1, 1 - 1e-15, 1 + 1e-15, 1 - 1e-7]) for q in qs]
    forms = [lambda: list(v), lambda: tuple(v), lambda: numpy.array(v), lambda: physical.array(v, unit='e') if v else v]
    if len(v) == 1:
        forms += [lambda: v[0], lambda: v[0]]
    return rng.choice(forms)()


def replay(check, built, rng):
    from eprempy import atomic
    bad = [b for b in built if b['r']['out'] == 'refused']
    m, q = masses([b['m'] for b in built], rng), charges([b['q'] for b in built], rng)
    got = outcome(lambda: atomic.elements(mass=m, charge=q))
    check.steps += 1
    text = f'elements(mass={m!r}, charge={q!r})'
    if bad:
        if got[0] == 'ok' or not isinstance(got[1], atomic.MassValueError):
            check.violation('refusal of a mass', f'{text} gave {got[1]!r}')
    else:
        want = [b['r']['s']['symbol'] + ''.join(b['r']['s']['signs']) for b in built]
        if got != ('ok', want):
            check.violation(f'elements of {len(want)}', f'{text} gave {got[1]!r}; expected {want}')
        if len(built) > 1:
            got = outcome(lambda: atomic.elements(mass=masses([b['m'] for b in built[1:]], rng), charge=charges([b['q'] for b in built], rng)))
            # one value against several may not be meant for all of them
            if got[0] == 'ok':
                check.violation('different lengths', f'{len(built) - 1} masses and {len(built)} charges gave {got[1]!r}')
    if len(built) == 1:
        b = built[0]
        mm, qq = masses([b['m']], rng), charges([b['q']], rng)
        got = outcome(lambda: atomic.species(mass=mm, charge=qq))
        check.steps += 1
        if bad:
            if got[0] == 'ok':
                check.violation('refusal of a mass', f'species(mass={mm!r}, charge={qq!r}) gave {got[1]}')
            return
        text = f'species(mass={mm!r}, charge={qq!r})'
        why = wrong(got[1], b['r']['s'], rng) if got[0] == 'ok' else f'raised {got[1]!r}'
        if why:
            check.violation('species by mass and charge', f'{text}: {why}')
            return
        # the way back, and round again
        sp = got[1]
        again = outcome(lambda: atomic.species(sp.symbol))
        why = wrong(again[1], b['r']['s'], rng) if again[0] == 'ok' else f'raised {again[1]!r}'
        if why:
            check.violation('species by symbol', f'species({sp.symbol!r}): {why}')
            return
        once = outcome(lambda: atomic.species(mass=again[1].m, charge=again[1].q).symbol)
        if once != ('ok', sp.symbol):
            check.violation('round trip', f'{sp.symbol}: {once[1]!r}')


def check_P24(check):
    from eprempy import atomic
    big, rng = check.thorough, check.rng
    every = '1..109'
    strays = '{0, 2000000, 3000000, 5000000, 299000000, 264999999, 82000000}'
    sets = [(every, '{0}', '(0-9)..9', 1), (every, '{0, 70, 0-70, 40000, 0-40000}', '{0, 1, 0-2}', 1),
            ('{1, 2, 8, 20, 21, 27, 28, 92}', '{0}', '{0, 1, 0-1, 11}', 2)]
    if big:
        sets += [(every, '{0, 120000, 0-120000, 200000, 0-200000, 1, 0-1}', '{0-11, 0, 3, 14}', 1), ('{1, 2, 28, 109}', '{0, 90}', '{1, 0-2}', 3)]
    table = None
    for which, offsets, charged, n in sets:
        r = check.tlc('Atomic', consts=dict(Which=which, Offsets=offsets, Charges=charged, MaxLen=str(n), Strays=strays))
        for x in r.records:
            if 'table' in x:
                table = x['table']
                continue
            for _ in range(2 if big else 1):
                replay(check, x['built'], rng)
    # the table of elements
    for symbol, name, mass in table:
        for key in (symbol, name, mass / 1000000):
            unique = sum(1 for t in table if key in (t[0], t[1], t[2] / 1000000)) == 1
            got = outcome(lambda: atomic.ELEMENTS.find(key, unique=True))
            check.steps += 1
            if unique and (got[0] != 'ok' or (got[1]['symbol'], got[1]['name'], float(got[1]['mass'])) != (symbol, name, mass / 1000000)):
                check.violation('table of elements', f'find({key!r}): {got[1]!r}; expected {(symbol, name, mass / 1000000)}')
            if not unique and got[0] == 'ok':
                check.violation('ambiguous entry', f'find({key!r}, unique=True): {got[1]!r}')
    if len(list(atomic.ELEMENTS)) != len(table):
        check.violation('table of elements', f'{len(list(atomic.ELEMENTS))} entries; expected {len(table)}')
    for bad in ['', 'X', 'Hy+', 'h+', '+', '++H', 'H+e', 'Xx--']:
        got = outcome(lambda: (atomic.species(bad).mass, atomic.species(bad).charge))
        if got[0] == 'ok':
            check.violation('unknown symbol', f'species({bad!r}): {got[1]!r}')
    for args, kwargs in [(('H', 'He'), {}), ((), {}), (('H',), dict(mass=1, charge=0)), ((), dict(mass=1, charge=0, spin=1))]:
        got = outcome(lambda: atomic.species(*args, **kwargs))
        if got[0] == 'ok':
            check.violation('refused arguments', f'species(*{args}, **{kwargs}): {got[1]!r}')
