"""Observables: subscripts and units (P17), definitions (P18), interpolation (P19).

TLC enumerates requests with the axes and the exact values they must give (specs/Observe.tla).  The harness writes the
stored values to datafiles, sends every request to shared observers in varying spellings, units and orders, and compares.
"""
#: P17 P18 P19
import fractions, json, math, os, pathlib
import numpy, scipy.integrate
import core, synth
from core import outcome


def q(v):
    return fractions.Fraction(v[0], v[1])


GRID = dict(time=('day', fractions.Fraction(1, 8)), shell=('au', fractions.Fraction(1, 32)), energy=('MeV', fractions.Fraction(1)), mu=('1', fractions.Fraction(1, 4)))
SPELL = dict(time=[('day', 1), ('d', 1), ('h', 24), ('hour', 24), ('min', 1440), ('s', 86400)], shell=[('au', 1), ('km', 149597870.7), ('m', 149597870700.0), ('cm', 14959787070000.0)],
             energy=[('MeV', 1), ('keV', 1e3), ('eV', 1e6), ('GeV', 1e-3)], mu=[('1', 1), ('1', 1)])
ISYM = {}
# the names by which each observable is known
GROUPS = json.loads((pathlib.Path(__file__).parent / 'observables.json').read_text()).values()
# observables which are stored: class, name in the datafile, unit there, unit in each system
STORED = dict(
    time=('t', 'time', 'day', 's', 's'), energy=('e', 'egrid', 'MeV', 'J', 'erg'), v=('e', 'vgrid', 'km / s', 'm / s', 'cm / s'), mu=('m', 'mu', '1', '1', '1'),
    mass=('p', 'mass', 'nuc', 'kg', 'g'), charge=('p', 'charge', 'e', 'C', 'statC'), r=('r', 'R', 'au', 'm', 'cm'),
    theta=('ts', 'T', 'rad', 'rad', 'rad'), phi=('ts', 'P', 'rad', 'rad', 'rad'), br=('ts', 'Br', 'nT', 'T', 'G'), btheta=('ts', 'Bt', 'nT', 'T', 'G'), bphi=('ts', 'Bp', 'nT', 'T', 'G'),
    ur=('ts', 'Vr', 'km / s', 'm / s', 'cm / s'), utheta=('ts', 'Vt', 'km / s', 'm / s', 'cm / s'), uphi=('ts', 'Vp', 'km / s', 'm / s', 'cm / s'), rho=('ts', 'Rho', 'cm^-3', 'm^-3', 'cm^-3'),
    f=('tspem', 'Dist', 's^3 / km^6', 's^3 / m^6', 's^3 / cm^6'), flux=('tspe', 'flux', 'cm^-2 s^-1 sr^-1 MeV^-1', 'm^-2 s^-1 sr^-1 J^-1', 'cm^-2 s^-1 sr^-1 erg^-1'))
DIMS = dict(t=['time'], e=['energy'], m=['mu'], p=['species'], ts=['time', 'shell'], r=['time', 'shell'], tspe=['time', 'shell', 'species', 'energy'], tspem=['time', 'shell', 'species', 'energy', 'mu'])


def affine(name):
    """How the stored value depends on that of the specification: a factor and a shift."""
    F = fractions.Fraction
    if name in ('time', 'energy', 'mu', 'r'):
        return dict(time=F(1, 8), energy=F(1), mu=F(1, 4), r=F(1, 32))[name], F(0)
    if name == 'mass':
        return F(3, 31), 1 - F(9, 31)
    if name == 'charge':
        return F(1, 31), 1 - F(3, 31)
    i = list(STORED).index(name)
    return F(1 + i, 8), F(i * i, 4)


def datafile(path, full, sizes, kind):
    nt, ns, np, ne, nm = sizes
    shape = dict(time=nt, shell=ns, species=np, energy=ne, mu=nm)
    data = dict(shell=numpy.arange(ns), phiOffset=numpy.zeros(nt))
    for name, (cls, key, *_) in STORED.items():
        if (key == 'Dist') != (kind == 'dist') and key in ('Dist', 'flux'):
            continue
        a, b = affine(name)
        x = numpy.array([float(a * q(v) + b) for v in full[cls]]).reshape([shape[d] for d in DIMS[cls]])
        data[key] = numpy.tile(x, (np, 1)) if key in ('egrid', 'vgrid') else x
    synth.write(path, data)
    return data


def respell(d, form, rng, species):
    """One way to write the part of a request for dimension d."""
    from eprempy import physical, quantity
    k = form['k']
    if k == 'int':
        return rng.choice([form['i'], form['i'], numpy.int64(form['i'])])
    if k == 'slice':
        return slice(*[None if form[x] == 99 else form[x] for x in 'ijs'])
    if k == 'list':
        return rng.choice([list, tuple, numpy.array])(form['l'])
    if k == 'symbol':
        s = [species[i] if i < len(species) else '!@' for i in form['p']]
        return s[0] if len(s) == 1 and rng.random() < .7 else rng.choice([list, tuple])(s)
    v = [float(q(x) * GRID[d][1]) for x in form['v']]
    u, m = rng.choice(SPELL[d])
    v = [x * m for x in v]
    if d == 'mu':
        # unitless scalars, vectors and measurements are positions (documented)
        return rng.choice([lambda: (*v, u), lambda: [*v, u], lambda: (list(v), u), lambda: [(x, u) for x in v]])()
    ways = [lambda: (*v, u), lambda: [*v, u], lambda: (list(v), u), lambda: quantity.measure(*v, u), lambda: physical.vector(v, u), lambda: [(x, u) for x in v]]
    if len(v) == 1:
        ways += [lambda: (v[0], u), lambda: physical.scalar(v[0], u), lambda: quantity.measure(v[0], u)]
    return rng.choice(ways)()


def index(dims, forms, rng, species):
    parts = [respell(d, f, rng, species) for d, f in zip(dims, forms)]
    if len(dims) == 1:
        # a tuple gives one index per dimension, or a measurement
        if forms[0]['k'] in ('int', 'slice') and rng.random() < .25:
            return rng.choice([(parts[0],), (parts[0], ...)])
        return list(parts[0]) if isinstance(parts[0], tuple) and forms[0]['k'] != 'value' else parts[0]
    if rng.random() < .5:
        n = len(parts)
        while n and isinstance(parts[n - 1], slice) and parts[n - 1] == slice(None):
            n -= 1
        if n < len(parts):
            parts = parts[:n]
            # a single subscript stands for the first dimension; several have to account for all dimensions
            if len(parts) == 1 and not isinstance(parts[0], (tuple, list, numpy.ndarray)) and rng.random() < .5:
                return parts[0]
            parts.append(...)
    if len(parts) == 1 and parts[0] is ... and rng.random() < .8:
        return parts[0]
    return tuple(parts)


def label(dims, forms):
    kinds = {'value': 'value', 'symbol': 'symbol', 'list': 'list', 'slice': 'slice', 'int': 'int'}
    out = []
    for d, f in zip(dims, forms):
        if f['k'] != 'int' or f['i'] != 0:
            t = kinds[f['k']]
            if t == 'int' and f['i'] < 0:
                t = 'negative'
            if t == 'value' and len(f['v']) > 1:
                t = 'values'
            if t == 'list' and not f['l']:
                t = 'empty'
            out.append(f'{d} {t}')
    return ', '.join(out) or 'first'


def same_axes(a, res, species, shape):
    """Do the axes of an array agree with those of the specification?  Returns None or what does not."""
    from eprempy import metric
    names = [x['name'] for x in res['axes']]
    if list(a.dimensions) != names:
        return f'dimensions {list(a.dimensions)}; expected {names}'
    if list(a.axes) != names:
        return f'axes {list(a.axes)}; expected {names}'
    if tuple(a.shape) != tuple(len(x['values']) for x in res['axes']):
        return f'shape {a.shape}; expected {[len(x["values"]) for x in res["axes"]]}'
    for x in res['axes']:
        axis, want = a.axes[x['name']], [q(v) for v in x['values']]
        if len(axis) != len(want):
            return f'the {x["name"]} axis has length {len(axis)}; expected {len(want)}'
        if x['name'] == 'species':
            if [str(s) for s in axis.data] != [species[int(w)] for w in want]:
                return f'species {axis.data}'
        elif x['name'] == 'shell':
            if [int(i) for i in axis.data] != want:
                return f'shells {axis.data}; expected {[int(w) for w in want]}'
        else:
            u, m = GRID['shell' if x['name'] == 'radius' else x['name']]
            got = outcome(lambda: numpy.array(axis.data.withunit(u), dtype=float).ravel())
            if got[0] != 'ok' or not numpy.allclose(got[1], [float(w * m) for w in want], rtol=1e-9, atol=1e-12):
                return f'the {x["name"]} axis is {axis}; expected {[float(w * m) for w in want]} {u}'
    return None


def observers(d, kind, full, sizes, rng):
    """The same contents as a stream and as a point observer, in each metric system."""
    from eprempy import eprem
    folder = d / f'{kind}{len(list(d.iterdir()))}'
    folder.mkdir()
    data = datafile(folder / 'obs000000.nc', full, sizes, kind)
    datafile(folder / 'p_obs001.nc', full, sizes, kind)
    np = sizes[2]
    synth.config(folder / 'eprem.cfg', mass=[1.0, 4.0][:np], charge=[1.0, 2.0][:np], numSpecies=np)
    out = []
    for system in ('mks', 'cgs', 'MKS', None):
        kw = {} if system is None else dict(system=system)
        made = rng.choice([lambda: eprem.stream(0, 'eprem.cfg', folder, **kw), lambda: eprem.point('001', 'eprem.cfg', folder, **kw),
                           lambda: eprem.dataset(source=folder, config='eprem.cfg', **kw).streams[0]])
        o = outcome(made)
        out.append((o, system))
    return out, data


def consts(sizes, classes, free, rich, big):
    V = lambda *vs: '{' + ', '.join('<<' + ', '.join(f'<<{a}, {b}>>' for a, b in v) + '>>' for v in vs) + '}'
    T = [[(1, 1)], [(1, 2)], [(2, 1)], [(-1, 2)], [(9, 2)], [(1, 1), (3, 1)], [(0, 1), (3, 4)]] + ([[(4, 1)], [(5, 2), (1, 4)], [(1, 2), (9, 2)], [(0, 1)], [(4, 1), (0, 1)]] if rich else [])
    R = [[(10, 1)], [(13, 1)], [(9, 1)], [(15, 1), (19, 2)], [(3, 1)], [(60, 1)], [(23, 1)]] + ([[(4, 1)], [(16, 1)], [(15, 1), (60, 1)], [(13, 1), (13, 1)], [(41, 1)], [(29, 1)], [(63, 4)]] if rich else [])
    E = [[(3, 1)], [(5, 2)], [(4, 1), (6, 1)], [(7, 1)]] + ([[(1, 1)], [(2, 1)], [(6, 1)], [(5, 1), (9, 4)]] if rich else [])
    M = [[(-1, 1)], [(0, 1)], [(1, 2), (-1, 2)], [(5, 1)]] + ([[(4, 1)], [(-4, 1), (4, 1)], [(-9, 2)], [(-15, 4)]] if rich else [])
    return dict(Classes='{' + ', '.join(f'"{c}"' for c in classes) + '}', Sizes='<<' + ', '.join(map(str, sizes)) + '>>', MaxFree=str(free), TimeForms=V(*T), RadiusForms=V(*R),
                EnergyForms=V(*E), MuForms=V(*M), Rich='TRUE' if rich else 'FALSE')


def requests(check):
    """Run the specification; yield (records, full arrays, sizes, kind)."""
    big = check.thorough
    runs = [((4, 4, 1, 3, 4), ['t', 'e', 'm', 'p', 'ts', 'r'], 2, True, 'dist'), ((3, 3, 1, 3, 3), ['tspem', 'p', 'ts'], 2, False, 'dist'), ((3, 3, 1, 3, 3), ['tspe', 'e', 'ts'], 2, False, 'flux'),
            ((3, 2, 2, 3, 2), ['tspem', 'p', 'e'], 2, False, 'dist'), ((2, 3, 2, 2, 2), ['tspe', 'p', 'e', 't'], 2, False, 'flux')]
    if big:
        runs += [((3, 3, 1, 3, 3), ['tspem'], 3, False, 'dist'), ((4, 4, 2, 3, 4), ['tspe'], 3, False, 'flux'), ((1, 3, 1, 1, 1), ['t', 'e', 'm', 'ts', 'r', 'tspem'], 2, True, 'dist'),
                 ((4, 1, 1, 2, 3), ['ts', 'r', 'tspem'], 2, True, 'dist')]
    for sizes, classes, free, rich, kind in runs:
        r = check.tlc('Observe', consts=consts(sizes, classes, free, rich, big))
        full = {e['class']: e['values'] for x in r.records if 'full' in x for e in x['full']}
        yield [x for x in r.records if 'req' in x], full, sizes, kind


def offgrid(x, full):
    """Does the request ask for a physical value which is not on the grid?"""
    return any(f['k'] == 'value' for f in x['req'])


def run(check, which):
    """Replay requests; which: 'P17' (positions, symbols, values on the grid) or 'P19' (values)."""
    from eprempy import metric
    rng = check.rng
    with core.scratchdir() as d:
        for recs, full, sizes, kind in requests(check):
            if which == 'P17':
                recs = [x for x in recs if not offgrid(x, full) or x['class'] in 'tem' and x['res']['ok']]
            else:
                recs = [x for x in recs if offgrid(x, full) and x['class'] not in 'tem']
            rng.shuffle(recs)
            recs = recs[:(6000 if check.thorough else 700)]
            obs, _ = observers(d, kind, full, sizes, rng)
            species = ['H+', 'He++'][:sizes[2]]
            held = {}
            for o, system in obs:
                if o[0] != 'ok':
                    check.violation('open', f'{system}: {o[1]!r}')
                elif o[0] == 'ok':
                    got = outcome(lambda: list(o[1].species.data))
                    if got[0] == 'ok' and len(got[1]) == len(species):
                        species = [str(s) for s in got[1]]
            obs = [(o[1], s) for o, s in obs if o[0] == 'ok']
            for x in recs:
                cls = x['class']
                names = [n for n, v in STORED.items() if v[0] == cls and (n != 'v' or not offgrid(x, full))]
                if cls == 'tspem':
                    names = ['f'] if kind == 'dist' else []
                if cls == 'tspe':
                    names = ['flux'] if kind == 'flux' else []
                for name in ([rng.choice(names)] if names else []):
                    one(check, x, name, rng.choice(obs), species, held, rng, kind, sizes)


def one(check, x, name, observer, species, held, rng, kind, sizes):
    from eprempy import metric
    o, system = observer
    cls, key, unit, mks, cgs = STORED[name]
    alias = rng.choice(aliases(name))
    dims = DIMS[cls]
    res = x['res']
    idx = index(dims, x['req'], rng, species)
    show = f'{kind} {sizes} {system}: {alias!r}[{idx!r}]'
    what = ' '.join([cls, label(dims, x['req'])])
    want_unit = cgs if system == 'cgs' else mks
    conv = rng.random() < .3
    def make():
        h = (id(o), alias)
        if h not in held or rng.random() < .3:
            held[h] = o[alias]
        return held[h]
    got = outcome(lambda: (make().withunit(unit) if conv else make())[idx])
    check.traces += 1
    check.steps += 1
    if not res['ok']:
        if got[0] == 'ok':
            check.violation(f'{what}: not refused', f'{show} gave {got[1]}')
        return
    if got[0] != 'ok':
        check.violation(f'{what}: raised', f'{show} raised {got[1]!r}')
        return
    a = got[1]
    wrong = same_axes(a, res, species, None)
    if wrong:
        check.violation(f'{what}: axes', f'{show}: {wrong}')
        return
    if a.unit != metric.unit(unit if conv else want_unit):
        check.violation(f'{name}: unit', f'{show} has unit {a.unit}; expected {unit if conv else want_unit}')
        return
    m, b = affine(name)
    want = numpy.array([float(m * q(v) + b) for v in res['values']]).reshape(a.shape)
    scale = outcome(lambda: numpy.array(a.withunit(unit), dtype=float))
    # the conversions themselves (P09) are good to 1e-4 where they depend on tabulated constants
    if scale[0] != 'ok' or not numpy.allclose(scale[1], want, rtol=1e-9, atol=0 if name != 'mu' else 1e-12):
        check.violation(f'{what}: values', f'{show} is {scale[1]!r}; expected {want} {unit}')
    elif rng.random() < .01:
        check.sample(dict(request=show, values=[float(v) for v in want.ravel()[:8]]))


def check_P17(check):
    run(check, 'P17')


def check_P19(check):
    run(check, 'P19')
    speeds(check)


def speeds(check):
    """The speed at an energy between grid energies is that of a proton, and lies between the speeds of the grid."""
    from eprempy import observable, quantity
    rng = check.rng
    with core.scratchdir() as d:
        for k in range(24 if check.thorough else 6):
            data = synth.simple(nt=rng.choice([1, 3]), ne=rng.choice([2, 3, 5]), seed=rng.randrange(1000))
            synth.write(d / f'v{k}.nc', data)
            synth.config(d / 'run.cfg')
            e, v = (numpy.array(data[n]).ravel() for n in ('egrid', 'vgrid'))
            for system in ('mks', 'cgs'):
                o = observable.quantities(d / f'v{k}.nc', d / 'run.cfg', system)
                for _ in range(4):
                    at = sorted(i + rng.choice([.125, .5, .75]) for i in rng.sample(range(len(e) - 1), rng.randint(1, min(2, len(e) - 1))))
                    want_e = [numpy.interp(i, range(len(e)), e) for i in at]
                    unit, f = rng.choice(SPELL['energy'])
                    get = [float(w) * f for w in want_e]
                    idx = quantity.measure(*get, unit) if rng.random() < .5 else (*get, unit)
                    target = rng.choice([None, 'km / s'])
                    alias = rng.choice(aliases('v'))
                    got = outcome(lambda: (o[alias].withunit(target) if target else o[alias])[idx])
                    scale = 1 if target else 1e5 if system == 'cgs' else 1e3
                    want = [numpy.sqrt(2 * w * 1.602176634e-13 / 1.67262192e-27) * (scale / 1e3) for w in want_e]
                    check.steps += 1
                    show = f'{system}: {alias!r}[{idx!r}] of energies {e}'
                    if got[0] != 'ok' or numpy.shape(got[1]) != (len(at),) or not numpy.allclose(numpy.array(got[1]), want, rtol=1e-4):
                        check.violation('speed between energies', f'{show}: {got[1]!r}; expected {want}')
                        continue
                    for i, w in zip(at, numpy.array(got[1])):
                        lo, hi = sorted([v[int(i)] * scale, v[int(i) + 1] * scale])
                        if not lo * (1 - 1e-6) <= w <= hi * (1 + 1e-6):
                            check.violation('speed between energies', f'{show}: {w} is not between {lo} and {hi}')


# ---------------------------------------------------------------- P18: derived observables
ORDER = ['time', 'shell', 'species', 'energy', 'mu']
SI = {'mks': ('m', 's', 'kg', 'C', 'T'), 'cgs': ('cm', 's', 'g', 'statC', 'G')}
CONSTANT = dict(c=(299792458.0, 1e2), au=(149597870700.0, 1e2), MeV=(1.602176634e-13, 1e7))


class Terms:
    """Values of terms over the arrays of one observer, in its own units, with all five dimensions."""

    def __init__(self, observer, stored, system, given):
        self.leaf = {}
        for name in stored:
            a = observer[name][...]
            x = numpy.array(a, dtype=float)
            dims = DIMS[STORED[name][0]]
            self.leaf[name] = self.spread(x, dims)
        self.cgs = system == 'cgs'
        self.given = given
        self.full = {}

    @staticmethod
    def spread(x, dims):
        shape = [1] * 5
        for d, n in zip(dims, x.shape):
            shape[ORDER.index(d)] = n
        return x.reshape(shape)

    def constant(self, name):
        v, f = CONSTANT[name]
        return v * f if self.cgs else v

    def parameter(self, name):
        v = self.given[name]
        return v * self.constant('au') if name == 'lambda0' else v

    def value(self, t, leaf):
        op = t[0]
        sub = lambda s: self.value(s, leaf)
        if op == 'V':
            return leaf[t[1]]
        if op == 'K':
            return numpy.full([1] * 5, self.constant(t[1]))
        if op == 'P':
            return numpy.full([1] * 5, self.parameter(t[1]))
        if op == 'N':
            return numpy.full([1] * 5, t[1] / t[2])
        if op in '+-*/':
            a, b = sub(t[1]), sub(t[2])
            return a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else a / b
        if op == 'pow':
            return numpy.power(sub(t[1]), t[2] / t[3])
        if op == 'powp':
            return numpy.power(sub(t[1]), self.parameter(t[2]))
        if op == 'fn':
            x = sub(t[2])
            return dict(sin=numpy.sin, cos=numpy.cos, abs=numpy.abs, arccos=lambda v: numpy.arccos(numpy.clip(v, -1, 1)))[t[1]](x)
        if op == 'along':
            x, ax = sub(t[2]), ORDER.index(t[3])
            if t[1] == 'mean':
                return x.mean(axis=ax, keepdims=True)
            if t[1] == 'sum':
                return x.sum(axis=ax, keepdims=True)
            if t[1] == 'cumsum':
                return x.cumsum(axis=ax)
            if t[1] == 'back':
                return numpy.diff(x, axis=ax, prepend=numpy.take(x, [0], axis=ax))
            if t[1] == 'index':
                return numpy.gradient(x, axis=ax)
        if op == 'slope':
            return numpy.gradient(sub(t[1]), sub(t[2]).ravel(), axis=ORDER.index(t[3]))
        if op == 'shift':
            x = sub(t[1])
            n = x.shape[1]
            return numpy.take(x, numpy.clip(numpy.arange(n) + t[2], 0, n - 1), axis=1)
        raise ValueError(op)

    def array(self, name, term):
        if name not in self.full:
            self.full[name] = self.value(term, self.leaf)
        return self.full[name]


def locate(x, picks):
    """The members of an array (five dimensions) at the given picks: linear in each dimension, radius before time."""
    by = {p['dim']: p for p in picks}
    for d in ('mu', 'energy', 'species'):
        if d in by:
            x = linear(x, ORDER.index(d), [(i, float(q(w))) for i, w in by[d]['at']])
    if 'shell' in by:
        if x.shape[1] > 1:
            nt = len(by['shell']['shells'][0]) if by['shell']['shells'] else 1
            if x.shape[0] == 1 and 'time' in by:
                x = numpy.repeat(x, nt, axis=0)
            x = numpy.concatenate([linear(x[t:t + 1], 1, [(s[t][0], float(q(s[t][1]))) for s in by['shell']['shells']]) for t in range(x.shape[0])], axis=0)
        elif by['shell']['shells'] != [] and numpy.size(x):
            x = numpy.repeat(x, len(by['shell']['shells']), axis=1)
        else:
            x = x[:, :0]
    if 'time' in by:
        x = linear(x, 0, [(i, float(q(w))) for i, w in by['time']['at']])
    return x


def linear(x, ax, at):
    if x.shape[ax] == 1:
        return numpy.repeat(x, len(at), axis=ax)
    n = x.shape[ax]
    out = []
    for i, w in at:
        y = numpy.take(x, max(i, 0), axis=ax)
        if i < 0:
            y = y * numpy.nan
        if w:
            y = (1 - w) * y + w * numpy.take(x, min(i + 1, n - 1), axis=ax)
        out.append(y)
    return numpy.stack(out, axis=ax) if out else numpy.take(x, [], axis=ax)


def tight(want, got, rtol):
    return want.shape == got.shape and numpy.allclose(got, want, rtol=rtol, atol=0, equal_nan=True)


def names_in(t):
    return {t[1]} if t[0] == 'V' else set().union(*[names_in(s) for s in t if isinstance(s, list)]) if len(t) > 1 else set()


def loose(t):
    """Does a term contain constants which are tabulated to a few digits?"""
    return t[0] == 'K' and t[1] == 'MeV' or any(loose(s) for s in t if isinstance(s, list))


def infix(t, rng, top=True):
    """Write a combination as text, or None where it has sums or no such spelling."""
    if t[0] == 'V':
        return t[1]
    if t[0] in '+-':
        return None
    if t[0] == 'pow':
        s = infix(t[1], rng, False)
        p = str(t[2]) if t[3] == 1 else f'{t[2]}/{t[3]}'
        if s is None:
            return None
        return f'({s})**{p}' if t[1][0] != 'V' else f'{s}**{p}'
    a, b = infix(t[1], rng, False), infix(t[2], rng, False)
    if a is None or b is None:
        return None
    if t[2][0] in '*/':
        b = f'({b})'
    if t[1][0] in '/':
        a = f'({a})'
    op = rng.choice([' * ', '*', ' ']) if t[0] == '*' else rng.choice([' / ', '/'])
    return f'{a}{op}{b}'


def build(o, t, rng):
    """Combine quantities of an observer with operators."""
    if t[0] == 'V':
        x = o[t[1]]
        return x
    a = build(o, t[1], rng)
    if t[0] == 'pow':
        return a ** (t[2] if t[3] == 1 else t[2] / t[3])
    b = build(o, t[2], rng)
    return a + b if t[0] == '+' else a - b if t[0] == '-' else a * b if t[0] == '*' else a / b


def unit_text(unit, system):
    parts = []
    for u, e in zip(SI['cgs' if system == 'cgs' else 'mks'], unit):
        e = q(e)
        if e:
            parts.append(f'{u}^{e}' if e.denominator == 1 else f'{u}^{e.numerator}/{e.denominator}')
    return ' '.join(parts) or '1'


def check_P18(check):
    big = check.thorough
    runs = [((4, 4, 1, 3, 3), ['ts', 'pe', 'tsp', 'tspe'], 2, 'dist', 1), ((3, 4, 2, 3, 3), ['tspe', 'tsp', 'pe'], 2, 'dist', 0), ((3, 3, 1, 3, 1), ['tspe', 'tsp', 'pe', 'ts'], 2, 'flux', 0),
            ((2, 3, 2, 3, 1), ['tspe', 'tsp'], 1, 'flux', 0)]
    if big:
        runs += [((4, 5, 1, 3, 4), ['tspe'], 3, 'dist', 2), ((4, 3, 2, 3, 2), ['ts', 'tspe', 'tsp', 'pe'], 2, 'flux', 1)]
    rng = check.rng
    with core.scratchdir() as d:
        for sizes, classes, free, kind, combine in runs:
            extra = dict(consts(sizes, classes, free, False, big), Kind=f'"{kind}"', Combine=str(combine), Minima=EMIN)
            r = check.tlc('Derived', consts=extra)
            full = {e['class']: e['values'] for x in r.records if 'full' in x for e in x['full']}
            table = next(x for x in r.records if 'def' in x)
            recs = [x for x in r.records if 'req' in x]
            given = dict(lambda0=rng.choice([1.0, 0.25]), mfpRadialPower=rng.choice([2 / 3, 1.0, 0.0]), rigidityPower=rng.choice([1 / 3, 0.5, 2.0]))
            given['kper / kpar'] = rng.choice([0.01, 0.25])
            obs = derived_observers(d, kind, full, sizes, rng, given)
            for o, system in obs:
                if o[0] != 'ok':
                    check.violation('open', f'{system}: {o[1]!r}')
            obs = [(o[1], s) for o, s in obs if o[0] == 'ok']
            worlds = []
            for o, system in obs:
                t = outcome(lambda: Terms(o, [n for n, v in STORED.items() if not (n == 'f' and kind == 'flux' or n == 'flux' and kind == 'dist')], system, given))
                if t[0] != 'ok':
                    check.violation('read', f'{kind} {sizes} {system}: {t[1]!r}')
                else:
                    worlds.append((o, system, t[1]))
            species = [str(s) for s in obs[0][0].species.data] if obs else []
            rng.shuffle(recs)
            byclass = {}
            for x in recs:
                byclass.setdefault(x['class'], []).append(x)
            for e in table['def']:
                if e['name'] == 'flux' and kind == 'flux' or e['class'] not in byclass:
                    continue
                some = byclass[e['class']]
                for x in some[:(1500 if big else 90)]:
                    o, system, terms = rng.choice(worlds)
                    derived(check, x, e, e['name'], lambda o=o, e=e: o[rng.choice(aliases(e['name']))], e['name'], system, terms, species, rng, kind, sizes)
            minima = next(x['minima'] for x in r.records if 'minima' in x)
            flux = next((e['term'] for e in table['def'] if e['name'] == 'flux'))
            for x in byclass.get('tsp', [])[:(800 if big else 90)]:
                o, system, terms = rng.choice(worlds)
                integral(check, x, rng.choice(minima), flux, o, system, terms, species, rng, kind, sizes)
            if kind == 'dist':
                for _ in range(4 if big else 1):
                    aligned(check, d, kind, full, sizes, rng, given, table)
            combos = table['combos']
            rng.shuffle(combos)
            defs = {e['name']: e['term'] for e in table['def']}
            for e in combos[:(4000 if big else 500)]:
                combined(check, e, defs, byclass, worlds, species, rng, kind, sizes)


def aliases(name):
    return next((g for g in GROUPS if name in g), [name])


def derived_observers(d, kind, full, sizes, rng, given, change=None):
    from eprempy import eprem
    folder = d / f'{kind}{len(list(d.iterdir()))}'
    folder.mkdir()
    data = datafile(folder / 'obs000000.nc', full, sizes, kind)
    if change:
        change(data)
        (folder / 'obs000000.nc').unlink()
        synth.write(folder / 'obs000000.nc', data)
    np = sizes[2]
    synth.config(folder / 'eprem.cfg', mass=[1.0, 4.0][:np], charge=[1.0, 2.0][:np], numSpecies=np, lamo=given['lambda0'], mfpRadialPower=given['mfpRadialPower'],
                 rigidityPower=given['rigidityPower'], kperxkpar=given['kper / kpar'])
    return [(outcome(lambda: eprem.stream(0, 'eprem.cfg', folder, system=system)), system) for system in ('mks', 'cgs')]


def aligned(check, d, kind, full, sizes, rng, given, table):
    """Observables that depend on the angle between the flow and the field, where the two are parallel or opposite."""
    def change(data):
        k = numpy.array([rng.choice([-3.0, -0.7, 0.1, 1.0, 3.0, 7.0]) for _ in range(data['Br'].size)]).reshape(data['Br'].shape)
        for u, b in zip(('Vr', 'Vt', 'Vp'), ('Br', 'Bt', 'Bp')):
            data[b] = numpy.array([rng.uniform(-5, 5) for _ in range(data[b].size)]).reshape(data[b].shape)
            data[u] = k * data[b]
    stored = [n for n in STORED if not (n == 'f' and kind == 'flux' or n == 'flux' and kind == 'dist')]
    for o, system in derived_observers(d, kind, full, sizes, rng, given, change):
        if o[0] != 'ok':
            continue
        terms = Terms(o[1], stored, system, given)
        for e in table['def']:
            if "'arccos'" not in str(e['term']):
                continue
            got = outcome(lambda: o[1][rng.choice(aliases(e['name']))][...])
            check.steps += 1
            key = f'{e["name"]} where flow and field are parallel'
            if got[0] != 'ok':
                check.violation(f'{key}: raised', f'{kind} {sizes} {system}: {got[1]!r}')
                continue
            a = got[1].withunit(unit_text(e['unit'], system)) if any(q(u) for u in e['unit']) else got[1]
            with numpy.errstate(all='ignore'):
                want = terms.array(str(e['term']), e['term'])
            want = numpy.broadcast_to(want, [n if d in e['dims'] else 1 for d, n in zip(ORDER, sizes)])
            want = numpy.transpose(want.reshape([n for d, n in zip(ORDER, sizes) if d in e['dims']]), [[d for d in ORDER if d in e['dims']].index(d) for d in e['dims']])
            a = numpy.array(a, dtype=float)
            scale = {'uperp': numpy.max(abs(terms.leaf['ur']) + abs(terms.leaf['utheta']) + abs(terms.leaf['uphi']))}.get(e['name'], 1.0 if e['name'] == 'angle' else 0.0)
            if a.shape != want.shape or not numpy.allclose(a, want, rtol=3e-4 if loose(e['term']) else 1e-6, atol=1e-6 * scale, equal_nan=True):
                check.violation(f'{key}: values', f'{kind} {sizes} {system}: {a.ravel()[:6]}; expected {want.ravel()[:6]}')


def derived(check, x, e, name, quantity, what, system, terms, species, rng, kind, sizes, term=None):
    from eprempy import metric
    res = x['res']
    dims = e['dims']
    idx = index(dims, x['req'], rng, species)
    show = f'{kind} {sizes} {system}: {name!r}[{idx!r}]'
    key = f'{what} ({label(dims, x["req"])})'
    got = outcome(lambda: quantity()[idx])
    check.traces += 1
    check.steps += 1
    if not res['ok']:
        if got[0] == 'ok':
            check.violation(f'{key}: not refused', f'{show} gave {got[1]}')
        return
    if got[0] != 'ok':
        check.violation(f'{key}: raised', f'{show} raised {got[1]!r}')
        return
    a = got[1]
    wrong = same_axes(a, res, species, None)
    if wrong:
        check.violation(f'{key}: axes', f'{show}: {wrong}')
        return
    b = outcome(lambda: numpy.array(a.withunit(unit_text(e['unit'], system)) if any(q(u) for u in e['unit']) else a, dtype=float))
    if b[0] != 'ok':
        check.violation(f'{key}: unit', f'{show} has unit {a.unit}; expected {unit_text(e["unit"], system)}: {b[1]!r}')
        return
    term = term or e['term']
    with numpy.errstate(all='ignore'):
        wants = [locate(terms.array(str(term), term), x['picks'])]
        if any(f['k'] == 'value' for f in x['req']) and e.get('local', True):
            picks = x['picks']
            leaf = {n: locate_dims(terms.leaf[n], n, picks) for n in names_in(term)}
            wants.append(terms.value(term, leaf))
    keep = tuple(slice(None) if d in dims else 0 for d in ORDER)
    order = [d for d in ORDER if d in dims]
    rtol = 3e-4 if loose(term) else 1e-9
    ok = False
    for w in wants:
        w = numpy.broadcast_to(w, [n if d not in dims else max(n, len(res['axes'][dims.index(d)]['values'])) if n != 0 else 0 for d, n in zip(ORDER, w.shape)])[keep]
        w = numpy.transpose(w, [order.index(d) for d in dims])
        ok = ok or tight(w, b[1], rtol)
    if not ok:
        check.violation(f'{key}: values', f'{show} is {b[1].ravel()[:6]} {unit_text(e["unit"], system)}; expected {[numpy.ravel(w)[:6] for w in wants]}')
    elif rng.random() < .01:
        check.sample(dict(request=show, values=[float(v) for v in b[1].ravel()[:6]]))


EMIN = '{' + ', '.join('<<' + ', '.join(f'<<{n}, {d}>>' for n, d in v) + '>>' for v in
                       [[(1, 1)], [(2, 1)], [(5, 2)], [(3, 1)], [(5, 1)], [(6, 1)], [(7, 1)], [(5, 2), (4, 1)], [(4, 1), (1, 1), (3, 1)], [(5, 2), (9, 1)]]) + '}'


def integral(check, x, least, flux, o, system, terms, species, rng, kind, sizes):
    """Integral flux above given minimum energies."""
    from eprempy import metric
    dims = DIMS['tsp'] if 'tsp' in DIMS else ['time', 'shell', 'species']
    idx = (*[respell(d, f, rng, species) for d, f in zip(dims, x['req'])], respell('energy', dict(k='value', v=least['v']), rng, species))
    show = f'{kind} {sizes} {system}: intflux[{idx!r}]'
    key = f'intflux ({label(dims, x["req"])})'
    got = outcome(lambda: o[rng.choice(aliases('intflux'))][idx])
    check.traces += 1
    check.steps += 1
    if not (x['res']['ok'] and least['ok']):
        if got[0] == 'ok':
            check.violation(f'{key}: not refused', f'{show} gave {got[1]}')
        return
    if got[0] != 'ok':
        check.violation(f'{key}: raised', f'{show} raised {got[1]!r}')
        return
    a = got[1]
    names = [e['name'] for e in x['res']['axes']] + ['minimum energy']
    shape = tuple([len(e['values']) for e in x['res']['axes']] + [len(least['v'])])
    if list(a.dimensions) != names or list(a.axes) != names or tuple(a.shape) != shape:
        check.violation(f'{key}: axes', f'{show} has dimensions {a.dimensions}, axes {list(a.axes)} and shape {a.shape}; expected {names} {shape}')
        return
    e = outcome(lambda: numpy.array(a.axes['minimum energy'].data.withunit('MeV'), dtype=float))
    if e[0] != 'ok' or not numpy.allclose(e[1], [float(q(v)) for v in least['v']], rtol=1e-9):
        check.violation(f'{key}: energies', f'{show} has minimum energies {a.axes["minimum energy"]}')
        return
    b = outcome(lambda: numpy.array(a.withunit('cm^-2 s^-1 sr^-1' if system == 'cgs' else 'm^-2 s^-1 sr^-1'), dtype=float))
    if b[0] != 'ok':
        check.violation(f'{key}: unit', f'{show} has unit {a.unit}')
        return
    y = numpy.broadcast_to(terms.array(str(flux), flux), sizes[:4] + (1,))[..., 0]
    E = terms.leaf['energy'].ravel()
    step = E[0] / float(q([2, 1]))
    out = []
    with numpy.errstate(all='ignore'):
        for v, i in zip(least['v'], least['from']):
            if i == 0:
                out.append(scipy.integrate.simpson(y, x=E, axis=-1))
                continue
            v = float(q(v)) * step
            at = y[..., i - 1] * (v / E[i - 1]) ** (numpy.log(y[..., i] / y[..., i - 1]) / numpy.log(E[i] / E[i - 1]))
            out.append(scipy.integrate.simpson(numpy.concatenate([at[..., None], y[..., i:]], axis=-1), x=numpy.concatenate([[v], E[i:]]), axis=-1))
        want = numpy.stack(out, axis=-1)[..., None]  # time, shell, species, minimum
        want = locate(want, x['picks'])[..., 0]
    if not numpy.allclose(b[1], want, rtol=1e-6, atol=0, equal_nan=True):
        check.violation(f'{key}: values', f'{show} is {b[1].ravel()[:6]}; expected {want.ravel()[:6]}')


def locate_dims(x, name, picks):
    """Locate along the dimensions an observable has."""
    dims = DIMS[STORED[name][0]]
    return locate(x, [p for p in picks if p['dim'] in dims])


def expand(t, defs):
    if t[0] == 'V':
        return expand(defs[t[1]], defs) if t[1] in defs and t[1] not in STORED else t
    return [expand(s, defs) if isinstance(s, list) else s for s in t]


def combined(check, e, defs, byclass, worlds, species, rng, kind, sizes):
    cls = {('time', 'shell'): 'ts', ('species', 'energy'): 'pe', ('time', 'shell', 'species'): 'tsp', ('time', 'shell', 'species', 'energy'): 'tspe', ('species',): 'p'}
    o, system, terms = rng.choice(worlds)
    # text is reduced, so what cancels does not count, and the dimensions may come in any order
    net = exponents(e['term'])
    text = infix(e['term'], rng) if net and all(net.values()) else None
    for way in (['operators', 'text'] if text else ['operators']):
        make = (lambda: build(o, e['term'], rng)) if way == 'operators' else (lambda: o[text])
        show = text or str(e['term'])
        q_ = outcome(make)
        check.traces += 1
        if not e['ok']:
            if q_[0] == 'ok' and way == 'operators':
                check.violation('unlike observables combined', f'{show} ({way}) gave {q_[1]!r}')
            continue
        if q_[0] != 'ok':
            check.violation(f'{ops(e["term"])} ({way}): raised', f'{show} ({way}) raised {q_[1]!r}')
            continue
        # (the order of the dimensions is a matter of P16)
        if sorted(q_[1].dimensions) == sorted(e['dims']):
            e = dict(e, dims=list(q_[1].dimensions))
        if list(q_[1].dimensions) != e['dims']:
            check.violation(f'{ops(e["term"])} ({way}): dimensions', f'{show} ({way}) has dimensions {q_[1].dimensions}; expected {e["dims"]}')
            continue
        c = cls.get(tuple(sorted(e['dims'], key=ORDER.index)))
        if c not in byclass:
            continue
        for x in rng.sample(byclass[c], 3):
            # the dimensions may come in another order than those of the request
            at = {d: i for i, d in enumerate(DIMS_ALL[c])}
            x = dict(x, req=[x['req'][at[d]] for d in e['dims']], res=dict(x['res'], axes=[x['res']['axes'][at[d]] for d in e['dims']] if x['res']['ok'] else []))
            derived(check, x, e, show, lambda: q_[1], f'{ops(e["term"])} ({way})', system, terms, species, rng, kind, sizes, term=expand(e['term'], defs))


def exponents(t):
    """The exponent of each observable in a product, or None where there are sums."""
    if t[0] == 'V':
        return {t[1]: 1}
    if t[0] in '+-':
        return None
    a = exponents(t[1])
    if t[0] == 'pow':
        return a and {k: v * fractions.Fraction(t[2], t[3]) for k, v in a.items()}
    b = exponents(t[2])
    if not a or not b:
        return None
    return {k: a.get(k, 0) + (1 if t[0] == '*' else -1) * b.get(k, 0) for k in {**a, **b}}


DIMS_ALL = dict(DIMS, pe=['species', 'energy'], tsp=['time', 'shell', 'species'])


def ops(t):
    return t[0] if t[0] == 'V' else f'{t[0]}{"" if t[0] != "pow" else t[2]}' + ''.join(f' {ops(s)}' for s in t[1:] if isinstance(s, list) and s[0] != 'V')
