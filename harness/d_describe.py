"""What the interfaces to one data file report (P30).

TLC explores the ways to read the parts of an interface one after another, with what each part is (specs/Interfaces.tla);
replayed on files whose quantities are in varying units.
"""
#: P30
import random
import numpy
import core, synth
from core import outcome

# units in which a file may hold each quantity, with their size in mks
UNITS = dict(
    time=[('julian date', 86400.0), ('day', 86400.0), ('s', 1.0), ('hour', 3600.0), ('min', 60.0)],
    length=[('au', 149597870700.0), ('km', 1e3), ('m', 1.0), ('cm', 1e-2)],
    energy=[('MeV', 1.602176634e-13), ('keV', 1.602176634e-16), ('J', 1.0), ('erg', 1e-7), ('GeV', 1.602176634e-10)],
    velocity=[('km/s', 1e3), ('m / s', 1.0), ('cm s^-1', 1e-2), ('km s^-1', 1e3)],
    none=[('cos(mu)', 1.0), ('1', 1.0)], angle=[('rad', 1.0), ('deg', 0.017453292519943295)],
    field=[('nT', 1e-9), ('T', 1.0), ('G', 1e-4)], density=[('cm^-3', 1e6), ('m^-3', 1.0), ('1/cm^3', 1e6), ('km^-3', 1e-9)],
    distribution=[('s^3/km^6', 1e-18), ('s^3 / m^6', 1.0), ('s^3 cm^-6', 1e12)],
    flux=[('# / cm^2 s sr MeV', 1e4 / 1.602176634e-13), ('cm^-2 s^-1 sr^-1 MeV^-1', 1e4 / 1.602176634e-13), ('J^-1 s^-1 sr^-1 m^-2', 1.0)],
    mass=[('nucleon', 1.66053906660e-27), ('nuc', 1.66053906660e-27)], charge=[('e-', 1.602176634e-19), ('e', 1.602176634e-19)])
# the size of a unit of the other system
CGS = dict(time=1.0, length=1e2, energy=1e7, velocity=1e2, none=1.0, angle=1.0, field=1e4, density=1e-6, distribution=1e-12, flux=1e-11,
           mass=1e3, charge=2997924579.9995713)
QUANTITY = dict(time='time', egrid='energy', vgrid='velocity', mu='none', mass='mass', charge='charge', R='length', T='angle', P='angle', Br='field',
                Bt='field', Bp='field', Vr='velocity', Vt='velocity', Vp='velocity', Rho='density', Dist='distribution', flux='flux', phiOffset='angle', shell='none')
# tabulated to few digits
LOOSE = {'energy': 1e-4, 'flux': 1e-4, 'mass': 1e-4, 'charge': 1e-3}
SPECIES = [(1.0, 1.0, 'H+'), (4.0, 2.0, 'He++'), (16.0, 6.0, 'O++++++'), (12.0, 5.0, 'C+++++'), (3.7, 1.9, 'He++')]


class World:
    """A data file with its interfaces."""

    def __init__(self, d, w, rng):
        nt, ns, np, ne, nm = rng.choice([1, 2, 3]), 1 if w['type'] == 'point' else rng.choice([1, 2, 4]), rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([1, 3])
        self.data = synth.simple(nt, ns, np, ne, nm, seed=rng.randrange(1000), kind=w['kind'])
        some = rng.sample(SPECIES, np)
        self.species = [s for _, _, s in some]
        self.data['mass'], self.data['charge'] = [m for m, _, _ in some], [c for _, c, _ in some]
        if w['type'] == 'point':
            # a point observer stays where it is
            for k in 'RTP':
                self.data[k] = numpy.tile(self.data[k][:1, :1], (nt, 1))
        self.unit, self.size = {}, {}
        for k in self.data:
            self.unit[k], self.size[k] = ('shell', 1.0) if k == 'shell' else rng.choice(UNITS[QUANTITY[k]])
        name = 'obs000001.nc' if w['type'] == 'stream' else 'p_obs001.nc'
        self.w, self.path = w, d / name
        synth.write(self.path, self.data, self.unit, attr=rng.choice(['unit', 'units']))
        synth.config(d / 'run.cfg', mass=self.data['mass'], charge=self.data['charge'], numSpecies=np)
        self.made = {}
        self.d = d

    def interface(self, via, rng):
        """The interface, usually one which was used before."""
        from eprempy import datafile, eprem
        if via in self.made and rng.random() < .8:
            return self.made[via]
        system = self.w['sys']
        p = rng.choice([self.path, str(self.path)])
        if via == 'observer':
            make = eprem.stream if self.w['type'] == 'stream' else eprem.point
            x = make(1, source=self.d, system=system)
        else:
            x = dict(axes=datafile.axes, arrays=datafile.arrays, grid=datafile.grid)[via](p, rng.choice([system, system, metric_system(system)]) if via != 'grid' else system)
        self.made[via] = x
        return x

    def want(self, a):
        """Values of a variable in the units of the system."""
        x = numpy.asarray(self.data[a['var']], dtype=float)
        if a['var'] in ('egrid', 'vgrid'):
            x = x[0]
        return x * self.size[a['var']] * (CGS[a['quantity']] if self.w['sys'] == 'cgs' else 1.0)


def metric_system(name):
    from eprempy import metric
    return metric.system(name)


def near(got, want, quantity):
    got = numpy.asarray(got, dtype=float)
    return got.shape == want.shape and bool(numpy.allclose(got, want, rtol=LOOSE.get(quantity, 1e-9), atol=0))


def axis(x, a, world):
    from eprempy import physical
    if a['is'] == 'symbols':
        if not isinstance(x, physical.Symbols) or list(x) != world.species:
            return f'is {x!r}; expected symbols {world.species}'
    elif a['is'] == 'points':
        if not isinstance(x, physical.Points) or [int(i) for i in x.data] != list(world.data['shell']):
            return f'is {x!r}; expected points {list(world.data["shell"])}'
    else:
        want = world.want(a)
        if not isinstance(x, physical.Coordinates) or not x.unit == a['unit'] or not near(numpy.array(x.data), want, a['quantity']):
            return f'is {x!r}; expected coordinates {want} {a["unit"]}'
    n = len(world.species) if a['is'] == 'symbols' else len(world.data['shell']) if a['is'] == 'points' else len(want)
    if len(x) != n:
        return f'has length {len(x)}; expected {n}'


def read(world, lab, rng):
    """What is wrong with one part of an interface."""
    from eprempy import physical
    via, part, a = lab['via'], lab['part'], lab['answer']
    x = world.interface(via, rng)
    if a['is'] == 'names':
        names = list(x)
        if len(x) != len(names) or len(set(names)) != len(names):
            return f'lists {names}, of length {len(x)}'
        if via == 'axes':
            return None if set(names) == set(a['names']) else f'lists {names}; expected {a["names"]}'
        missing = [n for n in a['names'] if n not in names]
        if missing:
            return f'does not list {missing}'
        # every name that is listed is one of a known quantity
        known = set(a['names']) | {'f', 'flux'}
        other = [n for n in rng.sample(names, 12) if outcome(lambda: x[n])[0] != 'ok']
        if other:
            return f'lists {other}, which it does not know'
        return None if known else None
    if part == 'unknown':
        got = outcome(lambda: x['nothing'])
        if got[0] == 'ok' or not isinstance(got[1], KeyError):
            return f'{got[1]!r} for something unknown'
        if via == 'observer' and ('nothing' in x or 'br' not in x):
            return f'"nothing" in it: {"nothing" in x}; "br" in it: {"br" in x}'
        return None
    if via == 'observer':
        get = (lambda: getattr(x, part.split()[-1])) if part.startswith('position') or part in ('times', 'species', 'energies', 'mus', 'shells') else (lambda: x[part])
    elif via == 'axes':
        get = (lambda: x[part]) if rng.random() < .5 else (lambda: getattr(x, part))
    else:
        get = lambda: getattr(x, part)
    got = outcome(get)
    if a['is'] == 'refused':
        return None if got[0] == 'err' else f'gave {got[1]!r}; expected a refusal'
    if got[0] != 'ok':
        return f'raised {got[1]!r}'
    y = got[1]
    if a['is'] == 'flag':
        return None if y is a['value'] else f'is {y!r}; expected {a["value"]}'
    if a['is'] == 'nothing':
        return None if y is None else f'is {y!r}; expected nothing'
    if a['is'] in ('points', 'symbols', 'coordinates'):
        return axis(y, a, world)
    want = world.want(a)
    if a['is'] == 'scalar':
        want = want.ravel()[0]
        if not isinstance(y, physical.Scalar) or not y.unit == a['unit'] or not near(float(y), want, a['quantity']):
            return f'is {y!r}; expected {want} {a["unit"]}'
        return None
    if list(y.dimensions) != list(a['dims']) or not y.unit == a['unit']:
        return f'has dimensions {y.dimensions} and unit {y.unit}; expected {a["dims"]} {a["unit"]}'
    if via == 'observer':
        y = y[...]
    if list(y.dimensions) != list(a['dims']) or not y.unit == a['unit']:
        return f'gives dimensions {y.dimensions} and unit {y.unit}; expected {a["dims"]} {a["unit"]}'
    if not near(numpy.array(y), want, a['quantity']):
        return f'is {numpy.array(y).ravel()[:6]}; expected {want.ravel()[:6]} {a["unit"]}'
    for d in a['dims']:
        z = y.axes[d]
        bad = axis(z, dict(shell=dict([('is', 'points')]), species=dict([('is', 'symbols')])).get(d) or
                   dict({'is': 'coordinates'}, **world.axes[d]), world)
        if bad:
            return f'the {d} axis {bad}'


def replay(check, walk, axes, rng):
    with core.scratchdir() as d:
        world, done = None, []
        for _, lab, _ in walk:
            check.steps += 1
            if lab['op'] == 'open':
                world = World(d, lab['w'], rng)
                world.axes = axes[lab['w']['sys']]
                done.append(f'{lab["w"]["type"]} {lab["w"]["kind"]} file in {lab["w"]["sys"]} with units {world.unit}')
                continue
            check.count(lab['via'])
            done.append(f'{lab["via"]}: {lab["part"]}')
            got = outcome(lambda: read(world, lab, rng))
            text = got[1] if got[0] == 'ok' else f'raised {type(got[1]).__name__}: {got[1]}'
            if text:
                check.violation(f'{lab["via"]}:{lab["part"]}', f'{"; ".join(done)}: {text}')
                return
    check.traces += 1


def check_P30(check):
    t = check.thorough
    rng = check.rng
    r = check.tlc('Interfaces')
    axes = {}
    for x in r.records:
        l = x['last']
        if l['op'] == 'read' and l['via'] == 'axes' and l['answer']['is'] == 'coordinates':
            axes.setdefault(x['pre'][0]['sys'], {})[l['part']] = l['answer']
    g = core.Graph(r.records)
    walks = list(g.cover(rng, maxlen=80, budget=600 if t else 70)) + list(g.random_walks(rng, 600 if t else 60, 25))
    check.sample(dict(history=[l for _, l, _ in walks[0]][:5]))
    for w in walks:
        replay(check, w, axes, rng)
    check.assumptions += ['a point observer does not move; a quantity without a unit, a file with both or neither of the distribution and the flux, and listing the distribution in a run without it are unspecified']
