"""Views of data files (P29).

TLC explores histories of files being written, replaced, exchanged, removed, opened and observed (specs/Views.tla), with
what a view of each must show.  The contents of the files are drawn by the harness and handed to TLC as constants.
"""
#: P29
import os, random
import numpy, netCDF4
import core, synth
from core import outcome

AXES = ('time', 'shell', 'species', 'energy', 'mu')
SCALARS = ('preEruption',)
HINTS = ['netcdf', 'NetCDF', 'NETCDF']
WRONG = ['hdf5', 'txt', '']
# names which are not those of known quantities
STRAY = ['Extra', 'time_', 'br', 'Dist2']


def contents(rng, n):
    """What files hold: variables and sizes of dimensions; pairs of files alike but for their values."""
    out = []
    while len(out) < n:
        sizes = {d: rng.choice([0, 1, 2, 3]) for d in AXES}
        have = [d for d in AXES if sizes[d]] + ['lat']
        names = rng.sample(list(synth.UNITS), rng.randrange(0, 6)) + rng.sample(STRAY, rng.randrange(0, 3))
        vs = []
        for name in names:
            dims = synth.DIMS.get(name, ())
            if not all(d in have for d in dims) or rng.random() < .2:
                dims = tuple(rng.sample(have, rng.randrange(0, min(3, len(have)) + 1)))
            vs.append(var(rng, name, dims))
        if rng.random() < .6:
            vs.append(var(rng, 'preEruption', ('time',) if sizes['time'] and rng.random() < .3 else ()))
        out.append(dict(vars=vs, sizes=sizes, run=False))
        if rng.random() < .5 and len(out) < n:
            out.append(dict(vars=vs, sizes=sizes, run=False))
    return out


def var(rng, name, dims):
    unit = rng.choice([synth.UNITS.get(name, 'day'), 'km / s', 'julian date', '', '1'])
    return dict(name=name, dims=list(dims), unit=unit, attr=rng.choice(['unit', 'units']), whole=rng.random() < .4)


def run(rng, k):
    """A whole observer file."""
    nt, ns, np, ne, nm = (rng.choice([1, 2, 3]) for _ in range(5))
    kind = rng.choice(['dist', 'flux'])
    data = synth.simple(nt, ns, min(np, 2), ne, nm, seed=rng.randrange(1000), kind=kind)
    sizes = dict(time=nt, shell=ns, species=min(np, 2), energy=ne, mu=nm)
    vs = [dict(name=k, dims=list(synth.DIMS[k]), unit=synth.UNITS[k], attr='units', whole=k == 'shell') for k in data]
    return dict(vars=vs, sizes=sizes, run=True), {k: numpy.asarray(v) for k, v in data.items()}


def values(rng, c):
    out = {}
    for v in c['vars']:
        shape = [c['sizes'].get(d, 2) for d in v['dims']]
        n = int(numpy.prod(shape)) if shape else 1
        x = [rng.randrange(-500, 500) if v['whole'] else rng.uniform(-9, 9) * 10.0 ** rng.randrange(-9, 9) for _ in range(n)]
        out[v['name']] = numpy.array(x).reshape(shape)
    return out


def tla(c):
    q = lambda s: '"%s"' % s
    vs = ', '.join(f'[name |-> {q(v["name"])}, dims |-> <<{", ".join(map(q, v["dims"]))}>>, unit |-> {q(v["unit"])}, '
                   f'attr |-> {q(v["attr"])}, whole |-> {str(v["whole"]).upper()}]' for v in c['vars'])
    sizes = ', '.join(f'{d} |-> {n}' for d, n in c['sizes'].items())
    return f'[vars |-> <<{vs}>>, sizes |-> [{sizes}], run |-> {str(c["run"]).upper()}]'


def write(path, c, data, rng):
    """A new file with these contents takes the place of any other."""
    tmp = path.parent / '.new'
    form = rng.choice(['NETCDF3_CLASSIC', 'NETCDF4', 'NETCDF3_64BIT_OFFSET'])
    with netCDF4.Dataset(str(tmp), 'w', format=form) as f:
        dims = [(d, n) for d, n in c['sizes'].items() if n] + [('lat', 2)]
        rng.shuffle(dims)
        grow = rng.choice([d for d, _ in dims]) if form == 'NETCDF4' and rng.random() < .3 else None
        for d, n in dims:
            f.createDimension(d, None if d == grow else n)
        for v in rng.sample(c['vars'], len(c['vars'])):
            x = f.createVariable(v['name'], 'i4' if v['whole'] else 'f8', tuple(v['dims']))
            x[...] = data[v['name']]
            if v['unit']:
                setattr(x, v['attr'], v['unit'])
            if rng.random() < .3:
                x.long_name = 'something else'
        if grow and not any(grow in v['dims'] for v in c['vars']):
            # a dimension that can grow is as long as what was written along it
            x = f.createVariable('along', 'f8', (grow,))
            x[...] = numpy.zeros(dict(dims)[grow])
    if path.exists() and rng.random() < .5:
        path.unlink()
    os.replace(tmp, path)


def same(got, want):
    got = numpy.ma.filled(got) if isinstance(got, numpy.ma.MaskedArray) else numpy.asarray(got)
    return got.shape == want.shape and bool(numpy.all(got == want))


def wrong(view, shows, c, data, rng):
    """What is wrong with a view of a file with these contents, read in random order."""
    dims = {v['name']: tuple(v['dims']) for v in shows['arrays']}
    units = {u['name']: u['unit'] for u in shows['units']}

    def arrays():
        got = view.arrays if rng.random() < .5 else view['arrays']
        if sorted(got) != sorted(dims):
            return f'arrays are {sorted(got)}; expected {sorted(dims)}'
        for k in rng.sample(sorted(dims), len(dims)):
            x, want = got[k], data[k]
            if x.dimensions != dims[k]:
                return f'{k} has dimensions {x.dimensions}; expected {dims[k]}'
            if x.unit != units.get(k):
                return f'{k} has unit {x.unit!r}; expected {units.get(k)!r}'
            if not same(numpy.array(x), want):
                return f'{k} reads {numpy.array(x).tolist()}; the file holds {want.tolist()}'
            if not same(numpy.array(x.data[...]), want) or not same(x[...], want):
                return f'{k}: data read {numpy.array(x.data[...]).tolist()}; the file holds {want.tolist()}'
            if want.ndim:
                i = tuple(rng.choice([rng.randrange(n), slice(None), slice(rng.randrange(n), None), rng.randrange(-n, 0)]) for n in want.shape)
                if not same(numpy.asarray(x[i]), want[i]):
                    return f'{k}[{i}] reads {numpy.asarray(x[i]).tolist()}; the file holds {want[i].tolist()}'
                if not numpy.array_equal(numpy.array(x, dtype=float), want.astype(float)):
                    return f'{k} as floats reads {numpy.array(x, dtype=float).tolist()}'

    def scalars():
        got = outcome(lambda: view.scalars if rng.random() < .5 else view['scalars'])
        if shows['bad']:
            return None if got[0] == 'err' else f'scalars are {sorted(got[1])}; expected a refusal of an array'
        if got[0] == 'err':
            return f'scalars: {type(got[1]).__name__}: {got[1]}'
        got, want = got[1], {v['name']: v for v in shows['scalars']}
        if sorted(got) != sorted(want):
            return f'scalars are {sorted(got)}; expected {sorted(want)}'
        for k in want:
            v = data[k].item()
            x = got[k]
            if x.value != v or type(x.value) is not (int if want[k]['whole'] else float) or float(x) != float(v) or int(x) != int(v):
                return f'{k} reads {x.value!r}; the file holds {v!r}'
            if x.unit != units.get(k):
                return f'{k} has unit {x.unit!r}; expected {units.get(k)!r}'

    def unit():
        got = view.units if rng.random() < .5 else view['units']
        if dict(got) != units:
            return f'units are {dict(got)}; expected {units}'

    def sizes():
        want = {s['name']: s['size'] for s in shows['sizes']}
        if dict(view.sizes) != want:
            return f'sizes are {dict(view.sizes)}; expected {want}'
        got = {k: v.size for k, v in (view.axes if rng.random() < .5 else view['axes']).items()}
        if got != want:
            return f'axes have sizes {got}; expected {want}'

    def other():
        if outcome(lambda: view['nothing'])[0] == 'ok':
            return 'has a property "nothing"'

    todo = [arrays, scalars, unit, sizes, other]
    if rng.random() < .5:
        todo += [rng.choice(todo)]
    rng.shuffle(todo)
    for f in todo:
        text = f()
        if text:
            return text


QUANTITIES = [('br', 'Br', 1e-9, 'nT'), ('rho', 'Rho', 1e6, 'cm^-3'), ('ur', 'Vr', 1e3, 'km/s')]


def observe(path, config, data, rng):
    """What is wrong with the quantities read from a run."""
    from eprempy import observable
    q = observable.quantities(path, config)
    for name, key, factor, _ in rng.sample(QUANTITIES, 2):
        got = numpy.array(q[name][...], dtype=float)
        want = data[key] * factor
        if got.shape != want.shape or not numpy.allclose(got, want, rtol=1e-10, atol=0):
            return f'{name} is observed as {got.tolist()}; the file holds {want.tolist()}'


def replay(check, walk, cs, data, rng):
    from eprempy import datafile
    done, held = [], []
    with core.scratchdir() as d:
        config = d / 'run.cfg'
        synth.config(config)
        for pre, last, _ in walk:
            op, p = last['op'], d / last['path']
            check.count(op)
            note = f'{op} {last["path"]}'
            text = key = None
            if op == 'write':
                note += f' with contents {last["to"]}'
                write(p, cs[last['to'] - 1], data[last['to'] - 1], rng)
            elif op == 'remove':
                p.unlink()
            elif op == 'swap':
                q = d / last['to']
                note += f' and {last["to"]}'
                os.rename(p, d / '.x'), os.rename(q, p), os.rename(d / '.x', q)
            elif op == 'observe':
                got = outcome(lambda: observe(rng.choice([p, str(p)]), config, data[last['c'] - 1], rng))
                text, key = got[1] if got[0] == 'ok' else f'{type(got[1]).__name__}: {got[1]}', 'observe'
            else:
                hint = {'none': None, 'right': rng.choice(HINTS), 'wrong': rng.choice(WRONG)}[last['hint']]
                kw = {} if hint is None else dict(hint=hint)
                where = rng.choice([p, str(p), d / 'sub' / '..' / p.name]) if rng.random() < .8 else os.path.relpath(p)
                note += f' with hint {hint!r}'
                got = outcome(lambda: datafile.view(where, **kw))
                key = f'open:{last["out"]}'
                if last['out'] == 'refused':
                    text = None if got[0] == 'err' else 'opened a file which does not exist'
                elif last['out'] == 'unreadable':
                    # nothing tells the format: reading is refused, now or later
                    if got[0] == 'ok':
                        got = outcome(lambda: getattr(got[1], rng.choice(['arrays', 'units', 'sizes', 'axes'])))
                        text = None if got[0] == 'err' else 'read a file in no known format'
                elif got[0] == 'err':
                    text = f'{type(got[1]).__name__}: {got[1]}'
                else:
                    if rng.random() < .8:
                        text = attempt(got[1], last['shows'], cs, data, last['c'], rng)
                        held.append((got[1], last))
                    # a view which was not read yet may be read as the file is then, or as it was when opened
            done.append(note)
            check.steps += 1
            if not text and held and rng.random() < .3:
                v, l = rng.choice(held)
                text, key = attempt(v, l['shows'], cs, data, l['c'], rng), 'held'
            if text:
                check.violation(f'view:{key}', f'{"; ".join(done)}: {text}')
                return
    check.traces += 1


def attempt(view, shows, cs, data, c, rng):
    got = outcome(lambda: wrong(view, shows, cs[c - 1], data[c - 1], rng))
    return got[1] if got[0] == 'ok' else f'{type(got[1]).__name__}: {got[1]}'


def check_P29(check):
    t = check.thorough
    names = lambda xs: '{' + ', '.join('"%s"' % x for x in xs) + '}'
    for k in range(10 if t else 4):
        rng = random.Random(check.rng.randrange(2 ** 40))
        cs = contents(rng, 5 if t else 4)
        data = [values(rng, c) for c in cs]
        for _ in range(2):
            c, x = run(rng, k)
            cs.append(c)
            data.append(x)
        r = check.tlc('Views', consts=dict(Contents='<<' + ', '.join(map(tla, cs)) + '>>', ArrayNames=names(synth.UNITS),
                                           ScalarNames=names(SCALARS), AxisNames=names(AXES), Depth='5' if t else '4'))
        g = core.Graph(r.records, init=dict.fromkeys(['a.nc', 'b.nc', 'c.dat'], 0))
        walks = list(g.random_walks(rng, 200 if t else 60, 20)) + list(g.cover(rng, maxlen=60, budget=60 if t else 20))
        check.sample(dict(history=[l for _, l, _ in walks[0]][:6]))
        for w in walks:
            replay(check, w, cs, data, rng)
    check.assumptions += ['files are replaced by new files, not written in place while open; a variable with both unit attributes is unspecified']
