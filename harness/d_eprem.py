"""Datasets and observers on disk (P22).

TLC enumerates sets of files in a directory, in the order in which they come and go, and what a user gets who asks for
one observer or for the whole dataset (specs/Observers.tla).  Every walk is carried out in a directory of its own, with
small netCDF files each of which has contents of its own, so that an answer bound to the wrong file is noticed.
"""
#: P22
import os, pathlib, shutil, zlib
import core, synth
from core import outcome

STREAM = '[how : {"stream"}, num : %s, text : {""}, config : {""}]'


def number(name):
    return zlib.crc32(name.encode()) % 1000 + 1


def fill(bank, names):
    """Make the contents of every file."""
    for name in names:
        path = bank / name
        if name.endswith('.nc'):
            data = synth.simple(nt=2, ns=2, ne=2, nm=2, seed=3)
            data['time'] = [number(name), number(name) + 1.0]
            data['R'] = [[0.5, 1.0], [0.5, 1.0]]
            synth.write(path, data)
        elif path.suffix == '.txt' or path.suffix == '.log':
            path.write_text('notes\n')
        else:
            synth.config(path, lamo=number(name))


def spellings(d, home, rng):
    """Ways to name the directory `d`, given from the current one."""
    rel = os.path.relpath(d)
    link = d.parent / f'link-{d.name}'
    if not link.exists():
        link.symlink_to(d)
    forms = [str(d), d, str(d) + '/', rel, pathlib.Path(rel), f'./{rel}', str(d / '.'), f'{d}/../{d.name}', link, str(link),
             f'~/{d.relative_to(home)}', pathlib.Path('~') / d.relative_to(home), d.parent / '.' / d.name]
    return rng.choice(forms)


def settings(d, name, rng):
    """Ways to give the configuration file: keyword arguments."""
    if not name:
        return rng.choice([{}, {'config': None}])
    rel = os.path.join(os.path.relpath(d), name)
    if os.sep not in rel:
        rel = os.path.join('.', rel)
    forms = [name, name, pathlib.Path(name), str(d / name), d / name, rel, f'{d}/./{name}']
    return {'config': rng.choice(forms)}


def reads(o, file, configs, full, rng):
    """What is wrong with the data of observer `o`, which is bound to `file`."""
    n = number(file)
    times = [float(t) for t in o['time'].withunit('day')[:]]
    if any(abs(t - w) > 1e-6 for t, w in zip(times, (n, n + 1))):
        return f'the times are {times}; the file has {n}, {n + 1} days'
    if full:
        # the reference value of the mean free path is in the configuration file
        m = float(o['mfp'].withunit('au')[0, 1, 0, 1])
        one = m / float(o['rigidity'][0, 1] / o['rigidity'][0, 1])
        ratio = {c: number(c) for c in configs}
        base = reads.base = reads.base or {}
        key = 'unit'
        if key not in base:
            base[key] = m / ratio[configs[0]] if len(configs) == 1 else None
        if base[key] and not any(abs(m / base[key] - r) < 1e-6 * r for r in ratio.values()):
            return f'the mean free path is {m} au: not the value of {configs} ({m / base[key]} for {ratio})'


reads.base = {}


def ask(check, d, home, q, want, rng, full):
    from eprempy import eprem
    source = spellings(d, home, rng)
    here = os.getcwd()
    kw = dict(settings(d, q['config'], rng))
    if rng.random() < .1:
        # the default source is the current directory
        os.chdir(d)
        if 'config' in kw and kw['config'] is not None and not pathlib.Path(kw['config']).is_absolute() and pathlib.Path(kw['config']).name != str(kw['config']):
            kw['config'] = os.path.join('.', q['config'])
        source = None
    sysname = rng.choice([None, 'mks', 'cgs', 'MKS'])
    if sysname:
        kw['system'] = sysname
    if source is not None:
        kw['source'] = source
    make = getattr(eprem, q['how'])
    try:
        if q['how'] == 'dataset':
            got = outcome(lambda: make(**kw))
        else:
            it = q['text'] or q['num']
            if 'config' in kw and source is not None and rng.random() < .3:
                k2 = {k: v for k, v in kw.items() if k == 'system'}
                got = outcome(lambda: make(it, kw['config'], kw['source'], **k2))
            else:
                got = outcome(lambda: make(it, **kw))
        check.steps += 1
        files = sorted(p.name for p in d.iterdir())
        text = f"{q['how']}({q['text'] or q['num'] if q['how'] != 'dataset' else ''}, {kw}) with {files}"
        label = q['how'] + (' by name' if q['text'] else '') + (' with given settings' if q['config'] else '')
        if want['out'] == 'refused':
            if got[0] == 'ok':
                check.violation(f'{label}: refusal', f'{text} gave {got[1]}')
            return
        if want['out'] == 'unspecified':
            return
        if got[0] != 'ok':
            check.violation(f'{label}: refused', f'{text} raised {got[1]!r}')
            return
        got = got[1]
        if want['out'] == 'observer':
            one(check, label, text, got, want['type'], [want['file']], want['config'], d, full, rng, sysname)
            return
        # the whole dataset
        parts = [lambda: ('directory', got.directory, d), lambda: ('system', got.system == (sysname or 'mks').lower(), True),
                 lambda: ('config', pathlib.Path(got.config.source).resolve() in {d / c for c in want['config']}, True),
                 lambda: ('parameters', pathlib.Path(got.parameters.config).resolve() in {d / c for c in want['config']}, True),
                 lambda: ('lamo', float(got.parameters['lamo']) in {float(number(c)) for c in want['config']}, True)]
        listings = [('streams', want['streams'], []), ('points', want['points'], want['named']),
                    ('observers', want['streams'] + want['points'], want['named'])]
        rng.shuffle(parts)
        for p in parts:
            r = outcome(p)
            if r[0] != 'ok' or r[1][1] != r[1][2]:
                check.violation(f'dataset: {r[1][0] if r[0] == "ok" else "attributes"}', f'{text}: {r[1]!r}; expected {want}')
        rng.shuffle(listings)
        for name, must, may in listings:
            r = outcome(lambda: dict(getattr(got, name)))
            if r[0] != 'ok':
                check.violation(f'dataset: {name}', f'{text}: {name} raised {r[1]!r}')
                continue
            r = r[1]
            ids = {m['id'] for m in must}
            extra = {k for k in r if k not in ids} - {m['id'] for m in may}
            if ids - set(r) or extra:
                check.violation(f'dataset: ids of {name}', f'{text}: {name} are {sorted(map(str, r))}; expected {sorted(map(str, ids))}')
                continue
            for m in must:
                kind = 'Stream' if isinstance(m['id'], int) else 'Point'
                one(check, f'dataset: {name}', f'{text} {m["id"]}', r[m['id']], kind, m['file'], want['config'], d, full, rng, sysname)
    finally:
        os.chdir(here)


def one(check, label, text, o, kind, files, configs, d, full, rng, sysname):
    from eprempy import eprem
    if type(o).__name__ != kind:
        check.violation(f'{label}: type', f'{text} gave a {type(o).__name__}; expected a {kind}')
    src = outcome(lambda: pathlib.Path(o.source))
    if src[0] != 'ok' or src[1] not in {d / f for f in files}:
        check.violation(f'{label}: file', f'{text} is bound to {src[1]}; expected {files}')
        return
    if o.system != (sysname or 'mks').lower():
        check.violation(f'{label}: system', f'{text} has system {o.system}')
    if full:
        r = outcome(lambda: reads(o, src[1].name, configs, True, rng))
        if r != ('ok', None):
            check.violation(f'{label}: data', f'{text}: {r[1]!r}')


def walk(check, w, bank, parent, home, rng, sampled):
    d = parent / f'run{walk.n}'
    walk.n += 1
    d.mkdir()
    for pre, lab, post in w:
        if lab['do'] == 'create':
            shutil.copy(bank / lab['file'], d / lab['file'])
        elif lab['do'] == 'remove':
            (d / lab['file']).unlink()
        else:
            check.count(lab['q']['how'])
            full = sampled['left'] > 0 and rng.random() < sampled['rate']
            sampled['left'] -= full
            ask(check, d, home, lab['q'], lab['want'], rng, full)
    check.traces += 1
    shutil.rmtree(d)
    link = parent / f'link-{d.name}'
    if link.is_symlink():
        link.unlink()


walk.n = 0

NAMES = dict(o0='obs000000.nc', f0='flux000000.nc', s0='stream000000.nc', o1='obs000001.nc', f10='flux000010.nc', s12='stream000012.nc',
             o100='obs123456.nc', p0='p_obs000.nc', q0='point000.nc', p1='p_obs001.nc', q10='point010.nc', bob='p_obsbob.nc', pin='pointpin.nc',
             earth='earth.nc', zero='000.nc', one='1.nc', t0='obs000000.txt', o2='obs000002.txt', old='obs000001.old.nc', note='observation.nc',
             sum='stream_summary.nc', fm='flux-map.nc', x0='xobs000000.nc', read='README.txt', pt='p_obs000.log', ini0='eprem_input_file',
             cfg='eprem.cfg', cfg2='run.cfg', ini='eprem.ini')
NAMES['in'] = 'eprem.in'


def asked(kinds):
    """The requests of an exploration."""
    out = []
    for how, num, text, cfg in kinds:
        out.append('[how : {%s}, num : {%s}, text : {%s}, config : {%s}]' % (', '.join(f'"{h}"' for h in how), ', '.join(map(str, num)),
                   ', '.join(f'"{t}"' for t in text), ', '.join(f'"{c}"' for c in cfg)))
    return ' \\cup '.join(out)


def check_P22(check):
    from eprempy import eprem
    big, rng = check.thorough, check.rng
    by_number = (['stream', 'observer', 'point'], [0, 1, 10, 12], [''], [''])
    by_name = (['point', 'observer'], [0], ['000', '0', '1', 'earth', 'p_obs000', 'p_obsbob', 'bob'], [''])
    whole = (['dataset'], [0], [''], [''])
    m = 1 if big else 0
    explorations = [
        ('observers', ['o0', 'f0', 's0', 'o1', 'f10', 's12', 'o100', 'p0', 'cfg'], 3 + m, [by_number, whole]),
        ('points', ['p0', 'q0', 'p1', 'q10', 'bob', 'pin', 'earth', 'zero', 'one', 'cfg'], 3 + m, [by_number, by_name, whole]),
        ('others', ['o0', 'o1', 'p0', 't0', 'o2', 'old', 'note', 'sum', 'fm', 'x0', 'read', 'pt', 'ini0'], 3 + m,
         [(['stream', 'observer', 'point'], [0, 1, 2], [''], ['']), whole]),
        ('settings', ['o0', 'p0', 'ini0', 'cfg', 'cfg2', 'ini', 'in'], 4 + m,
         [(['stream', 'observer', 'point', 'dataset'], [0], [''], ['', 'eprem.cfg', 'run.cfg', 'eprem.ini', 'eprem.in', 'eprem_input_file']),
          (['point', 'observer'], [0], ['000'], ['', 'eprem.cfg'])])]
    with core.scratchdir() as home:
        home = home.resolve()
        bank = home / 'bank'
        bank.mkdir()
        fill(bank, NAMES.values())
        parent = home / 'runs'
        parent.mkdir()
        here = home / 'here'
        here.mkdir()
        # files in the current directory must not be taken for those of the dataset
        for n in ('eprem.cfg', 'eprem.ini', 'obs000000.nc', 'obs000010.nc'):
            shutil.copy(bank / n, here / n) if n in NAMES.values() else shutil.copy(bank / 'obs000001.nc', here / n)
        synth.config(here / 'eprem.cfg', lamo=7777)
        old, was = os.getcwd(), os.environ.get('HOME')
        os.chdir(here)
        os.environ['HOME'] = str(home)
        try:
            reads.base = {}
            d = parent / 'base'
            d.mkdir()
            for n in ('obs000000.nc', 'eprem.cfg'):
                shutil.copy(bank / n, d / n)
            reads.base['unit'] = float(eprem.stream(0, source=d)['mfp'].withunit('au')[0, 1, 0, 1]) / number('eprem.cfg')
            for name, pool, most, kinds in explorations:
                r = check.tlc('Observers', consts=dict(Pool='{%s}' % ', '.join(f'"{p}"' for p in pool), MaxFiles=str(most), Asked=asked(kinds),
                                                       Depth='7' if big else '6'))
                g = core.Graph(r.records, dict(files=[]))
                sampled = dict(left=300 if big else 60, rate=.05)
                for w in g.cover(rng, maxlen=40):
                    walk(check, w, bank, parent, home, rng, sampled)
                for w in g.random_walks(rng, 200 if big else 30, 25):
                    walk(check, w, bank, parent, home, rng, sampled)
            # things which are not identifiers, places which are not directories
            d = parent / 'base'
            bad = [('stream', ('0',)), ('stream', (0.5,)), ('stream', (None,)), ('point', (0.5,)), ('point', (None,)), ('observer', (None,)), ('observer', (1.5,))]
            for how, args in bad:
                if outcome(lambda: getattr(eprem, how)(*args, source=d))[0] == 'ok':
                    check.violation('bad identifier', f'{how}{args} was accepted')
            for how, args in (('stream', (0,)), ('point', (0,)), ('observer', (0,)), ('dataset', ())):
                for src in (d / 'obs000000.nc', parent / 'nowhere'):
                    if outcome(lambda: getattr(eprem, how)(*args, source=src))[0] == 'ok':
                        check.violation('bad source', f'{how}{args} accepted the source {src}')
        finally:
            os.chdir(old)
            if was is None:
                os.environ.pop('HOME', None)
            else:
                os.environ['HOME'] = was
    check.assumptions += ['two configuration files of the same rank: either may be taken', 'a file name with an unknown suffix is no observer of a dataset',
                          'files of observers with plain names (earth.nc) may or may not be listed']
