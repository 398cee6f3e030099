"""Runtime parameters and configuration files (P20, P21).

TLC enumerates definitions and settings of parameters with the values they must have (specs/Parameters.tla), and the
lines of one or two configuration files with what they mean (specs/ConfigText.tla).  The harness writes each case as C
source code and configuration files, in varying layouts, and reads them through the package.
"""
#: P20 P21
import fractions, io, json, math, os, pathlib, re, subprocess, sys
import core
from core import outcome

KIND = dict(numEnergySteps='int', numMuSteps='int', numSpecies='int', obsR='list', obsPhi='list', mass='list')


TABLE = json.loads((pathlib.Path(__file__).parent / 'parameters.json').read_text())
"""The parameters of EPREM: their units, default values and aliases."""


def q(v):
    return fractions.Fraction(v[0], v[1])


def number(v, rng, kind='float', plain=False):
    """Text of a number."""
    x = q(v)
    if kind == 'int':
        return rng.choice([f'{x.numerator}', f'{x.numerator}', f'+{x.numerator}' if x > 0 and not plain else f'{x.numerator}'])
    f = float(x)
    forms = [repr(f)]
    if x.denominator == 1:
        forms += [str(x.numerator)]
    if plain:
        forms += [f'{f:.6e}', f'{f:.6E}'] if float(f'{f:.6e}') == f else []
    else:
        forms += [f'{f:.17e}', f'{f:.17E}'] + ([f'+{f!r}'] if f > 0 else [])
        if 0 < f < 1:
            forms.append(repr(f).lstrip('0') if 'e' not in repr(f) else repr(f))
    return rng.choice(forms)


def text(d, rng, kind):
    """The C text of a definition."""
    def name(p):
        return rng.choice([f'config.{p}', f'config.{p}'])
    gap = rng.choice([' ', ' ', ''])
    k = d['k']
    if k == 'lit':
        return number(d['v'], rng, kind)
    if k == 'ref':
        return name(d['x'])
    if k == 'const':
        return d['x']
    if k in ('sum', 'diff', 'prod', 'quot'):
        op = dict(sum='+', diff='-', prod='*', quot='/')[k]
        return f'{name(d["x"])}{gap}{op}{gap}{name(d["y"])}'
    if k in ('sumlit', 'difflit'):
        return f'{name(d["x"])}{gap}{"+" if k == "sumlit" else "-"}{gap}{number(d["v"], rng, plain=True)}'
    if k in ('sumsum', 'sumdiff', 'diffsum', 'diffdiff'):
        one, two = ('+' if k.startswith('sum') else '-'), ('+' if k.endswith('sum') else '-')
        return f'{name(d["x"])}{gap}{one}{gap}{name(d["y"])}{gap}{two}{gap}{number(d["v"], rng, plain=True)}'
    lit = number(d['v'], rng, plain=True)
    return rng.choice([f'{lit}{gap}*{gap}{name(d["x"])}', f'{name(d["x"])}{gap}*{gap}{lit}'])


def source(folder, defs, consts, rng):
    """Write configuration.c and baseTypes.h."""
    lines = ['#include "baseTypes.h"', '', 'void initGlobalParameters(void)', '{', '  /* the parameters */']
    todo = dict(defs)
    todo.setdefault('useDegrees', dict(k='lit', v=[0, 1]))
    names = list(todo)
    rng.shuffle(names)
    for n in names:
        kind = KIND.get(n, 'int' if n == 'useDegrees' else 'float')
        t = text(todo[n], rng, kind)
        pad = rng.choice(['  ', '\t', ''])
        if kind == 'list':
            if todo[n]['k'] == 'lit':
                x = q(todo[n]['v'])
                t = re.sub('[-+eE]', '', repr(float(x)))
                t = rng.choice([t, t.lstrip('0') if t.startswith('0.') and t != '0.0' else t, str(abs(x.numerator)) if x.denominator == 1 else t])
            lines += [f'{pad}Scalar_t default_{n}[1] = {{{t}}};',
                      f'{pad}config.{n} = readDoubleArray("{n}", 1, &size, default_{n}, 0.0, LARGEFLOAT);']
        else:
            lines.append(f'{pad}config.{n} = {dict(int="readInt", float="readDouble")[kind]}("{n}", {t}, 0, LARGEFLOAT);')
    lines.append('  config.warningsFile = (char*)readString("warningsFile", "warnings.txt");')
    lines += ['}', '']
    (folder / 'configuration.c').write_text('\n'.join(lines))
    lines = ['#ifndef BASETYPES_H', '/* constants */']
    for c in consts:
        if len(c['parts']) == 1 and c['parts'][0]['base'] == '' and c['parts'][0]['power'] == 1:
            t = number(c['parts'][0]['num'], rng, 'int' if c['name'] in ('T', 'F') else 'float', plain=True)
        else:
            t = ''
            parts = sorted(c['parts'], key=lambda p: p['power'] < 0)
            for i, p in enumerate(parts):
                b = p['base'] or number(p['num'], rng, plain=True)
                for _ in range(abs(p['power'])):
                    t += b if not t else (f' * {b}' if p['power'] > 0 else f' / {b}')
                    # a quotient of several is written with one division
            t = rng.choice([f'({t})', f'( {t} )'])
        lines.append(f'#define {c["name"]}{rng.choice([" ", "   ", chr(9)])}{t}')
    (folder / 'baseTypes.h').write_text('\n'.join(lines + ['#endif', '']))


def settings(path, conf, rng, extra=()):
    lines = []
    for n, v in conf.items():
        kind = KIND.get(n, 'int' if n == 'useDegrees' else 'float')
        if kind == 'list':
            t = '[' + rng.choice([', ', ',', ' , ']).join(number(x, rng) for x in v) + ']'
        else:
            t = number(v, rng, kind)
        g = rng.choice(['', ' ', '  '])
        lines.append(f'{n}{g}={g}{t}{rng.choice(["", "", " # set"])}')
        if rng.random() < .2:
            lines.insert(0, f'# {n} = 77')
            lines.insert(0, f'{n}=78')
    path.write_text('\n'.join(lines) + rng.choice(['\n', '']))


def agrees(got, want, unit, tol=1e-9):
    """Does the value `got` of a parameter denote the number(s) `want` in `unit`?"""
    from eprempy import metric, parameter
    want = [float(w) for w in want]
    if unit is None:
        vals = got if isinstance(got, list) else [got]
        return len(vals) == len(want) and all(isinstance(v, (int, float)) and math.isclose(v, w, rel_tol=tol, abs_tol=1e-300) for v, w in zip(vals, want))
    return (isinstance(got, parameter.Variable) and got.unit == metric.unit(unit) and len(got) == len(want)
            and all(math.isclose(float(got[i]), w, rel_tol=tol, abs_tol=1e-300) for i, w in enumerate(want)))


def check_P20(check):
    from eprempy import parameter
    big, rng = check.thorough, check.rng
    rat = lambda s: '{' + ', '.join(f'<<{a}, {b}>>' for a, b in s) + '}'
    part = lambda base, power, num=(1, 1): f'[base |-> "{base}", power |-> {power}, num |-> <<{num[0]}, {num[1]}>>]'
    consts = dict(THRESH=[part('', 1, (1, 4))], AU=[part('', 1, (5, 1))], RSUN=[part('', 1, (3, 2))], RSAU=[part('RSUN', 1), part('AU', -1)],
                  TAU=[part('AU', 2), part('', 1, (2, 1))], MZERO=[part('TAU', 1), part('RSUN', -2)], T=[part('', 1, (1, 1))])
    ctext = lambda c: '[' + ', '.join(f'{k} |-> <<{", ".join(v)}>>' for k, v in c.items()) + ']'
    seq = lambda names: '<<' + ', '.join(f'"{n}"' for n in names) + '>>'
    sset = lambda names: '{' + ', '.join(f'"{n}"' for n in names) + '}'
    lit = lambda a, b=1: f'Lit(<<{a}, {b}>>)'
    package = dict(simStartTime=lit(0), tDel=lit(1, 96), simStopTime='Two("sum", QOne, "simStartTime", "tDel")', epCalcStartTime='Ref("simStartTime")',
                   idealShockInitTime='Ref("simStartTime")', idealShockWidth=lit(0), idealShockPhiWidth='Ref("idealShockWidth")',
                   idealShockThetaWidth='Ref("idealShockWidth")', idealShockSharpness=lit(1), idealShockScaleLength=lit(46491, 10000000),
                   idealShockScale='Two("quot", QOne, "idealShockSharpness", "idealShockScaleLength")', rScale='Const("RSAU")', obsR='Ref("rScale")',
                   numEnergySteps=lit(20), kperxkpar=lit(1, 100), lamo=lit(1), flowMag=lit(40000000), obsPhi=lit(0), mass=lit(1))
    rsau = fractions.Fraction(6.96e10 / 1.495978707e13).limit_denominator(40000)
    pconst = dict(RSAU=[part('', 1, (rsau.numerator, rsau.denominator))])
    lits = [(0, 1), (1, 2), (3, 1)]
    runs = [  # order, forms, literals, constants, fixed, how many given, which
        (['tDel', 'simStartTime', 'simStopTime'], ['lit', 'ref', 'sum', 'diff'], lits, consts, None, 2, None),
        (['lamo', 'kperxkpar', 'boundaryFunctGamma'], ['lit', 'ref', 'prod', 'quot'], [(0, 1), (-1, 4), (3, 1)], consts, None, 2, None),
        (['eMin', 'eMax'], ['lit', 'const', 'sumlit', 'difflit', 'scaled'], [(0, 1), (1, 2), (7, 1)], consts, None, 2, None),
        (['tDel', 'simStartTime', 'simStopTime'], ['lit', 'sumsum', 'sumdiff', 'diffsum', 'diffdiff', 'scaled'], [(1, 8), (3, 1)], consts, None, 1, None),
        (['numEnergySteps', 'numMuSteps'], ['lit', 'ref'], [(0, 1), (5, 1), (12, 1)], consts, None, 2, None),
        (['rScale', 'obsR'], ['lit', 'ref', 'const'], [(0, 1), (1, 2)], consts, None, 2, None),
        (['idealShockWidth', 'idealShockPhiWidth', 'obsPhi'], ['lit', 'ref'], [(0, 1), (45, 1)], consts, None, 2, None),
        (list(package), ['lit'], [(0, 1), (5, 2)] + ([(7, 1)] if big else []), pconst, package, 3 if big else 2, [n for n in package if n not in ('numEnergySteps', 'flowMag')]),
    ]
    if big:
        runs.append((['tDel', 'simStartTime', 'simStopTime', 'epCalcStartTime'], ['ref', 'sum', 'const'], [(1, 2), (3, 1)], {k: consts[k] for k in ('RSAU', 'RSUN', 'AU')}, None, 2, None))
        runs.append((['lamo', 'rScale', 'boundaryFunctGamma'], ['lit', 'ref', 'sum', 'prod', 'quot', 'scaled', 'const'], [(1, 2), (-3, 1)],
                     {k: consts[k] for k in ('RSAU', 'RSUN', 'AU')}, None, 1, None))
    units = {k: v['unit'] for k, v in TABLE.items()}
    with core.scratchdir() as d:
        for order, forms, literals, cdefs, fixed, n, given in runs:
            r = check.tlc('Parameters', consts=dict(Order=seq(order), Forms=sset(forms), Literals=rat(literals), ConstDefs=ctext(cdefs), MaxSet=str(n),
                          Fixed='[' + ', '.join(f'{k} |-> {v}' for k, v in fixed.items()) + ']' if fixed else '<<>>', Given=sset(given or order)))
            known = next(x['consts'] for x in r.records if 'consts' in x)
            states = [x for x in r.records if 'defs' in x]
            rng.shuffle(states)
            for x in states[:(20000 if big else 1500)]:
                one(check, d, x, known, fixed, rng, units)
        others(check, d, rng)
    check.assumptions += ['in a run with useDegrees, angles which the run does not give are left unspecified']


def names_of(n):
    return TABLE.get(n, {}).get('aliases') or [n]


def one(check, d, x, consts, fixed, rng, units):
    from eprempy import parameter
    defs = {e['name']: e['def'] for e in x['defs']}
    conf = {e['name']: e['value'] for e in x['conf']}
    values = {e['name']: e['value'] for e in x['values']}
    given = {k: ([v] + [[3, 8]] * rng.choice([0, 0, 1, 2]) if KIND.get(k) == 'list' else v) for k, v in conf.items()}
    if not fixed:
        source(d, defs, consts, rng)
    degrees = rng.random() < .2 and {'useDegrees': [1, 1]} or {}
    settings(d / 'run.cfg', {**degrees, **given}, rng)
    kw = {} if fixed else dict(srcdir=rng.choice([d, str(d)]))
    if given or degrees or rng.random() < .5:
        p = rng.choice([d / 'run.cfg', str(d / 'run.cfg')])
        if fixed or rng.random() < .5:
            kw['config'] = p
            make = lambda: parameter.interface(**kw)
        else:
            make = lambda: parameter.interface(p, **kw)
    else:
        make = lambda: parameter.interface(**kw)
    it = outcome(make)
    check.traces += 1
    show = f'definitions {({k: text(v, rng, "float") for k, v in defs.items()}) if not fixed else "of the package"}, given {({k: str(v) for k, v in {**degrees, **given}.items()})}'
    undefined = any(v[1] == 0 for v in values.values())
    if it[0] != 'ok':
        if not undefined:
            forms = ' '.join(sorted({v['k'] for v in defs.values()})) if not fixed else 'package'
            check.violation(f'interface with {forms}', f'{show}: raised {it[1]!r}')
        return
    it = it[1]
    names = list(values)
    rng.shuffle(names)
    for n in names:
        if values[n][1] == 0:
            continue
        v = given[n] if KIND.get(n) == 'list' and n in given else [values[n]]
        unit = units[n]
        if unit == 'rad' and degrees:
            if n not in given:
                continue
            unit = 'deg'
        alias = rng.choice(names_of(n))
        got = outcome(lambda: it[alias])
        check.steps += 1
        kind = defs[n]['k'] if n not in given else 'given'
        if got[0] != 'ok' or not agrees(got[1], [q(w) for w in v], unit, 1e-6 if fixed else 1e-9):
            check.violation(f'{KIND.get(n, "float")} parameter: {kind}', f'{show}: {alias!r} is {got[1]!r}; expected {[str(q(w)) for w in v]} {unit}')
        elif n not in it or alias not in it:
            check.violation('membership', f'{n!r} or {alias!r} is not in the interface')
    check.count('given' if given else 'default')
    if rng.random() < .1:
        for bad in ('nothing', 'tDel ', 'config.tDel', 'TDEL', '', 'simStart'):
            got = outcome(lambda: it[bad])
            if got[0] == 'ok' or not isinstance(got[1], KeyError) or bad in it:
                check.violation('unknown name', f'{bad!r} gave {got[1]!r}')
        for c in consts if not fixed else ():
            got = outcome(lambda: it.basetypes[c['name']])
            if got[0] != 'ok' or not math.isclose(float(got[1]), float(q(c['value'])), rel_tol=1e-12):
                check.violation('constants', f'{c["name"]} = {c["parts"]} is {got[1]!r}; expected {q(c["value"])}')


def others(check, d, rng):
    """Strings, conversions of units, every name of the package."""
    from eprempy import metric, parameter
    default = parameter.interface()
    names = [n for n in TABLE if 'default' in TABLE[n]]
    for n in names:
        unit, want = TABLE[n]['unit'], TABLE[n]['default']
        got = outcome(lambda: default[n])
        check.steps += 1
        if isinstance(want, list):
            ok = got[0] == 'ok' and agrees(got[1], want, unit, 1e-9)
        else:
            ok = got == ('ok', want)
        if not ok:
            check.violation('package defaults', f'{n!r} is {got[1]!r}; expected {want} {unit or ""}')
        aliases = TABLE[n]['aliases']
        for a in aliases:
            x, y = outcome(lambda: default[n]), outcome(lambda: default[a])
            if x[0] != 'ok' or y[0] != 'ok' or repr(x[1]) != repr(y[1]):
                check.violation('aliases', f'{n!r} is {x[1]!r}, {a!r} is {y[1]!r}')
    for n, v in (('warningsFile', 'warn.txt'), ('mhdDirectory', 'a/b c'), ('warningsFile', '12')):
        (d / 's.cfg').write_text(f'{n} = {v}\n')
        got = outcome(lambda: parameter.interface(d / 's.cfg')[n])
        check.expect(f'string parameter', got, ('ok', v), f'{n} = {v}')
    (d / 's.cfg').write_text('tDel = 0.5\nlamo = 2\nflowMag = 4e7\nidealShockTheta = 90\nuseDegrees = 1\n')
    it = parameter.interface(str(d / 's.cfg'))
    for n, u, w in (('tDel', 'h', 12), ('tDel', 's', 43200), ('lamo', 'km', 2 * 149597870.7), ('flowMag', 'km / s', 400), ('flowMag', 'm / s', 4e5), ('idealShockTheta', 'rad', math.pi / 2)):
        got = outcome(lambda: it[n].withunit(u))
        if got[0] != 'ok' or got[1].unit != metric.unit(u) or not math.isclose(float(got[1]), w, rel_tol=1e-6):
            check.violation('conversion', f'{n} in {u} is {got[1]!r}; expected {w}')
    # comments in another style
    (d / 's.cfg').write_text('; comment\ntDel = 0.25 ; day\n')
    got = outcome(lambda: float(parameter.interface(d / 's.cfg', comments=[';'])['tDel']))
    check.expect('comments option', got, ('ok', 0.25))
    if outcome(lambda: parameter.interface(d / 'missing.cfg'))[0] == 'ok':
        check.violation('missing file', 'a missing configuration file was accepted')


# ---------------------------------------------------------------- P21

MARKS = [['#'], ['#'], [';'], ['#', ';'], ['!', '%']]


def line(x, marks, rng):
    m = rng.choice(marks)
    if x['kind'] == 'silent':
        return dict(blank='', spaces=rng.choice(['  ', '\t', ' \t ']), comment=f'{m} note', commentpair=f'{m}a=9', indented=f'{rng.choice([" ", chr(9), "   "])}{m} a = 9',
                    bare=m, marks=f'{m}{m}{m}')[x['layout']]
    k, v = x['key'], x['value']
    return dict(tight=f'{k}={v}', spaced=f'{k} = {v}', wide=f'{k}   =\t{v}  ', indented=f'  {k} ={v}', inline=f'{k}={v} {m} note',
                inlinepair=f'{k} = {v} {m} b=9', glued=f'{k}= {v}{m}note {m} more')[x['layout']]


def body(lines, marks, rng):
    t = '\n'.join(line(x, marks, rng) for x in lines)
    return t + rng.choice(['\n', '\n', '']) if lines else t


def check_P21(check):
    from eprempy import parameter
    big, rng = check.thorough, check.rng
    sset = lambda names: '{' + ', '.join(f'"{n}"' for n in names) + '}'
    layouts = ['tight', 'spaced', 'wide', 'indented', 'inline', 'inlinepair', 'glued']
    silent = ['blank', 'spaces', 'comment', 'commentpair', 'indented', 'bare', 'marks']
    runs = [(['a', 'b'], ['1', '-3.5e-2'], layouts, silent, (3, 0)), (['a'], ['', "'x y'", '[1.0, 2.0]', 'x=y', 'a/b.txt', '"p=q"'], layouts, silent, (2, 0)),
            (['a', 'b', 'c'], ['1', '2', ''], ['spaced'], ['comment'], (2, 2))]
    if big:
        runs += [(['a', 'b'], ['1', '2'], ['tight', 'inline', 'wide'], ['blank', 'spaces', 'indented'], (4, 0)), (['a', 'b', 'c'], ['1', '2'], ['spaced'], [], (3, 3))]
    with core.scratchdir() as d:
        old = os.getcwd()
        os.chdir(d)
        try:
            for keys, values, lay, sil, most in runs:
                r = check.tlc('ConfigText', consts=dict(Keys=sset(keys), Values='{' + ', '.join('"%s"' % v.replace('"', '\\"') for v in values) + '}',
                              Layouts=sset(lay), Silent=sset(sil), MaxLen=f'<<{most[0]}, {most[1]}>>'))
                recs = list(r.records)
                rng.shuffle(recs)
                for x in recs[:(30000 if big else 4000)]:
                    texts(check, d, x, rng)
            generated(check, d, rng)
            compared(check, d, rng)
        finally:
            os.chdir(old)


def texts(check, d, x, rng):
    from eprempy import parameter
    marks = rng.choice(MARKS)
    (d / 'l.cfg').write_text(body(x['left'], marks, rng))
    (d / 'r.cfg').write_text(body(x['right'], marks, rng))
    give = {} if marks == ['#'] and rng.random() < .7 else dict(comments=rng.choice([list, tuple])(marks))
    form = lambda n: rng.choice([d / n, str(d / n), n, pathlib.Path(n), f'./{n}'])
    l = {e['key']: e['value'] for e in x['l']}
    rr = {e['key']: e['value'] for e in x['r']}
    got = outcome(lambda: parameter.configfile(form('l.cfg'), **give))
    check.traces += 1
    what = ' '.join(sorted({e['layout'] for e in x['left']}))
    seen = outcome(lambda: dict(got[1]))
    check.steps += 1
    if seen != ('ok', l):
        check.violation(f'text: {what}'[:80], f'{(d / "l.cfg").read_text()!r} with comments {marks} means {l}; read as {seen[1]!r}')
        return
    cfg = got[1]
    for k in ('a', 'b', 'c', 'nothing', 'note'):
        g = outcome(lambda: cfg[k])
        if (g != ('ok', l[k])) if k in l else (g[0] == 'ok' or not isinstance(g[1], KeyError)) or (k in cfg) != (k in l) or cfg.get(k) != l.get(k):
            check.violation('look-up', f'{k!r} of {l} is {g[1]!r}')
    if len(cfg) != len(l):
        check.violation('length', f'{l} has length {len(cfg)}')
    if not x['right'] and rng.random() > .1:
        return
    other = outcome(lambda: parameter.configfile(form('r.cfg'), **give))
    if other[0] != 'ok':
        return
    other = other[1]
    val = lambda o: o['value'] if o['has'] else None
    want = {e['key']: (val(e['left']), val(e['right'])) for e in x['diff']}
    back = {k: (b, a) for k, (a, b) in want.items()}
    named = rng.random() < .5
    given = form('r.cfg') if named else other
    kw = give if named and give else {}
    tests = [('compare', lambda: cfg.compare(given, **kw), want), ('compare swapped', lambda: other.compare(cfg), back),
             ('compare with itself', lambda: cfg.compare(cfg), {}), ('diff keys', lambda: dict(cfg.diff(given, **kw).keys), {0: set(l) - set(rr), 1: set(rr) - set(l)}),
             ('diff', lambda: dict(cfg.diff(given, **kw).full), {0: {k: v for k, v in l.items() if rr.get(k) != v}, 1: {k: v for k, v in rr.items() if l.get(k) != v}})]
    rng.shuffle(tests)
    for label, f, w in tests:
        g = outcome(f)
        check.steps += 1
        if g != ('ok', w):
            check.violation(f'{label}{" with a path" if named and "swapped" not in label and "itself" not in label else ""}', f'{l} against {rr}: {g[1]!r}; expected {w}')


def same(a, b):
    """Do two values of a parameter agree?"""
    from eprempy import parameter
    if isinstance(a, parameter.Variable):
        return isinstance(b, parameter.Variable) and a.unit == b.unit and len(a) == len(b) and outcome(lambda: [float(u) for u in a] == [float(v) for v in b]) == ('ok', True)
    return type(a) is type(b) and a == b


def generated(check, d, rng):
    """Write the default values and read them back."""
    from eprempy import cli, parameter
    for src in (None, d):
        if src:
            source(d, dict(tDel=dict(k='lit', v=[1, 2]), simStartTime=dict(k='ref', x='tDel'), rScale=dict(k='const', x='RSAU'), obsR=dict(k='ref', x='rScale'),
                           numEnergySteps=dict(k='lit', v=[0, 1]), mass=dict(k='lit', v=[3, 1])),
                   [dict(name='RSAU', parts=[dict(base='', power=1, num=[3, 8])])], rng)
        with core.quiet():
            got = outcome(lambda: cli.run('configfile', dict(generate='gen.cfg', source=src, verbose=rng.random() < .5)))
        if got[0] != 'ok':
            check.violation('generate', f'raised {got[1]!r}')
            continue
        default = parameter.interface(srcdir=src)
        read = outcome(lambda: parameter.interface('gen.cfg', srcdir=src))
        if read[0] != 'ok':
            check.violation('generate', f'reading back: {read[1]!r}')
            continue
        for n in parameter.ConfigurationC(src):
            a, b = outcome(lambda: default[n]), outcome(lambda: read[1][n])
            if a[0] != 'ok' or b[0] != 'ok' or not same(a[1], b[1]):
                kind = 'list' if isinstance(a[1], parameter.Variable) and n in ('mass', 'charge', 'obsR', 'obsPhi', 'obsTheta', 'streamSpawnLocAzi', 'streamSpawnLocZen') else type(a[1]).__name__
                check.violation(f'generate: {kind}', f'{n}: {a[1]!r} was read back as {b[1]!r}')
            check.steps += 1


def tables(out):
    """The tables that the command-line interface prints: heading -> {label: value}."""
    found, lines = {}, out.split('\n')
    for i, l in enumerate(lines):
        if i and l and set(l) == {'-'}:
            rows = {}
            for row in lines[i + 1:]:
                if not row.strip():
                    break
                k, _, v = row.strip().partition(' ')
                rows[k] = v.strip()
            head = lines[i - 1].strip()
            found.setdefault(head.split(' (default')[0], []).append(rows)
    return found


def compared(check, d, rng):
    """The comparison of files from the command line."""
    from eprempy import cli, parameter
    names = ['tDel', 'lamo', 'idealShockWidth', 'useDegrees', 'numEnergySteps', 'mass', 'warningsFile', 'useDrift']
    pool = dict(tDel=['0.5', '0.01041666666667', '2'], lamo=['1.0', '3'], idealShockWidth=['0.5', '45'], useDegrees=['0', '1'], numEnergySteps=['20', '30'],
                mass=['[1.0]', '[1.0, 4.0]'], warningsFile=['w.txt'], useDrift=['0', '1'])
    (d / 'sub').mkdir(exist_ok=True)
    for trial in range(400 if check.thorough else 60):
        n = rng.choice([1, 2, 2, 3])
        files, confs = [], []
        for i in range(n):
            f = rng.choice(['', 'sub/']) + f'c{i}.cfg'
            conf = {k: rng.choice(v) for k, v in pool.items() if rng.random() < .3} if not confs or rng.random() < .7 else dict(rng.choice(confs))
            (d / f).write_text(''.join(f'{k} = {v}\n' for k, v in conf.items()))
            files.append(f)
            confs.append(conf)
        diff, named = rng.random() < .7, rng.random() < .3 and n > 1
        with core.quiet() as buf:
            got = outcome(lambda: cli.run('configfile', dict(generate=None, files=list(files), source=None, diff=diff, names=named)))
        check.steps += 1
        show = f'configfile -c {files} {"--diff" if diff else ""} {"--names" if named else ""} with {confs}'
        if got[0] != 'ok':
            check.violation(f'command line{": no difference" if diff and all(c == confs[0] for c in confs) else ""}', f'{show} raised {got[1]!r}')
            continue
        found = tables(buf.getvalue())
        it = [parameter.interface(d / f) for f in files]
        for k in parameter.ConfigurationC():
            vals = [i[k] for i in it]
            differ = any(not same(vals[0], v) for v in vals)
            alike = all(c.get(k) == confs[0].get(k) for c in confs) and (k not in confs[0] or not differ)
            if diff and differ and all(k not in c for c in confs):
                continue  # the default follows other parameters, which are listed
            if not diff or differ:
                rows = [r for r in found.get(k, []) if r]
                if len(rows) != 1:
                    check.violation(f'command line: {"difference" if diff else "listing"}', f'{show}: {len(rows)} tables of {k}')
                    continue
                rows = list(rows[0].items())
                if len(rows) != n:
                    check.violation('command line: columns', f'{show}: {rows} for {k}')
                    continue
                for i, (label, v) in enumerate(rows):
                    tag = str(i) if not named else os.path.relpath(d / files[i], os.path.commonpath([str(d / f) for f in files]))
                    ok = label == tag and (v == '(default)' if k not in confs[i] else shown(v, vals[i]))
                    if not ok:
                        check.violation('command line: value', f'{show}: {label} {v} for {k}; expected {tag} {vals[i] if k in confs[i] else "(default)"}')
            elif alike and [r for r in found.get(k, []) if r]:
                check.violation('command line: no difference shown', f'{show}: {k} is listed: {found[k]}')


def shown(text, value):
    """Is `text` a way to show the value?"""
    from eprempy import metric, parameter
    if not isinstance(value, parameter.Variable):
        return text == str(value)
    nums = [float(t) for t in re.findall(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?', re.split("'", text)[0])]
    unit = re.findall("'(.*)'", text)
    return nums == [float(v) for v in value] and (not unit or metric.unit(unit[0]) == value.unit)
