"""Conformance of eprempy.symbolic with specs/Symbolic.tla (language) and SymOps.tla (algebra)."""
#: P07 P08
import collections, concurrent.futures, fractions, itertools, random
import core

NAMES = [dict(a='a', b='b'), dict(a='km', b='s'), dict(a='V1', b='v1'), dict(a='#', b='R_0'),
         dict(a='_q', b='_Q'), dict(a='rad', b='r'), dict(a='B12', b='B1'), dict(a='nuc', b='MeV')]
NUM = {
    '1': ['1', '1.0', '1e0', '3/3'],
    '2': ['2', '2.0', '2e0', '0.2e1', '20e-1', '4/2', '24/12'],
    '3': ['3', '3.0', '3.', '30e-1', '.3e1', '12/4'],
    '1/2': ['1/2', '0.5', '.5', '5e-1', '10/20', '50e-02'],
    '2/3': ['2/3', '10/15', '24/36'],
    '1/12': ['1/12', '10/120', '2/24'],
    '6': ['6', '6.0', '600e-2'],
    '4': ['4', '4.0', '4e+0'],
}
EXP = {
    '^0': ['0', '0.0', '0/7'], '^1': ['1', '+1', '1.0'], '^2': ['2', '+2', '2.0', '4/2', '24/12', '2e0', '20e-1'], '^3': ['3', '3.0'],
    '^-1': ['-1', '-1.0', '-12/12'], '^-2': ['-2', '-2.', '-20/10'], '^1/2': ['1/2', '0.5', '.5', '+1/2', '5/10', '12/24', '50e-2'],
    '^-3/2': ['-3/2', '-1.5', '-15/10', '-15e-1'], '^5/12': ['5/12', '10/24', '+5/12'],
}
BADCHAR = ['%', '?', '!', '&', ',', '^', '@', '~', '|', '=']
SYNTAX = [dict(), dict(), dict(), dict(multiply='@', divide='$'), dict(opening='[', closing=']'), dict(raising='!')]


def prime_frac(v):
    """The rational coefficient of a denotation, or None if it is irrational."""
    c = fractions.Fraction(1)
    for p in ('2', '3'):
        if p in v:
            n, d = v[p]
            if d != 1:
                return None
            c *= fractions.Fraction(int(p)) ** n
    return c


def prime_float(v):
    c = 1.0
    for p in ('2', '3'):
        if p in v:
            c *= float(p) ** (v[p][0] / v[p][1])
    return c


def norm(v):
    return v if isinstance(v, dict) else {}


def rendered(tokens, rng, name, syntax):
    """One concrete spelling of a token sequence."""
    mul, div = syntax.get('multiply', '*'), syntax.get('divide', '/')
    op, cl, pw = syntax.get('opening', '('), syntax.get('closing', ')'), syntax.get('raising', '^')
    out, prev = '', None
    for k in tokens:
        if k == '?':
            s, kind = rng.choice([c for c in BADCHAR if c not in (mul, div, op, cl, pw)]), 'bad'
        elif k.startswith('^'):
            s, kind = pw + rng.choice(EXP[k]), 'exp'
        elif k.endswith('~'):
            s, kind = rng.choice(NUM[k[:-1]]), 'glued'
        elif k in NUM:
            s, kind = rng.choice(NUM[k]), 'num'
        elif k == '(':
            s, kind = op, 'open'
        elif k == 'sqrt(':
            s, kind = 'sqrt' + rng.choice(['', ' ', '']) + op, 'fn'
        elif k == ')':
            s, kind = cl, 'close'
        elif k == '*':
            s, kind = mul, 'op'
        elif k == '/':
            s, kind = div, 'div'
        else:
            s, kind = name[k], 'sym'
        if prev is None:
            gap = rng.choice(['', '', ' '])
        elif kind == 'exp' or prev == 'glued':
            gap = ''
        elif prev in ('open', 'fn') or kind == 'close':
            gap = rng.choice(['', '', ' '])
        elif prev == 'close' or kind == 'open':
            gap = rng.choice(['', ' '])
            if kind == 'open' and prev in ('num', 'exp') and not gap:
                # a number directly before a parenthesis is its coefficient
                gap = ' '
            if prev == 'close' and kind == 'fn':
                gap = ' '
        elif kind in ('op', 'div') or prev in ('op', 'div'):
            gap = rng.choice(['', ' ', ' ', '  '])
            if kind == 'div' and prev in ('num', 'exp') or prev == 'div':
                # 2/3 is a number and a^2/3 an exponent, so keep them apart
                gap = gap or ' '
        elif prev == 'exp' and kind == 'sym' and s[0] not in 'eE':
            gap = rng.choice(['', ' '])
        else:
            gap = rng.choice([' ', ' ', '  '])
        out += gap + s
        prev = kind
    if prev is not None and prev != 'glued':
        out += rng.choice(['', '', ' '])
    return out


def denotes(e, v, name, exact):
    """Why the real expression e does not denote v, or None."""
    back = {x: g for g, x in name.items()}
    coeff, got, order = fractions.Fraction(1), {}, []
    for i, t in enumerate(e):
        if t.base == '1':
            coeff *= t.coefficient
            if i:
                return f'constant {t} is not first'
            continue
        if t.coefficient != 1:
            return f'variable term {t} has a coefficient'
        if t.base not in back:
            return f'unknown symbol {t.base!r}'
        if t.base in got:
            return f'symbol {t.base!r} appears twice'
        if t.exponent == 0:
            return f'symbol {t.base!r} with exponent 0'
        got[t.base] = t.exponent
        order.append((-t.exponent, t.base))
    want = {name[g]: fractions.Fraction(*q) for g, q in v.items() if g in name}
    if set(got) != set(want):
        return f'symbols {got}, should be {want}'
    for k in got:
        if got[k] != want[k] if exact else abs(got[k] - want[k]) > 1e-12:
            return f'exponent of {k!r} is {got[k]}, should be {want[k]}'
    c = prime_frac(v)
    if exact and c is not None:
        if coeff != c:
            return f'coefficient {coeff}, should be {c}'
        if len(e) != len(want) + (c != 1 or not want):
            return f'{len(e)} terms'
        if order != sorted(order):
            return f'terms not in order: {[str(t) for t in e]}'
    elif abs(float(coeff) - prime_float(v)) > 1e-12 * abs(prime_float(v)):
        return f'coefficient {float(coeff)}, should be {prime_float(v)}'
    return None


def exactly(tokens, v):
    """True unless irrational coefficients may appear on the way."""
    nums = any(k in NUM or k.endswith('~') for k in tokens)
    return not (nums and any(k in ('^1/2', '^-3/2', '^5/12', 'sqrt(') for k in tokens)) and 'sqrt(' not in tokens


LANGS_Q = [
    # tokens, longest sequence
    ('{"a","b","2","2~","*","/","(",")","^2","^-3/2"}', 5),
    ('{"a","2~","/","(",")","^2"}', 8),
    ('{"a","b","*","/","(",")","^-1"}', 7),
    ('{"a","b","1/2","3~","sqrt(","/","*",")","^2","^0"}', 5),
    ('{"a","1/12","2/3~","/","(",")","^5/12","^-2"}', 5),
    ('{"a","b","?","*","(",")","^2"}', 5),
]
LANGS_T = [
    ('{"a","b","2","2~","*","/","(",")","^2","^-3/2"}', 6),
    ('{"a","2~","/","(",")","^2"}', 10),
    ('{"a","b","*","/","(",")","^-1"}', 8),
    ('{"a","b","1/2","3~","sqrt(","/","*",")","^2","^0"}', 6),
    ('{"a","b","1/12","2/3~","/","(",")","^5/12","^-2","^1/2"}', 6),
    ('{"a","b","?","*","/","(",")","^2","3"}', 6),
    ('{"a","2","/","(","sqrt(",")","^3"}', 8),
]


def language(check):
    langs = LANGS_T if check.thorough else LANGS_Q
    out = {}

    def one(lang):
        return check.tlc('Symbolic', workers=3, consts=dict(Tokens=lang[0], MaxLen=str(lang[1])))
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for r in pool.map(one, langs):
            for rec in r.records:
                out.setdefault(tuple(rec['t']), (rec['st'], norm(rec['v']), rec['amb']))
    return out


EXPONENTS = [2, 3, -1, -2, 0, '3', '-2', '^2']
HALVES = [fractions.Fraction(1, 2), '1/2', '-3/2', -.5, fractions.Fraction(-5, 12), '^5/12']


def operand_case(text, v, numbers, rng):
    """The same text as an operand, alone and with an explicit coefficient and exponent."""
    from eprempy import symbolic
    c = rng.choice([None, 1, 2, -3, fractions.Fraction(2, 3), 0.5])
    q = rng.choice([None, *EXPONENTS, *([] if numbers else HALVES)])
    args = ([] if c is None else [c]) + [text] + ([] if q is None else [q])
    op = symbolic.OperandFactory().create(*args)
    call = f'OperandFactory().create({", ".join(map(repr, args))})'
    e = fractions.Fraction(1 if q is None else q.lstrip('^') if isinstance(q, str) else q)
    outer = fractions.Fraction(op.exponent)
    coeff, got = float(op.coefficient), {}
    for t in symbolic.expression(op.base):
        coeff *= float(t.coefficient) ** float(outer)
        if t.base != '1':
            got[t.base] = t.exponent * outer
    want = {'a': 'a', 'b': 'b'}
    want = {g: fractions.Fraction(*v[g]) * e for g in want if g in v and fractions.Fraction(*v[g]) * e != 0}
    got = {k: x for k, x in got.items() if x != 0}
    if set(got) != set(want) or any(abs(got[k] - want[k]) > 1e-12 for k in got):
        return f'{call} has exponents {got}, should have {want}'
    true = float(1 if c is None else c) * prime_float(v) ** float(e)
    if abs(coeff - true) > 1e-12 * abs(true):
        return f'{call} has coefficient {coeff}, should have {true}'


def parse_case(job):
    """P07: the text denotes what the specification says."""
    from eprempy import symbolic
    cases, seed = job
    rng = random.Random(seed)
    fails, n = [], 0
    for tokens, (st, v, amb) in cases:
        for _ in range(2):
            name, syntax = rng.choice(NAMES), rng.choice(SYNTAX)
            text = rendered(tokens, rng, name, syntax)
            n += 1
            kind, e = core.outcome(symbolic.expression, text, **syntax)
            why = f'raised {e!r}' if kind == 'err' else denotes(e, v, name, exactly(tokens, v))
            if why:
                fails.append(('parse ' + ' '.join(tokens), f'{text!r} {syntax}: {why}'))
        if st != 'ok':
            continue
        numbers = any(k in NUM or k.endswith('~') for k in tokens)
        for _ in range(4 if len(tokens) <= 5 else rng.random() < .25):
            text = rendered(tokens, rng, NAMES[0], {})
            kind, why = core.outcome(operand_case, text, v, numbers, rng)
            if kind == 'err' or why:
                fails.append(('operand ' + ' '.join(tokens), f'{text!r}: {why!r}'))
    return n, fails, {'parse': n}


def run(check, fn, jobs, size=400):
    chunks = [(jobs[i:i + size], check.rng.random()) for i in range(0, len(jobs), size)]
    for n, fails, counts in core.pmap(fn, chunks, chunk=1):
        check.steps += n
        check.traces += n
        for k, v in counts.items():
            check.count(k, v)
        for k, d in fails:
            check.violation(k, d)


LITERALS = {
    '1': ['1', 1, '1/1', '(1)^3', ['1', '1']],
    'a': ['{a}', '({a})', '1 * {a}', ['{a}'], '{a}^2 / {a}'],
    'b': ['{b}', ['{b}'], '1 / {b}^-1'],
    '2': ['2', 2, 2.0, fractions.Fraction(2), '1 / (1/2)', ['2']],
    'a/b': ['{a} / {b}', '{a} {b}^-1', ['{a}', '{b}^-1'], '{b}^-1 * {a}', '({b} / {a})^-1'],
    '3a': ['3{a}', '3 * {a}', [3, '{a}'], '{a} 3', '6{a} / 2'],
    'a^1/2': ['{a}^1/2', '{a}^0.5', 'sqrt({a})', '({a}^-1)^-1/2'],
    '(2b)^2': ['(2{b})^2', '4{b}^2', '4 {b} {b}', ['2{b}', '2{b}']],
}


def literal(l, rng, name):
    x = rng.choice(LITERALS[l])
    if isinstance(x, str):
        return x.format(**name)
    if isinstance(x, list):
        return [y.format(**name) if isinstance(y, str) else y for y in x]
    return x


def history(job):
    from eprempy import symbolic
    walks, seed = job
    rng = random.Random(seed)
    fails, counts, n = [], {}, 0
    for walk in walks:
        name = rng.choice(NAMES)
        regs = {r: symbolic.expression('1') for r in walk[0][0]}
        exact = {r: True for r in regs}
        seen = []
        trail = []
        for pre, l, post in walk:
            op, r = l['op'], l['r']
            counts[op] = counts.get(op, 0) + 1
            n += 1
            s = l.get('s')

            def lit():
                x = literal(l['l'], rng, name)
                return symbolic.expression(x) if rng.random() < .3 or isinstance(x, list) and op == 'litdiv' else x

            def power():
                p = fractions.Fraction(*l['p'])
                c = [p, float(p)]
                if p.denominator == 1:
                    c.append(int(p))
                return rng.choice(c)
            inplace = s == r and rng.random() < .3
            act = {
                'set': lambda: symbolic.expression(literal(l['l'], rng, name)),
                'mul': lambda: regs[s] * regs[l['u']], 'div': lambda: regs[s] / regs[l['u']],
                'mullit': lambda: lit() * regs[s] if rng.random() < .5 else regs[s] * lit(),
                'divlit': lambda: regs[s] / lit(), 'litdiv': lambda: lit() / regs[s],
                'pow': lambda: regs[s] ** power(),
            }[op]
            if inplace and op in ('mul', 'div', 'pow'):
                def act():
                    x = regs[s]
                    if op == 'mul':
                        x *= regs[l['u']]
                    elif op == 'div':
                        x /= regs[l['u']]
                    else:
                        x **= power()
                    return x
            kind, e = core.outcome(act)
            trail.append(f"{op}({', '.join(f'{k}={l[k]}' for k in sorted(l) if k != 'op')})")
            bad = []
            if kind == 'err':
                bad.append(f'raised {e!r}')
            else:
                if s is not None:
                    exact[r] = exact[s] and (exact[l['u']] if 'u' in l else True)
                else:
                    exact[r] = True
                regs[r] = e
                exact[r] = exact[r] and prime_frac(norm(post[r])) is not None
                for q in regs:
                    if w := denotes(regs[q], norm(post[q]), name, exact[q]):
                        bad.append(f'{q} = {regs[q]}: {w}')
                old = [x for x in seen if rng.random() < .2]
                for x, v, s0, h in old:
                    if w := denotes(x, v, name, True):
                        bad.append(f'earlier result changed: {s0} is now {x}: {w}')
                    if str(x) != s0 or hash(x) != h:
                        bad.append(f'earlier result changed: {s0} is now {x}')
                    if exact[r]:
                        same = v == norm(post[r])
                        if (x == e) != same or (e == x) != same or (x != e) == same or (same and hash(x) != hash(e)):
                            bad.append(f'{x} == {e} is {x == e}, hashes {hash(x)} {hash(e)}')
                if exact[r]:
                    seen.append((e, norm(post[r]), str(e), hash(e)))
            if bad:
                fails.append((f'history {trail[-1]}', f'names {name}: ' + ' ; '.join(trail[-8:]) + '\n  ' + '\n  '.join(bad)))
                break
    return n, fails, counts


def check_P07(check):
    lang = language(check)
    ok = [x for x in lang.items() if x[1][0] == 'ok']
    check.extra['token_sequences'] = len(lang)
    check.extra['valid_sequences'] = len(ok)
    check.sample([' '.join(t) for t, _ in ok[100:104]])
    run(check, parse_case, ok)
    confs = [dict(Regs='{"x"}', Literals='{"1","a","b","2","a/b","3a","a^1/2","(2b)^2"}', Bound='2' if check.thorough else '1',
                  Powers='{QI(-1),QI(0),QI(2),Q(1,2)}'),
             dict(Regs='{"x","y"}', Literals='{"1","a","3a"}', Syms='{"a"}', Bound='1', Powers='{QI(-1),Q(1,2),QI(2),QI(0)}')]
    walks = []
    for c in confs:
        r = check.tlc('SymOps', workers=4, consts=c)
        g = core.Graph(r.records, {k: [] for k in r.records[0]['pre']})
        for w in itertools.chain(g.cover(check.rng, maxlen=150, budget=None if check.thorough else 200),
                                 g.random_walks(check.rng, 300 if check.thorough else 100, 100)):
            walks.append([(g.state[a], l, g.state[b]) for a, l, b in w])
    run(check, history, walks, size=8)


# ------------------------------------------------------------------ P08
def meaning_case(job):
    from eprempy import symbolic
    (cases, pool), seed = job
    rng = random.Random(seed)
    fails, counts, n = [], collections.Counter(), 0
    for tokens, (st, v, amb) in cases:
        name, syntax = rng.choice(NAMES), rng.choice(SYNTAX)
        text = rendered(tokens, rng, name, syntax)
        case = ' '.join(tokens)
        n += 1
        if st != 'ok':
            counts['reject'] += 1
            kind, e = core.outcome(symbolic.expression, text, **syntax)
            if kind == 'ok':
                fails.append(('accepts ' + case, f'{text!r} {syntax} is malformed, but read as {e}'))
            elif not isinstance(e, (ValueError, symbolic.OperandTypeError)):
                fails.append(('rejects ' + case, f'{text!r} {syntax}: {e!r} is not a parsing error'))
            continue
        e = symbolic.expression(text, **syntax)
        # strict operator order
        counts['strict'] += 1
        kind, s = core.outcome(symbolic.expression, text, operator_order='error', **syntax)
        errs = {'ratio': symbolic.RatioError, 'product': symbolic.ProductError}
        if amb:
            if kind == 'ok' or not isinstance(s, tuple(errs[a] for a in amb)):
                fails.append(('ambiguous ' + case, f'{text!r} should be refused as ambiguous: {s!r}'))
        elif kind == 'err' or s != e:
            fails.append(('unambiguous ' + case, f'{text!r} gives {s!r}'))
        # printing
        counts['print'] += 1
        for sep in (' ', '*', ' * '):
            p = e.format(separator=sep)
            kind, q = core.outcome(symbolic.expression, p)
            if kind == 'err' or q != e or hash(q) != hash(e) or str(q) != str(e):
                fails.append(('print ' + case, f'{text!r} prints as {p!r}, which reads as {q!r}'))
        if str(e) != e.format() or str(e) not in repr(e):
            fails.append(('str ' + case, f'{str(e)!r} {e.format()!r} {e!r}'))
        if not amb and st == 'ok':
            tex = e.format('tex')
            if tex != texform(e):
                fails.append(('tex ' + case, f'{e} formats as {tex!r}, should be {texform(e)!r}'))
        # sequence behaviour
        ts = list(e)
        if [e[i] for i in range(len(e))] != ts or [e[i - len(e)] for i in range(len(e))] != ts or list(e[:]) != ts \
                or list(e[1:]) != ts[1:] or any(core.outcome(lambda: e[i])[0] == 'ok' for i in (len(e), -len(e) - 1)):
            fails.append(('index ' + case, f'{e}: indexing disagrees with iteration'))
        if any(t not in e for t in ts):
            fails.append(('contains ' + case, f'{e}'))
        # comparison
        if not exactly(tokens, v):
            continue
        key = core.canon(v)
        others = [rng.choice(pool['all']) for _ in range(3)] + [rng.choice(pool['by'][key]) for _ in range(2)]
        for t2, v2 in others:
            counts['compare'] += 1
            text2 = rendered(t2, rng, name, {})
            f = symbolic.expression(text2)
            same = core.canon(v2) == key
            if ((e == f), (f == e), (e != f), (e == text2)) != (same, same, not same, same):
                fails.append(('equal ' + case + ' | ' + ' '.join(t2), f'{text!r} == {text2!r} is {e == f}/{f == e}, should be {same}'))
            if same and hash(e) != hash(f):
                fails.append(('hash ' + case + ' | ' + ' '.join(t2), f'{text!r} and {text2!r} are equal but hash differently'))
            A, B = set(e), set(f)
            if (e.difference(f), e.difference(f, symmetric=True), e.difference(f, split=True)) != (A - B, A ^ B, [A - B, B - A]) \
                    or (same and A != B):
                fails.append(('difference ' + case + ' | ' + ' '.join(t2), f'{e} {f} {e.difference(f)}'))
    return n, fails, dict(counts)


def texform(e):
    out = []
    for t in e:
        c = t.coefficient
        if t.base == '1':
            out.append(str(c))
        else:
            x = '' if t.exponent == 1 else f'^{{{t.exponent}}}'
            b = t.base if t.base == '#' else rf'\mathrm{{{t.base}}}'
            out.append(f'${b}{x}$')
    return ' '.join(out)


def check_P08(check):
    lang = language(check)
    cases = list(lang.items())
    exact = [(t, v) for t, (st, v, _) in cases if st == 'ok' and exactly(t, v)]
    by = collections.defaultdict(list)
    for t, v in exact:
        by[core.canon(v)].append((t, v))
    # a sample of partners is shared with each worker
    global POOL
    POOL = dict(all=exact, by=by)
    check.extra['token_sequences'] = len(cases)
    check.extra['distinct_meanings'] = len(by)
    check.sample([' '.join(t) for t, _ in cases[300:304]])
    size = 400
    chunks = [(cases[i:i + size], check.rng.random()) for i in range(0, len(cases), size)]
    for n, fails, counts in core.pmap(_meaning, chunks, chunk=1):
        check.steps += n
        check.traces += n
        for k, v in counts.items():
            check.count(k, v)
        for k, d in fails:
            check.violation(k, d)


def _meaning(job):
    cases, seed = job
    return meaning_case(((cases, POOL), seed))
