"""Conformance of eprempy.aliased with specs/Aliased.tla, AliasedBuild.tla and AliasGroups.tla."""
#: P05 P06
import collections, itertools, random
import core

POOLS = [
    dict(a='a', b='b', c='c', d='d', e='e'),
    dict(a='alpha', b='alp', c='ALPHA', d='al pha', e='pha'),
    dict(a='R', b='radius', c='r', d='(r)', e='1'),
    dict(a=0, b=8, c=16, d=24, e=32),
]


def freeze_state(m):
    return frozenset((frozenset(e['g']), e['v']) for e in m)


def compare(obj, m, name, universe, rng, cls=None):
    """Differences between an aliased mapping and the model state m."""
    from eprempy import aliased
    bad = []
    groups = [([name[k] for k in e['g']], e['v']) for e in m]
    flat = {k: v for g, v in groups for k in g}

    def eq(what, f, want):
        kind, got = core.outcome(f)
        if kind == 'err':
            bad.append(f'{what}: raised {type(got).__name__}: {got}; should be {want!r}')
        elif got != want:
            bad.append(f'{what}: {got!r}, should be {want!r}')

    def err(what, f, exc=KeyError):
        kind, got = core.outcome(f)
        if kind == 'ok' or not isinstance(got, exc):
            bad.append(f'{what}: {kind} {got!r}, should raise {exc.__name__}')
    C = collections.Counter
    eq('dict()', lambda: dict(obj), flat)
    eq('flat', lambda: obj.flat, flat)
    eq('len', lambda: len(obj), len(flat))
    eq('iter', lambda: C(iter(obj)), C(list(flat)))
    eq('keys', lambda: C(list(obj.keys())), C(list(flat)))
    eq('len keys', lambda: len(obj.keys()), len(flat))
    eq('values', lambda: C(obj.values()), C(flat.values()))
    eq('items', lambda: C(obj.items()), C(flat.items()))
    eq('len items', lambda: len(obj.items()), len(flat))
    eq('aliased keys', lambda: C(frozenset(k) for k in obj.keys(aliased=True)), C(frozenset(g) for g, _ in groups))
    eq('len aliased keys', lambda: len(obj.keys(aliased=True)), len(groups))
    eq('aliased values', lambda: C(obj.values(aliased=True)), C(v for _, v in groups))
    eq('len aliased values', lambda: len(obj.values(aliased=True)), len(groups))
    eq('aliased items', lambda: C((frozenset(k), v) for k, v in obj.items(aliased=True)),
       C((frozenset(g), v) for g, v in groups))
    eq('len aliased items', lambda: len(obj.items(aliased=True)), len(groups))
    eq('bool', lambda: bool(obj), bool(flat))
    eq('== dict', lambda: (obj == flat, flat == obj, obj != flat), (True, True, False))
    if flat:
        k0 = rng.choice(list(flat))
        eq('== other value', lambda: obj == {**flat, k0: 99}, False)
        eq('== missing key', lambda: obj == {k: v for k, v in flat.items() if k != k0}, False)
        eq('item in items', lambda: ((k0, flat[k0]) in obj.items(), (k0, 99) in obj.items()), (True, False))
    eq('== extra key', lambda: obj == {**flat, 'zzz': 1}, False)
    for k in universe:
        n = name[k]
        eq(f'{n!r} in', lambda: (n in obj, n in obj.keys()), (n in flat, n in flat))
        eq(f'get {n!r}', lambda: (obj.get(n), obj.get(n, 77)), (flat.get(n), flat.get(n, 77)))
        if n in flat:
            eq(f'[{n!r}]', lambda: obj[n], flat[n])
            g = next(g for g, _ in groups if n in g)
            eq(f'alias({n!r})', lambda: set(obj.alias(n)), set(g) - {n})
            eq(f'alias({n!r}, include)', lambda: set(obj.alias(n, include=True)), set(g))
        else:
            err(f'[{n!r}]', lambda: obj[n])
    for g, v in groups:
        order = list(g)
        rng.shuffle(order)
        eq(f'[Group{order}]', lambda: obj[aliased.Group(order)], v)
        eq(f'Group{order} in', lambda: aliased.Group(*order) in obj, True)
        if len(g) > 1:
            err(f'[Group{order[:-1]}]', lambda: obj[aliased.Group(order[:-1])])
            err(f'[tuple {tuple(order)}]', lambda: obj[tuple(order)])
    if cls and type(obj) is not cls:
        bad.append(f'type is {type(obj).__name__}')
    # another object with the same flat content is equal, whatever its grouping
    eq('== regrouped', lambda: obj == aliased.Mapping(flat), True)
    return bad


def describe(l):
    return f"{l['op']}({','.join(f'{k}={l[k]}' for k in sorted(l) if k not in ('op', 'ok', 'ret'))})"


def replay(job):
    from eprempy import aliased
    walk, seed = job
    rng = random.Random(seed)
    name = rng.choice(POOLS)
    back = {v: k for k, v in name.items()}
    m = rng.choice([lambda: aliased.MutableMapping(), lambda: aliased.MutableMapping({})])()
    snaps, trail, fails, counts = [], [], [], {}
    universe = sorted({k for _, l, _ in walk for k in 'abcde'})[:5]
    for pre, l, post in walk:
        op = l['op']
        counts[op] = counts.get(op, 0) + 1
        N = lambda x: name[l[x]]

        def act():
            if op == 'set':
                m[N('k')] = l['v']
            elif op == 'setgroup':
                g = next(e['g'] for e in pre['m'] if l['k'] in e['g'])
                g = [name[x] for x in g]
                rng.shuffle(g)
                m[aliased.Group(g)] = l['v']
            elif op == 'del':
                if rng.random() < .2 and l['ok']:
                    g = next(e['g'] for e in pre['m'] if l['k'] in e['g'])
                    del m[aliased.Group([name[x] for x in g])]
                else:
                    del m[N('k')]
            elif op == 'pop':
                return m.pop(N('k'), 0) if l['d'] else m.pop(N('k'))
            elif op == 'setdefault':
                return m.setdefault(N('k'), l['v'])
            elif op == 'update':
                d = {N('k'): l['v'], name[l['l']]: l['w']}
                rng.choice([lambda: m.update(d), lambda: m.update(list(d.items())),
                            lambda: m.update(aliased.Mapping(d))])()
            elif op == 'clear':
                m.clear()
            elif op == 'alias':
                m.alias(N('k'), *[name[x] for x in l['as']])
            elif op == 'group':
                m.group('<' + l['n'] + '>', *[name[x] for x in l['ks']])
            elif op == 'badgroup':
                m.group(N('k'), name[l['l']])
        kind, ret = core.outcome(act)
        trail.append(describe(l))
        bad = []
        if (kind == 'ok') != l['ok']:
            bad.append(f'outcome {kind} ({ret!r})')
        elif kind == 'ok' and 'ret' in l and ret != l['ret']:
            bad.append(f'returned {ret!r}, should be {l["ret"]!r}')
        elif kind == 'err' and op in ('del', 'pop') and not isinstance(ret, KeyError):
            bad.append(f'raised {ret!r}')
        if op == 'clear':
            # named groups survive, but have no values
            pass
        try:
            bad += compare(m, post['m'], name, universe, rng, aliased.MutableMapping)
            flat = {name[k]: e['v'] for e in post['m'] for k in e['g']}
            for n, ks in post['ng'].items() if isinstance(post['ng'], dict) else ():
                key = '<' + n + '>'
                if not ks:
                    if core.outcome(lambda: m[key])[0] == 'ok' or core.outcome(lambda: m.group(key))[0] == 'ok':
                        bad.append(f'undefined group {key} exists')
                    continue
                ks = [name[k] for k in ks]
                if tuple(m.group(key)) != tuple(ks):
                    bad.append(f'group {key} is {m.group(key)}')
                if all(k in flat for k in ks):
                    if tuple(m[key]) != tuple(flat[k] for k in ks):
                        bad.append(f'm[{key}] is {m[key]}')
                elif not isinstance(core.outcome(lambda: m[key])[1], KeyError):
                    bad.append(f'm[{key}] has a value for a deleted key')
                if all(all(k in flat for k in map(name.get, x)) for x in post['ng'].values()):
                    f = m.freeze(groups=True)
                    want = dict(flat)
                    want.update({'<' + g + '>': tuple(flat[name[k]] for k in x) for g, x in post['ng'].items() if x})
                    if dict(f) != want:
                        bad.append(f'freeze(groups) is {dict(f)}')
        except Exception as e:
            bad.append(f'observation failed: {e!r}')
        if not bad and rng.random() < .15:
            how = rng.choice(['copy', 'freeze', 'Mapping', 'MutableMapping', 'or'])
            s = {'copy': lambda: m.copy(), 'freeze': lambda: m.freeze(), 'Mapping': lambda: aliased.Mapping(m),
                 'MutableMapping': lambda: aliased.MutableMapping(m), 'or': lambda: m | aliased.Mapping({})}[how]()
            snaps.append((len(trail), how, s, post['m']))
        if not bad and snaps and rng.random() < .3:
            i, how, s, sm = rng.choice(snaps)
            cls = {'copy': aliased.MutableMapping, 'freeze': aliased.Mapping, 'Mapping': aliased.Mapping,
                   'MutableMapping': aliased.MutableMapping, 'or': aliased.MutableMapping}[how]
            b = compare(s, sm, name, universe, rng, cls)
            bad += [f'{how} made after step {i}: {x}' for x in b]
            if len(snaps) > 5:
                snaps.pop(0)
            # changing a copy must not change the original either
            if not b and how in ('copy', 'MutableMapping') and rng.random() < .3:
                s.clear()
                s['fresh'] = 1
                snaps = [x for x in snaps if x[2] is not s]
                bad += [f'after changing a copy: {x}' for x in compare(m, post['m'], name, universe, rng)]
        if bad:
            fails.append((describe(l) if not any('made after' in x for x in bad) else 'snapshot changed by ' + describe(l),
                          f'names {name}; ' + ' ; '.join(trail[-12:]) + '\n  ' + '\n  '.join(bad)))
            break
    return len(trail), fails, counts


def campaign(check, jobs, fn=replay, kind='walks'):
    for steps, fails, counts in core.pmap(fn, jobs):
        check.steps += steps
        check.traces += 1
        for k, v in counts.items():
            check.count(k, v)
        for k, d in fails:
            check.violation(k, d)


def check_P05(check):
    jobs = []
    cfgs = [dict(Keys='{"a","b","c","d"}', Vals='{1,2}', Names='{}', UseUpdate='TRUE', UseFreeze='TRUE'),
            dict(Keys='{"a","b","c"}', Vals='{1,2}', Names='{"G"}', UseUpdate='FALSE', UseFreeze='TRUE')]
    if check.thorough:
        cfgs.append(dict(Keys='{"a","b","c","d","e"}', Vals='{1,2}', Names='{}', UseUpdate='FALSE', UseFreeze='TRUE'))
    for c in cfgs:
        r = check.tlc('Aliased', consts=c)
        init = next(x['pre'] for x in r.records if x['pre']['m'] == [] and
                    (not isinstance(x['pre']['ng'], dict) or not any(x['pre']['ng'].values())))
        g = core.Graph(r.records, init)
        n0 = len(jobs)
        for w in itertools.chain(g.cover(check.rng, maxlen=120, budget=None if check.thorough else 250),
                                 g.random_walks(check.rng, 400 if check.thorough else 60, 120)):
            jobs.append(([(g.state[a], l, g.state[b]) for a, l, b in w], check.rng.random()))
        check.extra.setdefault('transitions_covered', []).append(
            [len({(core.canon(a), core.canon(l)) for w, _ in jobs[n0:] for a, l, _ in w}), g.n])
    check.sample(' ; '.join(describe(l) for _, l, _ in jobs[0][0][:12]))
    campaign(check, jobs)


# ------------------------------------------------------------------ P06
def build_case(job):
    from eprempy import aliased
    rec, seed = job
    rng = random.Random(seed)
    name = rng.choice(POOLS)
    fails = []
    ctx = {}

    def bad(route, msgs):
        if msgs:
            fails.append((f'{route}', f'{route} with names {name} of {rec["a"]} / {rec["b"]}:\n  ' + '\n  '.join(msgs)))
    strings = all(isinstance(v, str) for v in name.values())
    universe = sorted(name)[:5]

    def routes(entries):
        """Every way to construct the mapping."""
        ent = [(name[e['p']], [name[x] for x in e['g'] if x != e['p']], e['v']) for e in entries]
        rng.shuffle(ent)
        for _, o, _ in ent:
            rng.shuffle(o)
        single = lambda o: o[0] if len(o) == 1 and rng.random() < .5 else tuple(o)
        M = aliased.Mapping
        yield 'tuple keys', lambda: M({(p, *o) if o or rng.random() < .5 else p: v for p, o, v in ent})
        yield 'group keys', lambda: M({aliased.Group(p, *o): v for p, o, v in ent})
        yield 'frozenset keys', lambda: M({frozenset((p, *o)): v for p, o, v in ent})
        if strings:  # alias groups given separately are groups of strings
            yield 'Groups argument', lambda: M({p: v for p, _, v in ent}, aliases=aliased.Groups(*[(p, *o) for p, o, _ in ent]))
            yield 'mapping argument', lambda: M({p: v for p, _, v in ent}, aliases=M({(p, *o): 0 for p, o, _ in ent}))
            yield 'dict argument', lambda: M({p: v for p, _, v in ent}, aliases={p: single(o) for p, o, _ in ent})
        yield 'copy', lambda: M({(p, *o): v for p, o, v in ent}).copy()
        yield 'from Mapping', lambda: M(aliased.MutableMapping({(p, *o): v for p, o, v in ent}))
        yield 'mutable', lambda: aliased.MutableMapping({(p, *o): v for p, o, v in ent})
        if strings:
            yield 'mutable Groups argument', lambda: aliased.MutableMapping(
                {p: v for p, _, v in ent}, aliases=aliased.Groups(*[(p, *o) for p, o, _ in ent]))
        if any(o for _, o, _ in ent):
            yield 'interior aliases', lambda: M(
                {p: {'aliases': single(o), 'x': v} if o else {'x': v} for p, o, v in ent}).squeeze()
        if ent:
            key = rng.choice(['names', 'foo'])
            yield 'interior custom key', lambda: M({p: {key: single(o), 'x': v} for p, o, v in ent}, aliases=key).squeeze(strict=True)
            yield 'interior aliases, unsqueezed', lambda: Values(M({p: {key: tuple(o), 'x': v} for p, o, v in ent}, aliases=key))
        one = {v for _, _, v in ent}
        if len(one) == 1:
            v = one.pop()
            yield 'fromkeys tuples', lambda: M.fromkeys([(p, *o) for p, o, _ in ent], value=v)
            yield 'fromkeys Groups', lambda: M.fromkeys(aliased.Groups(*[(p, *o) for p, o, _ in ent]), value=v)
            yield 'fromkeys interior', lambda: M.fromkeys({p: {'aliases': tuple(o), 'y': 3} for p, o, _ in ent}, value=v)
            yield 'fromkeys Mapping', lambda: M.fromkeys(M({(p, *o): 3 for p, o, _ in ent}), value=v)

    class Values:
        """View of an unsqueezed mapping, for comparison by value."""
        def __new__(cls, m):
            bad = [k for k in m if m[k] != {'x': m[k].get('x')}]
            if bad:
                raise AssertionError(f'interior of {bad} is {[m[k] for k in bad]}')
            return aliased.Mapping({k: v['x'] for k, v in m.items(aliased=True)})
    groups = [dict(g=e['g'], v=e['v']) for e in rec['a']]
    steps = 0
    built = []
    if rec['kind'] == 'one':
        for route, f in routes(rec['a']):
            steps += 1
            kind, obj = core.outcome(f)
            if kind == 'err':
                bad(route, [f'raised {obj!r}'])
                continue
            bad(route, compare(obj, groups, name, universe, rng))
            built.append((route, obj))
        for (r1, x), (r2, y) in itertools.combinations(built, 2):
            if not (x == y and y == x and not x != y):
                bad('equality of routes', [f'{r1} != {r2}'])
        # merging with a plain dictionary
        for p in rec['plain']:
            route, x = rng.choice(built) if built else (None, None)
            if x is None or core.outcome(lambda: None)[0] == 'err':
                continue
            steps += 1
            kind, y = core.outcome(lambda: x | {name[p['k']]: p['v']})
            bad('merge with dict', [f'raised {y!r}'] if kind == 'err' else compare(y, p['m'], name, universe, rng))
            bad('merge changed operand', compare(x, groups, name, universe, rng))
        fails += name_maps(rec, name, rng, universe)
        # a subset with one name too many is not a key
    else:
        x = rng.choice(list(routes(rec['a'])))[1]()
        y = rng.choice(list(routes(rec['b'])))[1]()
        steps += 1
        kind, z = core.outcome(lambda: x | y)
        bad('merge', [f'raised {z!r}'] if kind == 'err' else compare(z, rec['merged'], name, universe, rng))
        bad('merge changed left operand', compare(x, groups, name, universe, rng))
        bad('merge changed right operand', compare(y, [dict(g=e['g'], v=e['v']) for e in rec['b']], name, universe, rng))
        if ((x == y), (y == x), (x != y)) != (rec['equal'], rec['equal'], not rec['equal']):
            bad('equality', [f'== is {x == y}, should be {rec["equal"]}'])
    return steps, fails, {rec['kind']: steps}


def name_maps(rec, name, rng, universe):
    """NameMap sends each alias to the primary name of its group, by every route."""
    from eprempy import aliased
    fails = []
    if not all(isinstance(v, str) for v in name.values()):
        return fails
    ent = [(name[e['p']], [name[x] for x in e['g'] if x != e['p']]) for e in rec['a']]
    if not ent:
        return fails
    want = {x: p for p, o in ent for x in (p, *o)}
    rng.shuffle(ent)
    NM = aliased.NameMap
    single = lambda o: o[0] if len(o) == 1 and rng.random() < .5 else tuple(o)
    key = rng.choice(['aliases', 'aka'])
    routes = {
        'mapping of aliases': lambda: NM({p: single(o) for p, o in ent}),
        'mapping including the name': lambda: NM({p: (p, *o) for p, o in ent}),
        'mapping of mappings': lambda: NM({p: ({key: single(o), 'z': 1} if o else {'z': 1}) for p, o in ent}, key=key),
        'groups and references': lambda: NM([(p, *o) for p, o in ent], refs=[p for p, _ in ent]),
        'groups and reference mapping': lambda: NM([(*o, p) for p, o in ent], refs={p: 0 for p, _ in ent}),
        'aliases and references': lambda: NM({p: tuple(o) for p, o in ent}, refs=[p for p, _ in ent]),
        'copy': lambda: NM({p: tuple(o) for p, o in ent}).copy(),
    }
    for r, f in routes.items():
        kind, nm = core.outcome(f)
        if kind == 'err':
            fails.append((f'NameMap: {r}', f'{ent}: raised {nm!r}'))
            continue
        got = {k: nm[k] for k in want if k in nm}
        b = []
        if got != want or dict(nm) != want or dict(nm.items()) != want:
            b.append(f'maps {dict(nm)}, should be {want}')
        if len(nm) != len(want) or sorted(nm) != sorted(want) or sorted(nm.keys()) != sorted(want):
            b.append(f'keys {sorted(nm)}')
        if collections.Counter(nm.values()) != collections.Counter(want.values()):
            b.append('values')
        if collections.Counter((frozenset(k), v) for k, v in nm.items(aliased=True)) != \
                collections.Counter((frozenset((p, *o)), p) for p, o in ent):
            b.append(f'aliased items {list(nm.items(aliased=True))}')
        for k in universe:
            if name[k] not in want and (name[k] in nm or core.outcome(lambda: nm[name[k]])[0] == 'ok'):
                b.append(f'unknown name {name[k]} accepted')
        if b:
            fails.append((f'NameMap: {r}', f'{ent}:\n  ' + '\n  '.join(b)))
    return fails


def groups_walk(job):
    from eprempy import aliased
    walk, seed = job
    rng = random.Random(seed)
    name = rng.choice([p for p in POOLS if all(isinstance(x, str) for x in p.values())])
    gs = aliased.Groups()
    trail, fails, counts = [], [], {}

    def observe(g, want):
        bad = []
        W = [frozenset(name[k] for k in w) for w in want]
        if collections.Counter(frozenset(x) for x in g) != collections.Counter(W) or len(g) != len(W):
            bad.append(f'groups {list(g)}, should be {W}')
            return bad
        if collections.Counter(g.flat) != collections.Counter(k for w in W for k in w):
            bad.append(f'flat {g.flat}')
        for k in name.values():
            hit = next((w for w in W if k in w), None)
            got = g.get(k)
            if (k in g) != (hit is not None) or (None if got is None else frozenset(got)) != hit:
                bad.append(f'get {k!r} gives {got}')
            kind, v = core.outcome(lambda: g[k])
            if (kind == 'ok') != (hit is not None) or (kind == 'ok' and frozenset(v) != hit):
                bad.append(f'[{k!r}] gives {v!r}')
        for w in W:
            l = list(w)
            rng.shuffle(l)
            if frozenset(g[tuple(l)]) != w or aliased.Group(l) not in g:
                bad.append(f'lookup by whole group {l}')
        return bad
    for pre, l, post in walk:
        op = l['op']
        counts[op] = counts.get(op, 0) + 1
        x = [name[k] for k in l['x']]
        rng.shuffle(x)
        trail.append(f"{op}{l['x']}")
        before = gs
        arg = rng.choice([tuple, list, aliased.Group])(x)

        def act():
            nonlocal gs
            if op == 'add':
                gs.add(arg)
            elif op == 'discard':
                gs.discard(x[0])
            elif op == 'discardgroup':
                gs.discard(tuple(x))
            elif op == 'update':
                gs.update(*rng.choice([[aliased.Group(x)], [aliased.Groups(x)], [tuple(x)] if False else [aliased.Group(x)]]))
            elif op == 'merge':
                gs = gs.merge(rng.choice([aliased.Group(x), aliased.Groups(x)]))
            elif op == 'without':
                gs = gs.without(*x)
        kind, r = core.outcome(act)
        bad = []
        if (kind == 'ok') != l['ok']:
            bad.append(f'outcome {kind} {r!r}')
        bad += observe(gs, post)
        if op in ('merge', 'without') and not bad:
            bad += [f'original changed: {b}' for b in observe(before, pre)]
        if bad:
            fails.append(('Groups.' + trail[-1], f'{name} {trail[-8:]}\n  ' + '\n  '.join(bad)))
            break
        # single groups as sets
        if len(x) and rng.random() < .3:
            y = rng.sample(sorted(name.values()), rng.randint(1, 3))
            G, H, A, B = aliased.Group(x), aliased.Group(*y), set(x), set(y)
            perm = list(x)
            rng.shuffle(perm)
            P = aliased.Group(*perm)
            checks = {
                'eq': (G == H, A == B), 'ne': (G != H, A != B), 'perm eq': (G == P, True),
                'hash': (hash(G) == hash(P), True), 'dict': ({G: 1}.get(P), 1),
                'or': (set(G | H), A | B), 'and': (set(G & H) if A & B else set(), A & B),
                'sub': (set(G - H) if A - B else set(), A - B),
                'xor': (set(G ^ H) if A ^ B else set(), A ^ B),
                'disjoint': (bool(G.isdisjoint(H)), A.isdisjoint(B)), 'len': (len(G), len(A)), 'bool': (bool(G), True),
                'contains': ([k in G for k in name.values()], [k in A for k in name.values()]),
            }
            for what, (got, want) in checks.items():
                if got != want:
                    fails.append((f'Group {what}', f'{x} {y}: {got!r}, should be {want!r}'))
    return len(trail), fails, counts


def check_P06(check):
    cfgs = [('{"a","b","c"}', '{1,2}', '3'), ('{"a","b","c","d"}', '{1,2}', '2')]
    if check.thorough:
        cfgs += [('{"a","b","c","d"}', '{1,2}', '4'), ('{"a","b","c","d","e"}', '{1,2}', '2')]
    jobs = []
    for k, v, n in cfgs:
        r = check.tlc('AliasedBuild', consts=dict(Keys=k, Vals=v, MaxGroups=n))
        jobs += [(rec, check.rng.random()) for rec in r.records]
    # two mappings with one name order each: pool order is random, so repeat
    jobs += [(rec, check.rng.random()) for rec, _ in jobs]
    check.sample(jobs[40][0])
    campaign(check, jobs, build_case)
    r = check.tlc('AliasGroups')
    g = core.Graph(r.records, [])
    walks = itertools.chain(g.cover(check.rng, maxlen=80), g.random_walks(check.rng, 200 if check.thorough else 40, 80))
    campaign(check, [([(g.state[a], l, g.state[b]) for a, l, b in w], check.rng.random()) for w in walks], groups_walk)
