"""Guarded calls, objects that exist once, comparisons of types (P32).

TLC enumerates registrations and calls of a guard, and objects that are made, with what must come of each (specs/
Helpers.tla).  The harness replays walks through these with real classes, functions and arguments.
"""
#: P32
import fractions, itertools, pathlib
import numpy
import core
from core import outcome


class Root(Exception): ...
class Lookup(Root): ...
class Key(Lookup): ...
class Index(Lookup): ...
class Math(Root): ...
class Zero(Math): ...
class Own(Key, Zero): ...
class Other(Exception): ...


MINE = dict(root=Root, lookup=Lookup, key=Key, index=Index, math=Math, zero=Zero, own=Own)
BUILTIN = dict(root=Exception, lookup=LookupError, key=KeyError, index=IndexError, math=ArithmeticError, zero=ZeroDivisionError, own=type('Own', (KeyError, ZeroDivisionError), {}))
VALUES = dict(none=None, number=0, array=numpy.array([1.0, 2.0]), text='nothing', echo=...)


def same(a, b):
    if isinstance(b, numpy.ndarray):
        return a is b
    return type(a) == type(b) and a == b


def replay(check, walk, rng):
    from eprempy import etc, exceptions
    types = rng.choice([MINE, BUILTIN])
    result = object()

    def function(*args, **kwargs):
        seen.append((args, kwargs))
        if raising[0]:
            raise types[raising[0]]('a message')
        return result
    raising, seen = [''], []
    guard = exceptions.Wrapper(function)
    # classes of objects that exist once, new in each walk
    one, two = type('One', (etc.Singleton,), {}), type('Two', (etc.Singleton,), {})
    classes = dict(one=one, two=two, child=type('Child', (one,), {}))

    def member(n):
        class Meta(etc.InstanceSet):
            def _generate_key(self, *args, **kwargs):
                return (*args, *sorted(kwargs.items()))
        class Member(metaclass=shared if rng.random() < .5 else Meta):
            def __init__(self, key, extra=None):
                self.key = key
        Member.__name__ = n
        return Member

    class shared(etc.InstanceSet):
        def _generate_key(self, *args, **kwargs):
            return (*args, *sorted(kwargs.items()))
    classes.update(s1=member('s1'), s2=member('s2'))
    contents = dict(one=1, null=None, list=[1, 2], text='y')
    serial = next(counter)
    names = {n: f'{n}_{serial}' for n in 'xy'}
    # the content of x may be the name of y
    contents['text'] = names['y']
    things, sentinels, keep, done = {}, {}, {}, []
    for s in walk:
        check.steps += 1
        op = s['op']
        done.append({k: v for k, v in s.items() if k != 'want'})
        show = f'{"own" if types is MINE else "built-in"} types: {done[-6:]}'
        if op == 'catch':
            v = VALUES[s['value']]
            got = outcome(lambda: guard.catch(types[s['type']]) if v is None and rng.random() < .5 else guard.catch(types[s['type']], v))
            if got[0] != 'ok' or got[1] is not guard:
                check.violation('register an exception', f'{show}: {got[1]!r}')
        elif op == 'call':
            raising[0] = s['type']
            args = tuple([rng.choice([-1, 'a', None, (), [1]]) for _ in range(s['n'])])
            kwargs = {k: rng.choice([0, 'b']) for k in 'pq'[:s['k']]}
            seen.clear()
            got = outcome(lambda: guard.compute(*args, **kwargs))
            want = []
            for w in s['want']:
                if w == 'raised':
                    continue
                want.append(result if w == 'result' else args[0] if w == 'first' else args if w == 'positional' else kwargs if w == 'named' else (args, kwargs) if w == 'both' else VALUES[w])
            if seen != [(args, kwargs)]:
                check.violation('guarded call: arguments', f'{show}: the function received {seen}')
            if s['want'] == ['raised']:
                ok = got[0] != 'ok' and type(got[1]) is types[s['type']] and got[1].args == ('a message',)
            else:
                ok = got[0] == 'ok' and any(same(got[1], w) for w in want)
            if not ok:
                check.violation(f'guarded call: {"/".join(sorted(s["want"]))}', f'{show}: {got[1]!r}; expected {s["want"]}')
        elif op == 'make':
            o = s['thing']
            key = (o['kind'], o['class'], o['key'])
            cls = classes[o['class']]
            def make():
                if o['kind'] == 'single':
                    return cls()
                return rng.choice([lambda: cls(o['key']), lambda: cls(o['key'])])()
            got = outcome(make)
            if got[0] != 'ok' or type(got[1]) is not cls:
                check.violation(f'{o["kind"]}: class', f'{show}: {got[1]!r} of {type(got[1])}')
            elif s['known'] and got[1] is not things.get(key):
                check.violation(f'{o["kind"]}: made twice', f'{show}: another object')
            elif any(v is got[1] for k, v in things.items() if k != key):
                check.violation(f'{o["kind"]}: shared', f'{show}: {got[1]!r} exists as {[k for k, v in things.items() if v is got[1]]}')
            elif o['kind'] == 'member' and got[1].key != o['key']:
                check.violation('member: key', f'{show}: {got[1].key!r}')
            if got[0] == 'ok':
                things[key] = got[1]
        elif op == 'sentinel':
            v = contents[s['content']]
            got = outcome(lambda: etc.sentinel(names[s['name']], v))
            if got[0] != 'ok':
                check.violation('sentinel', f'{show}: {got[1]!r}')
                return
            x = got[1]
            if s['known'] and x is not sentinels.get(s['name']):
                check.violation('sentinel: made twice', f'{show}: another object')
            sentinels[s['name']] = x
            keep[s['name']] = v
            for a, b in itertools.product(sentinels, sentinels):
                if (sentinels[a] == sentinels[b]) != (a == b) or (sentinels[a] is sentinels[b]) != (a == b):
                    check.violation('sentinel: identity', f'{show}: {a!r} and {b!r}')
            for a, y in sentinels.items():
                if str(y) != names[a] or bool(y) != (keep[a] is not None) or not y == keep[a] or y == 'something else' or (y != keep[a]) or y is keep[a]:
                    check.violation('sentinel: value', f'{show}: {y!r}')
                if any(y is z or (y == z) for z in (etc.PASS, etc.NULL, etc.FAIL)):
                    check.violation('sentinel: identity', f'{show}: {y!r} is a known sentinel')
                if not isinstance(keep[a], list) and hash(y) != hash(keep[a]):
                    check.violation('sentinel: hash', f'{show}: {y!r}')
            again = outcome(lambda: etc.sentinel('z', x))
            if again[0] == 'ok' or not isinstance(again[1], etc.SentinelValueError):
                check.violation('sentinel of a sentinel', f'{show}: {again[1]!r}')
        check.count(op)


counter = itertools.count()
NULL = dict(none=None, emptylist=[], emptytext='', emptymap={}, emptyarray=numpy.array([]), list=[0], text='0', map={0: None}, zeros=numpy.zeros((2, 2)), ones=numpy.ones(3),
            zero=0, one=1.0, false=False, fraction=fractions.Fraction(0))


def case(check, c, rng):
    from eprempy import etc, exceptions
    check.steps += 1
    k, want = c['case'], c['want']
    types = rng.choice([MINE, BUILTIN])
    check.count(k)
    if k == 'widest':
        args = [types[c['a']](), types[c['b']]()]
        got = outcome(lambda: etc.widest(*args, base=types[c['base']]) if c['base'] else etc.widest(*args))
        if want in ('TypeError', 'ValueError'):
            ok = got[0] != 'ok' and type(got[1]).__name__ == want
        else:
            ok = got == ('ok', types[want])
        if not ok:
            check.violation('widest type', f'{c}: {got[1]!r}')
    elif k == 'instances':
        t = tuple(types[x] for x in c['types'])
        got = outcome(lambda: etc.allisinstance(t[0] if len(t) == 1 else t, *[types[x]() for x in c['targets']]))
        check.expect('instances of types', got, ('ok', want), str(c))
        if outcome(lambda: etc.allisinstance(t))[0] == 'ok':
            check.violation('instances of types: no objects', str(c))
    elif k == 'convert':
        how = c['how']
        new = VALUES[how] if how in VALUES else Other
        raised = []

        def function(*args, **kwargs):
            """A docstring."""
            if c['type']:
                raised.append(types[c['type']]('a message'))
                raise raised[-1]
            return args, kwargs
        f = exceptions.convert(types[c['expected']], new, message='replaced')(function) if how == 'message' else exceptions.convert(types[c['expected']], new)(function)
        for _ in range(2):
            got = outcome(lambda: f(1, a=2))
            if want == 'result':
                ok = got == ('ok', ((1,), {'a': 2}))
            elif want == 'raised':
                ok = got[0] != 'ok' and got[1] is raised[-1]
            elif want in VALUES:
                ok = got[0] == 'ok' and same(got[1], VALUES[want])
            else:
                ok = got[0] != 'ok' and type(got[1]) is Other and got[1].__cause__ is raised[-1] and got[1].args == (('replaced',) if how == 'message' else ())
            if not ok:
                check.violation(f'converted exception: {want}', f'{c}: {got[1]!r}')
        if f.__name__ != 'function' or f.__doc__ != 'A docstring.':
            check.violation('converted exception: metadata', f.__name__)
    elif k == 'join':
        items = [rng.choice(['a', "b'c", 'd e', '']) for _ in range(c['n'])]
        quoted = rng.random() < .5
        word = rng.choice(['and', 'or', 'and'])
        text = ''.join((repr if quoted else str)(items[int(w) - 1]) if w.isdigit() else w.replace('c', word) for w in want)
        got = outcome(lambda: etc.join(rng.choice([list, tuple, iter])(items), *(() if word == 'and' and rng.random() < .5 else (word,)), quoted=quoted))
        check.expect('joined strings', got, ('ok', text), f'{items} {word} {quoted}')
    elif k == 'null':
        got = outcome(lambda: etc.isnull(NULL[c['what']]))
        if got[0] != 'ok' or bool(got[1]) != want:
            check.violation('null', f'{c}: {got[1]!r}')


def check_P32(check):
    rng, t = check.rng, check.thorough
    r = check.tlc('Helpers')
    g = core.Graph([x for x in r.records if 'pre' in x])
    cases = [x for x in r.records if 'case' in x]
    for _ in range(4 if t else 1):
        for c in cases:
            case(check, c, rng)
    for c in cases:
        if c['case'] in ('join', 'null'):
            for _ in range(20):
                case(check, c, rng)
    walks = list(g.random_walks(rng, 20000 if t else 3000, 20)) + (list(g.cover(rng, maxlen=80, budget=600)) if t else [])
    for w in walks:
        w = [x for _, x, _ in w]
        check.traces += 1
        with core.quiet():
            replay(check, w, rng)
    check.assumptions += ['several names with one content make several sentinels; one name with two contents is left unspecified',
                          'where two registered types apply and neither derives from the other, either value may be returned']
