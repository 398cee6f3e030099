"""Finding files, and reading lines of text (P33).

TLC enumerates the contents of places, and the requests with what each finds (specs/Paths.tla).  The harness replays walks
through these on real directories.
"""
#: P33
import os, pathlib, re, shutil
import core
from core import outcome


class Home:
    def __init__(self, root, walk, rng):
        self.root, self.rng = root, rng
        (root / 'elsewhere').mkdir()
        (root / 'elsewhere' / 'target').write_text('a line\n')
        self.names = rng.choice([dict(a='a.cfg', b='b'), dict(a='one two', b='one'), dict(a='x_y', b='x_y.nc')])
        self.real = {p: root / f'place {p}' for p in 'pqr'}

    def make(self, p, k):
        self.real[p].mkdir() if k == 'dir' else self.real[p].write_text('')

    def path(self, p, e=''):
        return self.real[p] / self.names[e] if e else self.real[p]

    def put(self, p, e, k):
        x = self.path(p, e)
        if k == 'file':
            x.write_text('')
        elif k == 'dir':
            x.mkdir()
        else:
            x.symlink_to(self.root / 'elsewhere' / ('target' if k == 'link' else 'missing'))

    def take(self, p, e):
        x = self.path(p, e)
        x.rmdir() if x.is_dir() and not x.is_symlink() else x.unlink()

    def way(self, p):
        """One of many ways to write the path of a place."""
        x = self.real[p]
        ways = [x, str(x), f'{self.root}/./elsewhere/../{x.name}', os.path.relpath(x), pathlib.Path(os.path.relpath(x)), f'~/{x.name}', pathlib.Path(f'~/{x.name}')]
        return self.rng.choice(ways)


def replay(check, walk, rng):
    from eprempy import paths
    with core.scratchdir() as d:
        root = pathlib.Path(os.path.realpath(d))
        h = Home(root, walk, rng)
        before, home = os.getcwd(), os.environ.get('HOME')
        os.environ['HOME'] = str(root)
        done = []
        try:
            h.make('p', 'dir')
            os.chdir(h.path('p'))
            for _, s, _ in walk:
                check.steps += 1
                op = s['op']
                done.append({k: v for k, v in s.items() if k != 'want'})
                show = f'{done[-8:]}'
                check.count(op)
                if op == 'make':
                    h.make(s['place'], s['kind'])
                elif op == 'put':
                    h.put(s['place'], s['entry'], s['kind'])
                elif op == 'take':
                    h.take(s['place'], s['entry'])
                elif op == 'go':
                    os.chdir(h.path(s['place']))
                elif op == 'search':
                    ps = [h.way(p) for p in s['places']]
                    name = rng.choice([str, pathlib.Path])(h.names[s['entry']])
                    got = outcome(lambda: paths.search(name, *ps))
                    w = s['want']
                    if w == 'refused':
                        ok = got[0] != 'ok' and isinstance(got[1], paths.NonExistentPathError)
                    elif w == 'nothing':
                        ok = got == ('ok', None)
                    else:
                        ok = got == ('ok', h.path(w, s['entry']))
                    if not ok:
                        check.violation(f'search: {w if w in ("refused", "nothing") else "found"}', f'{show}: {got[1]!r}; expected {w}')
                elif op == 'template':
                    made = []
                    def template(e):
                        return lambda n: (made.append(n), rng.choice([str, pathlib.Path])(n.replace('sought', h.names[e])))[1]
                    ts = [template(e) for e in s['entries']]
                    got = outcome(lambda: paths.find_file_by_template(ts, 'sought', h.way(s['place'])) if s['place'] else paths.find_file_by_template(ts, 'sought'))
                    w = s['want']
                    if w == 'refused':
                        ok = got[0] != 'ok' and isinstance(got[1], paths.NonExistentPathError)
                    elif w == 'nothing':
                        ok = got == ('ok', None)
                    else:
                        ok = got == ('ok', h.path(s['at'], w))
                    if not ok or any(m != 'sought' for m in made):
                        check.violation(f'template: {w if w in ("refused", "nothing") else "found"}', f'{show}: {got[1]!r}; expected {w}')
                elif op == 'locate':
                    name = h.names[s['entry']]
                    e = {'unrelated': '/nowhere'}
                    if s['env']:
                        e[name] = str(h.path(s['env'], s['entry']))
                    elif rng.random() < .3:
                        e[name] = ''
                    got = outcome(lambda: paths.locate(name, h.path(s['place']), e))
                    w = pathlib.Path(name) if s['want'] == 'name' else pathlib.Path(os.path.realpath(h.path(s['want'], s['entry'])))
                    check.expect('locate', got, ('ok', w), show)
                elif op == 'full':
                    x = h.way(s['place'])
                    if s['entry']:
                        x = type(x)(os.path.join(x, h.names[s['entry']])) if isinstance(x, str) else x / h.names[s['entry']]
                    got = outcome(lambda: paths.fullpath(x, strict=True) if s['strict'] else paths.fullpath(x))
                    if s['want'] == 'refused':
                        if got[0] == 'ok' or not isinstance(got[1], paths.NonExistentPathError) or str(x) not in str(got[1]):
                            check.violation('full path: refused', f'{show}: {got[1]!r}')
                    else:
                        check.expect('full path', got, ('ok', pathlib.Path(os.path.realpath(os.path.expanduser(x)))), show)
                    check.expect('local path', outcome(lambda: paths.localize(x)), ('ok', pathlib.Path(pathlib.Path(x).name)), str(x))
                    check.expect('local path: normalized', outcome(lambda: paths.localize(x, normalized=True)), ('ok', pathlib.Path(os.path.basename(os.path.realpath(os.path.expanduser(x))))), str(x))
        finally:
            os.chdir(before)
            os.environ.pop('HOME') if home is None else os.environ.__setitem__('HOME', home)


def case(check, c, rng, d):
    from eprempy import paths
    check.steps += 1
    check.count(c['case'])
    if c['case'] == 'strip':
        marks = {'#': rng.choice(['#', '//', '::']), '!': rng.choice(['!', ';', '--'])}
        words = {'x': rng.choice(['x', 'name = 1', "'a b'"]), ' ': rng.choice([' ', '\t', '  ', '\n']), **marks}
        text = ''.join(words[t] for t in c['text'])
        want = ''.join(words[t] for t in c['want'])
        ms = [marks[m] for m in c['marks']]
        rng.shuffle(ms)
        check.expect('text without comments', outcome(lambda: paths.strip_inline_comments(text, rng.choice([list, tuple])(ms))), ('ok', want), f'{text!r} {ms}')
    else:
        f = d / 'file.txt'
        f.write_text('\n'.join(c['lines']) + ('\n' if c['lines'] and (c['lines'][-1] == '' or rng.random() < .5) else ''))
        text = paths.TextFile(rng.choice([f, str(f)]))
        want = {k: k + c[k][2:] for k in 'kn' if c[k]}
        for _ in range(rng.choice([1, 2])):
            got = outcome(lambda: text.extract(lambda line: re.match(r'(\w)=(\d)', line), lambda m: (m[1], m[1] + m[2])))
            check.expect('pairs in a file', got, ('ok', want), str(c['lines']))
        check.expect('lines of a file', outcome(lambda: paths.file_lines(f)), ('ok', len(c['lines'])), str(c['lines']))
        check.expect('lines of a file: text', outcome(lambda: [x.strip('\n') for x in text.lines]), ('ok', list(c['lines'])), str(c['lines']))
        if pathlib.Path(str(text)) != pathlib.Path(os.path.realpath(f)):
            check.violation('path of a text file', f'{text}')


def check_P33(check):
    rng, t = check.rng, check.thorough
    r = check.tlc('Paths', consts=dict(MaxOps='3' if t else '2'))
    g = core.Graph([x for x in r.records if 'pre' in x])
    cases = [x for x in r.records if 'case' in x]
    with core.scratchdir() as d:
        for c in cases:
            if c['case'] == 'strip' or t or rng.random() < .5:
                case(check, c, rng, pathlib.Path(d))
    changes = {s: [x for x in out if x[1] != s] for s, out in g.out.items()}
    for _ in range(6000 if t else 1200):
        s, w = g.init, []
        for _ in range(50):
            label, post = rng.choice(changes[s] if changes[s] and rng.random() < .3 else g.out[s])
            w.append((s, label, post))
            s = post
        check.traces += 1
        replay(check, w, rng)
    check.assumptions += ['an environment which names what does not exist is left open', 'names of entries are not on the system path',
                          'a search ends in the current directory, after the given places']
