"""What plotting an array shows (P31).

TLC explores arrays which are subscripted, scaled, converted and plotted in every way (specs/Plots.tla); the walks are replayed
on real arrays, and what matplotlib is about to show or save is compared with what the specification says.
"""
#: P31
import contextlib, pathlib, random
import numpy
import core
from core import outcome

SIZE = {'km': 1e3, 'm': 1.0}
# what a request that cannot be satisfied may be answered with
SHAPES_Q = '''{[time |-> 3], [species |-> 2], [time |-> 1, radius |-> 3], [time |-> 2, shell |-> 3], [shell |-> 3, species |-> 1],
  [time |-> 1, radius |-> 1], [time |-> 2, radius |-> 3, species |-> 2]}'''
SHAPES_T = '''{[time |-> 3], [species |-> 2], [radius |-> 4], [shell |-> 2], [time |-> 1, radius |-> 3], [time |-> 2, shell |-> 3], [shell |-> 3, species |-> 1],
  [time |-> 1, radius |-> 1], [time |-> 2, radius |-> 3, species |-> 2], [time |-> 1, shell |-> 3, species |-> 1], [time |-> 3, shell |-> 1, radius |-> 2, species |-> 2]}'''


class Canvas:
    """What is shown or saved, recorded when it is."""

    def __init__(self):
        self.seen = []

    @contextlib.contextmanager
    def watch(self, real):
        import matplotlib.figure, matplotlib.pyplot as plt
        show, save = plt.show, matplotlib.figure.Figure.savefig
        canvas = self

        def shown(*args, **kwargs):
            canvas.record('screen', None, plt.gcf())

        def saved(fig, fname, *args, **kwargs):
            if real:
                save(fig, fname, *args, **kwargs)
            canvas.record('path', fname, fig)
        plt.show, matplotlib.figure.Figure.savefig = shown, saved
        try:
            yield self
        finally:
            plt.show, matplotlib.figure.Figure.savefig = show, save

    def record(self, dest, path, fig):
        for ax in fig.axes:
            for line in ax.lines:
                self.seen.append(dict(dest=dest, path=path, x=list(line.get_xdata(orig=True)), y=list(map(float, line.get_ydata())),
                                      xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), title=ax.get_title(), style=line.get_linestyle(),
                                      marker=line.get_marker(), xlim=tuple(ax.get_xlim()), yscale=ax.get_yscale()))
        if not fig.axes:
            self.seen.append(dict(dest=dest, path=path, x=[], y=[]))


class World:
    """A real array with its axes."""

    def __init__(self, lab, rng):
        from eprempy import physical, measured
        self.dims = sorted(lab['size'], key=lambda d: rng.random())
        self.given, axes = {}, {}
        for d in self.dims:
            n = lab['size'][d]
            if d == 'species':
                v = ['H+', 'He++', 'C+++++', 'O++++++'][:n]
                axes[d] = physical.symbols(v)
                self.given[d] = (v, None)
            elif d == 'shell':
                v = sorted(rng.sample(range(20), n))
                axes[d] = physical.points(v)
                self.given[d] = (v, None)
            else:
                unit = rng.choice(dict(time=['s', 'day'], radius=['au', 'm'])[d])
                v = sorted(rng.sample([.5, 1., 2., 3., 5., 8.], n))
                axes[d] = physical.coordinates(measured.sequence(v, unit))
                self.given[d] = (v, unit)
        shape = [lab['size'][d] for d in self.dims]
        self.y = numpy.array([float(x) for x in rng.sample(range(1, 100), int(numpy.prod(shape)))]).reshape(shape)
        self.array = physical.array(self.y.copy(), unit=lab['unit'], axes=axes)
        self.unit = lab['unit']

    def act(self, lab, rng):
        if lab['op'] == 'take':
            i = self.dims.index(lab['d'])
            k = rng.randrange(self.y.shape[i])
            at = tuple(k if j == i else slice(None) for j in range(len(self.dims)))
            keep = tuple([k] if j == i else slice(None) for j in range(len(self.dims)))
            self.array = self.array[at] if rng.random() < .5 or len(self.dims) > 1 and rng.random() < .5 else self.array[keep]
            self.y = self.y[keep]
            v, u = self.given[lab['d']]
            self.given[lab['d']] = ([v[k]], u)
        elif lab['op'] == 'scale':
            self.array = self.array * lab['by'] if rng.random() < .5 else lab['by'] * self.array if hasattr(lab['by'] * self.array, 'axes') else self.array * lab['by']
            self.y = self.y * lab['by']
        else:
            self.array = self.array.withunit(lab['unit'])
            self.y = self.y * SIZE[self.unit] / SIZE[lab['unit']]
            self.unit = lab['unit']


USER = dict(x='somewhere', y='something', title='an event')


def plot(world, lab, rng, d):
    """What is wrong with one plot."""
    import matplotlib.pyplot as plt
    from eprempy import measured, physical
    q, a = lab['q'], lab['answer']
    n = max(world.y.size, 1)
    kwargs, given = {}, None
    if q['x'] in ('measured', 'long', 'coordinates'):
        v = sorted(rng.sample(range(1, 200), n + (q['x'] == 'long')))
        seq = measured.sequence([float(x) for x in v], 'day')
        given = [float(x) for x in v]
        kwargs['x'] = seq if q['x'] != 'coordinates' else physical.coordinates(seq)
    elif q['x'] == 'unknown':
        kwargs['x'] = 'nothing'
    elif q['x'] == 'number':
        kwargs['x'] = 4
    elif q['x'] != 'default':
        kwargs['x'] = q['x'].split()[1]
    if q['into'] != 'own':
        kwargs['unit'] = 's' if q['into'] == 'bad' else q['into']
    for k in q['labels']:
        kwargs[k if k == 'title' else k + 'label'] = USER[k]
    args = []
    if q['style'] == 'style':
        args = ['k--']
        kwargs['marker'] = 'd'
    elif q['style'] == 'limits':
        kwargs.update(xlim=(0.25, 7.5), yscale='log')
    elif q['style'] == 'wrong':
        kwargs['nonsense'] = 3
    path, real = None, q['dest'] == 'nowhere' or rng.random() < .02
    if q['dest'] == 'path':
        path = d / f'{rng.randrange(10 ** 9)}.png'
        kwargs['path'] = path
    elif q['dest'] == 'nowhere':
        kwargs['path'] = d / 'nowhere' / 'plot.png'
    canvas, before = Canvas(), numpy.array(world.array)
    keep = dict(kwargs)
    with canvas.watch(real):
        kind, e = outcome(world.array.plot, *args, **kwargs)
    left = plt.get_fignums()
    plt.close('all')
    if left:
        return f'leaves {len(left)} figure(s) open' + ('' if kind == 'ok' else f' after {e!r}')
    if not numpy.array_equal(before, numpy.array(world.array)) or not world.array.unit == world.unit:
        return 'modifies the array'
    if kwargs != keep:
        return f'modifies its arguments: {kwargs}'
    if a['is'] == 'refused':
        if kind == 'ok':
            return f'shows {canvas.seen}; should be refused because of the {a["why"]}'
        if isinstance(e, NameError) or canvas.seen:
            return f'raises {e!r}, having shown {canvas.seen}; should be refused because of the {a["why"]}'
        if a['why'] == ['type'] and not isinstance(e, TypeError) or a['why'] == ['unknown'] and not isinstance(e, KeyError):
            return f'raises {e!r}; should be refused because of the {a["why"]}'
        return None
    if kind != 'ok':
        return f'raises {e!r}'
    if len(canvas.seen) != a['lines']:
        return f'shows {canvas.seen}; expected one line'
    s = canvas.seen[0]
    if s['dest'] != q['dest'] or path is not None and pathlib.Path(s['path']) != path or real and path is not None and not path.exists():
        return f'goes to the {s["dest"]} ({s["path"]}); expected the {q["dest"]} ({path})'
    y = world.y.ravel() * SIZE[world.unit] / SIZE[a['unit']]
    if len(s['y']) != len(y) or any(abs(u - v) > 1e-12 * abs(v) for u, v in zip(s['y'], y)):
        return f'shows {s["y"]}; expected {y} {a["unit"]}'
    x, unit = world.given[a['over']] if a['over'] else (given, 'day')
    if len(s['x']) != len(x) or any(str(u) != v if isinstance(v, str) else abs(float(u) - v) > 1e-12 * abs(v) for u, v in zip(s['x'], x)):
        return f'shows it over {s["x"]}; expected {x}'
    if s['ylabel'] != USER['y'] if a['ylabel'] == 'user' else tex(s['ylabel']) != a['unit']:
        return f'has the label {s["ylabel"]!r} for values in {a["unit"]}, user labels {q["labels"]}'
    label = s['xlabel']
    if a['xlabel'] == 'user' and label != USER['x']:
        return f'has the label {label!r}; expected {USER["x"]!r}'
    if a['xlabel'] == 'axis' and a['over'].lower() not in label.lower():
        return f'has the label {label!r} for the axis of the {a["over"]}'
    if a['xlabel'] != 'user' and '[' in label and (unit is None or tex(label.split('[')[1].strip(']')) not in (unit, unit[:1] if unit == 'day' else unit)):
        return f'has the label {label!r} for values in {unit}'
    if s['title'] != (USER['title'] if a['title'] == 'user' else ''):
        return f'has the title {s["title"]!r}, user labels {q["labels"]}'
    if a['style'] == 'style' and (s['style'] != '--' or s['marker'] != 'd') or a['style'] != 'style' and (s['style'] != '-' or s['marker'] != 'None'):
        return f'is drawn as {s["style"]!r} {s["marker"]!r} for the style {a["style"]}'
    if (s['yscale'] == 'log') != (a['style'] == 'limits') or a['style'] == 'limits' and s['xlim'] != (0.25, 7.5):
        return f'has the limits {s["xlim"]} and scale {s["yscale"]} for the style {a["style"]}'


def tex(label):
    """The unit in a label without its typesetting: the units here are plain symbols."""
    import re
    text = re.sub(r'\\[a-zA-Z]+', '', label)
    return re.sub(r'[${}\[\]\s]', '', text)


def history(job):
    walks, seed = job
    rng = random.Random(seed)
    fails, counts, n = [], {}, 0
    import warnings
    warnings.simplefilter('ignore')
    with core.scratchdir() as d:
        for walk in walks:
            world, done = None, []
            for _, lab, _ in walk:
                n += 1
                counts[lab['op']] = counts.get(lab['op'], 0) + 1
                if lab['op'] == 'create':
                    world = World(lab, rng)
                    done.append(f'{dict(zip(world.dims, world.y.shape))} in {world.unit}')
                    continue
                done.append(str({k: v for k, v in lab.items() if k not in ('answer', 'dims')} if lab['op'] != 'plot' else {k: v for k, v in lab['q'].items() if v}))
                if lab['op'] == 'plot':
                    got = outcome(plot, world, lab, rng, d)
                else:
                    got = outcome(world.act, lab, rng)
                text = got[1] if got[0] == 'ok' else f'raised {got[1]!r}'
                if text:
                    q = lab.get('q', {})
                    fails.append((f'{lab["op"]} {q.get("x")} {q.get("into")} {q.get("labels")} {q.get("style")}', f'{"; ".join(done[:1] + done[-3:])}: {text}'))
                    break
    return len(walks), n, fails, counts


def check_P31(check):
    t = check.thorough
    rng = check.rng
    r = check.tlc('Plots', consts=dict(Shapes=SHAPES_T if t else SHAPES_Q))
    g = core.Graph(r.records)
    import matplotlib.pyplot     # imported once, before forking
    walks = list(g.random_walks(rng, 6000 if t else 1200, 16))
    check.sample(dict(history=[l for _, l, _ in walks[0]][:4]))
    jobs = [(walks[i:i + 50], rng.random()) for i in range(0, len(walks), 50)]
    for m, n, fails, counts in core.pmap(history, jobs, chunk=1):
        check.traces += m
        check.steps += n
        for k, v in counts.items():
            check.count(k, v)
        for key, text in fails:
            check.violation(key, text)
    check.assumptions += ['plots are compared as handed to matplotlib; the label of given horizontal values and plotting over a plain list are unspecified']
