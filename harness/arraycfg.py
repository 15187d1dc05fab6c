"""C26: generated array configuration files describe the arrays they were asked for."""
import math, os, sys, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs'))
import numpy as np
import xml.etree.ElementTree as ET
import pyvh
import h5py # The stand-in.
import efl, rbbl # The types panning returns.
import panning
import loudspeakerconfig
from loudspeakerconfig import createArrayConfigFile, createArrayConfigFromSofa

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'

def gen(r):
    return np.random.default_rng(r.rng.getrandbits(60))

def label(g):
    s = ''.join(g.choice(list(LETTERS + '&()+:_-')) for _ in range(int(g.integers(1, 8))))
    return s

def labels(g, n, used=()):
    out = []
    while len(out) < n:
        l = label(g)
        if l not in out and l not in used:
            out.append(l)
    return out

def sphere(g, n, flat):
    """Directions with the origin well inside their hull and no two close to each other."""
    for _ in range(10000):
        d = g.normal(size=(2 if flat else 3, n))
        d /= np.linalg.norm(d, axis=0)
        c = d.T @ d - 2 * np.eye(n)
        if c.max() < (.98 if flat else .95):
            return d
        if n > 8:
            n -= 1
    raise RuntimeError

def seq(g, v, kinds=(list, tuple, np.array)):
    return kinds[int(g.integers(len(kinds)))](v)

class Spec:
    """A random array and the arguments that describe it."""
    def __init__(self, g, flat=None):
        self.flat = flat = bool(g.random() < .3) if flat is None else flat
        total = int(g.integers(3, 14)) if flat else int(g.integers(4, 26))
        d = sphere(g, total, flat)
        total = d.shape[1]
        self.virtual = int(g.integers(0, min(4, total - 1))) if g.random() < .6 else 0
        self.n = n = total - self.virtual
        radius = g.uniform(.5, 4, total) if g.random() < .7 else np.full(total, float(g.choice([1., 2.5])))
        pos = d * radius
        if flat:
            pos = np.concatenate((pos, np.zeros((1, total))))
        self.pos = pos
        given = pos[:, :n].copy()
        if flat:
            k = g.random()
            if k < .4:
                given = given[:2]
            elif k < .7:
                given[2] = g.uniform(-2, 2, n) # Ignored.
        self.tolerance = 5e-6
        if g.random() < .2:
            given = given.astype(np.float32)
            self.tolerance = 4e-3 # The elevation near the poles.
        self.args = a = dict(lspPositions=given)
        if g.random() < .15:
            a['lspPositions'] = given.tolist()
        if flat or g.random() < .2:
            a['twoDconfig'] = flat
        self.polar = bool(g.random() < .5)
        if self.polar or g.random() < .3:
            a['sphericalPositions'] = self.polar
        self.labels = None
        if g.random() < .7:
            self.labels = labels(g, n)
            a['loudspeakerLabels'] = seq(g, self.labels)
        names = self.labels
        self.channels = list(range(1, n + 1))
        if g.random() < .5:
            self.channels = [int(v) for v in g.choice(np.arange(1, 3 * n + 1), n, replace=False)]
            a['channelIndices'] = seq(g, self.channels)
        self.delays = np.zeros(n)
        self.gains = np.zeros(n)
        if g.random() < .4:
            self.delays = g.uniform(0, .1, n)
            a['lspDelays'] = seq(g, self.delays)
        if g.random() < .4:
            self.gains = g.uniform(-20, 6, n)
            if g.random() < .2:
                self.gains = np.round(self.gains).astype(int)
            a['lspGainDB'] = seq(g, self.gains)
            self.gains = self.gains.astype(float)
        dist = np.linalg.norm(pos[:, :n], axis=0)
        self.compensated = False
        if g.random() < .35:
            a['distanceDelay'] = True
            c = 340.0
            if g.random() < .4:
                c = a['speedOfSound'] = float(g.uniform(300, 360))
            self.delays = self.delays + (dist.max() - dist) / c
            self.compensated = True
        if g.random() < .35:
            a['distanceAttenuation'] = True
            self.gains = self.gains + 20 * np.log10(dist / dist.max())
            self.compensated = True
        self.vlabels, self.routing = [], np.zeros((self.virtual, n))
        if self.virtual:
            self.vlabels = labels(g, self.virtual, [] if names is None else names)
            if names is None: # The default labels are unknown before.
                self.vlabels = ['virtual:%d' % i for i in range(self.virtual)]
            v = []
            for i in range(self.virtual):
                p = pos[:, n + i]
                e = dict(id=self.vlabels[i], pos=seq(g, (p[:2] if flat and g.random() < .5 else p)))
                if names and g.random() < .7:
                    e['routing'] = []
                    for k in g.choice(n, int(g.integers(0, n + 1)), replace=False):
                        self.routing[i, k] = gain = float(g.uniform(.01, 1.5))
                        e['routing'].append((names[k], gain))
                v.append(e)
            a['virtualLoudspeakers'] = v
        elif g.random() < .2:
            a['virtualLoudspeakers'] = None if g.random() < .5 else []
        self.eq, self.sections, self.eqOf = {}, 0, {}
        if g.random() < .4:
            eqs, free = [], list(range(n))
            g.shuffle(free)
            for name in labels(g, int(g.integers(1, 4))):
                filt = [(g.uniform(-2, 2, 3), np.array([1.0, *g.uniform(-1.9, 1.9, 2)])) for _ in range(int(g.integers(1, 4)))]
                e = dict(name=name, filter=[])
                for b, den in filt:
                    s = dict(b=seq(g, b))
                    if g.random() < .5:
                        s['a'] = seq(g, den[1:])
                    else:
                        scale = float(g.uniform(.5, 2)) if g.random() < .5 else 1.0
                        s['a'], s['b'] = seq(g, den * scale), seq(g, b * scale)
                    e['filter'].append(s)
                self.eq[name] = filt
                self.sections = max(self.sections, len(filt))
                if names and g.random() < .7:
                    e['loudspeakers'] = []
                    for _ in range(int(g.integers(0, n + 1))):
                        if free:
                            k = free.pop()
                            e['loudspeakers'].append(names[k])
                            self.eqOf[k] = name
                eqs.append(e)
            a['eqConfiguration'] = eqs
        self.subs = []
        if names and g.random() < .4:
            s, rest = [], [c for c in range(1, 4 * n + 4) if c not in self.channels]
            g.shuffle(rest)
            for i in range(int(g.integers(1, 4))):
                which = [int(k) for k in g.choice(n, int(g.integers(1, n + 1)), replace=False)]
                e = dict(channel=int(rest.pop()), assignedSpeakers=seq(g, [names[k] for k in which], (list, tuple)))
                sub = dict(channel=e['channel'], weights=np.zeros(n), gain=0.0, delay=0.0, eq=None, name=None)
                sub['weights'][which] = 1
                if g.random() < .5:
                    w = g.uniform(-2, 2, len(which))
                    e['weights'] = seq(g, w)
                    sub['weights'][which] = w
                if g.random() < .4:
                    e['gainDB'] = sub['gain'] = float(g.uniform(-10, 10))
                if g.random() < .4:
                    e['delay'] = sub['delay'] = float(g.uniform(0, .1))
                if self.eq and g.random() < .5:
                    e['eq'] = sub['eq'] = sorted(self.eq)[0]
                if g.random() < .5:
                    e['name'] = sub['name'] = label(g)
                s.append(e)
                self.subs.append(sub)
            a['subwooferConfig'] = s
        self.triplets = None
        if names and g.random() < .2:
            both = names + self.vlabels
            self.triplets = [[int(k) for k in g.choice(total, 2 if flat else 3, replace=False)] for _ in range(int(g.integers(1, 8)))]
            a['triplets'] = seq(g, [seq(g, [both[k] for k in t], (list, tuple)) for t in self.triplets], (list, tuple))
        self.comment = None
        if g.random() < .2:
            a['comment'] = self.comment = 'An array with <%d> loudspeakers & more' % n

def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    return a == b

def faces(r, pos, flat, got):
    """The triangles have to be the faces of the convex hull of the directions."""
    p = pos[:2 if flat else 3]
    p = p / np.linalg.norm(p, axis=0)
    n = p.shape[1]
    s = [tuple(sorted(t)) for t in got]
    if not r.check(len(set(s)) == len(s) and all(len(set(t)) == len(t) for t in s), 'repeated_triplets', got):
        return
    r.check(len(s) == (n if flat else 2 * n - 4), 'number_of_triplets', n, len(s))
    for t in s:
        q = p[:, t]
        if flat:
            normal = np.array([q[1, 1] - q[1, 0], q[0, 0] - q[0, 1]])
        else:
            normal = np.cross(q[:, 1] - q[:, 0], q[:, 2] - q[:, 0])
        normal /= max(np.linalg.norm(normal), 1e-300)
        side = normal @ (p - q[:, :1])
        if not r.check(side.max() < 1e-5 or side.min() > -1e-5, 'triplet_not_on_hull', t, side.min(), side.max(), p.tolist()):
            return

def copies(v):
    if isinstance(v, dict):
        return {k: copies(w) for k, w in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(copies(w) for w in v)
    return v.copy() if isinstance(v, np.ndarray) else v

def close(a, b, tol):
    return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= tol * (1 + np.abs(np.asarray(b, float)))))

def verify(r, s, name, channels=True):
    la = panning.LoudspeakerArray()
    text = open(name, encoding='utf-8').read()
    try:
        la.loadXmlFile(name)
    except Exception as e:
        r.viol('unreadable', '%s\n%s' % (e, text))
        return
    n, V = s.n, s.virtual
    r.check(la.is2D == s.flat and not la.isInfinite, 'dimension', text)
    if not r.check((la.numberOfRegularLoudspeakers, la.totNumberOfLoudspeakers, la.numberOfSubwoofers) == (n, n + V, len(s.subs)), 'numbers', text):
        return
    root = ET.parse(name).getroot()
    names = [e.get('id') for e in root.findall('loudspeaker')]
    if s.labels is not None:
        r.check(names == list(s.labels), 'labels', names, s.labels)
    r.check([e.get('id') for e in root.findall('virtualspeaker')] == s.vlabels, 'virtual_labels')
    r.check(all(e.find('polar' if s.polar else 'cart') is not None and e.find('cart' if s.polar else 'polar') is None for t in ('loudspeaker', 'virtualspeaker') for e in root.findall(t)), 'notation', text)
    if s.flat:
        r.check(not any(k in p.attrib for k in ('z', 'el') for p in root.iter() if p.tag in ('polar', 'cart')), 'third_coordinate', text)
    ids = [la.getSpeakerIndexFromId(x) for x in names + s.vlabels]
    pos = la.positions()
    for k, i in enumerate(ids):
        r.check(close(pos[i], s.pos[:, k], s.tolerance), 'position', k, pos[i], s.pos[:, k], text)
    for k in range(n):
        i = ids[k]
        r.check(la.getSpeakerChannel(i) == s.channels[k] == la.getSpeakerChannelFromId(names[k]), 'channel', k, s.channels[k], la.getSpeakerChannelFromId(names[k]))
        r.check(close(la.getLoudspeakerGainAdjustment(i), 10 ** (s.gains[k] / 20), 1e-5), 'gain', k, la.getLoudspeakerGainAdjustment(i), s.gains[k], text)
        r.check(abs(la.getLoudspeakerDelayAdjustment(i) - s.delays[k]) < 1e-8 + 1e-6 * abs(s.delays[k]), 'delay', k, la.getLoudspeakerDelayAdjustment(i), s.delays[k], text)
    for v in range(V):
        for k in range(n):
            got = np.array(la.getReRoutingCoefficients())[v, ids[k]]
            r.check(close(got, s.routing[v, k], 2e-5), 'routing', v, k, got, s.routing[v, k], text)
    for i, sub in enumerate(s.subs):
        r.check(la.subwooferChannelIndices()[i] == sub['channel'], 'subwoofer_channel', i, sub['channel'], la.subwooferChannelIndices())
        w = np.array(la.getSubwooferGains())[i]
        r.check(close([w[ids[k]] for k in range(n)], sub['weights'], 1e-6), 'subwoofer_weights', i, w, sub['weights'], text)
        r.check(close(la.getGainAdjustments()[n + i], 10 ** (sub['gain'] / 20), 2e-5), 'subwoofer_gain', i)
        r.check(abs(la.getDelayAdjustments()[n + i] - sub['delay']) < 1e-6, 'subwoofer_delay', i)
        given = root.findall('subwoofer')[i].get('name')
        r.check(given == sub['name'] if sub['name'] else bool(given), 'subwoofer_name', given, sub['name'])
    given = [e.get('name') for e in root.findall('subwoofer')]
    if len([x for x in s.subs if x['name'] is None]) > 1:
        default = [x for x, y in zip(given, s.subs) if y['name'] is None]
        r.check(len(set(default)) == len(default), 'subwoofer_default_names', given)
    r.check(la.isOutputEqualisationPresent() == bool(s.eq), 'equalisation', text)
    if s.eq:
        r.check(la.outputEqualisationNumberOfBiquads() == s.sections, 'sections', la.outputEqualisationNumberOfBiquads(), s.sections)
        m = la.outputEqualisationBiquads()
        for c in range(n + len(s.subs)):
            f = s.eq.get(s.eqOf.get(ids.index(c)) if c < n else s.subs[c - n]['eq'], [])
            for k in range(s.sections):
                q = m[c, k]
                b, den = f[k] if k < len(f) else ([1, 0, 0], [1, 0, 0])
                r.check(close([q.b0, q.b1, q.b2, q.a1, q.a2], [*b, *den[1:]], 1e-5), 'biquad', c, k, [q.b0, q.b1, q.b2, q.a1, q.a2], b, den, text)
    back = {i: k for k, i in enumerate(ids)}
    got = [[back[j] for j in list(la.getTriplet(t))[:2 if s.flat else 3]] for t in range(la.numberOfTriplets)]
    if s.triplets is not None:
        r.check(got == s.triplets, 'triplets', got, s.triplets)
        r.count('given triangulations')
    else:
        faces(r, s.pos, s.flat, got)
        r.count('triangulations')
    if s.comment is not None:
        r.check('An array with <%d> loudspeakers & more' % n in text, 'comment', text)

def files(r):
    g = gen(r)
    s = Spec(g)
    kept = copies(s.args)
    name = os.path.join(r.scratch, 'array%d.xml' % r.case)
    r.sample('%s' % {k: (v if np.ndim(v) == 0 else '...') for k, v in s.args.items()})
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        createArrayConfigFile(name, **s.args)
    r.check(equal(s.args, kept), 'arguments_changed', kept, s.args)
    verify(r, s, name)
    if g.random() < .1:
        text = open(name, 'rb').read()
        createArrayConfigFile(name, **s.args)
        r.check(open(name, 'rb').read() == text, 'not_reproducible')
    os.unlink(name)
    r.count('arrays')
    for k in ('virtualLoudspeakers', 'eqConfiguration', 'subwooferConfig'):
        if s.args.get(k):
            r.count({'v': 'arrays with virtual loudspeakers', 'e': 'arrays with equalisers', 's': 'arrays with subwoofers'}[k[0]])
    if s.flat:
        r.count('planar arrays')
    if s.compensated:
        r.count('arrays with distance compensation')
    r.count('arrays in polar notation' if s.polar else 'arrays in Cartesian notation')
    r.state(s.n, s.virtual, tuple(sorted(s.args)), r.rng.getrandbits(20))

def fromSofa(r):
    g = gen(r)
    s = Spec(g)
    total = s.n + s.virtual
    n = s.n
    spherical = bool(g.random() < .5)
    pos = s.pos[:, :n].T.copy()
    if spherical:
        radius = np.linalg.norm(pos, axis=1)
        ep = np.stack((np.degrees(np.arctan2(pos[:, 1], pos[:, 0])), np.degrees(np.arcsin(pos[:, 2] / radius)), radius), axis=1)
    else:
        ep = pos
        if s.flat:
            ep = ep.copy()
            ep[:, 2] = g.uniform(-1, 1, n)
    if g.random() < .7:
        ep = ep[:, :, None]
    sofa = os.path.join(r.scratch, 'set.%d.sofa' % r.case)
    open(sofa, 'w').close()
    h5py.FILES.clear()
    h5py.FILES[sofa] = {'EmitterPosition': h5py.Dataset(ep.copy(), Type=b'spherical' if spherical else b'cartesian')}
    a = {}
    name = os.path.splitext(sofa)[0] + '.xml'
    if g.random() < .6:
        name = a['xmlFile'] = os.path.join(r.scratch, 'converted.xml')
    if s.labels is not None:
        a['lspLabels'] = s.labels
    if s.flat or g.random() < .3:
        a['twoDSetup'] = s.flat
    if s.virtual:
        a['virtualLoudspeakers'] = s.args['virtualLoudspeakers']
    s.polar = True
    s.channels = list(range(1, n + 1))
    s.delays, s.gains = np.zeros(n), np.zeros(n)
    s.eq, s.sections, s.subs, s.triplets, s.comment = {}, 0, [], None, None
    here = os.getcwd()
    os.chdir(r.scratch)
    try:
        createArrayConfigFromSofa(sofa, **a)
    finally:
        os.chdir(here)
    if r.check(os.path.exists(name), 'file_name', name, os.listdir(r.scratch)):
        verify(r, s, name)
        os.unlink(name)
    os.unlink(sofa)
    r.check(h5py.File.opened == 0, 'file_left_open')
    r.count('arrays from SOFA files')
    r.state('sofa', n, s.virtual, spherical, s.flat, r.rng.getrandbits(16))

def refusals(r):
    g = gen(r)
    while True:
        s = Spec(g)
        if s.labels is not None and s.n >= 4:
            break
    a, n = s.args, s.n
    names = list(s.labels)
    pos = np.asarray(a['lspPositions'])
    def virtual(**k):
        v = list(a.get('virtualLoudspeakers') or []) + [{**dict(id='one:more', pos=[0, .1, -1]), **k}]
        a['virtualLoudspeakers'] = v
        a.pop('triplets', None)
    def sub(**k):
        free = max(s.channels + [x['channel'] for x in s.subs]) + 1
        a['subwooferConfig'] = list(a.get('subwooferConfig') or []) + [{**dict(channel=free, assignedSpeakers=names[:2]), **k}]
    def eq(**k):
        a['eqConfiguration'] = list(a.get('eqConfiguration') or []) + [{**dict(name='another:one', filter=[dict(b=[1, 0, 0], a=[1, 0, 0])]), **k}]
    def relabel(new):
        k = int(g.integers(n))
        l = list(names)
        l[k] = new
        a.clear()
        a.update(lspPositions=pos, loudspeakerLabels=l, twoDconfig=s.flat)
        if s.virtual:
            a['virtualLoudspeakers'] = [dict(id=x, pos=s.pos[:, n + i]) for i, x in enumerate(s.vlabels)]
    def missing():
        x = label(g)
        while x in names or x in s.vlabels:
            x = label(g)
        return x
    bad = ['', 'a b', 'a,b', 'ü', 'a\\b', 'a\n', '#1', 'a;b', ' '][int(g.integers(9))]
    dims = 2 if s.flat else 3
    trial = {
        'shape': lambda: a.update(lspPositions=pos[0] if g.random() < .3 else np.concatenate((pos, pos))[:int(g.choice([1, 4]))] if pos.shape[0] * 2 >= 4 else pos[:1]),
        'number_of_channels': lambda: a.update(channelIndices=list(range(1, n + 2 if g.random() < .5 else n))),
        'repeated_channels': lambda: a.update(channelIndices=[1] + list(range(1, n)), subwooferConfig=[]),
        'number_of_labels': lambda: a.update(loudspeakerLabels=names + ['x:y'] if g.random() < .5 else names[1:]),
        'inadmissible_label': lambda: relabel(bad),
        'repeated_label': lambda: a.update(loudspeakerLabels=[names[1]] + names[1:], virtualLoudspeakers=None if not s.virtual else [dict(id=x, pos=s.pos[:, n + i]) for i, x in enumerate(s.vlabels)], subwooferConfig=[], eqConfiguration=None, triplets=None),
        'label_of_virtual_loudspeaker': lambda: virtual(id=bad),
        'virtual_label_used': lambda: virtual(id=names[0] if g.random() < .5 or not s.vlabels else s.vlabels[0]),
        'unknown_routing': lambda: virtual(routing=[(names[0], .5), (missing() if g.random() < .5 or not s.vlabels else s.vlabels[0], .5)]),
        'number_of_delays': lambda: a.update(lspDelays=[0.0] * (n + 1 if g.random() < .5 else n - 1)),
        'number_of_gains': lambda: a.update(lspGainDB=[0.0] * (n + 1 if g.random() < .5 else n - 1)),
        'repeated_filter': lambda: (eq(), eq()),
        'denominator': lambda: eq(filter=[dict(b=[1, 0, 0], a=[1.0] if g.random() < .5 else [1.0, 0, 0, 0])]),
        'numerator': lambda: eq(filter=[dict(b=[1, 0] if g.random() < .5 else [1, 0, 0, 0], a=[1, 0, 0])]),
        'unknown_filter_loudspeaker': lambda: eq(loudspeakers=[missing() if g.random() < .5 or not s.vlabels else s.vlabels[0]]),
        'two_filters': lambda: a.update(eqConfiguration=[dict(name='one', filter=[dict(b=[1, 0, 0], a=[0, 0])], loudspeakers=names[:2]), dict(name='two', filter=[dict(b=[1, 0, 0], a=[0, 0])], loudspeakers=names[1:3])], subwooferConfig=[]),
        'unknown_subwoofer_loudspeaker': lambda: sub(assignedSpeakers=[names[0], missing() if g.random() < .5 or not s.vlabels else s.vlabels[0]]),
        'subwoofer_on_loudspeaker_channel': lambda: sub(channel=s.channels[int(g.integers(n))]),
        'subwoofers_on_one_channel': lambda: (sub(channel=1000), sub(channel=1000)),
        'number_of_weights': lambda: sub(weights=[1.0] * int(g.choice([1, 3]))),
        'unknown_subwoofer_filter': lambda: sub(eq='not:there'),
        'unknown_triplet_label': lambda: a.update(triplets=[names[:dims], names[1:dims] + [missing()]]),
        'triplet_size': lambda: a.update(triplets=[names[:dims], names[:dims + 1] if g.random() < .5 else names[:dims - 1]]),
    }
    k = str(g.choice(sorted(trial)))
    trial[k]()
    name = os.path.join(r.scratch, 'refused.xml')
    if os.path.exists(name):
        os.unlink(name)
    r.state('refusals', k, s.flat)
    try:
        createArrayConfigFile(name, **a)
        r.viol('accepted_' + k, '%s' % a)
    except ValueError:
        r.count('inadmissible arrays refused')
    except Exception as e:
        r.viol('wrong_error_' + k, repr(e))
    r.check(not os.path.exists(name), 'file_of_refused_array', k)

def geometry(r):
    g = gen(r)
    shape = [(3,), (5, 3), (2, 4, 3)][int(g.integers(3))]
    v = g.normal(size=shape) * 10 ** g.uniform(-2, 2)
    az, el, rad = loudspeakerconfig.cart2sph(v)
    ref = np.linalg.norm(v, axis=-1)
    back = np.stack((np.cos(az) * np.cos(el) * rad, np.sin(az) * np.cos(el) * rad, np.sin(el) * rad), axis=-1)
    r.check(np.allclose(rad, ref) and np.allclose(back, v, atol=1e-9 * ref.max()) and np.all(np.abs(el) <= math.pi / 2 + 1e-12), 'cart2sph', v, az, el, rad)
    r.check(np.allclose(loudspeakerconfig.sph2cart(az, el, rad), v, atol=1e-9 * ref.max()), 'sph2cart', v)
    one = loudspeakerconfig.sph2cart(az, el, 1.0)
    r.check(np.allclose(one * ref[..., None], v, atol=1e-9 * ref.max()), 'sph2cart_broadcast', v)
    r.check(np.allclose(loudspeakerconfig.deg2rad(v), np.deg2rad(v)) and np.allclose(loudspeakerconfig.rad2deg(v), np.rad2deg(v)), 'degrees', v)
    r.count('conversions of positions')
    r.state('geometry', shape, r.rng.getrandbits(8))

def case(r):
    k = r.rng.random()
    (files if k < .55 else fromSofa if k < .7 else refusals if k < .95 else geometry)(r)

if __name__ == '__main__':
    pyvh.main(case)
