"""C25: the binaural synthesis toolkit, judged against the definition of the rendering methods evaluated in double precision."""
import itertools, math, os, sys, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs'))
import numpy as np
import pyvh
import h5py
import efl, visr, pml, rrl, rbbl, rcl, signalflows, objectmodel as om, panning
import visr_bst
from visr_bst import util
from visr_bst.util import rotation_functions

FS = 48000

# ---------------------------------------------------------------- mathematics
def gen(r):
    return np.random.default_rng(r.rng.getrandbits(60))

def rot(ypr):
    """The orientation of a head: yaw about z, then pitch about the new y, then roll about the new x; columns are the head's axes."""
    y, p, r = ypr
    cy, sy, cp, sp, cr, sr = math.cos(y), math.sin(y), math.cos(p), math.sin(p), math.cos(r), math.sin(r)
    rz = np.array([[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]])
    ry = np.array([[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]])
    rx = np.array([[1, 0, 0], [0, cr, -sr], [0, sr, cr]])
    return rz @ ry @ rx

def direction(az, el):
    return np.array([math.cos(az) * math.cos(el), math.sin(az) * math.cos(el), math.sin(el)])

def harmonics(order, dirs):
    """Real spherical harmonics, ACN order, orthonormal, no Condon-Shortley phase; one column per direction."""
    d = np.asarray(dirs, dtype=float).reshape(-1, 3)
    d = d / np.linalg.norm(d, axis=1, keepdims=True)
    x, y, z = d.T
    n = order
    # sin^m(theta) cos / sin (m phi) as polynomials, so that the poles need no special case.
    c, s = [np.ones_like(x)], [np.zeros_like(x)]
    for m in range(1, n + 1):
        c.append(x * c[-1] - y * s[-1])
        s.append(x * s[-1] + y * c[-2])
    q = {}
    for m in range(n + 1):
        q[m, m] = np.full_like(x, float(math.prod(range(1, 2 * m, 2))))
        if m < n:
            q[m + 1, m] = (2 * m + 1) * z * q[m, m]
        for l in range(m + 2, n + 1):
            q[l, m] = ((2 * l - 1) * z * q[l - 1, m] - (l + m - 1) * q[l - 2, m]) / (l - m)
    out = []
    for l in range(n + 1):
        for m in range(-l, l + 1):
            a = abs(m)
            k = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - a) / math.factorial(l + a))
            out.append(k * q[l, a] * (1 if m == 0 else math.sqrt(2.0) * (c[a] if m > 0 else s[a])))
    return np.array(out)

def directions(g, n):
    d = g.normal(size=(n, 3))
    return d / np.linalg.norm(d, axis=1, keepdims=True)

def shRotation(order, R):
    """The matrix that maps Y(d) to Y(Rd), found from many directions."""
    d = directions(np.random.default_rng(5), 4 * (order + 1) ** 2 + 8)
    return harmonics(order, d @ R.T) @ np.linalg.pinv(harmonics(order, d))

def fraction(D):
    """FIR filter of a delay of D samples realised by third-order Lagrange interpolation."""
    h = np.zeros(int(math.ceil(D)) + 3)
    t = -D
    i = math.floor(t)
    pts = [i - 1, i, i + 1, i + 2]
    for a in pts:
        w = 1.0
        for b in pts:
            if a != b:
                w *= (t - b) / (a - b)
        if -a >= 0:
            h[-a] += w
    return h

def angles(g, kind=None):
    kind = g.integers(6) if kind is None else kind
    if kind == 0:
        return [0.0, 0.0, 0.0]
    if kind == 1:
        return [float(g.uniform(-math.pi, math.pi)), 0.0, 0.0]
    if kind == 2:
        a = [0.0, 0.0, 0.0]
        i = int(g.integers(3))
        a[i] = float(g.uniform(-1.4, 1.4))
        return a
    return [float(g.uniform(-3.1, 3.1)), float(g.uniform(-1.4, 1.4)), float(g.uniform(-3.1, 3.1))]

# ---------------------------------------------------------------- measurement grids
class Grid:
    """Directions of measurements, in three or two dimensions."""
    def __init__(self, g, flat=False):
        self.flat = flat
        while True:
            n = int(g.integers(5, 16)) if not flat else int(g.integers(3, 12))
            if flat:
                az = np.sort(g.uniform(-math.pi, math.pi, n))
                gap = np.diff(np.concatenate((az, az[:1] + 2 * math.pi)))
                if gap.max() > 2.8 or gap.min() < .12:
                    continue
                g.shuffle(az)
                self.az, self.el = az, np.zeros(n)
                self.dirs = np.stack((np.cos(az), np.sin(az)), axis=1)
                order = np.argsort(np.mod(az, 2 * math.pi))
                self.facets = [(int(order[i]), int(order[(i + 1) % n])) for i in range(n)]
                break
            d = directions(g, n)
            fac = []
            ok = True
            for t in itertools.combinations(range(n), 3):
                a, b, c = d[list(t)]
                nrm = np.cross(b - a, c - a)
                if np.linalg.norm(nrm) < .05:
                    ok = False
                    break
                nrm /= np.linalg.norm(nrm)
                h = np.delete(d, t, axis=0) @ nrm - a @ nrm
                if np.all(h > 0) or np.all(h < 0):
                    if abs(a @ nrm) < .15 or np.abs(h).min() < 1e-3 or (a @ nrm) * (h[0]) > 0:
                        ok = False
                        break
                    fac.append(t)
            if not ok:
                continue
            self.dirs, self.facets = d, fac
            self.az = np.arctan2(d[:, 1], d[:, 0])
            self.el = np.arcsin(d[:, 2])
            break
        self.n = len(self.dirs)
        self.radius = g.uniform(.5, 3, self.n) if g.random() < .6 else np.ones(self.n)
        self.dtype = np.float32 if g.random() < .5 else np.float64

    def positions(self, columns=3):
        p = np.stack((self.az, self.el, self.radius) if columns == 3 else (self.az, self.radius), axis=1)
        return np.array(p, dtype=self.dtype)

    def weights(self, v, interpolate):
        """Weights of the measurements for a direction, or None if the choice is too close to call."""
        w = np.zeros(self.n)
        v = np.asarray(v)[:self.dirs.shape[1]]
        v = v / np.linalg.norm(v)
        if not interpolate:
            p = self.dirs @ v
            o = np.argsort(-p)
            if p[o[0]] - p[o[1]] < 2e-5:
                return None
            w[o[0]] = 1
            return w
        best = None
        for f in self.facets:
            k = np.linalg.solve(self.dirs[list(f)].T, v)
            if best is None or k.min() > best[0]:
                best = (k.min(), f, k)
        if best[0] < -1e-6:
            raise RuntimeError('no facet of the grid contains the direction')
        w[list(best[1])] = best[2] / best[2].sum()
        return w

# ---------------------------------------------------------------- running flows
class Runner:
    """Runs a renderer block by block, keeps the input and the output."""
    def __init__(self, comp, width, period):
        self.comp, self.width, self.P = comp, width, period
        self.flow = rrl.AudioSignalFlow(comp)
        self.x = np.zeros((width, 0))
        self.y = np.zeros((2, 0))
        self.block = 0
        self.before = None

    def prepare(self, flow, n, routing):
        """Judge by the signals which this flow sends to the given inputs of a renderer."""
        self.before, self.n, self.routing = flow, n, routing
        self.x = np.zeros((n, 0))

    def run(self, g, blocks):
        for _ in range(blocks):
            a = np.asarray(g.uniform(-1, 1, (self.width, self.P)), dtype=np.float32)
            if g.random() < .1:
                a[:] = 0
            b = np.asarray(self.flow.process(a))
            if self.before:
                s = np.asarray(self.before.process(a))
                a = np.zeros((self.n, self.P))
                a[self.routing] = s
            self.x = np.concatenate((self.x, a), axis=1)
            self.y = np.concatenate((self.y, b), axis=1)
            self.block += 1

    def tail(self, ear, n, filters):
        """The last n samples which filtering the inputs with the given filters has to yield, and a bound of the magnitudes of the terms."""
        end = self.x.shape[1]
        w, mag = np.zeros(n), 0.0
        for ch, h in filters:
            a = self.x[ch, max(0, end - n - len(h)):]
            if a.size == 0 or len(h) == 0:
                continue
            full = np.convolve(a, h)[:a.size]
            w[-min(n, a.size):] += full[-n:]
            mag += np.abs(h).sum()
        return w, mag

def compare(r, run, blocks, filters, key, what, tol=2e-5, old=None):
    """The last blocks have to be the result of these filters; faded over from the old ones in the first of them, if given."""
    n = min(blocks * run.P, run.x.shape[1])
    if n <= 0:
        return True
    ok = True
    for ear in range(2):
        want, mag = run.tail(ear, n, filters[ear])
        if old is not None:
            was, m = run.tail(ear, n, old[ear])
            a = np.minimum(np.arange(1, n + 1) / run.P, 1)
            want, mag = a * want + (1 - a) * was, mag + m
            r.count('transitions')
        got = run.y[ear, -n:]
        err = np.abs(got - want)
        r.count('samples', n)
        if not (np.all(np.isfinite(got)) and err.max() <= tol * max(mag, 1.0)):
            i = int(np.argmax(np.where(np.isfinite(err), err, np.inf)))
            ok = False
            r.viol(key, '%s: ear %d sample %d of the last %d (block %d): %r instead of %r; %s' % (key, ear, i, n, run.block, got[i], want[i], what))
            break
    return ok

def head(port, ypr, g):
    lp = port.data()
    if g.random() < .5:
        lp.orientationYPR = list(ypr)
    else:
        lp.setOrientationYPR(*ypr) if hasattr(lp, 'setOrientationYPR') else setattr(lp, 'orientationYPR', list(ypr))
    lp.position = rbbl.Position3D(*[float(v) for v in g.uniform(-1, 1, 3)])
    port.swapBuffers()

class Tracker(visr.AtomicComponent):
    """Stands in for a tracking device: sends the orientation it was told last."""
    instances = []
    def __init__(self, context, name, parent, tag='', *, scale=1.0):
        super().__init__(context, name, parent)
        self.out = visr.ParameterOutput('orientation', self, pml.ListenerPosition.staticType, pml.DoubleBufferingProtocol.staticType, pml.EmptyParameterConfig())
        self.proto = self.out.protocolOutput()
        self.next = None
        self.tag, self.scale = tag, scale
        Tracker.instances.append(self)
    def process(self):
        if self.next is not None:
            self.proto.data().orientationYPR = list(self.next)
            self.proto.swapBuffers()
            self.next = None

class Scene:
    """Audio objects bound to channels, as object vector and as model."""
    def __init__(self, g, channels):
        self.channels = channels
        self.obj = {}

    def change(self, g, others=True):
        ids = list(range(2 * self.channels + 3))
        g.shuffle(ids)
        n = int(g.integers(0, self.channels + 1)) if g.random() < .8 else self.channels
        ch = list(range(self.channels))
        g.shuffle(ch)
        keep = {}
        if g.random() < .3 and self.obj:
            keep = dict(list(self.obj.items())[:int(g.integers(0, len(self.obj) + 1))])
        self.obj = keep
        used = {o['ch'] for o in keep.values()}
        free = [c for c in ch if c not in used]
        free = free[:max(0, n - len(keep))]
        for i in ids:
            if not free:
                break
            if i in self.obj:
                continue
            kind = g.choice(['point', 'point', 'wave', 'other']) if others else g.choice(['point', 'wave'])
            az, el = float(g.uniform(-math.pi, math.pi)), float(math.asin(g.uniform(-1, 1)))
            self.obj[i] = dict(ch=free.pop(), kind=str(kind), az=az, el=el, r=float(g.uniform(.3, 5)), level=float(g.uniform(0, 1.5)), sub=int(g.integers(3)))

    def objects(self):
        res = []
        for i, o in self.obj.items():
            v = direction(o['az'], o['el']) * o['r']
            if o['kind'] == 'point':
                s = om.PointSource(i) if o['sub'] else om.PointSourceWithDiffuseness(i) if hasattr(om, 'PointSourceWithDiffuseness') else om.PointSource(i)
                s.position = [float(a) for a in v]
            elif o['kind'] == 'wave':
                s = om.PlaneWave(i)
                s.azimuth, s.elevation, s.referenceDistance = math.degrees(o['az']), math.degrees(o['el']), o['r']
            else:
                s = om.DiffuseSource(i)
            s.level = o['level']
            s.channels = [o['ch']]
            res.append(s)
        return res

    def send(self, port):
        port.data().set(self.objects())
        port.swapBuffers()

    def rendered(self):
        return [(o['ch'], direction(o['az'], o['el']), np.float32(o['level'])) for o in self.obj.values() if o['kind'] != 'other']

    def text(self):
        return ' '.join('%d:%s ch%d az%.4f el%.4f l%.3f' % (i, o['kind'], o['ch'], o['az'], o['el'], o['level']) for i, o in self.obj.items())

# ---------------------------------------------------------------- HRIR-based rendering
def sofa(r, g, grid, data, delays, brir):
    """A SOFA 'file' with these measurements; returns its name."""
    name = os.path.join(r.scratch, 'f%d_%d.sofa' % (r.case, r.rng.getrandbits(40)))
    open(name, 'w').close()
    cart = bool(g.random() < .5)
    if cart:
        pos = np.stack([direction(a, e) * q for a, e, q in zip(grid.az, grid.el, grid.radius)])
    else:
        pos = np.stack((np.degrees(grid.az), np.degrees(grid.el), grid.radius), axis=1)
    f = {'Data.IR': h5py.Dataset(data), 'Data.SamplingRate': h5py.Dataset([float(FS)])}
    p = h5py.Dataset(pos, Type=b'cartesian' if cart else b'spherical')
    q = h5py.Dataset(np.zeros((1, 3)) + [1, 0, 0], Type=b'cartesian')
    f['ListenerView'], f['SourcePosition'] = (p, q) if brir else (q, p)
    f['Data.Delay'] = h5py.Dataset(delays * FS if delays is not None else np.zeros((1,) + data.shape[1:-1]))
    h5py.FILES[name] = f
    return name

def mix(weights, data):
    return np.tensordot(weights, np.asarray(data, dtype=float), axes=1)

def hrir(r):
    g = gen(r)
    P = int(g.choice([4, 8, 16, 32, 64]))
    n = int(g.integers(1, 5))
    L = int(g.integers(1, 3 * P))
    grid = Grid(g)
    data = np.asarray(g.uniform(-1, 1, (grid.n, 2, L)), dtype=np.float32)
    opt = dict(headTracking=bool(g.random() < .7), dynamicITD=bool(g.random() < .5), dynamicILD=bool(g.random() < .5), hrirInterpolation=bool(g.random() < .5),
               filterCrossfading=bool(g.random() < .4), interpolatingConvolver=bool(g.random() < .4))
    realtime = bool(g.random() < .25)
    whole = bool(g.random() < .3)
    delays = g.uniform(0, 3 * P, (grid.n, 2)) / FS if opt['dynamicITD'] or g.random() < .2 else None
    if delays is not None and whole:
        delays = np.round(delays * FS) / FS
    ctx = visr.SignalFlowContext(P, FS)
    pos = grid.positions()
    kept = pos.copy()
    init = angles(g) if g.random() < .4 else None
    args = dict(opt)
    if g.random() < .2:
        args['fftImplementation'] = str(g.choice(['kissfft', 'ffts', 'default'])) if g.random() < .5 else 'kissfft'
        if args['fftImplementation'] == 'ffts':
            args['fftImplementation'] = 'kissfft'
    if init is not None:
        args['headOrientation'] = orientationArgument(g, init)
    useSofa = bool(g.random() < .25)
    if useSofa:
        args['sofaFile'] = sofa(r, g, grid, data, delays, False)
        if delays is not None and g.random() < .3:
            args['hrirDelays'] = delays
    else:
        args.update(hrirPositions=pos, hrirData=data)
        if delays is not None:
            args['hrirDelays'] = delays
    tracker = None
    if realtime:
        track = args.pop('headTracking')
        if args.pop('interpolatingConvolver'):
            opt['interpolatingConvolver'] = False
        if track:
            args['headTrackingReceiver'] = Tracker
            if g.random() < .5:
                args['headTrackingPositionalArguments'] = ('x',)
            if g.random() < .5:
                args['headTrackingKeywordArguments'] = {'scale': 2.0}
        comp = visr_bst.RealtimeDynamicHrirRenderer(ctx, 'renderer', None, numberOfObjects=n, **args)
        if track:
            tracker = Tracker.instances.pop()
            r.check(tracker.tag == ('x' if 'headTrackingPositionalArguments' in args else '') and tracker.scale == (2.0 if 'headTrackingKeywordArguments' in args else 1.0), 'receiver_arguments')
        r.count('realtime renderers')
    else:
        comp = visr_bst.DynamicHrirRenderer(ctx, 'renderer', None, n, **args)
    r.count('HRIR renderers')
    r.check(np.array_equal(pos, kept), 'positions_changed', 'the array of positions passed to the renderer was changed', kept, pos)
    run = Runner(comp, n, P)
    objects = run.flow.parameterReceivePort('objectVector')
    tracking = run.flow.parameterReceivePort('tracking') if opt['headTracking'] and not realtime else None
    scene = Scene(g, n)
    R = rot(init) if init is not None else np.eye(3)
    sep = opt['dynamicITD'] or opt['dynamicILD']
    settle = 1 + -(-(L + (4 if opt['dynamicITD'] else 0)) // P) + 1 if sep else 0
    filters = [[], []]
    ypr = init
    for epoch in range(int(g.integers(1, 5))):
        if epoch == 0 or g.random() < .7:
            scene.change(g)
            scene.send(objects)
        if opt['headTracking'] and g.random() < .6:
            ypr = angles(g)
            R = rot(ypr)
            if tracker:
                tracker.next = ypr
            else:
                head(tracking, ypr, g)
            r.count('head movements')
        k = int(g.integers(1, 4))
        run.run(g, settle + k)
        old, filters, close = filters, [[], []], False
        for ch, d, level in scene.rendered():
            w = grid.weights(R.T @ d, opt['hrirInterpolation'])
            if w is None:
                close = True
                break
            h = mix(w, data) * float(level)
            for ear in range(2):
                f = h[ear]
                if opt['dynamicITD']:
                    f = np.convolve(f, fraction(float(w @ delays[:, ear]) * FS + 1.5))
                elif opt['dynamicILD']:
                    f = np.convolve(f, fraction(1.5))
                filters[ear].append((ch, f))
        if close:
            r.count('too close to call')
            break
        what = '%s P=%d L=%d grid=%d epoch %d head %s scene %s sofa %s realtime %s' % (opt, P, L, grid.n, epoch, ypr, scene.text(), useSofa, realtime)
        r.count('epochs')
        if not compare(r, run, k, filters, 'hrir_output', what, 2e-3 if opt['hrirInterpolation'] or opt['dynamicITD'] else 3e-5, old if opt['filterCrossfading'] and not sep else None):
            break
    r.state('hrir', tuple(opt.values()), useSofa, realtime, n, init is not None)
    r.sample('hrir ' + str(opt))

# ---------------------------------------------------------------- Ambisonics
def orientationArgument(g, ypr):
    a = list(ypr)
    if a[2] == 0 and a[1] == 0 and g.random() < .5:
        a = a[:2]
    k = g.integers(3)
    return tuple(a) if k == 0 else a if k == 1 else np.array(a, dtype=np.float32 if g.random() < .5 else np.float64)

def hoa(r):
    """Ambisonics signals, or objects which are encoded first."""
    g = gen(r)
    P = int(g.choice([4, 8, 16, 32]))
    order = int(g.integers(0, 5))
    N = (order + 1) ** 2
    L = int(g.integers(1, 2 * P))
    objects = bool(g.random() < .5)
    extra = int(g.integers(0, 4)) if g.random() < .3 else 0
    filters = np.asarray(g.uniform(-1, 1, (N + extra, 2, L)), dtype=np.float32)
    n = int(g.integers(1, 5)) if objects else N
    tracked = bool(g.random() < .6)
    init = angles(g) if g.random() < .4 else None
    steps = [None, 0, 1, P, 2 * P + 1, 3][int(g.integers(6))]
    args = dict(interpolationSteps=steps, headTracking=tracked)
    realtime = bool(g.random() < .25)
    if extra or realtime and objects or g.random() < .5:
        args['maxHoaOrder' if objects else 'hoaOrder'] = order
    if init is not None:
        args['headOrientation'] = orientationArgument(g, init)
    if g.random() < .15:
        args['fftImplementation'] = 'kissfft'
    useSofa = bool(g.random() < .25)
    if useSofa:
        name = os.path.join(r.scratch, 'f%d.sofa' % r.case)
        open(name, 'w').close()
        h5py.FILES[name] = {'Data.IR': h5py.Dataset(filters), 'Data.SamplingRate': h5py.Dataset([float(FS)]), 'Data.Delay': h5py.Dataset(np.zeros((1, 2))),
                            'SourcePosition': h5py.Dataset(np.ones((N + extra, 3)), Type=b'spherical')}
        args['sofaFile'] = name
    else:
        args['decodingFilters'] = filters
    ctx = visr.SignalFlowContext(P, FS)
    tracker = None
    if realtime:
        if tracked:
            args['headTrackingReceiver'] = Tracker
            if g.random() < .5:
                args['headTrackingPositionalArguments'] = ('x',)
        r.count('realtime renderers')
        if g.random() < .5 and not tracked:
            del args['headTracking']
    cls = (visr_bst.RealtimeHoaObjectToBinauralRenderer if realtime else visr_bst.HoaObjectToBinauralRenderer) if objects else (visr_bst.RealtimeHoaBinauralRenderer if realtime else visr_bst.HoaBinauralRenderer)
    if objects:
        args['numberOfObjects'] = n
    comp = cls(ctx, 'renderer', None, **args)
    r.count('HOA object renderers' if objects else 'HOA renderers')
    if realtime and tracked:
        tracker = Tracker.instances.pop()
    run = Runner(comp, n, P)
    port = run.flow.parameterReceivePort('objectVector') if objects else None
    tracking = run.flow.parameterReceivePort('tracking') if tracked and not realtime else None
    scene = Scene(g, n) if objects else None
    ypr = init
    R = rot(init) if init is not None else np.eye(3)
    s = P if steps is None else steps
    # The ramp starts anew with every block, so gains approach their targets geometrically if it is longer than one.
    settle = (1 if s <= P else math.ceil(math.log(1e-7) / math.log(1 - P / s))) + -(-L // P) + 1
    for epoch in range(int(g.integers(1, 5))):
        if objects and (epoch == 0 or g.random() < .7):
            scene.change(g)
            scene.send(port)
        if tracked and g.random() < .6:
            ypr = angles(g)
            R = rot(ypr)
            if tracker:
                tracker.next = ypr
            else:
                head(tracking, ypr, g)
            r.count('head movements')
        k = int(g.integers(1, 4))
        run.run(g, settle + k)
        f = [[], []]
        if objects:
            src = [(ch, harmonics(order, R.T @ d)[:, 0] * float(level)) for ch, d, level in scene.rendered()]
        else:
            D = shRotation(order, R.T)
            src = [(c, D[:, c]) for c in range(N)]
        for ch, coeff in src:
            for ear in range(2):
                f[ear].append((ch, coeff @ np.asarray(filters[:N, ear], dtype=float)))
        r.count('epochs')
        if not compare(r, run, k, f, 'hoa_object_output' if objects else 'hoa_output',
                       'order %d P=%d L=%d steps %s tracked %s epoch %d head %s initial %s sofa %s realtime %s %s' % (order, P, L, steps, tracked, epoch, ypr, init, useSofa, realtime, scene.text() if scene else ''), 1e-4):
            break
    r.state('hoa', objects, order, tracked, steps, useSofa, realtime, init is not None)

# ---------------------------------------------------------------- virtual loudspeakers
def tracking3(g, flat):
    a = angles(g)
    if flat and g.random() < .6: # Mostly what such a grid is meant for.
        a = [a[0], a[1] * .1, a[2] * .1]
    return a

def array(g, n):
    """A horizontal loudspeaker array as VBAP configuration."""
    az = np.cumsum(g.uniform(.5, 1.5, n))
    az = az * 360 / (az[-1] + g.uniform(.5, 1.5)) - 180
    if np.diff(np.append(az, az[0] + 360)).max() > 170:
        return array(g, n)
    xml = '<panningConfiguration isInfinite="%s" dimension="2">' % ('true' if g.random() < .5 else 'false')
    for i, a in enumerate(az):
        xml += '<loudspeaker id="L%d" channel="%d"><polar az="%.4f" el="0" r="1"/></loudspeaker>' % (i, i + 1, a)
    for i in range(n):
        xml += '<triplet l1="L%d" l2="L%d"/>' % (i, (i + 1) % n)
    return xml + '</panningConfiguration>'

def speakers(r):
    """Loudspeaker signals, or objects which are panned to loudspeakers first."""
    g = gen(r)
    P = int(g.choice([4, 8, 16, 32, 64]))
    objects = bool(g.random() < .35)
    n = int(g.integers(1, 5)) if not objects else int(g.integers(3, 7))
    L = int(g.integers(1, 3 * P))
    flat = bool(g.random() < .5)
    grid = Grid(g, flat)
    data = np.asarray(g.uniform(-1, 1, (grid.n, 2, n, L)), dtype=np.float32)
    opt = dict(headTracking=bool(g.random() < .7), dynamicITD=bool(g.random() < .5), hrirInterpolation=bool(g.random() < .5),
               filterCrossfading=bool(g.random() < .4), interpolatingConvolver=bool(g.random() < .4))
    realtime = not objects and bool(g.random() < .3)
    delays = g.uniform(0, 3 * P, (grid.n, 2, n)) / FS if opt['dynamicITD'] or g.random() < .2 else None
    if delays is not None and g.random() < .3:
        delays = np.round(delays * FS) / FS
    init = tracking3(g, flat) if g.random() < .4 else None
    args = dict(opt)
    if g.random() < .15:
        args['fftImplementation'] = 'kissfft'
    if init is not None:
        args['headOrientation'] = orientationArgument(g, init)
    pos = grid.positions(2 if flat and g.random() < .2 else 3)
    kept = pos.copy()
    useSofa = bool(g.random() < .25)
    if useSofa:
        args['sofaFile'] = sofa(r, g, grid, data, delays, True)
        if delays is not None and g.random() < .3:
            args['hrirDelays'] = delays
        if g.random() < .2:
            args['hrirPositions'] = pos
        if g.random() < .6: # Truncated responses, faded out.
            T = args['irTruncationLength'] = int(g.integers(16, max(L, 16) + 5))
            if T < L:
                fade = np.ones(T)
                fade[-16:] = .5 * (np.cos(np.pi * np.arange(1, 17) / 18) + 1)
                data = np.asarray(data[..., :T] * fade, dtype=np.float32)
                L = T
                r.count('truncated responses')
    else:
        args.update(hrirPositions=pos, hrirData=data)
        if delays is not None:
            args['hrirDelays'] = delays
    late = lateDelay = None
    if g.random() < .35: # A static late part.
        M = int(g.integers(1, 3 * P))
        late = np.asarray(g.uniform(-1, 1, (2, n, M)), dtype=np.float32)
        if g.random() < .7:
            lateDelay = g.integers(0, 4 * P, (2, n)).astype(float)
        d = None if lateDelay is None else np.maximum(lateDelay + g.uniform(-.4, .4, lateDelay.shape), 0) / FS
        if g.random() < .4:
            args['staticLateSofaFile'] = sofa(r, g, Single(), late[None], None if d is None else d[None], True)
        else:
            args['staticLateFilters'] = late
            if d is not None:
                args['staticLateDelays'] = d
        r.count('late parts')
    ctx = visr.SignalFlowContext(P, FS)
    tracker = core = None
    width = n
    if realtime:
        track = args.pop('headTracking')
        if track:
            args['headTrackingReceiver'] = Tracker
            if g.random() < .5:
                args['headTrackingPositionalArguments'] = ('x',)
        comp = visr_bst.RealtimeVirtualLoudspeakerRenderer(ctx, 'renderer', None, **args)
        if track:
            tracker = Tracker.instances.pop()
        r.count('realtime renderers')
    elif objects:
        m = int(g.integers(3, n + 1))
        width = int(g.integers(1, 5))
        xml = array(g, m)
        la = panning.LoudspeakerArray()
        la.loadXmlString(xml)
        routing = list(range(n))
        g.shuffle(routing)
        routing = routing[:m]
        if m == n and g.random() < .4:
            routing = list(range(n))
        else:
            args['loudspeakerRouting'] = routing if g.random() < .7 else np.array(routing)
        options = {}
        dif = efl.BasicMatrixFloat(np.asarray(g.uniform(-1, 1, (m, int(g.integers(1, 20)))), dtype=np.float32))
        diffuse = bool(g.random() < .7)
        if diffuse:
            options['diffusionFilters'] = dif
        if g.random() < .3:
            options['interpolationPeriod'] = int(P * g.integers(1, 3))
        if g.random() < .3:
            options['numberEqSections'] = int(g.integers(0, 3))
        if g.random() < .2:
            options['frequencyDependentPanning'] = True
        given = dict(options)
        if options or g.random() < .3:
            args['objectRendererOptions'] = options
        if g.random() < .5:
            args['loudspeakerConfiguration'] = la
        else:
            name = os.path.join(r.scratch, 'array%d.xml' % r.case)
            with open(name, 'w') as f:
                f.write(xml)
            args['loudspeakerConfiguration'] = name
        comp = visr_bst.ObjectToVirtualLoudspeakerRenderer(ctx, 'renderer', None, numberOfObjects=width, **args)
        r.check(options == given, 'options_changed', 'the dictionary of options passed to the renderer was changed', sorted(options), sorted(given))
        # The same scene rendered to loudspeakers.
        core = rrl.AudioSignalFlow(signalflows.CoreRenderer(ctx, 'core', None, loudspeakerConfiguration=la, numberOfInputs=width, numberOfOutputs=m,
                                                            **{**dict(interpolationPeriod=P, diffusionFilters=dif), **given}))
        r.count('object renderers')
    else:
        comp = visr_bst.VirtualLoudspeakerRenderer(ctx, 'renderer', None, **args)
    r.count('virtual loudspeaker renderers')
    r.check(np.array_equal(pos, kept), 'positions_changed', 'the array of positions passed to the renderer was changed', kept, pos)
    run = Runner(comp, width, P)
    if core:
        run.prepare(core, n, routing)
        ports = [f.parameterReceivePort(p) for f, p in ((run.flow, 'objectVector'), (core, 'objectDataInput'))]
        scene = Scene(g, width)
    tracking = run.flow.parameterReceivePort('tracking') if opt['headTracking'] and not realtime else None
    ypr = init
    R = rot(init) if init is not None else np.eye(3)
    settle = 2 + -(-(L + 4) // P) if opt['dynamicITD'] else 0
    early, static = [[], []], [[], []]
    if late is not None:
        static = [[(ch, np.concatenate((np.zeros(0 if lateDelay is None else int(lateDelay[ear, ch])), late[ear, ch]))) for ch in range(n)] for ear in range(2)]
    for epoch in range(int(g.integers(1, 6))):
        if core and (epoch == 0 or g.random() < .7):
            scene.change(g, diffuse)
            for p in ports:
                scene.send(p)
        if opt['headTracking'] and g.random() < .7:
            ypr = tracking3(g, flat)
            R = rot(ypr)
            if tracker:
                tracker.next = ypr
            else:
                head(tracking, ypr, g)
            r.count('head movements')
        k = int(g.integers(1, 5))
        run.run(g, settle + k)
        v = R[:, 0]
        w = grid.weights(v, opt['hrirInterpolation']) if not flat or np.hypot(v[0], v[1]) > .05 else None
        if w is None:
            r.count('too close to call')
            break
        h = mix(w, data)
        old, early = early, [[], []]
        for ear in range(2):
            for ch in range(n):
                f = h[ear, ch]
                if opt['dynamicITD']:
                    f = np.convolve(f, fraction(float(w @ delays[:, ear, ch]) * FS + 1.5))
                early[ear].append((ch, f))
        r.count('epochs')
        what = '%s P=%d L=%d lsp=%d grid=%d flat %s late %s/%s epoch %d head %s initial %s sofa %s realtime %s %s' % (
            opt, P, L, n, grid.n, flat, None if late is None else late.shape, lateDelay, epoch, ypr, init, useSofa, realtime, 'objects %s' % scene.text() if core else '')
        fade = opt['filterCrossfading'] and not opt['dynamicITD']
        if not compare(r, run, k, [early[e] + static[e] for e in range(2)], 'object_output' if core else 'speaker_output', what,
                       2e-3 if opt['hrirInterpolation'] or opt['dynamicITD'] else 5e-5, [old[e] + static[e] for e in range(2)] if fade else None):
            break
    r.state('speakers', tuple(opt.values()), flat, late is None, useSofa, realtime, objects, init is not None)

class Single:
    """The grid of a file with a single measurement."""
    az, el, radius = np.zeros(1), np.zeros(1), np.ones(1)
    n = 1

# ---------------------------------------------------------------- functions
def functions(r):
    g = gen(r)
    kind = int(g.integers(8))
    r.state('functions', kind, r.rng.getrandbits(6))
    r.count('function cases')
    if kind == 0: # Spherical harmonics on arrays of any shape.
        order = int(g.integers(0, 8))
        shape = [(), (5,), (2, 3)][int(g.integers(3))]
        th, ph = np.asarray(g.uniform(0, math.pi, shape)), np.asarray(g.uniform(-7, 7, shape))
        if g.random() < .3:
            th = np.asarray(g.choice([0.0, math.pi / 2, math.pi]))
        got = util.allSphHarmRealACN(order, th, ph)
        thB, phB = np.broadcast_arrays(th, ph)
        d = np.stack((np.sin(thB) * np.cos(phB), np.sin(thB) * np.sin(phB), np.cos(thB)), axis=-1)
        want = harmonics(order, d).reshape(((order + 1) ** 2,) + thB.shape)
        r.check(got.shape == want.shape and np.all(np.abs(got - want) < 1e-9 * (order + 1) ** 2), 'spherical_harmonics', order, th, ph, got, want)
        n = int(g.integers(0, order + 1))
        m = int(g.integers(-n, n + 1))
        one = util.sphHarmReal(n, m, th, ph)
        r.check(np.all(np.abs(one - want[n * n + n + m]) < 1e-9 * (order + 1) ** 2), 'spherical_harmonic', n, m, th, ph, one)
    elif kind in (1, 2): # Rotations of spherical harmonics.
        order = int(g.integers(0, 9))
        ypr = angles(g)
        M = np.linalg.qr(g.normal(size=(3, 3)))[0] if g.random() < .5 else rot(ypr)
        M = M * np.sign(np.linalg.det(M))
        R1 = util.rotationMatrixReorderingACN(M)
        r.check(np.array_equal(R1, np.array([[M[1, 1], M[1, 2], M[1, 0]], [M[2, 1], M[2, 2], M[2, 0]], [M[0, 1], M[0, 2], M[0, 0]]])), 'reordering', M, R1)
        mats = util.allSphericalHarmonicsRotationMatrices(order, R1)
        r.check(len(mats) == order + 1, 'number_of_rotation_matrices', order, len(mats))
        for l, m in enumerate(mats[:order + 1]):
            want = shRotation(l, M)[l * l:, l * l:]
            m = np.asarray(m, dtype=float)
            if not r.check(m.size == (2 * l + 1) ** 2 and np.all(np.abs(m.reshape(2 * l + 1, -1) - want) < 1e-7 * (l + 1) ** 2), 'rotation_matrices', l, M, m, want):
                break
        one = np.asarray(util.sphericalHarmonicsRotationMatrix(order, R1), dtype=float)
        want = shRotation(order, M)[order ** 2:, order ** 2:]
        r.check(one.size == want.size and np.all(np.abs(one.reshape(want.shape) - want) < 1e-7 * (order + 1) ** 2), 'rotation_matrix', order, M, one)
        if order >= 2:
            old = rotation_functions.HOARotationMatrixCalc(order, np.asarray(mats[order - 1], dtype=float), R1)
            r.check(old.shape == want.shape and np.all(np.abs(old - want) < 1e-5), 'rotation_matrix_recursion', order, M, old, want)
    elif kind == 3:
        ypr = np.array(angles(g)) * float(g.choice([1, 3]))
        got = util.calcRotationMatrix(ypr)
        r.check(np.all(np.abs(got - rot(ypr).T) < 1e-12), 'calcRotationMatrix', ypr, got)
        try:
            util.calcRotationMatrix(np.zeros(int(g.choice([1, 2, 4]))))
            r.viol('calcRotationMatrix_dimension', 'accepted')
        except ValueError:
            r.count('refusals')
    elif kind == 4:
        shape = [(3,), (4, 3), (2, 5, 3)][int(g.integers(3))]
        v = g.normal(size=shape) * 10 ** g.uniform(-2, 2)
        sph = util.cart2sph(v[..., 0], v[..., 1], v[..., 2])
        rad = np.linalg.norm(v, axis=-1)
        ok = sph.shape == (3,) + shape[:-1] and np.allclose(sph[2], rad) and np.allclose(np.cos(sph[0]) * np.cos(sph[1]) * sph[2], v[..., 0]) and np.allclose(np.sin(sph[0]) * np.cos(sph[1]) * sph[2], v[..., 1]) and np.allclose(np.sin(sph[1]) * sph[2], v[..., 2])
        r.check(ok and np.all(np.abs(sph[1]) <= math.pi / 2 + 1e-12), 'cart2sph', v, sph)
        s = np.moveaxis(sph, 0, -1)
        r.check(np.allclose(util.sph2cart(s), v), 'sph2cart', s, util.sph2cart(s), v)
        r.check(np.allclose(util.rad2deg(util.deg2rad(v)), v) and np.allclose(util.deg2rad(v), np.deg2rad(v)), 'degrees', v)
    elif kind == 5:
        readSofa(r, g)
    elif kind == 6:
        extractDelays(r, g)
    else:
        components(r, g)

def readSofa(r, g):
    brir = bool(g.random() < .5)
    grid = Grid(g, bool(g.random() < .5))
    L = int(g.integers(1, 60))
    shape = (grid.n, 2) + ((int(g.integers(1, 4)),) if brir else ())
    data = np.asarray(g.uniform(-1, 1, shape + (L,)))
    delays = g.uniform(0, .01, shape) if g.random() < .5 else None
    name = sofa(r, g, grid, data, delays, brir)
    trunc = int(g.integers(1, 80)) if g.random() < .5 else None
    win = int(g.integers(0, min(trunc, L) + 1)) if trunc is not None and g.random() < .6 else 0
    dt = np.float64 if g.random() < .5 else np.float32
    pos, h, d = util.readSofaFile(name, dtype=dt, truncationLength=trunc, truncationWindowLength=win) if trunc is not None or g.random() < .5 else util.readSofaFile(name, dtype=dt)
    want = data
    if trunc is not None and trunc < L:
        w = np.ones(trunc)
        if win:
            w[-win:] = .5 * (np.cos(np.pi * np.arange(1, win + 1) / (win + 2)) + 1)
        want = data[..., :trunc] * w
    r.check(h.shape == want.shape and np.allclose(h, want, atol=1e-6), 'sofa_responses', trunc, win, h.shape, want.shape)
    r.check((d is None) == (delays is None) and (d is None or np.allclose(d, delays, atol=1e-7)), 'sofa_delays', d, delays)
    a = np.stack((grid.az, grid.el, grid.radius), axis=1)
    r.check(pos.shape == a.shape and np.allclose(np.cos(pos[:, 0]), np.cos(a[:, 0]), atol=1e-5) and np.allclose(np.sin(pos[:, 0]), np.sin(a[:, 0]), atol=1e-5) and np.allclose(pos[:, 1:], a[:, 1:], atol=1e-5), 'sofa_positions', pos, a)
    r.count('SOFA files')
    try:
        util.readSofaFile(name + 'x')
        r.viol('sofa_missing_file', 'accepted')
    except ValueError:
        r.count('refusals')

def extractDelays(r, g):
    """Delayed copies of a response of minimum phase, separated into delays and responses."""
    n = int(g.integers(24, 130))
    shape = (int(g.integers(1, 7)), 2) + (() if g.random() < .7 else (int(g.integers(1, 4)),))
    b = g.normal(size=int(g.integers(1, 9)))
    b *= .6 / (np.sum(np.abs(b)) + 1e-9)
    b[0] = 1
    D = g.integers(0, n // 4, shape)
    data = np.zeros(shape + (n,), np.float32 if g.random() < .5 else np.float64)
    for i in np.ndindex(shape):
        data[i][D[i]:D[i] + len(b)] = b * g.uniform(.2, 2)
    name, out = (os.path.join(r.scratch, 'd%d%s.sofa' % (r.case, k)) for k in ('', 'out'))
    for f in (name, out):
        h5py.FILES.pop(f, None)
    h5py.FILES[name] = {'Data.IR': h5py.Dataset(data.copy()), 'Data.SamplingRate': h5py.Dataset([float(FS)])}
    if g.random() < .7:
        h5py.FILES[name]['Data.Delay'] = h5py.Dataset(np.zeros((1,) + shape[1:]))
    with open(name, 'w') as f:
        f.write(name)
    k = g.random()
    if k < .2: # Failures leave neither a file behind nor damage the one they were given.
        missing = os.path.join(r.scratch, 'missing.sofa')
        args = [(missing, out), (name, name), (name, out)][int(k * 15)]
        if args == (name, out):
            del h5py.FILES[name]['Data.IR']
        try:
            util.sofaExtractDelay(*args)
            r.viol('extraction_accepted', args)
        except Exception:
            r.count('refusals')
        r.check(not os.path.exists(out) and os.path.exists(name), 'extraction_left_files', args, os.path.exists(out), os.path.exists(name))
    else:
        fd = bool(g.random() < .5)
        if fd or g.random() < .5:
            util.sofaExtractDelay(name, out, fdAdjust=fd)
        else:
            util.sofaExtractDelay(name, out)
        r.check(np.array_equal(h5py.FILES[name]['Data.IR'].data, data), 'extraction_changed_input')
        delays, ir = h5py.FILES[out]['Data.Delay'].data, h5py.FILES[out]['Data.IR'].data
        want = D - np.min(D)
        if r.check(delays.shape == shape and ir.shape == data.shape and np.array_equal(delays, np.round(delays)) and np.all((delays == want) | (delays == want - 1)) and np.min(delays) == 0, 'extracted_delays', n, b, D, delays):
            for i in np.ndindex(shape):
                s = int(delays[i])
                expected = np.roll(data[i], -s)
                if not r.check(np.all(np.abs(ir[i] - expected) < (1e-5 if fd else 1e-12)), 'extracted_responses', fd, n, i, s, ir[i], expected):
                    break
        r.check(h5py.File.opened == 0, 'file_left_open')
        r.count('extracted delays', int(np.prod(shape)))
        os.unlink(out)
    os.unlink(name)

def components(r, g):
    """The Ambisonics components on their own, with control data only."""
    order = int(g.integers(0, 5))
    N = (order + 1) ** 2
    n = int(g.integers(1, 5))
    ctx = visr.SignalFlowContext(8, FS)
    top = visr.CompositeComponent(ctx, 'top', None)
    init = angles(g) if g.random() < .5 else None
    R = rot(init) if init is not None else np.eye(3)
    calc = visr_bst.hoa_components.HoaRotationMatrixCalculator(ctx, 'calc', None, order, dynamicOrientation=True, initialOrientation=None if init is None else orientationArgument(g, init))
    flow = rrl.AudioSignalFlow(calc)
    inp, out = flow.parameterReceivePort('orientation'), flow.parameterSendPort('coefficients')
    for _ in range(int(g.integers(1, 6))):
        if g.random() < .6:
            ypr = angles(g)
            R = rot(ypr)
            head(inp, ypr, g)
            r.count('head movements')
        flow.process()
        got = np.array(out.data(), copy=True)
        D = shRotation(order, R.T)
        want = np.concatenate([D[l * l:(l + 1) ** 2, l * l:(l + 1) ** 2].ravel() for l in range(order + 1)])
        if not r.check(got.shape == want.shape and np.all(np.abs(got - want) < 2e-5 * (order + 1) ** 2), 'rotation_coefficients', order, init, got, want):
            break

# ---------------------------------------------------------------- head trackers
def trackers(r):
    """Reports of head trackers, delivered in arbitrary pieces."""
    import serial, socket, time
    from visr_bst import tracker
    g = gen(r)
    razor = bool(g.random() < .5)
    ctx = visr.SignalFlowContext(16, FS)
    offset = [float(v) for v in g.uniform(-180, 180, 3)] if g.random() < .5 else [0.0, 0.0, 0.0]
    args = dict(port='/dev/%d' % r.rng.getrandbits(30))
    for k, v in zip(('yawOffset', 'pitchOffset', 'rollOffset'), offset):
        if v:
            args[k] = v
    sign, M = np.ones(3), np.eye(3)
    if razor:
        for i, k in enumerate(('yawRightHand', 'pitchRightHand', 'rollRightHand')):
            if g.random() < .4:
                args[k] = True
                sign[i] = -1
    else:
        args['displayPos'] = False
        if g.random() < .5:
            M = g.uniform(-1, 1, (3, 3))
            args['yprTranslation'] = M if g.random() < .5 else M.tolist()
    udp = bool(g.random() < .15)
    calibration = not udp and bool(g.random() < .5)
    out, sys.stdout = sys.stdout, open(os.devnull, 'w') # The components report each message.
    try:
        if udp:
            with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as s:
                s.bind(('127.0.0.1', 0))
                number = s.getsockname()[1]
            t = (tracker.RazorAHRSWithUdpCalibrationTrigger if razor else tracker.HdMTrackerWithUdpCalibrationTrigger)(ctx, 'tracker', None, calibrationPort=number, **args)
        else:
            if calibration or g.random() < .3:
                args['calibrationInput'] = calibration
            t = (tracker.RazorAHRS if razor else tracker.HdMTracker)(ctx, 'tracker', None, **args)
        port = serial.PORTS[args['port']]
        flow = rrl.AudioSignalFlow(t)
        res = flow.parameterSendPort('orientation')
        trigger = flow.parameterReceivePort('calibration') if calibration else None
        raw = want = None
        queue = b'\r\n' if razor else b''
        if razor and g.random() < .4:
            queue = b'=3.5,17.25,1\r\n' # The end of a report sent before we started.
        for _ in range(int(g.integers(1, 12))):
            if trigger and g.random() < .2 and raw is not None:
                trigger.enqueue(pml.StringParameter('now') if g.random() < .5 else pml.StringParameter('0'))
                offset = [-float(v) for v in raw]
                r.count('calibrations')
            elif udp and g.random() < .2 and raw is not None:
                with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as s:
                    s.sendto(b'calibrate', ('127.0.0.1', number))
                # The receiver may take its time, so wait until the offset changes.
                offset = [-float(v) for v in raw]
                inner = t.tracker
                state = lambda: list(inner.yprOffset) if not razor else [inner.yawOffset, inner.pitchOffset, inner.rollOffset]
                before = time.time()
                while not np.allclose(state(), offset) and time.time() - before < 10:
                    time.sleep(.002)
                    flow.process()
                if not r.check(np.allclose(state(), offset), 'udp_calibration', raw, offset, state()):
                    break
                r.count('calibrations')
            if g.random() < .12: # A message nobody understands.
                queue += (b'#YPR=1.0,,2\r\n' if g.random() < .5 else b'hello\r\n') if razor else (b'0.1,abc,1,2;' if g.random() < .5 else b';')
                bad = True
            else:
                bad = False
                for _ in range(1 if g.random() < .7 else int(g.integers(2, 4))):
                    if razor:
                        v = np.round(g.uniform(-180, 180, 3), 2)
                        queue += b'#YPR=%.2f,%.2f,%.2f\r\n' % tuple(v)
                        new = v * sign
                    else:
                        q = g.normal(size=4)
                        q = np.round(q / np.linalg.norm(q), 4)
                        queue += (b'%.4f, %.4f, %.4f, %.4f;' if g.random() < .5 else b'%.4f,%.4f,%.4f,%.4f;') % tuple(q)
                        if g.random() < .5:
                            queue += b'\r\n'
                        new = M @ np.array(sys.modules['squaternion'].Quaternion(*q).to_euler(degrees=True))
            while queue:
                k = int(g.integers(1, len(queue) + 1)) if g.random() < .8 and not bad else len(queue)
                port.data += queue[:k]
                queue = queue[k:]
                flow.process()
                r.count('pieces')
            if not bad:
                raw = new
                want = np.radians(raw + np.array(offset))
                r.count('tracker reports')
            if g.random() < .2:
                flow.process()
            if want is not None:
                got = np.array(res.data().orientationYPR)
                if not r.check(np.allclose(rot(got), rot(want), atol=2e-3), 'tracker_orientation', 'razor' if razor else 'hdm', args, udp, raw, offset, got, want):
                    break
    finally:
        sys.stdout.close()
        sys.stdout = out
    r.state('trackers', razor, udp, calibration, bool(np.any(sign < 0)), r.rng.getrandbits(5))

def refusals(r):
    """Arguments which do not fit each other."""
    g = gen(r)
    ctx = visr.SignalFlowContext(16, FS)
    n = int(g.integers(1, 4))
    L = int(g.integers(1, 20))
    grid = Grid(g)
    pos = grid.positions()
    hr = np.asarray(g.uniform(-1, 1, (grid.n, 2, L)), dtype=np.float32)
    br = np.asarray(g.uniform(-1, 1, (grid.n, 2, n, L)), dtype=np.float32)
    order = int(g.integers(1, 4))
    N = (order + 1) ** 2
    dec = np.asarray(g.uniform(-1, 1, (N, 2, L)), dtype=np.float32)
    late = np.asarray(g.uniform(-1, 1, (2, n, L)), dtype=np.float32)
    H = lambda **a: visr_bst.DynamicHrirRenderer(ctx, 'x', None, n, **{**dict(hrirPositions=pos, hrirData=hr), **a})
    V = lambda **a: visr_bst.VirtualLoudspeakerRenderer(ctx, 'x', None, **{**dict(hrirPositions=pos, hrirData=br), **a})
    A = lambda **a: (visr_bst.HoaBinauralRenderer(ctx, 'x', None, **a) if g.random() < .5 else
                     visr_bst.HoaObjectToBinauralRenderer(ctx, 'x', None, n, **{('maxHoaOrder' if k == 'hoaOrder' else k): v for k, v in a.items()}))
    name = sofa(r, g, grid, hr, None, False)
    trial = {
        'hrir_file_and_data': lambda: H(sofaFile=name),
        'hrir_no_delays': lambda: H(dynamicITD=True),
        'hrir_delays_shape': lambda: H(dynamicITD=True, hrirDelays=np.zeros((grid.n, 3) if g.random() < .5 else (grid.n - 1, 2))),
        'speaker_file_and_data': lambda: V(sofaFile=name),
        'speaker_no_delays': lambda: V(dynamicITD=True),
        'speaker_delays_shape': lambda: V(dynamicITD=True, hrirDelays=np.zeros((grid.n, 2, n + 1) if g.random() < .5 else (grid.n, 2))),
        'speaker_positions': lambda: V(hrirPositions=pos[1:]),
        'speaker_two_late_parts': lambda: V(staticLateFilters=late, staticLateSofaFile=name),
        'speaker_late_delays': lambda: V(staticLateFilters=late, staticLateDelays=np.zeros((2, n + 1) if g.random() < .5 else 2 * n - 1)),
        'hoa_no_filters': lambda: A(),
        'hoa_two_filters': lambda: A(decodingFilters=dec, sofaFile=name),
        'hoa_not_square': lambda: A(decodingFilters=dec[1:]),
        'hoa_too_few': lambda: A(decodingFilters=dec, hoaOrder=order + 1),
        'hoa_ears': lambda: A(decodingFilters=np.concatenate((dec, dec), axis=1)[:, :3]),
        'hoa_dimensions': lambda: A(decodingFilters=dec[:, :, 0]),
        'object_speakers': lambda: visr_bst.ObjectToVirtualLoudspeakerRenderer(ctx, 'x', None, numberOfObjects=2, hrirPositions=pos, hrirData=br, loudspeakerConfiguration=config(array(g, n + 3))),
        'objects_configuration': lambda: visr_bst.ObjectToVirtualLoudspeakerRenderer(ctx, 'x', None, numberOfObjects=2, hrirPositions=pos, hrirData=br),
    }
    k = str(g.choice(sorted(trial)))
    try:
        trial[k]()
        r.viol('accepted_' + k, 'grid %d, %d objects or loudspeakers, %d taps, order %d' % (grid.n, n, L, order))
    except Exception:
        r.count('refusals')
    r.state('refusals', k)

def config(xml):
    la = panning.LoudspeakerArray()
    la.loadXmlString(xml)
    return la

KINDS = [hrir, hoa, speakers, functions, trackers, refusals]

def case(r):
    k = [f for f in KINDS if f.__name__ == r.mode] or KINDS
    f = k[r.rng.randrange(len(k))] if len(k) > 1 else k[0]
    h5py.FILES.clear()
    f(r)
    r.check(h5py.File.opened == 0, 'file_left_open')

if __name__ == '__main__':
    pyvh.main(case)
