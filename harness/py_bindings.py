"""C21: what the Python bindings do, judged against numpy."""
import time
import gc, math, sys, threading
import numpy as np, warnings
warnings.simplefilter('ignore')
import pyvh
import efl, visr, pml, rrl, rbbl, rcl, objectmodel, panning

FLT = np.float32
DT = {'Float': np.float32, 'Double': np.float64, 'ComplexFloat': np.complex64, 'ComplexDouble': np.complex128}

# ---------------------------------------------------------------- helpers
def values(r, shape, dt=FLT):
    g = np.random.default_rng(r.rng.getrandbits(60))
    a = g.uniform(-1, 1, shape)
    if np.issubdtype(dt, np.complexfloating):
        a = a + 1j * g.uniform(-1, 1, shape)
    return np.asarray(a).astype(dt)

def strided(r, shape, dt=FLT):
    """An array of the given shape and random contents in an arbitrary memory layout."""
    rng = r.rng
    kind = rng.randrange(5)
    a = values(r, shape, dt)
    if kind == 0:
        return a
    if kind == 1 and a.ndim == 2:
        return np.asfortranarray(a)
    steps = [rng.choice([1, 2, 3, -1, -2]) for _ in shape]
    offs = [rng.randrange(4) for _ in shape]
    big = values(r, [abs(s) * max(n, 1) + o + 2 for n, s, o in zip(shape, steps, offs)], dt)
    sl = []
    for n, s, o in zip(shape, steps, offs):
        if s > 0:
            sl.append(slice(o, o + n * s, s))
        else:
            st = o + (n - 1) * -s
            en = o - 1
            sl.append(slice(st, None if en < 0 else en, s) if n else slice(0, 0))
    v = big[tuple(sl)]
    if kind == 2 and a.ndim == 2 and shape[0] == shape[1]:
        v = v.T
    assert v.shape == tuple(shape), (v.shape, shape, steps, offs)
    v[...] = a
    return v

def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b)

def close(a, b, tol=1e-5, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    s = max(1.0, float(np.max(np.abs(b)))) if scale is None else scale
    return bool(np.all(np.isfinite(a))) and float(np.max(np.abs(a.astype(np.complex128) - b))) <= tol * s

def refused(r, key, f, *what):
    """The operation must raise an exception."""
    r.count('refusals')
    try:
        f()
    except Exception:
        return True
    r.viol(key, 'accepted: ' + ' '.join(str(w) for w in what))
    return False

def show(a):
    return np.array2string(np.asarray(a), threshold=40)

def pick_period(r):
    return r.rng.choice([1, 2, 3, 5, 7, 8, 13, 16, 31, 32, 33, 64])

ctxs = []
def context(r, period):
    c = visr.SignalFlowContext(period=period, samplingFrequency=48000)
    return c

# ---------------------------------------------------------------- containers
def containers(r):
    rng = r.rng
    name = rng.choice(list(DT))
    dt = DT[name]
    align = rng.choice([0, 1, 4, 8, 16])
    kind = rng.randrange(2)
    if rng.random() < 0.5:      # vectors
        cls = getattr(efl, 'BasicVector' + name) if kind else getattr(pml, 'VectorParameter' + name)
        n = rng.randrange(0, 40)
        a = strided(r, [n], dt)
        v = cls(a, align)
        model = a.copy()
        for _ in range(rng.randrange(1, 8)):
            op = rng.randrange(8)
            if op == 0 and n:
                i = rng.randrange(n); x = values(r, [], dt)[()]
                v[i] = x; model[i] = x
            elif op == 1:
                s = strided(r, [n], dt)
                v.set(s); model = s.copy()
            elif op == 2:
                v.zeroFill(); model[...] = 0
            elif op == 3 and n:
                w = np.array(v, copy=False)
                i = rng.randrange(n); x = values(r, [], dt)[()]
                w[i] = x; model[i] = x
            elif op == 4:
                n = rng.randrange(0, 40)
                v.resize(n)
                s = strided(r, [n], dt)
                v.set(s); model = s.copy()
            elif op == 5:
                refused(r, 'vector_index', lambda: v[n + rng.randrange(3)], 'index beyond the end')
                refused(r, 'vector_index', lambda: v.__setitem__(n + rng.randrange(3), 1), 'write beyond the end')
                refused(r, 'vector_set_size', lambda: v.set(values(r, [n + 1 + rng.randrange(3)], dt)), 'set with other size')
                if n:
                    refused(r, 'vector_set_size', lambda: v.set(values(r, [n - 1], dt)), 'set with other size')
                    refused(r, 'vector_set_size', lambda: v.set(values(r, [n, 1], dt)), 'set with 2D')
            elif op == 6:
                refused(r, 'vector_2d', lambda: cls(values(r, [2, 3], dt), align), '2D array')
            r.count('vector_ops')
            if not r.check(v.size == n and same(np.array(v), model), 'vector_content', name, 'op', op, show(np.array(v)), 'expected', show(model)):
                return
            if not r.check(same(np.array(list(v), dtype=dt), model), 'vector_iteration', name, list(v), model):
                return
        w = np.array(v, copy=False)
        it = iter(v)
        del v
        gc.collect()
        junk = [cls(values(r, [max(n, 1)], dt), align) for _ in range(4)]
        r.count('outlived_views')
        r.check(same(w, model), 'vector_view_lifetime', show(w), show(model))
        r.check(same(np.array(list(it), dtype=dt), model), 'vector_iter_lifetime')
        r.state('v', name, kind, align, n)
    else:
        cls = getattr(efl, 'BasicMatrix' + name) if kind else getattr(pml, 'MatrixParameter' + name)
        m, n = rng.randrange(0, 9), rng.randrange(0, 20)
        a = strided(r, [m, n], dt)
        v = cls(a, align)
        model = a.copy()
        for _ in range(rng.randrange(1, 8)):
            op = rng.randrange(6)
            if op == 0 and m * n:
                i, j = rng.randrange(m), rng.randrange(n); x = values(r, [], dt)[()]
                v[i, j] = x; model[i, j] = x
            elif op == 1:
                s = strided(r, [m, n], dt)
                np.array(v, copy=False)[...] = s; model = s.copy()
            elif op == 2:
                v.zeroFill(); model[...] = 0
            elif op == 3:
                m, n = rng.randrange(0, 9), rng.randrange(0, 20)
                v.resize(m, n)
                s = strided(r, [m, n], dt)
                np.array(v, copy=False)[...] = s; model = s.copy()
            elif op == 4:
                refused(r, 'matrix_index', lambda: v[m + rng.randrange(3), 0], 'row beyond the end')
                refused(r, 'matrix_index', lambda: v[0, n + rng.randrange(3)], 'column beyond the end')
                refused(r, 'matrix_index', lambda: v.__setitem__((m, 0), 1), 'row beyond the end')
                refused(r, 'matrix_index', lambda: v.__setitem__((0, n), 1), 'column beyond the end')
            elif op == 5:
                refused(r, 'matrix_1d', lambda: cls(values(r, [3], dt), align), '1D array')
                refused(r, 'matrix_1d', lambda: cls(values(r, [2, 2, 2], dt), align), '3D array')
            r.count('matrix_ops')
            if not r.check(v.numberOfRows == m and v.numberOfColumns == n and same(np.array(v), model), 'matrix_content', name, 'op', op,
                           show(np.array(v)), 'expected', show(model)):
                return
            if m * n:
                i, j = rng.randrange(m), rng.randrange(n)
                r.check(v[i, j] == model[i, j], 'matrix_element', name)
        w = np.array(v, copy=False)
        del v
        gc.collect()
        junk = [cls(values(r, [max(m, 1), max(n, 1)], dt), align) for _ in range(4)]
        r.count('outlived_views')
        r.check(same(w, model), 'matrix_view_lifetime')
        r.state('m', name, kind, align, m, n)

# ---------------------------------------------------------------- efl functions
def vec_arg(r, a, container):
    """Pass an array as a plain numpy array or as a BasicVector of the same contents; n is the number of elements to keep."""
    if container:
        cls = {np.dtype(v): getattr(efl, 'BasicVector' + k) for k, v in DT.items()}[a.dtype]
        return cls(a, 0)
    return a.copy()

def vector_functions(r):
    rng = r.rng
    name = rng.choice(list(DT))
    dt = DT[name]
    container = rng.random() < 0.4
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 40])
    extra = rng.choice([0, 0, 1, 5])
    size = n + extra
    A = lambda: values(r, [size], dt)
    a, b, c, d = A(), A(), A(), A()
    s = values(r, [], dt)[()]
    t = values(r, [], dt)[()]
    two = dt(0)
    E = efl
    ops = {
        'Zero':                    (lambda x, y, z, o: E.vectorZero(o, n), lambda: two * d[:n]),
        'Fill':                    (lambda x, y, z, o: E.vectorFill(s, o, n), lambda: np.full(n, s, dt)),
        'Copy':                    (lambda x, y, z, o: E.vectorCopy(x, o, n), lambda: a[:n]),
        'Add':                     (lambda x, y, z, o: E.vectorAdd(x, y, o, n), lambda: a[:n] + b[:n]),
        'AddInplace':              (lambda x, y, z, o: E.vectorAddInplace(x, o, n), lambda: a[:n] + d[:n]),
        'AddConstant':             (lambda x, y, z, o: E.vectorAddConstant(s, x, o, n), lambda: a[:n] + s),
        'AddConstantInplace':      (lambda x, y, z, o: E.vectorAddConstantInplace(s, o, n), lambda: d[:n] + s),
        'Subtract':                (lambda x, y, z, o: E.vectorSubtract(x, y, o, n), lambda: a[:n] - b[:n]),
        'SubtractInplace':         (lambda x, y, z, o: E.vectorSubtractInplace(x, o, n), lambda: a[:n] - d[:n]),
        'SubtractConstant':        (lambda x, y, z, o: E.vectorSubtractConstant(s, x, o, n), lambda: a[:n] - s),
        'SubtractConstantInplace': (lambda x, y, z, o: E.vectorSubtractConstantInplace(s, o, n), lambda: d[:n] - s),
        'Multiply':                (lambda x, y, z, o: E.vectorMultiply(x, y, o, n), lambda: a[:n] * b[:n]),
        'MultiplyInplace':         (lambda x, y, z, o: E.vectorMultiplyInplace(x, o, n), lambda: a[:n] * d[:n]),
        'MultiplyConstant':        (lambda x, y, z, o: E.vectorMultiplyConstant(s, x, o, n), lambda: a[:n] * s),
        'MultiplyConstantInplace': (lambda x, y, z, o: E.vectorMultiplyConstantInplace(s, o, n), lambda: d[:n] * s),
        'MultiplyAdd':             (lambda x, y, z, o: E.vectorMultiplyAdd(x, y, z, o, n), lambda: a[:n] * b[:n] + c[:n]),
        'MultiplyAddInplace':      (lambda x, y, z, o: E.vectorMultiplyAddInplace(x, y, o, n), lambda: a[:n] * b[:n] + d[:n]),
        'MultiplyConstantAdd':     (lambda x, y, z, o: E.vectorMultiplyConstantAdd(s, x, y, o, n), lambda: a[:n] * s + b[:n]),
        'MultiplyConstantAddInplace': (lambda x, y, z, o: E.vectorMultiplyConstantAddInplace(s, x, o, n), lambda: a[:n] * s + d[:n]),
        'RampScaling':             (lambda x, y, z, o: E.vectorRampScaling(x, y, o, s, t, n, False), lambda: a[:n] * (s + t * b[:n])),
        'RampScalingAccum':        (lambda x, y, z, o: E.vectorRampScaling(x, y, o, s, t, n, True), lambda: d[:n] + a[:n] * (s + t * b[:n])),
    }
    op = rng.choice(list(ops))
    f, expect = ops[op]
    x, y, z, o = (vec_arg(r, q, container) for q in (a, b, c, d))
    f(x, y, z, o)
    out = np.array(o)
    want = d.copy()
    want[:n] = expect().astype(dt)
    r.count('vector_functions')
    r.check(close(out, want, 1e-5), 'vector_' + op, name, container, 'n', n, show(out), 'expected', show(want))
    r.check(same(np.array(x), a) and same(np.array(y), b) and same(np.array(z), c), 'vector_%s_input' % op, name, 'input changed')
    r.state('f', op, name, container, n)
    # Too short, another data type, gaps between the elements: refused, with nothing written.
    if n:
        r.count('vector_function_errors')
        small = vec_arg(r, d[:n - 1], container)
        refused(r, 'vector_function_short', lambda: f(x, y, z, small), op, 'output too short')
        other = {np.dtype(np.float32): np.float64, np.dtype(np.float64): np.float32, np.dtype(np.complex64): np.complex128, np.dtype(np.complex128): np.complex64}[np.dtype(dt)]
        if not container:
            gap = np.zeros(2 * size, dt)[::2]
            if n > 1:
                refused(r, 'vector_function_gap', lambda: f(x, y, z, gap), op, 'output not contiguous')
            refused(r, 'vector_function_2d', lambda: f(x, y, z, np.zeros([size, 1], dt)), op, 'two-dimensional output')
            if op not in ('Zero', 'Fill', 'AddConstantInplace', 'SubtractConstantInplace', 'MultiplyConstantInplace', 'Ramp'):
                refused(r, 'vector_function_short_input', lambda: f(x[:n - 1], y, z, o), op, 'input too short')
            # Inputs in any memory layout: either refused, or the elements the caller passed.
            lay = []
            for q in (a, b, c):
                v = strided(r, [size], dt)
                v[...] = q
                lay.append(v)
            o2 = d.copy()
            try:
                f(lay[0], lay[1], lay[2], o2)
                r.count('vector_function_layouts')
                r.check(close(o2, want, 1e-5), 'vector_function_layout', op, name, 'n', n, 'strides', [v.strides for v in lay], show(o2), 'expected', show(want))
            except Exception:
                r.count('vector_function_layouts_refused')
                r.check(same(o2, d), 'vector_function_layout_partial', op)
            # An output of another type: either refused, or computed into the array that was passed.
            alt = d.astype(other)
            before = alt.copy()
            try:
                f(x, y, z, alt)
                w2 = before.astype(np.complex128); w2[:n] = expect()
                r.check(close(alt, w2, 1e-5), 'vector_function_type', op, name, 'result of a call with another output type lost')
            except Exception:
                r.check(same(alt, before), 'vector_function_type_partial', op)
    if rng.random() < 0.3 and not np.issubdtype(dt, np.complexfloating):
        # A ramp
        si, ei = rng.random() < 0.5, rng.random() < 0.5
        m = rng.randrange(3, 40)
        o = vec_arg(r, values(r, [m], dt), container)
        E.vectorRamp(o, m, s, t, si, ei)
        steps = (m - 1) + (0 if si else 1) + (0 if ei else 1)
        want = s + (t - s) * (np.arange(m) + (0 if si else 1)) / steps
        r.check(close(np.array(o), want, 1e-5), 'vector_Ramp', name, si, ei, show(np.array(o)), show(want))

def biquads(r):
    rng = r.rng
    dt = rng.choice([np.float32, np.float64])
    container = rng.random() < 0.4
    n, sec = rng.randrange(1, 40), rng.randrange(1, 5)
    ss = rng.choice([2, 2, 3, 8])
    cs = rng.choice([5, 6, 8])
    x = values(r, [n], dt)
    co = np.zeros(sec * cs, dt)
    for i in range(sec):
        pr, pa = rng.uniform(0, .9), rng.uniform(0, math.pi)
        co[i * cs:i * cs + 5] = [rng.uniform(.3, 1.2), rng.uniform(-1, 1), rng.uniform(-1, 1), -2 * pr * math.cos(pa), pr * pr]
    st = np.zeros(sec * ss, dt)
    X, C, S, O = vec_arg(r, x, container), vec_arg(r, co, container), vec_arg(r, st, container), vec_arg(r, np.zeros(n, dt), container)
    cut = rng.randrange(0, n + 1) if not container else n
    if container:
        efl.iirFilterBiquadsSingleChannel(X, O, S, C, numElements=n, numSections=sec, stateStride=ss, coeffStride=cs)
    else:
        for a, b in ((0, cut), (cut, n)):
            if b > a:
                efl.iirFilterBiquadsSingleChannel(X[a:b], O[a:b], S, C, numElements=b - a, numSections=sec, stateStride=ss, coeffStride=cs)
    import scipy.signal as sg
    want = x.astype(np.float64)
    for i in range(sec):
        q = co[i * cs:i * cs + 5].astype(np.float64)
        want = sg.lfilter(q[:3], [1, q[3], q[4]], want)
    r.count('biquad_calls')
    r.check(close(np.array(O), want, 1e-4), 'efl_biquad', dt, sec, ss, cs, show(np.array(O)), show(want))
    # Coefficient and state arrays that are too short.
    refused(r, 'efl_biquad_short', lambda: efl.iirFilterBiquadsSingleChannel(
        X, O, S, vec_arg(r, co[:(sec - 1) * cs + rng.randrange(5)], container), numElements=n, numSections=sec, stateStride=ss, coeffStride=cs), 'too few coefficients')
    refused(r, 'efl_biquad_short', lambda: efl.iirFilterBiquadsSingleChannel(
        X, O, vec_arg(r, st[:(sec - 1) * ss + rng.randrange(2)], container), C, numElements=n, numSections=sec, stateStride=ss, coeffStride=cs), 'too few states')
    refused(r, 'efl_biquad_short', lambda: efl.iirFilterBiquadsSingleChannel(
        X, O, S, vec_arg(r, co[:rng.randrange(5)], container), numElements=n, numSections=sec), 'too few coefficients with the default stride')

def conversions(r):
    """vectorConvert between types and strides."""
    rng = r.rng
    kinds = [np.float32, np.float64, np.int16, np.int32]
    n = rng.randrange(1, 30)
    i, o = rng.choice([np.float32, np.float64]), rng.choice([np.float32, np.float64])
    a = values(r, [n], i)
    d = values(r, [n], o)
    try:
        efl.vectorConvert(a, d, n)
    except TypeError:
        return
    r.count('conversions')
    r.check(close(d, a, 1e-6), 'convert', i, o)
    si, so = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
    A, D = values(r, [n * si], i), values(r, [n * so], o)
    D0 = D.copy()
    efl.vectorConvertInputOutputStride(A, D, numElements=n, inputStride=si, outputStride=so)
    want = D0.copy(); want[::so] = A[::si]
    r.check(close(D, want, 1e-6), 'convert_stride', i, o, si, so, show(D), show(want))
    refused(r, 'convert_short', lambda: efl.vectorConvertInputOutputStride(A[:(n - 1) * si].copy(), D, numElements=n, inputStride=si, outputStride=so), 'input too short')
    refused(r, 'convert_short', lambda: efl.vectorConvertInputOutputStride(A, D[:(n - 1) * so].copy(), numElements=n, inputStride=si, outputStride=so), 'output too short')

# ---------------------------------------------------------------- audio flows
class Mixer(visr.AtomicComponent):
    """out = G * in + offset (per channel), reading and writing its ports in a randomly chosen way."""
    def __init__(self, ctx, name, parent, G, offset, rd, wr, dt, layout):
        super().__init__(ctx, name, parent)
        self.G, self.offset, self.rd, self.wr, self.layout = G, offset, rd, wr, layout
        sfx = {np.float32: 'Float', np.float64: 'Double'}[dt]
        self.inp = getattr(visr, 'AudioInput' + sfx)('in', self, G.shape[1])
        self.out = getattr(visr, 'AudioOutput' + sfx)('out', self, G.shape[0])
        self.dt, self.calls, self.shapes = dt, 0, set()
        self.times = []
    def process(self):
        self.calls += 1
        n = self.G.shape[1]
        if self.rd == 0:
            x = np.array(self.inp)
        elif self.rd == 1:
            x = self.inp.data()
        elif self.rd == 2:
            x = np.array([self.inp[i] for i in range(n)])
        else:
            x = np.array([self.inp.channel(i) for i in range(n)])
        if n == 0:
            x = np.zeros([0, self.period()], self.dt)
        self.shapes.add(x.shape)
        y = (self.G.astype(np.float64) @ x.astype(np.float64) + self.offset[:, None]).astype(self.dt)
        if self.wr == 0:
            if self.layout == 1:
                y = np.asfortranarray(y)
            elif self.layout == 2:
                z = np.zeros([2 * y.shape[0], 3 * y.shape[1]], self.dt); z[::2, ::3] = y; y = z[::2, ::3]
            elif self.layout == 3:
                y = y[::-1, ::-1].copy()[::-1, ::-1]
            self.out.set(y)
        elif self.wr == 1:
            self.out.data()[...] = y
        elif self.wr == 2:
            for i in range(y.shape[0]):
                self.out[i][:] = y[i]
        elif self.wr == 3:
            for i in range(y.shape[0]):
                self.out.channel(i)[...] = y[i]
        else:
            np.array(self.out, copy=False)[...] = y
        self.times.append((self.time().sampleCount, self.time().blockCount))

class Wrapper(visr.CompositeComponent):
    """A composite that contains one mixer (and passes it through)."""
    def __init__(self, ctx, name, parent, *args):
        super().__init__(ctx, name, parent)
        self.m = Mixer(ctx, 'm', self, *args)
        dt = args[4]
        sfx = {np.float32: 'Float', np.float64: 'Double'}[dt]
        G = args[0]
        self.inp = getattr(visr, 'AudioInput' + sfx)('in', self, G.shape[1])
        self.out = getattr(visr, 'AudioOutput' + sfx)('out', self, G.shape[0])
        if G.shape[1]:
            self.audioConnection(self.inp, self.m.inp)
        self.audioConnection(self.m.out, self.out)

class Sink(visr.AtomicComponent):
    def __init__(self, ctx, name, parent, width):
        super().__init__(ctx, name, parent)
        self.inp = visr.AudioInputFloat('in', self, width)
    def process(self):
        self.last = np.array(self.inp)

class Top(visr.CompositeComponent):
    def __init__(self, ctx, r, nIn, nOut, dt=FLT):
        super().__init__(ctx, 'top', None)
        rng = r.rng
        self.model = []
        self.inp = visr.AudioInputFloat('input', self, nIn)
        self.out = visr.AudioOutputFloat('output', self, nOut)
        sources = [('', self.inp, c) for c in range(nIn)]   # (component, port, channel)
        self.parts = []
        index = {('in', c): c for c in range(nIn)}
        self.plan = []            # numpy program
        rows = [('in', c) for c in range(nIn)]
        self.nconn = 0
        for k in range(rng.randrange(1, 5)):
            ni = rng.randrange(0, 5) if sources else 0
            no = rng.randrange(1, 5)
            G = values(r, [no, ni])
            off = values(r, [no])
            args = (G, off, rng.randrange(4), rng.randrange(5), dt, rng.randrange(4))
            cls = Wrapper if rng.random() < .3 else Mixer
            comp = cls(ctx, 'c%d' % k, self, *args)
            self.parts.append(comp)
            choice = [rng.randrange(len(sources)) for _ in range(ni)]
            if rng.random() < .3 and ni:
                # whole port to whole port
                p = rng.choice(sources)[1]
                ch = [i for i, s in enumerate(sources) if s[1] is p]
                if p.width == ni:
                    choice = ch
            self.connect(r, [sources[c] for c in choice], comp, comp.inp)
            self.plan.append((G, off, choice))
            sources += [(comp, comp.out, c) for c in range(no)]
        choice = [rng.randrange(len(sources)) for _ in range(nOut)]
        self.connect(r, [sources[c] for c in choice], '', self.out)
        self.final = choice
        # Every channel has to go somewhere.
        used = {id(s[1]): set() for s in sources}
        for c in [c for p in self.plan for c in p[2]] + choice:
            used[id(sources[c][1])].add(sources[c][2])
        rest = [s for s in sources if s[2] not in used[id(s[1])]]
        self.sink = None
        if rest:
            self.sink = Sink(ctx, 'sink', self, len(rest))
            self.connect(r, rest, self.sink, self.sink.inp)
        self.flat = [p.m if isinstance(p, Wrapper) else p for p in self.parts]

    def connect(self, r, src, comp, port):
        rng = r.rng
        groups = {}
        for rx, (c, p, ch) in enumerate(src):
            groups.setdefault(id(p), (c, p, [], []))
            groups[id(p)][2].append(ch)
            groups[id(p)][3].append(rx)
        for c, p, tx, rx in groups.values():
            self.nconn += 1
            kind = rng.randrange(5)
            full = tx == list(range(p.width)) and rx == list(range(port.width))
            if full and rng.random() < .7:
                self.audioConnection(p, port)
            elif kind == 0:
                self.audioConnection(p, tx, port, rx)
            elif kind == 1:
                n = lambda q: 'this' if isinstance(q, str) else q.name
                self.audioConnection(n(c), p.name, visr.ChannelList(tx), n(comp), port.name, visr.ChannelList(rx))
            elif kind == 2:
                self.audioConnection(p, visr.ChannelList(tx), port, visr.ChannelList(rx))
            elif kind == 3 and tx == list(range(tx[0], tx[0] + len(tx))):
                self.audioConnection(p, range(tx[0], tx[0] + len(tx)), port, rx)
            elif kind == 4 and tx == list(range(tx[0], tx[0] + len(tx))):
                self.audioConnection(p, visr.ChannelList(visr.ChannelRange(tx[0], tx[0] + len(tx))), port, visr.ChannelList(rx))
            else:
                self.audioConnection(sendPort=p, sendIndices=tx, receivePort=port, receiveIndices=rx)

    def expect(self, x):
        rows = [x[i].astype(np.float32) for i in range(x.shape[0])]
        for G, off, choice in self.plan:
            xin = np.array([rows[c] for c in choice]).reshape(len(choice), x.shape[1])
            y = (G.astype(np.float64) @ xin.astype(np.float64) + off[:, None]).astype(np.float32)
            rows += list(y)
        return np.array([rows[c] for c in self.final]).reshape(len(self.final), x.shape[1])

def flow_audio(r):
    rng = r.rng
    P = pick_period(r)
    nIn, nOut = rng.choice([0, 1, 2, 3, 5]), rng.choice([1, 2, 3, 6])
    ctx = context(r, P)
    top = Top(ctx, r, nIn, nOut)
    # Introspection
    names = sorted(c.name for c in top.components())
    r.check(names == sorted([p.name for p in top.parts] + (['sink'] if top.sink else [])), 'introspect_components', names)
    r.check(sum(1 for _ in top.audioConnections()) == top.nconn, 'introspect_connections')
    pn = sorted(p.name for p in top.audioPorts)
    r.check(pn == ['input', 'output'], 'introspect_ports', pn)
    flow = rrl.AudioSignalFlow(top)
    r.count('flows')
    r.check(flow.numberOfCaptureChannels == nIn and flow.numberOfPlaybackChannels == nOut, 'flow_channels')
    if rng.random() < .3:
        del ctx
        gc.collect()
    useWrapper = rng.random() < .3
    blocks = rng.randrange(1, 6)
    if useWrapper:
        wrap = rrl.FlexibleBufferWrapper(flow)
        chunks = [rng.randrange(1, 3 * P + 2) for _ in range(blocks)]
        x = values(r, [nIn, sum(chunks)])
        got, pos = [], 0
        for c in chunks:
            part = strided(r, [nIn, c])
            part[...] = x[:, pos:pos + c]
            pos += c
            got.append(wrap.process(part) if nIn or rng.random() < .5 else wrap.process(c))
        y = np.concatenate(got, axis=1)
        # The wrapper adds a whole number of samples of delay, at most one block.
        pad = (-x.shape[1]) % P
        want = top.expect(x)
        ok = False
        for d in range(0, P + 1):
            if d <= y.shape[1] and close(y[:, d:], want[:, :y.shape[1] - d], 1e-4) and not np.any(y[:, :d]):
                ok = True
                break
        r.count('wrapper_calls', blocks)
        r.check(ok, 'flexible_wrapper', 'period', P, 'chunks', chunks, show(y), 'expected', show(want))
        return
    outs = []
    for b in range(blocks):
        x = strided(r, [nIn, P])
        keep = x.copy()
        y = flow.process(x) if nIn or rng.random() < .5 else flow.process()
        want = top.expect(keep)
        r.count('blocks')
        if not r.check(close(y, want, 1e-4), 'flow_audio', 'period', P, 'in', nIn, 'out', nOut, show(y), 'expected', show(want)):
            return
        r.check(same(x, keep), 'flow_input_modified')
        outs.append((y, want))
    for y, want in outs:   # results of earlier blocks stay what they were
        r.check(close(y, want, 1e-4), 'flow_result_aliased')
    for m in top.flat:
        r.check(m.calls == blocks, 'process_calls', m.calls, blocks)
        r.check(m.shapes <= {(m.G.shape[1], P)}, 'port_shape', m.shapes, P)
        r.check([t[1] for t in m.times] == list(range(m.times[0][1], m.times[0][1] + blocks)) and
                all(s == b * P for s, b in m.times), 'component_time', m.times)
    # Wrong inputs are refused and leave the flow usable.
    for bad in (np.zeros([nIn + 1, P], FLT), np.zeros([nIn, P + 1], FLT), np.zeros([nIn, P], np.float64), np.zeros([nIn * P], FLT), np.zeros([nIn, P, 1], FLT)):
        refused(r, 'process_bad_input', lambda: flow.process(bad), bad.shape, bad.dtype)
    x = strided(r, [nIn, P])
    r.check(close(flow.process(x), top.expect(x), 1e-4), 'flow_after_refusal')
    r.state('flow', P, nIn, nOut, len(top.parts), top.nconn, useWrapper)
    r.sample('period %d, %d -> %d channels, %d components, %d connections, %d blocks' % (P, nIn, nOut, len(top.parts), top.nconn, blocks))

class Failing(visr.AtomicComponent):
    def __init__(self, ctx, name, parent, when):
        super().__init__(ctx, name, parent)
        self.inp = visr.AudioInputFloat('in', self, 1)
        self.out = visr.AudioOutputFloat('out', self, 1)
        self.when, self.n, self.how = when, 0, 0
    def process(self):
        self.n += 1
        if self.n in self.when:
            if self.how == 0:
                raise ValueError('planned failure %d' % self.n)
            elif self.how == 1:
                self.status(visr.StatusMessage.Error, 'planned failure %d' % self.n)
            else:
                self.out.set(np.zeros([2, self.period()], FLT))
        self.out.set(np.array(self.inp) * 2)

def flow_exceptions(r):
    rng = r.rng
    P = pick_period(r)
    ctx = context(r, P)
    top = Failing(ctx, 'top', None, set(rng.sample(range(1, 8), 3)))
    top.how = rng.randrange(3)
    flow = rrl.AudioSignalFlow(top)
    for b in range(1, 8):
        x = values(r, [1, P])
        try:
            y = flow.process(x)
            r.check(b not in top.when, 'exception_lost', b, top.when, top.how)
            r.check(close(y, 2 * x), 'after_exception', b)
        except Exception as e:
            r.count('exceptions')
            r.check(b in top.when, 'exception_spurious', b, e)
            r.check(top.how == 2 or 'planned failure %d' % b in str(e), 'exception_text', e)
    r.state('exc', P, top.how, tuple(sorted(top.when)))

# ---------------------------------------------------------------- parameters
def param_value(r, kind):
    rng = r.rng
    if kind == 'Float':
        x = float(FLT(rng.uniform(-9, 9))); return pml.Float(x), pml.Float.staticType, pml.EmptyParameterConfig(), x, lambda p: p.value
    if kind == 'Integer':
        x = rng.randrange(-1000, 1000); return pml.Integer(x), pml.Integer.staticType, pml.EmptyParameterConfig(), x, lambda p: p.value
    if kind == 'String':
        x = 'text %d' % rng.randrange(10**6)
        return pml.StringParameter(x), pml.StringParameter.staticType, pml.EmptyParameterConfig(), x, lambda p: p.str
    if kind == 'Vector':
        x = values(r, [6]); return pml.VectorParameterFloat(x), pml.VectorParameterFloat.staticType, pml.VectorParameterConfig(6), x.tolist(), lambda p: np.array(p).tolist()
    if kind == 'Matrix':
        x = values(r, [3, 5]); return pml.MatrixParameterFloat(x), pml.MatrixParameterFloat.staticType, pml.MatrixParameterConfig(3, 5), x.tolist(), lambda p: np.array(p).tolist()
    if kind == 'Listener':
        v = [float(FLT(rng.uniform(-2, 2))) for _ in range(3)]
        return pml.ListenerPosition(v[0], v[1], v[2]), pml.ListenerPosition.staticType, pml.EmptyParameterConfig(), v, lambda p: list(map(float, p.position))
    if kind == 'Indexed':
        i, x = rng.randrange(100), values(r, [4])
        return pml.IndexedVectorFloat(i, x), pml.IndexedVectorFloat.staticType, pml.EmptyParameterConfig(), (i, x.tolist()), lambda p: (p.index, list(map(float, p.value)))
    if kind == 'Objects':
        ov = objectmodel.ObjectVector()
        ids = sorted(rng.sample(range(50), 3)); want = []
        for i in ids:
            o = objectmodel.PointSource(i); o.x = i * .5; o.level = float(FLT(rng.uniform(0, 1))); o.channels = [i]
            ov.insert(o); want.append((i, o.x, o.level, [i]))
        pv = pml.ObjectVector(ov) if False else None
        return ov, pml.ObjectVector.staticType, pml.EmptyParameterConfig(), want, None

class Sender(visr.AtomicComponent):
    def __init__(self, ctx, name, parent, typ, proto, cfg):
        super().__init__(ctx, name, parent)
        self.po = visr.ParameterOutput('po', self, typ, proto, cfg)
        self.todo = []
        self.proto = proto
        self.prot = self.po.protocolOutput() if False else None
    def process(self):
        p = self.po.protocol
        for v in self.todo:
            if self.proto == pml.MessageQueueProtocol.staticType:
                p.enqueue(v)
            elif self.proto == pml.DoubleBufferingProtocol.staticType:
                p.set(v, True)
            else:
                assign(p.data(), v)
        self.todo = []

def assign(dst, v):
    if isinstance(dst, (pml.VectorParameterFloat, pml.MatrixParameterFloat)):
        np.array(dst, copy=False)[...] = np.array(v)
    elif isinstance(dst, (pml.Float, pml.Integer)):
        dst.set(v.value)
    elif isinstance(dst, pml.StringParameter):
        dst.str = v.str

class Receiver(visr.AtomicComponent):
    def __init__(self, ctx, name, parent, typ, proto, cfg, read):
        super().__init__(ctx, name, parent)
        self.pi = visr.ParameterInput('pi', self, typ, proto, cfg)
        self.proto, self.read, self.got, self.changed = proto, read, [], []
    def process(self):
        p = self.pi.protocolInput()
        now = []
        if self.proto == pml.MessageQueueProtocol.staticType:
            n = p.size()
            while not p.empty():
                now.append(self.read(p.front())); p.pop()
            assert len(now) == n
        else:
            if self.proto == pml.DoubleBufferingProtocol.staticType:
                self.changed.append(p.changed())
                p.resetChanged()
            now.append(self.read(p.data()))
        self.got.append(now)

class ParamTop(visr.CompositeComponent):
    pass

def flow_parameters(r):
    rng = r.rng
    P = pick_period(r)
    ctx = context(r, P)
    proto = rng.choice([pml.MessageQueueProtocol, pml.DoubleBufferingProtocol, pml.SharedDataProtocol]).staticType
    kinds = ['Float', 'Integer', 'String', 'Vector', 'Matrix']
    if proto != pml.SharedDataProtocol.staticType:
        kinds += ['Listener', 'Indexed']
    if proto == pml.MessageQueueProtocol.staticType:
        pass
    else:
        kinds = [k for k in kinds if k not in ('Indexed',)]
    kind = rng.choice(kinds)
    external = rng.choice(['none', 'in', 'out', 'both'])
    v0, typ, cfg, want0, read = param_value(r, kind)
    top = ParamTop(ctx, 'top', None)
    send = recv = None
    if external in ('none', 'out'):
        send = Sender(ctx, 'send', top, typ, proto, cfg)
    if external in ('none', 'in'):
        recv = Receiver(ctx, 'recv', top, typ, proto, cfg, read)
    if external == 'none':
        if rng.random() < .5:
            top.parameterConnection(send.po, recv.pi)
        else:
            top.parameterConnection('send', 'po', 'recv', 'pi')
    elif external == 'in':
        top.ext = visr.ParameterInput('ext', top, typ, proto, cfg)
        top.parameterConnection(top.ext, recv.pi)
    elif external == 'out':
        top.ext = visr.ParameterOutput('ext', top, typ, proto, cfg)
        top.parameterConnection(send.po, top.ext)
    else:
        # A port on each side of the composite, joined by a through connection, and nothing inside.
        top.pin = visr.ParameterInput('pin', top, typ, proto, cfg)
        recv = Receiver(ctx, 'recv', top, typ, proto, cfg, read)
        send = Sender(ctx, 'send', top, typ, proto, cfg)
        top.parameterConnection(top.pin, recv.pi)
        top.ext = visr.ParameterOutput('ext', top, typ, proto, cfg)
        top.parameterConnection(send.po, top.ext)
    flow = rrl.AudioSignalFlow(top)
    r.count('parameter_flows')
    extIn = {'in': 'ext', 'both': 'pin'}.get(external)
    extOut = {'out': 'ext', 'both': 'ext'}.get(external)
    pin = flow.parameterReceivePort(extIn) if extIn else None
    pout = flow.parameterSendPort(extOut) if extOut else None
    # When the receiver runs before the sender, what is sent in a block arrives in the next one; judge over the whole history.
    sentIn, sentOut, gotOut = [], [], []
    mutex = flow.parameterExchangeMutex()
    for b in range(rng.randrange(2, 7)):
        n = rng.choice([0, 1, 1, 2]) if proto == pml.MessageQueueProtocol.staticType else rng.choice([0, 1])
        new, newOut = [], []
        for _ in range(n):
            v, _, _, w, _ = param_value(r, kind)
            if external == 'both':
                v2, _, _, w2, _ = param_value(r, kind)
                send.todo.append(v2); newOut.append(w2)
            if pin is not None:
                with rrl.AudioSignalFlow.ParameterExchangeMutexGuard(mutex if rng.random() < .5 else flow):
                    if proto == pml.MessageQueueProtocol.staticType:
                        pin.enqueue(v)
                    elif proto == pml.DoubleBufferingProtocol.staticType:
                        if rng.random() < .5:
                            pin.set(v, True)
                        else:
                            pin.set(v); pin.swapBuffers()
                    else:
                        assign(pin.data(), v)
            elif external != 'both':
                send.todo.append(v)
            new.append(w)
        sentIn.append(new); sentOut.append(newOut if external == 'both' else new)
        flow.process()
        if pout is not None:
            now = []
            with rrl.AudioSignalFlow.ParameterExchangeMutexGuard(flow):
                if proto == pml.MessageQueueProtocol.staticType:
                    while not pout.empty():
                        now.append(read(pout.front())); pout.pop()
                else:
                    now.append(read(pout.data()))
            gotOut.append(now)
        r.count('parameter_blocks')
    def judge(sent, got, where):
        r.events += 1
        if proto == pml.MessageQueueProtocol.staticType:
            a, b = [x for s in sent for x in s], [x for s in got for x in s]
            r.count('messages', len(a))
            r.check(b == a, 'messages_' + where, kind, 'sent', a, 'received', b)
        else:
            cur = None
            for s, g in zip(sent, got):
                if s:
                    cur = s[-1]
                if cur is not None:
                    r.count('values')
                    r.check(g[-1] == cur, 'values_' + where, kind, external, 'expected', cur, 'got', g[-1])
    if recv is not None:
        judge(sentIn, recv.got, 'received')
        if proto == pml.DoubleBufferingProtocol.staticType:
            r.check(recv.changed == [bool(s) for s in sentIn], 'changed_flag', recv.changed, sentIn)
    if pout is not None:
        judge(sentOut, gotOut, 'external')
    # What the flow handed out keeps it alive.
    if pin is not None or pout is not None:
        q = pin if pin is not None else pout
        del flow
        gc.collect()
        if proto == pml.MessageQueueProtocol.staticType:
            q.empty()
        else:
            read(q.data())
        r.count('outlived_views')
    r.state('par', kind, proto, external)

# ---------------------------------------------------------------- library components built from numpy arguments
def run_component(r, comp, P, x):
    flow = rrl.AudioSignalFlow(comp)
    out = []
    for b in range(x.shape[1] // P):
        blk = strided(r, [x.shape[0], P])
        blk[...] = x[:, b * P:(b + 1) * P]
        out.append(flow.process(blk))
    return np.concatenate(out, axis=1)

def components(r):
    rng = r.rng
    P = rng.choice([8, 16, 32, 64])
    ctx = context(r, P)
    B = rng.randrange(2, 5)
    kind = rng.randrange(7)
    ni, no = rng.randrange(1, 5), rng.randrange(1, 5)
    x = values(r, [ni, B * P])
    tol = 1e-4
    if kind == 0:
        G = strided(r, [no, ni])
        g = G if rng.random() < .5 else efl.BasicMatrixFloat(G)
        c = rcl.GainMatrix(ctx, 'c', None, ni, no, interpolationSteps=0, initialGains=g, controlInput=False)
        want = G @ x
        if G.size > 1:    # a 1x1 array is also a scalar
            refused(r, 'gainmatrix_shape', lambda: rcl.GainMatrix(ctx, 'd', None, ni + 1, no, interpolationSteps=0, initialGains=G, controlInput=False))
    elif kind == 1:
        g, d = strided(r, [ni]), np.array([rng.randrange(0, 2 * P) for _ in range(ni)], FLT) / FLT(48000)
        a = rng.choice([np.asarray, lambda q: efl.BasicVectorFloat(q), lambda q: list(map(float, q))])
        c = rcl.DelayVector(ctx, 'c', None, ni, interpolationSteps=P, maxDelay=1.0, interpolationType='nearestSample',
                            methodDelayPolicy=rcl.DelayMatrix.MethodDelayPolicy.Limit, controlInputs=rcl.DelayVector.ControlPortConfig.No,
                            initialDelay=a(d), initialGain=a(g))
        want = np.zeros_like(x)
        for i in range(ni):
            n = int(round(float(d[i]) * 48000))
            want[i, n:] = x[i, :x.shape[1] - n] * g[i]
    elif kind == 2:
        L = rng.randrange(1, 3 * P)
        nf = rng.randrange(1, 4)
        F = strided(r, [nf, L])
        rt = [rbbl.FilterRouting(rng.randrange(ni), o, rng.randrange(nf), float(FLT(rng.uniform(-1, 1)))) for o in range(no)]
        f = F if rng.random() < .5 else efl.BasicMatrixFloat(F, 8)
        c = rcl.FirFilterMatrix(ctx, 'c', None, ni, no, L, nf, len(rt), f, rbbl.FilterRoutingList(rt))
        want = np.zeros([no, B * P])
        for e in rt:
            want[e.outputIndex] += e.gain * np.convolve(x[e.inputIndex], F[e.filterIndex])[:B * P]
    elif kind == 3:
        c = rcl.Add(ctx, 'c', None, width=ni, numInputs=no)
        x = values(r, [ni * no, B * P])
        want = sum(x[k * ni:(k + 1) * ni] for k in range(no))
    elif kind == 4:
        pr = pml.SignalRoutingParameter([])
        want = np.zeros([no, B * P])
        for o in range(no):
            if rng.random() < .8:
                i = rng.randrange(ni); pr.addRouting(i, o); want[o] = x[i]
        c = rcl.SignalRouting(ctx, 'c', None, ni, no, pr, controlInput=False)
    elif kind == 5:
        rl, want = [], np.zeros([no, B * P])
        seen = set()
        for e in range(rng.randrange(1, 6)):
            o, i = rng.randrange(no), rng.randrange(ni)
            if (o, i) in seen:
                continue
            seen.add((o, i))
            g = float(FLT(rng.uniform(-1, 1)))
            rl.append(rbbl.SparseGainRouting(e, o, i, g)); want[o] += g * x[i]
        c = rcl.SparseGainMatrix(ctx, 'c', None, ni, no, 0, 8, rbbl.SparseGainRoutingList(rl), rcl.SparseGainMatrix.ControlPortConfig.No)
    else:
        import scipy.signal as sg
        ns = rng.randrange(1, 4)
        m = rbbl.BiquadCoefficientMatrixFloat(ni, ns)
        want = x.astype(np.float64)
        for i in range(ni):
            for s in range(ns):
                pr_, pa = rng.uniform(0, .8), rng.uniform(0, math.pi)
                q = [float(FLT(v)) for v in (rng.uniform(.3, 1.2), rng.uniform(-1, 1), rng.uniform(-1, 1), -2 * pr_ * math.cos(pa), pr_ * pr_)]
                m[i, s] = rbbl.BiquadCoefficientFloat(*q)
                want[i] = sg.lfilter(q[:3], [1, q[3], q[4]], want[i])
        c = rcl.BiquadIirFilter(ctx, 'c', None, ni, ns, m, controlInput=False)
    y = run_component(r, c, P, x)
    r.count('components')
    r.check(close(y, want, tol), 'component_%d' % kind, 'in', ni, 'out', no, 'period', P, show(y), 'expected', show(want))
    r.state('comp', kind, ni, no, P)

# ---------------------------------------------------------------- data classes
def data_classes(r):
    rng = r.rng
    f = lambda lo=-2, hi=2: float(FLT(rng.uniform(lo, hi)))
    kind = rng.randrange(8)
    r.count('data_classes')
    r.state('data', kind)
    if kind == 0:       # objects
        ov = objectmodel.ObjectVector()
        model = {}
        for _ in range(rng.randrange(1, 12)):
            i = rng.randrange(12)
            if i in model and rng.random() < .4:
                if rng.random() < .5:
                    ov.remove(i); del model[i]
                else:
                    o = ov[i]; v = f(0, 1); o.level = v; model[i]['level'] = v      # a reference, not a copy
            else:
                t = rng.choice([objectmodel.PointSource, objectmodel.PlaneWave, objectmodel.PointSourceWithReverb])
                o = t(i)
                m = {'level': f(0, 1), 'groupId': rng.randrange(9), 'priority': rng.randrange(9), 'channels': [rng.randrange(30)]}
                if t is not objectmodel.PlaneWave:
                    m['x'] = f()
                else:
                    m['azimuth'] = f()
                for k, v in m.items():
                    setattr(o, k, v)
                if t is objectmodel.PlaneWave:
                    m['x'] = None
                if i in model:
                    pass
                ov.insert(o); model[i] = m; m['type'] = t
                if t is objectmodel.PlaneWave:
                    del m['x']; m['x'] = None
        def compare(v, key):
            if not r.check(v.size == len(model), key, 'size', v.size, len(model)):
                return
            for i, m in model.items():
                o = v[i]
                r.check(o.objectId == i and type(o) is m['type'], key, 'type', type(o), m['type'])
                for k, q in m.items():
                    if k == 'type' or (k == 'x' and q is None):
                        continue
                    if k == 'x' and m['type'] is objectmodel.PlaneWave:
                        continue
                    got = getattr(o, k)
                    r.check(got == q if not isinstance(q, float) else abs(got - q) <= 1e-4 * max(1, abs(q)), key, k, got, q)
        for i in list(model):
            if model[i]['type'] is objectmodel.PlaneWave:
                model[i]['x'] = None
        compare(ov, 'object_vector')
        w = objectmodel.ObjectVector(); w.fillFromJson(ov.writeJson())
        compare(w, 'object_json')
        refused(r, 'object_missing', lambda: ov[99], 'unknown id')
        refused(r, 'object_missing', lambda: ov.remove(99), 'unknown id')
        if model:
            i = next(iter(model)); o = ov[i]
            lvl = o.level
            del ov, w
            gc.collect()
            junk = [objectmodel.PointSource(k) for k in range(20)]
            r.check(o.level == lvl, 'object_lifetime'); r.count('outlived_views')
    elif kind == 1:     # reverb sub-objects outlive the source they came from
        o = objectmodel.PointSourceWithReverb(3)
        n = rng.randrange(1, 5)
        o.setNumberOfDiscreteReflections(n)
        i = rng.randrange(n)
        d = o.discreteReflection(i)
        p = [f(), f(), f()]; lv, dl = f(0, 1), f(0, 1)
        d.position = p; d.level = lv; d.delay = dl
        e = o.discreteReflection(i)
        r.check(list(e.position) == p and e.level == lv and e.delay == dl, 'reflection', list(e.position), p)
        refused(r, 'reflection_index', lambda: o.discreteReflection(n + rng.randrange(3)), 'index')
        lr = o.lateReverb
        nb = objectmodel.PointSourceWithReverb.numberOfLateReflectionSubbands
        lev = np.array([f(0, 1) for _ in range(nb)], FLT)
        lr.levels = lev; lr.onsetDelay = dl
        r.check(same(o.lateReverb.levels, lev) and o.lateReverb.onsetDelay == dl, 'late_reverb', o.lateReverb.levels, lev)
        refused(r, 'late_levels_size', lambda: setattr(lr, 'levels', lev[:-1]), 'too few')
        refused(r, 'late_levels_size', lambda: setattr(lr, 'levels', FLT(1)), 'scalar')
        refused(r, 'late_levels_size', lambda: setattr(lr, 'levels', np.zeros([nb, 2], FLT)), '2D')
        del o
        gc.collect()
        junk = [objectmodel.PointSourceWithReverb(k) for k in range(20)]
        r.count('outlived_views')
        r.check(list(d.position) == p and same(lr.levels, lev), 'reverb_lifetime')
    elif kind == 2:     # routings
        rl, model = rbbl.FilterRoutingList(), {}
        for _ in range(rng.randrange(0, 10)):
            a, b, c, g = rng.randrange(5), rng.randrange(5), rng.randrange(5), f()
            if rng.random() < .7:
                rl.addRouting(a, b, c, g); model[(a, b)] = (c, g)
            else:
                ok = rl.removeRouting(a, b)
                r.check(ok == ((a, b) in model), 'routing_remove', ok)
                model.pop((a, b), None)
        got = {(e.inputIndex, e.outputIndex): (e.filterIndex, e.gain) for e in rl}
        r.check(got == model and len(rl) == len(model), 'filter_routing', got, model)
        sl, model = rbbl.SparseGainRoutingList(), {}
        for _ in range(rng.randrange(0, 10)):
            e, a, b, g = rng.randrange(6), rng.randrange(5), rng.randrange(5), f()
            try:
                sl.addRouting(e, a, b, g); model[e] = (a, b, g)
            except Exception:
                r.check(any(k != e and v[:2] == (a, b) for k, v in model.items()), 'sparse_routing_refused', e, a, b, model)
            if rng.random() < .3:
                a, b = rng.randrange(5), rng.randrange(5)
                hit = [k for k, v in model.items() if v[:2] == (a, b)]
                ok = sl.removeRouting(b, a)      # input (column), output (row)
                r.check(ok == (len(hit) > 0), 'sparse_routing_remove', ok, a, b, model)
                for k in hit: del model[k]
        got = {e.entryIndex: (e.rowIndex, e.columnIndex, e.gain) for e in sl}
        r.check(got == model, 'sparse_routing', got, model)
        js = '[{"index":1,"row":2,"column":3,"gain":0.5}]'
        t = rbbl.SparseGainRoutingList.fromJson(js)
        r.check([(e.entryIndex, e.rowIndex, e.columnIndex, e.gain) for e in t] == [(1, 2, 3, .5)], 'sparse_fromJson')
        t = rbbl.FilterRoutingList.fromJson('[{"input":1,"output":2,"filter":3,"gain":0.5}]')
        r.check([(e.inputIndex, e.outputIndex, e.filterIndex, e.gain) for e in t] == [(1, 2, 3, .5)], 'filter_fromJson')
    elif kind == 3:     # biquads
        m, n = rng.randrange(1, 5), rng.randrange(1, 5)
        M = rbbl.BiquadCoefficientMatrixFloat(m, n)
        q = [f() for _ in range(5)]
        i, j = rng.randrange(m), rng.randrange(n)
        M[i, j] = rbbl.BiquadCoefficientFloat(*q)
        r.check(list(M[i, j].data) == q, 'biquad_matrix')
        refused(r, 'biquad_matrix_index', lambda: M[m + rng.randrange(3)], 'row beyond the end')
        refused(r, 'biquad_matrix_index', lambda: M[m, 0], 'row beyond the end')
        refused(r, 'biquad_matrix_index', lambda: M[0, n], 'section beyond the end')
        refused(r, 'biquad_matrix_index', lambda: M.__setitem__((m, 0), rbbl.BiquadCoefficientFloat()), 'row beyond the end')
        refused(r, 'biquad_matrix_index', lambda: M.__setitem__((0, n), rbbl.BiquadCoefficientFloat()), 'section beyond the end')
        refused(r, 'biquad_matrix_index', lambda: M.__setitem__(m, rbbl.BiquadCoefficientListFloat(n)), 'row beyond the end')
        L = rbbl.BiquadCoefficientListFloat([rbbl.BiquadCoefficientFloat(*[f() for _ in range(5)]) for _ in range(n)])
        M[i] = L
        r.check([list(a.data) for a in M[i]] == [list(a.data) for a in L], 'biquad_row')
        row = M[i]
        want = [list(a.data) for a in L]
        S = L.writeJson()
        r.check(isinstance(S, str), 'biquad_writeJson', type(S))
        if isinstance(S, str):
            K = rbbl.BiquadCoefficientListFloat.fromJson(S)
            r.check(all(close(a.data, b.data, 1e-4) for a, b in zip(K, L)) and len(K) == len(L), 'biquad_json')
        one = rbbl.BiquadCoefficientFloat(*q)
        two = rbbl.BiquadCoefficientFloat(); two.loadJson(one.writeJson())
        r.check(close(two.data, q, 1e-4), 'biquad_one_json', one.writeJson(), q)
        refused(r, 'biquad_list_index', lambda: L[n], 'index')
        refused(r, 'biquad_list_index', lambda: L.__setitem__(n, one), 'index')
    elif kind == 4:     # loudspeaker array and VBAP
        n = rng.randrange(3, 9)
        az = sorted(rng.uniform(0, 360 / n * .4) + i * 360 / n for i in range(n))
        xml = '<panningConfiguration dimension="2" infinite="false">' + ''.join(
            '<loudspeaker id="L%d" channel="%d"><polar az="%.3f" el="0" r="1"/></loudspeaker>' % (i, i + 1, a) for i, a in enumerate(az)) + ''.join(
            '<triplet l1="L%d" l2="L%d"/>' % (i, (i + 1) % n) for i in range(n)) + '</panningConfiguration>'
        la = panning.LoudspeakerArray(); la.loadXmlString(xml)
        r.check(la.totNumberOfLoudspeakers == n and la.numberOfRegularLoudspeakers == n, 'array_size')
        pos = np.array(la.positions())
        want = np.array([[math.cos(math.radians(a)), math.sin(math.radians(a)), 0] for a in az])
        r.check(close(pos, want, 1e-4), 'array_positions', show(pos), show(want))
        vb = panning.VBAP(la)
        if rng.random() < .5:
            del la
            gc.collect()
            junk = [panning.LoudspeakerArray() for _ in range(4)]
            r.count('outlived_views')
        th = rng.uniform(0, 2 * math.pi)
        g = np.zeros(n, FLT)
        vb.calculateGains(math.cos(th), math.sin(th), 0, g, True)
        v = g @ want
        r.check(abs(float(g @ g) - 1) < 1e-3 and np.min(g) > -1e-4, 'vbap_gains', g)
        r.check(abs(math.remainder(math.atan2(v[1], v[0]) - th, 2 * math.pi)) < 1e-2, 'vbap_direction', g, th)
        for bad in (np.zeros(n - 1, FLT), np.zeros(2 * n, FLT)[::2], np.zeros([n, 1], FLT), np.zeros(n, np.float64)):
            try:
                vb.calculateGains(math.cos(th), math.sin(th), 0, bad, True)
            except Exception:
                r.count('refusals'); continue
            r.check(bad.size == n and close(bad.reshape(-1), g, 1e-5), 'vbap_array', bad.shape, bad.dtype, bad.strides)
    elif kind == 5:     # quaternion and position
        import scipy.spatial.transform as st
        v = np.array([f() for _ in range(4)])
        if np.linalg.norm(v) < .1:
            return
        v /= np.linalg.norm(v)
        q = rbbl.QuaternionFloat(float(v[0]), float(v[1]), float(v[2]), float(v[3])) if hasattr(rbbl, 'QuaternionFloat') else rbbl.Quaternion(*map(float, v))
        p = rbbl.Position3D(f(), f(), f())
        got = rbbl.rotate(p, q)
        R = st.Rotation.from_quat([v[1], v[2], v[3], v[0]])
        w = R.apply([p.x, p.y, p.z])
        r.check(close([got.x, got.y, got.z], w, 1e-4), 'quaternion', [got.x, got.y, got.z], w)
        p2 = rbbl.Position3D(p.x, p.y, p.z); p2.rotate(q)
        r.check(close(list(p2), w, 1e-4), 'quaternion_member', list(p2), w)
        r.check(len(list(p)) == 3, 'position_iteration')
        refused(r, 'position_index', lambda: p[3 + rng.randrange(3)], 'index')
        r.count('rotations')
    elif kind == 6:     # channel lists
        n = rng.randrange(0, 8)
        a = [rng.randrange(20) for _ in range(n)]
        c = visr.ChannelList(a)
        r.check(list(c) == a and len(c) == n and c.size == n and [c[i] for i in range(n)] == a, 'channel_list', list(c), a)
        refused(r, 'channel_list_index', lambda: c[n], 'index')
        refused(r, 'channel_list_index', lambda: c.__setitem__(n, 1), 'index')
        if n:
            i = rng.randrange(n); c[i] = 77; a[i] = 77
            r.check(list(c) == a, 'channel_list_set')
        s, e, k = rng.randrange(10), rng.randrange(10), rng.choice([1, 2, 3, -1, -2])
        ok = (e - s) * k >= 0
        if ok:
            c = visr.ChannelList(visr.ChannelRange(s, e, k))
            r.check(list(c) == list(range(s, e, k)), 'channel_range', s, e, k, list(c))
        it = iter(visr.ChannelList(list(range(50))))
        gc.collect()
        junk = [visr.ChannelList(list(range(50, 100))) for _ in range(4)]
        r.check(list(it) == list(range(50)), 'channel_list_iter_lifetime')
    else:               # scalar and position parameters
        a = pml.Float(1.5); x = f(); a.set(x)
        r.check(a.value == x, 'scalar_set')
        i = pml.Integer(5); i.set(-7)
        r.check(i.value == -7, 'scalar_set')
        lp = pml.ListenerPosition(f(), f(), f())
        v = [f(), f(), f()]
        lp.position = v if False else rbbl.Position3D(*v)
        p = lp.position
        p = [float(p[0]), float(p[1]), float(p[2])] if hasattr(p, '__getitem__') else [p.x, p.y, p.z]
        r.check(p == v, 'listener_position', p, v)
        ix = strided(r, [5]); iv = pml.IndexedVectorFloat(7, ix)
        r.check(iv.index == 7 and same(np.array(list(iv.value), FLT), ix), 'indexed_vector')

# ---------------------------------------------------------------- lifetimes and construction failures
def lifetimes(r):
    rng = r.rng
    P = 16
    kind = rng.randrange(6)
    r.state('life', kind)
    r.count('lifetimes')
    ctx = context(r, P)
    if kind == 0:
        # A component whose construction fails leaves nothing behind in its parent.
        top = visr.CompositeComponent(ctx, 'top', None)
        f = rng.choice([
            lambda n: rcl.GainMatrix(ctx, n, top, 2, 2, interpolationSteps=0, initialGains=efl.BasicMatrixFloat(np.zeros([3, 3], FLT)), controlInput=False),
            lambda n: rcl.DelayVector(ctx, n, top, 2, interpolationType='nonexistent', initialDelay=0.0, initialGain=1.0),
            lambda n: rcl.SignalRouting(ctx, n, top, 1, 1, pml.SignalRoutingParameter([pml.SignalRoutingParameter.Entry(5, 5)]), controlInput=False)])
        refused(r, 'bad_component', lambda: f('x'), 'component with impossible arguments')
        gc.collect()
        r.check(top.numberOfComponents == 0, 'failed_component_remains', top.numberOfComponents)
        c = rcl.Add(ctx, 'x', top, width=1, numInputs=1)
        r.check(top.numberOfComponents == 1, 'component_count')
        del top, c
    elif kind == 1:
        top = Top(ctx, r, 2, 2)
        flow = rrl.AudioSignalFlow(top)
        x = values(r, [2, P]); want = top.expect(x)
        del top, ctx
        gc.collect()
        r.check(close(flow.process(x), want, 1e-4), 'flow_keeps_component')
        w = rrl.FlexibleBufferWrapper(flow)
        del flow
        gc.collect()
        w.process(values(r, [2, 5]))
    elif kind == 2:
        top = Top(ctx, r, 2, 2)
        port = top.audioPort('input'); it = top.audioPorts; comps = top.components()
        t = top.flat[0].time()
        conns = top.audioConnections()
        del top
        gc.collect()
        junk = [Top(ctx, r, 2, 2)]
        r.check(port.width == 2 and port.name == 'input', 'port_lifetime')
        r.check(len(list(it)) == 2, 'ports_iterator_lifetime')
        r.check(len(list(comps)) >= 1, 'components_iterator_lifetime')
        n = len(list(conns))
    elif kind == 3:
        # Iterators keep the temporary container they go through.
        n = rng.randrange(1, 30)
        c = [rng.randrange(1000) for _ in range(n)]
        r.check(list(iter(visr.ChannelList(c))) == c, 'iterator_lifetime')
        v = values(r, [n])
        r.check([float(q) for q in efl.BasicVectorFloat(v)] == v.tolist(), 'iterator_lifetime')
        it = iter(rbbl.FilterRoutingList([rbbl.FilterRouting(k, k, k, 1.0) for k in range(n)])); junk = rbbl.FilterRoutingList([])
        r.check([q.inputIndex for q in it] == list(range(n)), 'iterator_lifetime')
        it = iter(pml.SignalRoutingParameter([pml.SignalRoutingParameter.Entry(k, k) for k in range(n)]))
        r.check(sorted(q.input for q in it) == list(range(n)) , 'iterator_lifetime')
        it = iter(rbbl.SparseGainRoutingList([rbbl.SparseGainRouting(k, k, k, 1.0) for k in range(n)]))
        r.check(sorted(q.rowIndex for q in it) == list(range(n)), 'iterator_lifetime')
        it = iter(rbbl.BiquadCoefficientListFloat([rbbl.BiquadCoefficientFloat(k, 0, 0, 0, 0) for k in range(n)]))
        r.check([q.b0 for q in it] == list(range(n)), 'iterator_lifetime')
        r.count('outlived_views')
    elif kind == 4:
        # Ports can be destroyed after their component.
        class C(visr.AtomicComponent):
            def process(self): pass
        c = C(ctx, 'c', None)
        p = [visr.AudioInputFloat('in', c, 3), visr.AudioOutput('out', c, visr.AudioSampleType.floatId, 2),
             visr.ParameterInput('pi', c, pml.Float.staticType, pml.DoubleBufferingProtocol.staticType, pml.EmptyParameterConfig())]
        rng.shuffle(p)
        del c
        gc.collect()
        junk = [C(ctx, 'd%d' % k, None) for k in range(3)]
        for q in p:
            refused(r, 'orphaned_port', lambda: q.qualifiedName, 'component of a port whose component is gone')
        r.count('orphaned_ports', len(p))
        del p, q, junk
        # Buffers of ports that are not part of a flow are refused.
        class C(visr.AtomicComponent):
            def process(self): pass
        c = C(ctx, 'c', None)
        p, q = visr.AudioInputFloat('in', c, 3), visr.AudioOutputFloat('out', c, 2)
        for f in (lambda: p.data(), lambda: p[0], lambda: q.set(np.zeros([2, P], FLT)), lambda: q.data(), lambda: q.channel(1)):
            refused(r, 'unconnected_port', f, 'buffer of a port without a flow')
        r.check(np.array(p, copy=True).size == 0 and np.array(q, copy=True).size == 0, 'unconnected_port_buffer')
        flow = rrl.AudioSignalFlow(c)
        flow.process(values(r, [3, P]))
        for i in (3, 4, 100):
            refused(r, 'port_channel_index', lambda: p[i], 'channel beyond the width')
        for i in (2, 3, 100):
            refused(r, 'port_channel_index', lambda: q[i], 'channel beyond the width')
            refused(r, 'port_channel_index', lambda: q.channel(i), 'channel beyond the width')
    else:
        # The mutex excludes other threads, and waiting for it does not hold the interpreter.
        top = Top(ctx, r, 1, 1)
        flow = rrl.AudioSignalFlow(top)
        log, inside = [], [0]
        def work(k):
            for _ in range(10):
                with rrl.AudioSignalFlow.ParameterExchangeMutexGuard(flow):
                    inside[0] += 1
                    log.append(inside[0])
                    time.sleep(rng.choice([0, 1e-4, 1e-3]) if k == 0 else 0)
                    inside[0] -= 1
        ts = [threading.Thread(target=work, args=(k,)) for k in range(3)]
        for t in ts: t.start()
        for b in range(5):
            flow.process(values(r, [1, P]))
        for t in ts: t.join()
        r.count('mutex_sections', len(log))
        r.check(len(log) == 30 and max(log) == 1, 'mutex', log)

PARTS = [(containers, 20), (vector_functions, 25), (biquads, 5), (conversions, 5), (flow_audio, 20), (flow_exceptions, 5),
         (flow_parameters, 15), (components, 15), (data_classes, 15), (lifetimes, 10)]
TABLE = [f for f, w in PARTS for _ in range(w)]

def case(r):
    f = r.rng.choice(TABLE)
    if r.mode:
        f = globals()[r.mode]
    r.count('part_' + f.__name__)
    f(r)

pyvh.main(case)
