"""The monitor protocol of lib/vh.hpp for monitors written in Python."""
import hashlib, json, os, random, sys, traceback

class Run:
    def __init__(self):
        self.seed, self.start, self.stride, self.cases, self.only = 1, 0, 1, 0, -1
        self.mode, self.tier, self.scratch, self.progress, self.outfile = '', 'quick', '/tmp', '', ''
        self.counters, self.samples, self.distinct = {}, [], set()
        self.evaluations = self.events = self.violations = 0
        self.case = 0
        self.rng = random.Random(0)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n
        self.events += n

    def state(self, *key):
        self.distinct.add(hashlib.md5(repr(key).encode()).hexdigest()[:16])

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(text[:300])

    def viol(self, key, detail):
        self.violations += 1
        self.out.write(json.dumps({'t': 'viol', 'key': key, 'case': self.case, 'detail': str(detail)[:1500]}) + '\n')
        self.out.flush()

    def check(self, ok, key, *detail):
        self.events += 1
        if not ok:
            self.viol(key, ' '.join(str(d) for d in detail))
        return bool(ok)

def main(fn):
    r = Run()
    a = sys.argv[1:]
    for k, v in zip(a[::2], a[1::2]):
        k = k[2:]
        if k in ('seed', 'start', 'stride', 'cases', 'only'):
            setattr(r, k, int(v))
        elif k == 'out':
            r.outfile = v
        else:
            setattr(r, k, v)
    r.out = open(r.outfile, 'a') if r.outfile else sys.stdout
    fd = os.open(r.progress, os.O_CREAT | os.O_WRONLY, 0o644) if r.progress else -1
    for c in range(r.start, r.cases, r.stride):
        if r.only >= 0 and c != r.only:
            continue
        r.case = c
        r.rng = random.Random(r.seed * 1000003 + c)
        if fd >= 0:
            os.pwrite(fd, b'%-20d' % c, 0)
        try:
            fn(r)
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            where = [f.name for f in tb if f.filename.endswith('.py')][-1]
            r.viol('escaped_exception_%s_%s' % (type(ex).__name__, where), traceback.format_exc())
        r.evaluations += 1
    r.out.write(json.dumps({'t': 'end', 'evaluations': r.evaluations, 'events': r.events, 'violations': r.violations,
                            'counters': r.counters, 'samples': r.samples, 'distinct': sorted(r.distinct)}) + '\n')
    r.out.flush()
    # Leave without running the destructors of whatever the cases left behind.
    os._exit(0)
