"""C27: the metadata adapter applies the configured processing structure to the objects it was sent."""
import ast, copy, io, json, math, os, struct, sys, time, contextlib
import numpy as np
import pyvh
import efl, rbbl
import visr, pml, rrl
import objectmodel as om
with contextlib.redirect_stdout(io.StringIO()):
    import metadapter
    from metadapter import Engine
    from metadapter.visrintegration import Component
from xml.sax.saxutils import quoteattr

BANDS = 9

def gen(r):
    return np.random.default_rng(r.rng.getrandbits(60))

def value(v, g):
    """A number as some senders write it."""
    return v if g is None or g.random() < .7 else repr(v)

def number(g, lo, hi):
    return round(float(g.uniform(lo, hi)), 6)

def room(g):
    return {'ereflect': [{'level': number(g, 0, 1), 'delay': number(g, .001, .1), 'position': {'az': number(g, -180, 180), 'el': number(g, -90, 90), 'refdist': 1.0}}
                         for _ in range(int(g.integers(0, 4)))],
            'lreverb': {'delay': number(g, 0, .1), 'level': ', '.join(repr(number(g, .01, 1)) for _ in range(BANDS)),
                        'attacktime': ', '.join(repr(number(g, .01, .2)) for _ in range(BANDS)),
                        'decayconst': ', '.join(repr(number(g, -60, -2)) for _ in range(BANDS))}}

def obj(g, i, types=('point', 'point', 'plane', 'pointdiffuse', 'pointreverb', 'polar'), mix=True):
    t = str(g.choice(list(types)))
    h = g if mix and g.random() < .4 else None
    o = {'id': value(i, h), 'channels': int(g.integers(0, 64)), 'type': 'point' if t == 'polar' else t, 'group': value(int(g.integers(0, 6)), h),
         'priority': int(g.integers(0, 8)), 'level': value(number(g, .01, 2), h)}
    if t == 'plane':
        o['direction'] = {'az': value(number(g, -400, 400), h), 'el': value(number(g, -90, 90), h), 'refdist': value(number(g, .5, 5), h)}
    elif t == 'polar':
        o['position'] = {'az': value(number(g, -400, 400), h), 'el': value(number(g, -90, 90), h), 'radius': value(number(g, .5, 5), h)}
    else:
        o['position'] = {k: value(number(g, -4, 4), h) for k in 'xyz'}
    if t == 'pointdiffuse':
        o['diffuseness'] = value(number(g, 0, 1), h)
    if t == 'pointreverb':
        o['room'] = room(g)
    return o

def polar(p):
    x, y, z = (float(p[k]) for k in 'xyz')
    return math.degrees(math.atan2(y, x)), math.degrees(math.atan2(z, math.hypot(x, y))), math.sqrt(x * x + y * y + z * z)

def cart(az, el, radius):
    az, el = math.radians(az), math.radians(el)
    return {'x': radius * math.cos(az) * math.cos(el), 'y': radius * math.sin(az) * math.cos(el), 'z': radius * math.sin(el)}

def db(v):
    return 10 ** (v / 20)

def same(a, b, tol):
    """Equality of two JSON values; numbers may also be given as texts and lists as comma-separated texts."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(v, w, tol) for v, w in zip(a, b))
    if isinstance(a, (dict, list)) and not (isinstance(a, list) and isinstance(b, str)) or isinstance(b, dict):
        return False
    def nums(v):
        try:
            return [float(x) for x in (v.split(',') if isinstance(v, str) else v if isinstance(v, list) else [v])]
        except (TypeError, ValueError):
            return None
    x, y = nums(a), nums(b)
    if x is None or y is None:
        return a == b
    return len(x) == len(y) and all(abs(v - w) <= tol * (1 + abs(w)) for v, w in zip(x, y))

# The processors: what they are configured with, what they do to one object, and how they are controlled.

class Proc:
    kind = ''
    def __init__(self, g, name):
        self.name = name
        self.attr, self.body = {}, ''
        self.setup(g)
    def xml(self):
        return '<processor name=%s type=%s %s>%s</processor>' % (quoteattr(self.name), quoteattr(self.kind), ' '.join('%s=%s' % (k, quoteattr(str(v))) for k, v in self.attr.items()), self.body)
    def apply(self, objs):
        for o in objs:
            self.one(o)
        return objs
    def control(self, g): # Key, values; the state is updated.
        return None
    def groups(self, g, attribute, draw):
        self.members, self.values = {}, {}
        ids = list(range(12))
        g.shuffle(ids)
        for i in range(int(g.integers(1, 4))):
            n = 'group%d' % i
            mine = [ids.pop() for _ in range(int(g.integers(0, 4)))]
            self.values[n] = draw()
            for k in mine:
                self.members[int(k)] = n
            self.body += '<group name="%s" objectIds="%s" %s="%r"/>' % (n, ' '.join(map(str, mine)), attribute, self.values[n])
    def switch(self, g):
        self.active = bool(g.random() < .8)
        self.attr['active'] = str(g.choice(['1', 'true', 'True', 'yes', 'on'] if self.active else ['0', 'false', 'no', 'off']))
    def setActive(self, g):
        self.active = not self.active
        return 'active', [int(self.active)]
    def ids(self, g):
        l = sorted(set(int(v) for v in g.integers(0, 12, int(g.integers(1, 8)))))
        return l
    def idText(self, l):
        return repr(l[0]) if len(l) == 1 else ','.join(map(repr, l))
    def idControl(self, g):
        k = g.random()
        if k < .3:
            self.objects = list(range(64))
            return 'objectlist', ['all']
        if k < .5:
            self.objects = []
            return 'objectlist', ['none']
        self.objects = self.ids(g)
        return 'objectlist', ['list', *self.objects]

class ChangeVolume(Proc):
    kind = 'ChangeVolume'
    def setup(self, g):
        self.volume = self.attr['volumeAdjust'] = number(g, -12, 6)
    def one(self, o):
        o['level'] = float(o['level']) * db(self.volume)
    def control(self, g):
        self.volume = float(np.float32(g.uniform(-12, 6)))
        return 'volume', [self.volume]
    bad = [('volume', []), ('volume', [1.0, 2.0]), ('level', [1.0])]

class GroupVolume(Proc):
    kind = 'GroupVolume'
    def setup(self, g):
        self.groups(g, 'initialVolume', lambda: number(g, -12, 6))
    def one(self, o):
        n = self.members.get(int(o['id']))
        if n:
            o['level'] = float(o['level']) * db(self.values[n])
    def control(self, g):
        n = sorted(self.values)[int(g.integers(len(self.values)))]
        self.values[n] = float(np.float32(g.uniform(-12, 6)))
        return n, [self.values[n]]
    bad = [('nogroup', [1.0]), ('group0', []), ('group0', [1.0, .5]), ('group0', ['a'])]

class GroupRadius(Proc):
    kind = 'GroupAdaptRadius'
    def setup(self, g):
        self.groups(g, 'initialAdjust', lambda: number(g, .2, 2))
    def one(self, o):
        n = self.members.get(int(o['id']))
        if n:
            if o['type'] == 'plane':
                o['direction']['refdist'] = float(o['direction']['refdist']) * self.values[n]
            elif o['type'].startswith('point'):
                for k in o['position']:
                    if k in ('x', 'y', 'z', 'radius'):
                        o['position'][k] = float(o['position'][k]) * self.values[n]
    def control(self, g):
        n = sorted(self.values)[int(g.integers(len(self.values)))]
        self.values[n] = float(np.float32(g.uniform(.2, 2)))
        return n, [self.values[n]]
    bad = [('nogroup', [1.0]), ('group0', []), ('group0', [1.0, .5]), ('group0', ['a'])]

class Spread(Proc):
    kind = 'Spread'
    def setup(self, g):
        self.groups(g, 'initialSpread', lambda: number(g, 0, 1.5))
    def one(self, o):
        n = self.members.get(int(o['id']))
        if not n or o['type'] not in ('point', 'plane'):
            return
        p = o['direction'] if o['type'] == 'plane' else o['position']
        az, el, radius = polar(p) if 'x' in p else (float(p['az']), float(p['el']), float(p['refdist' if o['type'] == 'plane' else 'radius']))
        wrap = lambda v: v % 360 - (360 if v % 360 > 180 else 0)
        az, el = (wrap(v) * self.values[n] for v in (az, el))
        if 'x' in p:
            o['position'] = cart(az, el, radius)
        elif o['type'] == 'plane':
            o['direction'] = {'az': az, 'el': el, 'refdist': radius}
        else:
            o['position'] = {'az': az, 'el': el, 'radius': radius}
    def control(self, g):
        n = sorted(self.values)[int(g.integers(len(self.values)))]
        self.values[n] = float(np.float32(g.uniform(0, 1.5)))
        return n, [self.values[n]]
    bad = [('nogroup', [1.0]), ('group0', []), ('group0', [1.0, .5]), ('group0', ['a'])]

class Height(Proc):
    def setup(self, g):
        self.switch(g)
    def one(self, o):
        if not self.active:
            return
        if o['type'] == 'plane' or o['type'].startswith('point') and 'el' in o['position']:
            p = o['direction' if o['type'] == 'plane' else 'position']
            if self.applies(float(p['el'])):
                p['el'] = 0.0
        elif o['type'].startswith('point'):
            az, el, radius = polar(o['position'])
            if self.applies(float(o['position']['z'])):
                o['position'] = cart(az, 0, radius)
    def control(self, g):
        return self.setActive(g)
    bad = [('active', []), ('active', [0, 1]), ('active', [1, 1])]

class Above(Height):
    kind = 'CompressAbove'
    def applies(self, v):
        return v > 0

class Below(Height):
    kind = 'CompressBelow'
    def applies(self, v):
        return v < 0

class Flat(Height):
    kind = 'CompressHeight'
    def applies(self, v):
        return True

class Nuendo(Proc):
    kind = 'NuendoHeightFix'
    def setup(self, g):
        self.switch(g)
    def one(self, o):
        plane = o['type'] == 'plane'
        if not self.active or not plane and not o['type'].startswith('point'):
            return
        p = o['direction' if plane else 'position']
        c = {k: float(p[k]) for k in 'xyz'} if 'x' in p else cart(float(p['az']), float(p['el']), float(p['refdist' if plane else 'radius']))
        z = c['z']
        c['z'] = 2 * (z - 1) if z >= 1 else (z + 2) * 2 / 3 - 2
        if 'x' in p:
            o['position'] = c
        else:
            az, el, radius = polar(c)
            o['direction' if plane else 'position'] = {'az': az, 'el': el, 'refdist' if plane else 'radius': radius}
    def control(self, g):
        return self.setActive(g)
    bad = [('active', []), ('active', [0, 1]), ('active', [1, 1])]

class Position(Proc):
    kind = 'AdaptPosition'
    def setup(self, g):
        self.switch(g)
        self.id = self.attr['objectID'] = int(g.integers(0, 12))
        self.x, self.y, self.z = (number(g, -4, 4) for _ in range(3))
        self.attr.update(x=self.x, y=self.y, height=self.z)
    def one(self, o):
        if self.active and int(o['id']) == self.id:
            c = {'x': self.x, 'y': self.y, 'z': self.z}
            if o['type'] == 'plane':
                az, el, radius = polar(c)
                o['direction'] = {'az': az, 'el': el, 'refdist': radius}
            else:
                o['position'] = c
    def control(self, g):
        k = int(g.integers(4))
        if k == 0:
            return self.setActive(g)
        if k == 1:
            self.id = int(g.integers(0, 12))
            return 'id', [self.id]
        if k == 2:
            self.z = float(np.float32(g.uniform(-4, 4)))
            return 'height', [self.z]
        self.y, self.x = (float(np.float32(g.uniform(-4, 4))) for _ in range(2))
        return 'xy', [self.y, self.x]
    bad = [('xy', [1.0]), ('active', [0, 1]), ('active', [1, 1]), ('xy', [1.0, 2.0, 3.0]), ('id', []), ('id', [1, 2]), ('height', [1.0, 2.0])]

class Diffuseness(Proc):
    kind = 'AdaptDiffuseness'
    def setup(self, g):
        self.id, self.active, self.diffuse = 0, False, 0
        if g.random() < .8:
            self.id = self.attr['id'] = int(g.integers(0, 12))
        if g.random() < .8:
            self.switch(g)
        if g.random() < .8:
            self.diffuse = self.attr['diffuse'] = number(g, 0, 1)
    def one(self, o):
        if self.active and int(o['id']) == self.id and o['type'] == 'pointdiffuse':
            o['diffuseness'] = self.diffuse
    def control(self, g):
        k = int(g.integers(3))
        if k == 0:
            return self.setActive(g)
        if k == 1:
            self.id = int(g.integers(0, 12))
            return 'id', [self.id]
        self.diffuse = float(np.float32(g.uniform()))
        return 'diffuse', [self.diffuse]
    bad = [('diffuse', []), ('diffuse', [.5, .6]), ('active', [0, 1]), ('active', [1, 1]), ('id', [1, 2])]

class Attenuate(Proc):
    kind = 'AttenuateAction'
    def setup(self, g):
        self.switch(g)
        self.attr['objectID'] = '1 2'
    def one(self, o):
        if self.active and int(o['group']) == 3:
            o['level'] = float(o['level']) * .5
    def control(self, g):
        return self.setActive(g)
    bad = [('active', []), ('active', [0, 1]), ('active', [1, 1])]

class Eq(Proc):
    kind = 'GlobalEQ'
    def setup(self, g):
        self.on, self.f, self.gain = 1, [200.0, 2000.0], [0.0, 0.0]
        if g.random() < .5:
            self.on = self.attr['on'] = int(g.integers(2))
        for i, k in enumerate(('lowfreq', 'highfreq')):
            if g.random() < .5:
                self.f[i] = self.attr[k] = number(g, 50, 9000)
    def one(self, o):
        if self.on:
            o['eq'] = [{'type': t, 'f': f, 'q': 1.0, 'gain': v} for t, f, v in zip(('lowshelf', 'highshelf'), self.f, self.gain)]
    def control(self, g):
        k = int(g.integers(5))
        if k == 4:
            self.on = 1 - self.on
            return 'on', [self.on]
        v = float(np.float32(g.uniform(1, 20)))
        (self.f if k < 2 else self.gain)[k % 2] = v
        return ('lowfreq', 'highfreq', 'lowgain', 'highgain')[k], [v]
    bad = [('on', [2]), ('midgain', [1.0])]

class Soundbar(Proc):
    kind = 'RouteToSoundbar'
    def setup(self, g):
        self.on, self.channel, self.objects = 0, None, []
        if g.random() < .8:
            self.on = self.attr['on'] = int(g.random() < .8)
        if g.random() < .8:
            self.channel = self.attr['soundbarchannel'] = int(g.integers(1, 20))
        if g.random() < .8:
            self.objects = self.ids(g)
            self.attr['initialobjects'] = ' '.join(map(str, self.objects))
    def one(self, o):
        if self.on and self.channel is not None and int(o['id']) in self.objects:
            o['type'], o['outputChannels'] = 'channel', self.channel
    def control(self, g):
        self.on = 1 - self.on
        return 'on', [self.on]
    bad = [('on', [3]), ('off', [1])]

class Distance(Proc):
    kind = 'EditDistance'
    def setup(self, g):
        self.r = self.attr['r'] = number(g, .2, 3) if g.random() < .9 else 0.0
        self.objects = self.ids(g)
        self.attr['objectIds'] = self.idText(self.objects)
    def one(self, o):
        if int(o['id']) not in self.objects or self.r == 0:
            return
        o['level'] = float(o['level']) / self.r
        if o['type'] == 'pointreverb':
            for e in o['room']['ereflect']:
                e['level'] = float(e['level']) * math.sqrt(self.r)
            l = o['room']['lreverb']
            l['level'] = ','.join(repr(float(v) * self.r) for v in l['level'].split(','))
    def control(self, g):
        if g.random() < .5:
            return self.idControl(g)
        self.r = float(np.float32(g.uniform(.2, 3)))
        return 'r', [self.r]
    bad = [('radius', [1.0]), ('objectlist', ['some', 1, 2])]

class Reverb(Proc):
    kind = 'EditReverb'
    keys = (('earlyLevelAdjust', 'editearlylevel', -6, 6), ('lateLevelAdjust', 'editlatelevel', -6, 6), ('lateDecayAdjust', 'editlatedecay', .3, 3),
            ('preDelayAdjust', 'editpredelay', -.005, .1), ('preDelayAdjustLate', 'editpredelaylate', 0, .1), ('lateDelayAdjust', 'editlatedelay', -.1, .1))
    def setup(self, g):
        self.v = {}
        for k, _, lo, hi in self.keys:
            self.v[k] = self.attr[k] = number(g, lo, hi)
        self.bands = [number(g, -6, 6) for _ in range(BANDS)]
        self.attr['lateSubbandLevelAdjust'] = ','.join(map(repr, self.bands))
        self.objects = self.ids(g)
        self.attr['objectIds'] = self.idText(self.objects)
    def one(self, o):
        if int(o['id']) not in self.objects or o['type'] != 'pointreverb':
            return
        v = self.v
        for e in o['room']['ereflect']:
            e['level'] = float(e['level']) * db(v['earlyLevelAdjust'])
            if v['preDelayAdjust'] >= 0:
                e['delay'] = float(e['delay']) + v['preDelayAdjust']
        l = o['room']['lreverb']
        l['delay'] = float(l['delay']) + v['preDelayAdjustLate']
        text = lambda w: ','.join(map(repr, w))
        level, decay, attack = ([float(x) for x in l[k].split(',')] for k in ('level', 'decayconst', 'attacktime'))
        l['level'] = text([x * db(v['lateLevelAdjust']) * db(b) for x, b in zip(level, self.bands)])
        l['decayconst'] = text([x / v['lateDecayAdjust'] for x in decay])
        l['attacktime'] = text([max(l['delay'] + .001, x + v['lateDelayAdjust']) for x in attack])
    def control(self, g):
        k = int(g.integers(8))
        if k == 7:
            return self.idControl(g)
        if k == 6:
            self.bands = [float(np.float32(g.uniform(-6, 6))) for _ in range(BANDS)]
            return 'editlatesubbandlevels', list(self.bands)
        a, key, lo, hi = self.keys[k]
        self.v[a] = float(np.float32(g.uniform(lo, hi)))
        return key, [self.v[a]]
    bad = [('editlate', [1.0])]

class Add(Proc):
    kind = 'AddObjects'
    def setup(self, g):
        self.objects = [obj(g, i, KINDS, False) for i in self.ids(g)]
        self.body = ''.join('<object data=%s/>' % quoteattr(json.dumps(o).replace('"', "'")) for o in self.objects)
    def apply(self, objs):
        mine = {int(o['id']) for o in self.objects}
        return sorted(copy.deepcopy(self.objects) + [o for o in objs if int(o['id']) not in mine], key=lambda o: int(o['id']))

class Room(Proc):
    kind = 'AddReverb'
    def setup(self, g):
        self.library = [{'name': n, 'position': {'az': value(number(g, -180, 180), g), 'el': 0, 'refdist': 1}, 'room': room(g)} for n in ('hall', 'church', 'bathroom')]
        self.file = os.path.join(SCRATCH, self.name + '.json')
        json.dump({'roomlibrary': self.library}, open(self.file, 'w'))
        self.room = self.attr['initRoomName'] = str(g.choice(['hall', 'church', 'bathroom', 'none', 'elsewhere']))
        self.attr['libFile'] = self.file
        k = g.random()
        self.attr['initObjs'] = 'all' if k < .3 else 'none' if k < .5 else 'list'
        self.objects = list(range(64)) if k < .3 else [] if k < .5 else self.ids(g)
        if k >= .5:
            self.attr['initObjectList'] = self.idText(self.objects)
    def one(self, o):
        if o['type'] != 'point' or int(o['id']) not in self.objects:
            return
        for e in self.library:
            if e['name'] == self.room:
                p = o['position']
                az = polar(p)[0] if 'x' in p else float(p['az'])
                o['type'], o['room'] = 'pointreverb', copy.deepcopy(e['room'])
                for q in o['room']['ereflect']:
                    q['position']['az'] += az - float(e['position']['az'])
    def control(self, g):
        if g.random() < .5:
            return self.idControl(g)
        self.room = str(g.choice(['hall', 'church', 'bathroom', 'none', 'elsewhere']))
        return 'roomname', [self.room]
    bad = [('room', ['hall']), ('objectlist', ['some', 1, 2])]

class Az(Proc):
    """All objects except those of group 4: azimuths are mapped to a frontal range."""
    kind = 'AzRemap'
    def setup(self, g):
        self.switch(g)
        self.attr['objectID'] = '1 2'
        self.limit = self.attr['maxAz'] = number(g, 5, 180)
    def map(self, az):
        if self.limit < 90:
            az = (az + 180) % 360 - 180
            az = 180 - az if az > 90 else -180 - az if az < -90 else az # Back to front.
            return az * self.limit / 90
        return az * self.limit / 180
    def one(self, o):
        if not self.active or int(o['group']) == 4:
            return
        if o['type'] == 'plane':
            o['direction']['az'] = self.map(float(o['direction']['az']))
        else:
            az, el, radius = polar(o['position'])
            o['position'] = cart(self.map(az), el, radius)
    def control(self, g):
        if g.random() < .5:
            return self.setActive(g)
        self.limit = float(np.float32(g.uniform(5, 180)))
        return 'maxAz', [self.limit]
    bad = [('maxAz', []), ('maxAz', [20.0, 30.0]), ('active', []), ('active', [0, 1]), ('active', [1, 1])]

class Unknown(Proc):
    """A processor which cannot be created is skipped."""
    kind = 'NoSuchProcessor'
    def setup(self, g):
        if g.random() < .5:
            self.kind = 'ChangeVolume' # Without its mandatory argument.
    def apply(self, objs):
        return objs

# The structures.

class Sequence:
    def __init__(self, g, depth, build):
        self.children = [build(depth - 1) for _ in range(int(g.integers(0, 4)))]
    def inner(self):
        return ''.join(c.xml() for c in self.children)
    def xml(self):
        return '<sequence>' + self.inner() + '</sequence>'
    def apply(self, objs):
        for c in self.children:
            objs = c.apply(objs)
        return objs
    def all(self):
        return [self] + [d for c in self.children for d in (c.all() if hasattr(c, 'all') else [c])]

class Condition:
    def __init__(self, g, branches, single=False):
        self.groups, self.default, self.text = {b: [] for b in branches}, None, ''
        order = list(branches)
        g.shuffle(order)
        if len(order) > 1 and g.random() < .4:
            self.default = order.pop()
        for b in order:
            ids = sorted(int(v) for v in g.choice(6, int(g.integers(1, 5)), replace=False))
            if self.default is None and g.random() < .2:
                ids = list(range(6))
                self.text += '<group branch="%s" groupIds="*"/>' % b
            else:
                self.text += '<group branch="%s" groupIds="%s"/>' % (b, (', ' if g.random() < .3 else ',').join(map(str, ids)))
            self.groups[b] = ids
        if self.default:
            self.text += '<default branch="%s"/>' % self.default
    def split(self, objs):
        res = {b: [] for b in self.groups}
        for o in objs:
            k = int(o['group'])
            hit = [b for b in self.groups if k in self.groups[b]]
            if not hit and self.default:
                hit = [self.default]
            for b in hit:
                res[b].append(copy.deepcopy(o))
        return res

def merged(lists):
    seen = {}
    for l in lists:
        for o in l:
            seen.setdefault(int(o['id']), o)
    return [seen[k] for k in sorted(seen)]

class Conditional(Sequence):
    def __init__(self, g, depth, build, name):
        self.names = ['branch%d' % i for i in range(int(g.integers(1, 4)))]
        self.name = name
        self.branches = {b: Sequence(g, depth, build) for b in self.names}
        self.condition = Condition(g, self.names)
        self.order = list(self.names)
        g.shuffle(self.order)
        if len(self.names) == 1 and g.random() < .5:
            self.order = None
    def xml(self):
        s = '<conditional><condition name="%s.condition" type="SelectGroup">%s</condition>' % (self.name, self.condition.text)
        for b in self.names:
            s += '<branch id="%s">%s</branch>' % (b, self.branches[b].inner())
        if self.order:
            s += '<merge name="%s.merge" type="BranchOrderMerge" order="%s"/>' % (self.name, ','.join(self.order))
        return s + '</conditional>'
    def apply(self, objs):
        parts = self.condition.split(objs)
        parts = {b: self.branches[b].apply(parts[b]) for b in self.names}
        return merged([parts[b] for b in self.order]) if self.order else parts[self.names[0]]
    def all(self):
        return [self] + [d for b in self.branches.values() for d in b.all()]

class Source(Sequence):
    def __init__(self, g, depth, build, name):
        self.name, self.inside = name, Sequence(g, depth, build)
        self.scene = sorted([obj(g, int(i), KINDS, False) for i in g.choice(12, int(g.integers(0, 5)), replace=False)], key=lambda o: o['id'])
        self.order = ['through', 'source']
        g.shuffle(self.order)
    def xml(self):
        return ('<sourcemerge sourcebranch="source" throughbranch="through"><source name="%s.source" type="StaticSceneSource">' % self.name
                + ''.join('<object data=%s/>' % quoteattr(json.dumps(o).replace('"', "'")) for o in self.scene) + '</source>' + self.inside.inner()
                + '<merge name="%s.merge" type="BranchOrderMerge" order="%s"/></sourcemerge>' % (self.name, ','.join(self.order)))
    def apply(self, objs):
        parts = {'through': objs, 'source': self.inside.apply(copy.deepcopy(self.scene))}
        return merged([parts[b] for b in self.order])
    def all(self):
        return [self] + self.inside.all()

class Sink(Sequence):
    def __init__(self, g, depth, build, name, printed):
        self.name, self.inside, self.printed = name, Sequence(g, depth, build), printed
        self.condition = Condition(g, ['sink', 'through'])
    def xml(self):
        return ('<splitsink sinkbranch="sink" throughbranch="through"><condition name="%s.condition" type="SelectGroup">%s</condition>' % (self.name, self.condition.text)
                + self.inside.inner() + '<sink name="%s.sink" type="PrintSceneProcessor"/></splitsink>' % self.name)
    def apply(self, objs):
        parts = self.condition.split(objs)
        self.printed.extend(sorted(self.inside.apply(parts['sink']), key=lambda o: int(o['id'])))
        return parts['through']
    def all(self):
        return [self] + self.inside.all()

SIMPLE = [ChangeVolume, GroupVolume, GroupRadius, Spread, Above, Below, Flat, Nuendo, Position]
MORE = [Diffuseness, Attenuate, Eq, Soundbar, Distance, Reverb, Add, Room, Unknown]
KINDS, SCRATCH = (), ''

def osc(address, values, g=None):
    pad = lambda b: b + b'\0' * (4 - len(b) % 4)
    tags, data = ',', b''
    for v in values:
        if isinstance(v, str):
            tags, data = tags + 's', data + pad(v.encode())
        elif isinstance(v, int):
            tags, data = tags + 'i', data + struct.pack('>i', v)
        else:
            tags, data = tags + 'f', data + struct.pack('>f', v)
    return pad(address.encode()) + pad(tags.encode()) + data

class Case:
    def __init__(self, r, g, kinds, procs, structures=True):
        global KINDS, SCRATCH
        KINDS, SCRATCH = kinds, r.scratch
        self.r, self.g, self.n, self.printed = r, g, 0, []
        self.procs, self.structures = procs, structures
        self.top = Sequence(g, 3, self.build)
        while not self.top.children and g.random() < .9:
            self.top = Sequence(g, 3, self.build)
        self.file = os.path.join(r.scratch, 'config%d.xml' % r.case)
        with open(self.file, 'w') as f:
            f.write('<metadapter>%s</metadapter>' % self.top.inner())
        self.nodes = self.top.all()
        self.controlled = [p for p in self.nodes if isinstance(p, Proc) and not isinstance(p, (Unknown, Add))]
    def build(self, depth):
        g = self.g
        self.n += 1
        name = 'p%d' % self.n
        if depth > 0 and self.structures and g.random() < .45:
            k = int(g.integers(4))
            return (Sequence(g, depth, self.build) if k == 0 else Conditional(g, depth, self.build, name) if k == 1
                    else Source(g, depth, self.build, name) if k == 2 else Sink(g, depth, self.build, name, self.printed))
        return self.procs[int(g.integers(len(self.procs)))](g, name)
    def messages(self):
        """Random control messages, valid and others, as the lists of OSC and JSON messages."""
        g, r = self.g, self.r
        oscs, jsons = [], []
        later = []
        for _ in range(int(g.integers(0, 4)) if self.controlled and g.random() < .6 else 0):
            p = self.controlled[int(g.integers(len(self.controlled)))]
            if g.random() < .3:
                bad = list(getattr(p, 'bad', [])) + [(None, None)]
                key, values = bad[int(g.integers(len(bad)))]
                address = p.name
                if key is None:
                    key, values, address = 'volume', [1.0], 'nobody'
                r.count('refused controls')
                c = (address, key, values)
            else:
                c = (p.name, p.kind, None)
            later.append((c, p))
        # OSC messages are applied before JSON messages.
        useJson = sorted(bool(g.random() < .5) for _ in later)
        for (c, p), j in zip(later, useJson):
            name, key, values = c
            if values is None:
                v = p.control(g)
                if v is None:
                    continue
                key, values = v
                r.count('controls')
            if j:
                m = {name: {key: values}}
                k = g.random()
                jsons.append(json.dumps(m if k < .5 else [m] if k < .7 else {name: [{key: values}]}))
            else:
                oscs.append(osc('/%s/%s' % (name, key), values))
        if g.random() < .05:
            jsons.append(str(g.choice(['', '{', '3', '{"p1":5}', '[[]]'])))
        if g.random() < .05:
            oscs.append([b'', b'/abc', osc('/p1', [1.0]), b'\xff\xfe\0\0'][int(g.integers(4))])
        return oscs, jsons

def compare(r, case, got, want, tol, what):
    if len(got) == len(want) and all(same(a, b, tol) for a, b in zip(got, want)):
        return
    i = next((i for i in range(min(len(got), len(want))) if not same(got[i], want[i], tol)), min(len(got), len(want)))
    r.viol(what, '%d/%d objects, first %s\n got %s\nwant %s\n%s' % (len(got), len(want), i, got[i] if i < len(got) else None, want[i] if i < len(want) else None, open(case.file).read()))

def engine(r):
    g = gen(r)
    remap = g.random() < .15
    kinds = ('point', 'plane', 'pointdiffuse', 'pointreverb') if remap else ('point', 'point', 'plane', 'pointdiffuse', 'pointreverb', 'polar')
    case = Case(r, g, kinds, [Az, ChangeVolume, GroupVolume, Attenuate] if remap else SIMPLE + MORE)
    always = bool(g.random() < .7)
    timeout = .2 if g.random() < .02 else None
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        k = g.random()
        e = Engine(case.file) if k < .3 and always and timeout is None else Engine(case.file, alwaysProcess=always, verbose=bool(g.random() < .1), objectTimeoutSeconds=timeout)
    current, sent = {}, {}
    for step in range(int(g.integers(1, 7))):
        texts = []
        for _ in range(int(g.integers(0, 3))):
            objs = [obj(g, int(i), kinds) for i in g.choice(12, int(g.integers(0, 6)), replace=False)]
            # One sender writes the ids of an object in one way.
            for o in objs:
                o['id'] = int(o['id']) if (int(o['id']) + r.case) % 3 else str(o['id'])
            texts.append(json.dumps({'objects': objs}))
            current.update({int(o['id']): o for o in objs})
            for o in objs:
                sent[int(o['id'])] = None
        oscs, jsons = case.messages()
        if timeout is not None and g.random() < .5:
            time.sleep(timeout + .05)
        args = (texts, oscs) if not jsons and g.random() < .3 else (texts, oscs, jsons)
        out = io.StringIO()
        before = time.monotonic()
        with contextlib.redirect_stdout(out):
            got = e.process(*args)
        after = time.monotonic()
        if timeout is not None:
            for k in list(sent):
                if sent[k] is None:
                    sent[k] = (before, after)
            gone = [k for k in sent if before - sent[k][1] > timeout]
            sure = [k for k in sent if after - sent[k][0] < timeout]
            for k in gone:
                current.pop(k, None)
                sent.pop(k)
            if len(sure) != len(sent):
                r.count('undecided timeouts')
                break
            if gone:
                r.count('expired objects', len(gone))
        if not always and not texts and not oscs and not jsons:
            r.check(got is None, 'processed_without_changes', got)
            continue
        del case.printed[:]
        # New objects are appended, others keep their place.
        want = case.top.apply(copy.deepcopy(list(current.values())))
        if not r.check(isinstance(got, list), 'no_objects', got):
            return
        # The order of the objects is only defined by elements that arrange them.
        ordered = timeout is None and any(isinstance(n, (Source, Add)) or isinstance(n, Conditional) and n.order for n in case.top.children)
        key = lambda o: int(o['id'])
        compare(r, case, got if ordered else sorted(got, key=key), want if ordered else sorted(want, key=key), 1e-9, 'objects')
        lines = []
        for l in out.getvalue().split('\n'):
            if l.startswith('{') and "'id'" in l:
                lines.append(ast.literal_eval(l))
        if any(isinstance(n, Sink) for n in case.nodes):
            compare(r, case, lines, case.printed, 1e-9, 'printed_objects')
            r.count('objects in sinks', len(lines))
        r.count('objects', len(got))
        # Whatever the receiver does with the result must not have any effect.
        for o in got:
            o['level'] = 'x'
            for v in (o.get('position'), o.get('direction')):
                if v:
                    v.clear()
    for n in case.nodes:
        if isinstance(n, (Conditional, Source, Sink)):
            r.count({Conditional: 'conditionals', Source: 'source merges', Sink: 'split sinks'}[type(n)])
        elif isinstance(n, Proc):
            r.count('processors')
            r.count('processor ' + n.kind)
            if isinstance(n, Room):
                os.unlink(n.file)
    os.unlink(case.file)
    r.count('engines')
    r.sample(case.top.xml())
    r.state(case.top.xml(), step)

def component(r):
    g = gen(r)
    case = Case(r, g, ('point', 'plane'), SIMPLE + [Attenuate, Distance], True)
    vin, vout, oscIn, jsonIn, always = (bool(g.random() < .5) for _ in range(5))
    ctx = visr.SignalFlowContext(16, 48000)
    args = dict(objectVectorInput=vin, objectVectorOutput=vout, oscControlPort=oscIn, jsonControlPort=jsonIn, alwaysProcess=always)
    if g.random() < .5:
        args = {k: v for k, v in args.items() if v != (k in ('objectVectorInput', 'objectVectorOutput', 'alwaysProcess'))}
    with contextlib.redirect_stdout(io.StringIO()):
        c = Component(ctx, 'metadapter', None, case.file, **args)
    flow = rrl.AudioSignalFlow(c)
    inp, outp = flow.parameterReceivePort('objectIn'), flow.parameterSendPort('objectOut')
    oport = flow.parameterReceivePort('oscControlIn') if oscIn else None
    jport = flow.parameterReceivePort('jsonControlIn') if jsonIn else None
    current = {}
    for step in range(int(g.integers(1, 6))):
        new = False
        for _ in range(int(g.integers(0, 2 if vin else 3))):
            objs = [obj(g, int(i), ('point', 'plane'), False) for i in g.choice(12, int(g.integers(1, 5)), replace=False)]
            text = json.dumps({'objects': objs})
            if vin:
                ov = inp.data()
                ov.clear()
                ov.updateFromJson(text)
                inp.swapBuffers()
            else:
                inp.enqueue(pml.StringParameter(text))
            current.update({int(o['id']): o for o in objs})
            new = True
        oscs, jsons = case.messages() if oscIn and jsonIn else ([], [])
        for m in oscs:
            if m:
                oport.enqueue(pml.StringParameter(m))
        for m in jsons:
            if m:
                jport.enqueue(pml.StringParameter(m))
        silent = io.StringIO()
        with contextlib.redirect_stdout(silent):
            flow.process()
        expected = always or new or any(oscs) or any(jsons)
        if vout:
            arrived = outp.changed()
            got = json.loads(outp.data().writeJson())['objects'] if arrived else None
            outp.resetChanged()
        else:
            arrived = not outp.empty()
            got = None
            if arrived:
                got = json.loads(outp.front().str)['objects']
                outp.pop()
            r.check(outp.empty(), 'several_scenes')
        if not r.check(arrived == expected, 'scene_sent', arrived, expected):
            return
        if not expected:
            continue
        del case.printed[:]
        want = case.top.apply(copy.deepcopy(list(current.values())))
        key = lambda o: int(o['id'])
        got, want = sorted(got, key=key), sorted(want, key=key)
        if vin or vout: # Angles are stored as float.
            for o in got + want:
                for p in (o.get('direction'),):
                    if p:
                        az, el, d = float(p['az']), float(p['el']), float(p['refdist'])
                        p.clear()
                        p.update({**cart(az, el, 1), 'd': d})
        compare(r, case, got, want, 2e-4 if vin or vout else 1e-9, 'component_objects')
        r.count('objects of components', len(got))
    os.unlink(case.file)
    r.count('components')
    r.state('component', case.top.xml(), vin, vout, always, step)

def refusals(r):
    g = gen(r)
    case = Case(r, g, ('point',), SIMPLE)
    text = open(case.file).read()
    cond = '<condition name="c" type="SelectGroup"><group branch="a" groupIds="1"/><default branch="b"/></condition>'
    branch = lambda *n: ''.join('<branch id="%s"/>' % x for x in n)
    merge = lambda n: '<merge name="m" type="BranchOrderMerge" order="%s"/>' % n
    src = '<source name="s" type="StaticSceneSource"/>'
    bad = {
        'unknown element': '<process name="x" type="ChangeVolume" volumeAdjust="1"/>',
        'repeated name': '<processor name="x" type="ChangeVolume" volumeAdjust="1"/><processor name="x" type="ChangeVolume" volumeAdjust="1"/>',
        'no type': '<processor name="x"/>',
        'no condition': '<conditional>' + branch('a', 'b') + merge('a,b') + '</conditional>',
        'two conditions': '<conditional>' + cond + cond.replace('"c"', '"d"') + branch('a', 'b') + merge('a,b') + '</conditional>',
        'no branches': '<conditional>' + cond + merge('a,b') + '</conditional>',
        'missing branch': '<conditional>' + cond + branch('a') + merge('a') + '</conditional>',
        'other branch': '<conditional>' + cond + branch('a', 'x') + merge('a,x') + '</conditional>',
        'no merge': '<conditional>' + cond + branch('a', 'b') + '</conditional>',
        'two merges': '<conditional>' + cond + branch('a', 'b') + merge('a,b') + merge('b,a').replace('"m"', '"n"') + '</conditional>',
        'merge of other branches': '<conditional>' + cond + branch('a', 'b') + merge('a,x') + '</conditional>',
        'unknown condition': '<conditional>' + cond.replace('SelectGroup', 'Select') + branch('a', 'b') + merge('a,b') + '</conditional>',
        'unknown merge': '<conditional>' + cond + branch('a', 'b') + merge('a,b').replace('BranchOrder', 'Branch') + '</conditional>',
        'merge without order': '<conditional>' + cond + branch('a', 'b') + '<merge name="m" type="BranchOrderMerge"/></conditional>',
        'no source': '<sourcemerge sourcebranch="a" throughbranch="b">' + merge('a,b') + '</sourcemerge>',
        'no source merge': '<sourcemerge sourcebranch="a" throughbranch="b">' + src + '</sourcemerge>',
        'merge before source': '<sourcemerge sourcebranch="a" throughbranch="b">' + merge('a,b') + src + '</sourcemerge>',
        'three merge branches': '<sourcemerge sourcebranch="a" throughbranch="b">' + src + merge('a,b,c') + '</sourcemerge>',
        'wrong source branch': '<sourcemerge sourcebranch="x" throughbranch="b">' + src + merge('a,b') + '</sourcemerge>',
        'wrong through branch': '<sourcemerge sourcebranch="a" throughbranch="x">' + src + merge('a,b') + '</sourcemerge>',
        'processor before source': '<sourcemerge sourcebranch="a" throughbranch="b"><processor name="x" type="ChangeVolume" volumeAdjust="1"/>' + src + merge('a,b') + '</sourcemerge>',
        'no sink': '<splitsink sinkbranch="a" throughbranch="b">' + cond + '</splitsink>',
        'no sink condition': '<splitsink sinkbranch="a" throughbranch="b"><sink name="s" type="PrintSceneProcessor"/></splitsink>',
        'wrong sink branch': '<splitsink sinkbranch="x" throughbranch="b">' + cond + '<sink name="s" type="PrintSceneProcessor"/></splitsink>',
        'wrong sink through branch': '<splitsink sinkbranch="a" throughbranch="x">' + cond + '<sink name="s" type="PrintSceneProcessor"/></splitsink>',
        'processor after sink': '<splitsink sinkbranch="a" throughbranch="b">' + cond + '<sink name="s" type="PrintSceneProcessor"/><processor name="x" type="ChangeVolume" volumeAdjust="1"/></splitsink>',
        'root': None, 'file': None, 'syntax': None}
    k = sorted(bad)[int(g.integers(len(bad)))]
    if k == 'root':
        text = text.replace('metadapter>', 'adapter>')
    elif k == 'syntax':
        text = text[:-5]
    elif k != 'file':
        inner = bad[k]
        if g.random() < .3:
            inner = '<sequence>' + inner + '</sequence>'
        text = text.replace('</metadapter>', inner + '</metadapter>') if g.random() < .5 else text.replace('<metadapter>', '<metadapter>' + inner)
    with open(case.file, 'w') as f:
        f.write(text)
    if k == 'file':
        os.unlink(case.file)
    refused = False
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            Engine(case.file)
        except Exception:
            refused = True
    r.check(refused, 'accepted', k, text)
    if k != 'file':
        os.unlink(case.file)
    r.count('refused configurations')
    r.state('refusal', k, r.rng.getrandbits(8))

def case(r):
    k = r.rng.random()
    (engine if k < .7 else component if k < .88 else refusals)(r)

pyvh.main(case)
