"""C21: an application may register its own types.

Model: a registry is a map; what an open component resolves to is a function of
its governing identifier and of the present contents of the one registry that
governs it (or of the caller's own map, which goes first).  Explored: every
history up to a depth of registering, replacing and withdrawing a type, for an
identifier nobody registered and for a standard one, on every registry; after
each operation every open component in the package is used.  And for every
registry: registering with just its module loaded, then importing the rest."""
import itertools
from .. import common, model, ref, gen, impl, opens, fork, regs
from ..common import desc
from .c08_opentypes import forms, OpenTypes, decode

KEYS = {True: (1, 3, 6, 1, 4, 1, 99999, 321), False: 201}
MINE = {'A': lambda: impl.univ.Integer(), 'B': lambda: impl.univ.Boolean()}
PAY = {'A': b'\x02\x02\x01\x00', 'B': b'\x01\x01\xff'}


def sites(S, rn=None):
    G = gen.Gen(S, 0)
    for mn, tn, path, n, c, wrap in opens.sites(S, G):
        if rn is None or c.open[1] == rn:
            yield G, mn, tn, path, n, c, wrap


def isoid(S, n, c):
    return S.resolve([k for k in n.comps if k.name == c.open[0]][0].type).kind == 'OBJECT IDENTIFIER'


class Site(object):
    def __init__(self, S, G, mn, tn, path, n, c, wrap):
        self.S, self.mn, self.tn, self.path, self.n, self.c = S, mn, tn, path, n, c
        self.wrap = wrap
        self.m = G.minimal(n)
        self.r = S.resolve(S.modules[mn].types[tn])
        self.oid = isoid(S, n, c)
        self.cache = {}

    def ok(self, key):
        gr = self.S.resolve([k for k in self.n.comps if k.name == self.c.open[0]][0].type)
        return isinstance(key, tuple) == self.oid and ref.satisfies(gr, key)

    def name(self):
        return '%s.%s' % (self.mn, self.tn)

    def where(self):
        return ''.join('.' + p for p in self.path) + '.' + self.c.name

    def octets(self, key, pay):
        if (key, pay) not in self.cache:
            v = dict(self.m)
            v[self.c.open[0]] = key
            v[self.c.name] = forms(self.S, self.c, [pay])[0]
            v = {k.name: v[k.name] for k in self.n.comps if k.name in v}
            self.cache[key, pay] = ref.encode(self.S, self.r, self.wrap(v))
        return self.cache[key, pay]

    def look(self, key, pay, **kw):
        """What the open component holds after decoding."""
        b = self.octets(key, pay)
        try:
            o, rest = decode(self.mn, self.tn, b, **kw)
        except common.Timeout:
            raise
        except Exception as e:
            return 'refused', desc(e)
        h = OpenTypes().goto(self.S, self.r, o, self.path)
        x = h.getComponentByPosition(impl.check_names(self.n, h).index(self.c.name))
        xs = list(x) if isinstance(x, (impl.univ.SetOf, impl.univ.SequenceOf)) else [x]
        out = []
        for y in xs:
            k = regs.kindof(y)
            out.append(('opaque', y.asOctets()) if k in ('Any', 'OctetString') else (k, int(y)))
        if len(set(out)) != 1:
            return 'mixed', out
        again = impl.der_encoder.encode(o)
        if again != b:
            return 'other octets', again.hex()
        return out[0]

    def put(self, key, value):
        """Octets after an application assigned a typed value."""
        v = dict(self.m)
        v[self.c.open[0]] = key
        v[self.c.name] = forms(self.S, self.c, [PAY['A']])[0]
        v = {k.name: v[k.name] for k in self.n.comps if k.name in v}
        o = impl.build(self.S, self.r, impl.schema(self.mn, self.tn), self.wrap(v))
        h = OpenTypes().goto(self.S, self.r, o, self.path)
        i = impl.check_names(self.n, h).index(self.c.name)
        if isinstance(v[self.c.name], list):
            sub = h.getComponentByPosition(i)
            for j in range(len(v[self.c.name])):
                sub[j] = value
        else:
            h.setComponentByPosition(i, value)
        return impl.der_encoder.encode(o)


def predict(entry, pay):
    """What a component governed by `entry` must show for payload `pay`."""
    if entry is None:
        return ('opaque', PAY[pay])
    if entry == 'A' and pay == 'A':
        return ('Integer', 256)
    if entry == 'B' and pay == 'B':
        return ('Boolean', 1)
    return ('refused',)


def agrees(want, got):
    return got[0] == 'refused' if want == ('refused',) else got == want


def pk(k):
    return impl.univ.ObjectIdentifier(k) if isinstance(k, tuple) else impl.univ.Integer(k)


def live(rn):
    return getattr(impl.module(rn[0]), rn[1])


def histories(depth, plain):
    """A, B, D: register A, register B, withdraw; in lower case, by another operation
    of a dictionary; R: put back what the standard registers."""
    for n in range(0, depth + 1):
        for h in itertools.product('ABD', repeat=n):
            yield h
    for n in range(1, (2 if depth < 5 else 3) + 1):
        for h in itertools.product('ABDabd' + ('' if plain else 'R'), repeat=n):
            if not set(h) <= set('ABD'):
                yield h


def apply(reg, k, op, original):
    """One operation on a registry; what it registers afterwards."""
    if op == 'R':
        reg[k] = original
        return 'std'
    if op == 'D':
        reg.pop(k, None)
        return None
    if op == 'd':
        if k in reg:
            del reg[k]
        return None
    t = MINE[op.upper()]()
    if op.isupper():
        reg[k] = t
    else:
        reg.update({k: t})
    return op.upper()


def explore(rn, depth, res):
    """Everything loaded: histories on registry rn."""
    S = model.load()
    opens.load_all()
    reg = live(rn)
    mine = [Site(S, *a) for a in sites(S, rn)]
    others = [Site(S, *a) for a in sites(S) if a[5].open[1] != rn]
    std = sorted(S.registry_keys[rn], key=repr)
    keys = [KEYS[any(s.oid for s in mine)]] + std[:1]
    for key in keys:
        original = reg.get(pk(key))
        fresh = key not in std
        standard = {}
        if not fresh:
            for s in mine:
                for pay in 'AB':
                    if s.ok(key):
                        standard[s, pay] = shown(s, key, pay)
        for h in histories(depth if fresh else 1, fresh):
            if original is None:
                reg.pop(pk(key), None)
            else:
                reg[pk(key)] = original
            state = None if fresh else 'std'
            for op in h:
                state = apply(reg, pk(key), op, original)
                res.transitions += 1
                if op != h[-1] or set(h) & set('abdR'):
                    for s in mine[:2]:        # looked at in between, so that anything remembered is stale
                        if s.ok(key):
                            shown(s, key, 'A')
            res.states += 1
            if state == 'std':
                for s in mine:
                    if s.ok(key):
                        for pay in 'AB':
                            res.transitions += 1
                            got = shown(s, key, pay)
                            if got != standard[s, pay]:
                                res.fail({'type': s.name(), 'value': '%s key %s after %s on %s.%s' % (s.where(), key, ''.join(h), rn[0], rn[1]),
                                          'registry': '%s.%s' % rn}, 'put back', 'shows %r, and %r at first' % (got, standard[s, pay]))
                continue
            for s in mine:
                if not s.ok(key):
                    continue
                case = {'type': s.name(), 'value': '%s key %s after %s on %s.%s' % (s.where(), key, ''.join(h) or 'nothing', rn[0], rn[1]),
                        'registry': '%s.%s' % rn}
                for pay in 'AB':
                    compare(s, key, pay, predict(state, pay), case, 'resolve', res, decodeOpenTypes=True)
                    if len(h) <= 1:
                        compare(s, key, pay, ('opaque', PAY[pay]), case, 'off', res)
                        for t in 'AB':
                            compare(s, key, pay, predict(t, pay), case, 'own map', res, openTypes={pk(key): MINE[t]()})
                        compare(s, key, pay, predict(state, pay), case, 'other map', res,
                                openTypes={pk(KEYS[s.oid][:-1] + (9,) if s.oid else 255): MINE['A']()})
                res.transitions += 1
                res.traces += 1
                if state in ('A', 'B'):
                    try:
                        b = s.put(key, impl.univ.Integer(256) if state == 'A' else impl.univ.Boolean(True))
                        if b != s.octets(key, PAY[state]):
                            res.fail(case, 'assign', 'typed value encodes as %s' % b.hex()[:200])
                    except Exception as e:
                        res.fail(case, 'assign', 'typed value cannot be used: %s' % desc(e))
            if len(h) == 1 and h[0] == 'A' and fresh:
                for s in others:
                    if s.ok(key):
                        case = {'type': s.name(), 'value': '%s key %s after A on %s.%s' % (s.where(), key, rn[0], rn[1]),
                                'registry': '%s.%s' % rn}
                        compare(s, key, 'B', ('opaque', PAY['B']), case, 'elsewhere', res, decodeOpenTypes=True)
    res.samples.append('%s.%s: %d components governed, %d others' % (rn[0], rn[1], len(mine), len(others)))


def shown(s, key, pay):
    try:
        return s.look(key, PAY[pay], decodeOpenTypes=True)
    except common.Timeout:
        raise
    except Exception as e:
        return 'error', type(e).__name__


def compare(s, key, pay, want, case, stage, res, **kw):
    res.transitions += 1
    res.traces += 1
    try:
        got = s.look(key, PAY[pay], **kw)
    except common.Timeout:
        raise
    except Exception as e:
        got = ('error', desc(e))
    if not agrees(want, got):
        res.fail(dict(case, value='%s, payload %s, %s' % (case['value'], pay, stage)), stage, '%s: shows %r, should be %r' % (case['value'], got, want))


def early(rn, res):
    """Only the registry's module loaded: register, then import everything."""
    S = model.load()
    reg = live(rn)
    have = set(regs.key(k) for k in reg)
    loaded = set(regs.loaded())
    mine = [Site(S, *a) for a in sites(S, rn)]
    key = KEYS[any(s.oid for s in mine)]
    keep = sorted((k for k in S.registry_keys[rn] if k in have and all(m in loaded for m, t in S.registry_keys[rn][k])), key=repr)[:3]
    reg[pk(key)] = MINE['A']()
    for k in keep:
        reg[pk(k)] = MINE['A']()
    opens.load_all()
    for s in mine:
        for k in [key] + keep:
            if s.ok(k):
                res.states += 1
                case = {'type': s.name(), 'value': '%s key %s registered before other modules were imported' % (s.where(), k),
                        'registry': '%s.%s' % rn}
                for pay in 'AB':
                    compare(s, k, pay, predict('A', pay), case, 'import', res, decodeOpenTypes=True)


def child(kind, rn, depth):
    res = common.Result()
    explore(rn, depth, res) if kind == 'all' else early(rn, res)
    return res


class Extension(common.Check):
    id = 'C21'
    title = 'Applications can register types of their own'
    assumptions = ['the registries in /verif/spec state the standards correctly']

    def depth(self, tier):
        return 3 if tier == 'quick' else 7

    def rule(self, tier):
        return ('every history of up to %d registrations, replacements and withdrawals on every registry x every open '
                'component x matching and other payloads' % self.depth(tier))

    def tasks(self, tier):
        S = model.load()
        rns = sorted(set(a[5].open[1] for a in sites(S)))
        return [(k, rn) for rn in rns for k in ('all', 'early')]

    def run_task(self, task, tier, res):
        r = fork.run(child, task[0], tuple(task[1]), self.depth(tier))
        if r[0] != 'ok':
            return res.fail({'type': '%s.%s' % tuple(task[1]), 'value': '', 'task': repr(task)}, 'explore', '%s %s' % r[1:])
        for v in r[1].violations:
            v['case']['task'] = repr(task)
        res.merge(r[1])


CHECK = Extension()
