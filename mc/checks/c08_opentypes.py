"""C08: resolving an open type yields the registered type's value, and the
bytes are the same either way.  C09 (same exploration, other half): unknown
keys and disabled resolution leave the payload opaque, and a payload that is
not of the registered type is refused."""
from .. import common, model, ref, gen, impl, tlv, opens
from ..common import desc

UNKNOWN = (1, 3, 6, 1, 4, 1, 99999, 77)


def decode(mn, tn, b, **kw):
    return impl.der_decoder.decode(b, asn1Spec=impl.schema(mn, tn), **kw)


def where(mn, tn, path, c, key, b, what):
    return {'type': '%s.%s' % (mn, tn), 'value': '%s%s key %s: %s' % (
        ''.join('.' + p for p in path), '.' + c, '.'.join(map(str, key)) if isinstance(key, tuple) else key, what),
        'bytes': b.hex()}


def forms(S, c, ps):
    """Value of open component c holding payload octets ps."""
    cr = S.resolve(c.type)
    if cr.kind in ('SET OF', 'SEQUENCE OF'):
        lo = [x[1] for x in gen.atoms(cr.cons) if x[0] == 'SIZE']
        hi = [x[2] for x in gen.atoms(cr.cons) if x[0] == 'SIZE']
        n = int(max(lo or [0]))
        out = [[p] * max(n, 1) for p in ps]
        if len(ps) > 1 and min(hi or [9]) >= 2:
            out += [[ps[0], ps[-1]], [ps[-1], ps[0], ps[0]]]
        if n == 0:
            out.append([])
        return out
    return list(ps)


class Base(common.Check):
    assumptions = ['the registries in /verif/spec state the standards correctly',
                   'octets that follow the payload value inside an open component are the codec library\'s business']

    def tasks(self, tier):
        S = model.load()
        G = gen.Gen(S, 0)
        out = []
        for mn, tn, path, n, c, wrap in opens.sites(S, G):
            keys = sorted(S.registry_keys[c.open[1]], key=repr)
            for i in range(0, len(keys) + 1, 10):
                out.append((mn, tn, path, c.name, i, i + 10))
        return out

    def run_task(self, task, tier, res):
        mn, tn, path, cname, lo, hi = task
        S = model.load()
        opens.load_all()
        G = gen.Gen(S, 1 if tier == 'quick' else 2)
        G0 = gen.Gen(S, 0)
        for m2, t2, p2, n, c, wrap in opens.sites(S, G0):
            if (m2, t2, p2, c.name) == (mn, tn, path, cname):
                break
        keys = sorted(S.registry_keys[c.open[1]], key=repr)[lo:hi]
        r = S.resolve(S.modules[mn].types[tn])
        self.explore(S, G, mn, tn, r, path, n, c, wrap, keys, lo, tier, res)

    def payloads(self, S, G, t, tier):
        # the list of values is capped per depth, never sampled: all variants
        vs = G.reduced(t) + G.variants(t)
        return [v for v in vs if not ref.lossy(S, t, v)]


class OpenTypes(Base):
    id = 'C08'
    title = 'Open types resolve to the registered type and back'

    def rule(self, tier):
        return 'every open component x every registered key x every %s value of the registered type' % (
            'depth-1' if tier == 'quick' else 'depth-2')

    def explore(self, S, G, mn, tn, r, path, n, c, wrap, keys, lo, tier, res):
        m = G.minimal(n)
        for key in keys:
            res.count('site-key pairs')
            for mod, t in S.registry_keys[c.open[1]][key]:
                tr = S.resolve(t)
                ps = [ref.encode(S, tr, v) for v in self.payloads(S, G, tr, tier)]
                for x in forms(S, c, ps):
                    v = dict(m)
                    v[c.open[0]] = key
                    v[c.name] = x
                    v = {k.name: v[k.name] for k in n.comps if k.name in v}
                    top = wrap(v)
                    if not ref.satisfies(n, v) or ref.lossy(S, r, top):
                        continue
                    self.one(S, mn, tn, r, path, c, key, ref.encode(S, r, top), res)
                    self.typed(S, mn, tn, r, n, path, c, key, tr, v, top, res)
        if keys and not res.samples:
            res.samples.append('%s.%s%s.%s by %s' % (mn, tn, ''.join('.' + p for p in path), c.name, keys[0]))

    def one(self, S, mn, tn, r, path, c, key, b, res):
        v = ref.decode(S, r, b)
        case = where(mn, tn, path, c.name, key, b, 'resolve')
        p = opens.predict(S, r, v)
        if p != 'ok':
            res.count('not predicted')
            return
        res.states += 1
        res.traces += 1
        res.transitions += 2
        try:
            o, rest = decode(mn, tn, b, decodeOpenTypes=True)
        except Exception as e:
            return res.fail(case, 'resolve', '%s refused with open types on: %s' % (b.hex()[:300], desc(e)))
        d = opens.check(S, r, v, o)
        if d or rest:
            return res.fail(case, 'resolve', '%s: %s' % (b.hex()[:300], d or 'octets left over'))
        if opens.lossy(S, r, v):
            res.count('typed form not representable')
            return
        try:
            b2 = impl.der_encoder.encode(o)
        except Exception as e:
            return res.fail(case, 'reencode', '%s, open types resolved, cannot be encoded: %s' % (b.hex()[:300], desc(e)))
        if b2 != b:
            res.fail(case, 'reencode', '%s, open types resolved, encodes as %s' % (b.hex()[:300], b2.hex()[:300]))

    def typed(self, S, mn, tn, r, n, path, c, key, tr, v, top, res):
        """An application that assigns typed values gets the same bytes."""
        b = ref.encode(S, r, top)
        live = self.live(S, c, key)
        if live is None or opens.lossy(S, r, ref.decode(S, r, b)):
            return
        case = where(mn, tn, path, c.name, key, b, 'assign')
        res.states += 1
        res.transitions += 1
        res.traces += 1
        try:
            o = impl.build(S, r, impl.schema(mn, tn), top)
            holder = self.goto(S, r, o, path)
            i = impl.check_names(n, holder).index(c.name)
            if isinstance(v[c.name], list):
                sub = holder.getComponentByPosition(i)
                for j, p in enumerate(v[c.name]):
                    sub[j] = impl.build(S, tr, live, ref.decode(S, tr, p))
            else:
                holder.setComponentByPosition(i, impl.build(S, tr, live, ref.decode(S, tr, v[c.name])))
            b2 = impl.der_encoder.encode(o)
        except impl.Mismatch:
            res.count('another registration is live')
            return
        except Exception as e:
            return res.fail(case, 'assign', 'typed value cannot be used: %s' % desc(e))
        if b2 != b:
            res.fail(case, 'assign', 'with a typed value encodes as %s, should be %s' % (b2.hex()[:300], b.hex()[:300]))

    def live(self, S, c, key):
        m = getattr(impl.module(c.open[1][0]), c.open[1][1])
        k = impl.univ.ObjectIdentifier(key) if isinstance(key, tuple) else impl.univ.Integer(key)
        t = m.get(k)
        if t is None:
            return None
        return t() if isinstance(t, type) else t

    def goto(self, S, r, o, path):
        for p in path:
            if r.kind in ('SEQUENCE OF', 'SET OF'):
                r = S.resolve(r.elem)
                o = o.getComponentByPosition(0)
            else:
                c = [x for x in r.comps if x.name == p][0]
                o = o.getComponentByPosition(impl.check_names(r, o).index(p))
                r = S.resolve(c.type)
        return o

    def replay(self, case, res):
        S = model.load()
        opens.load_all()
        mn, tn = case['type'].split('.')
        r = S.resolve(S.modules[mn].types[tn])
        class C: name = ''
        self.one(S, mn, tn, r, (), C, '', bytes.fromhex(case['bytes']), res)


CHECK = OpenTypes()
