"""C09: open types are left alone unless resolution is asked for and a type is
registered; a payload that is not of the registered type is refused; a caller's
own map decides for the keys it lists."""
from .. import common, model, ref, gen, impl, tlv, opens
from ..common import desc
from .c08_opentypes import Base, UNKNOWN, decode, where, forms


class Opaque(Base):
    id = 'C09'
    title = 'Open types stay opaque or are refused, never guessed'

    def rule(self, tier):
        return ('every open component x (unregistered key, every registered key) x payloads of the registered type, '
                'of other types, and malformed; resolution on, off and by caller\'s map')

    def explore(self, S, G, mn, tn, r, path, n, c, wrap, keys, lo, tier, res):
        m = G.minimal(n)
        gr = S.resolve([k for k in n.comps if k.name == c.open[0]][0].type)
        isoid = gr.kind == 'OBJECT IDENTIFIER'

        def top(key, x):
            v = dict(m)
            v[c.open[0]] = key
            v[c.name] = x
            v = {k.name: v[k.name] for k in n.comps if k.name in v}
            return wrap(v)

        if lo == 0:
            reg = S.registry_keys[c.open[1]]
            fresh = [UNKNOWN, (2, 5, 29), (1, 3, 6)] if isoid else [0, 255]
            near = []
            for k in sorted(reg, key=repr):
                near += [k + (1,), k[:-1] + (k[-1] + 1000,), k[:-1]] if isoid else [k + 100]
            for key in fresh + (near if tier != 'quick' else near[:12]):
                if key in reg or (isoid and len(key) < 2) or not ref.satisfies(gr, key):
                    continue
                for x in forms(S, c, list(gen.ANYS)):
                    self.one(S, mn, tn, r, path, c, key, ref.encode(S, r, top(key, x)), res)
                self.mine(S, mn, tn, r, n, path, c, key, top, res)
        if tier != 'quick' or self.first(S, mn, tn, path, c):
            reg = S.registry_keys[c.open[1]]
            near = []
            for k in keys:          # the neighbourhood of each: children, siblings, all its ancestors
                near += ([k + (0,), k + (1,), k[:-1] + (k[-1] + 1,), k[:-1] + (max(k[-1] - 1, 0),)] + [k[:i] for i in range(2, len(k))]) if isoid else [k + 1, k - 1, -k]
            for key in dict.fromkeys(near):
                if key in reg or not ref.satisfies(gr, key):
                    continue
                for x in forms(S, c, list(gen.ANYS)):
                    self.one(S, mn, tn, r, path, c, key, ref.encode(S, r, top(key, x)), res)
                self.mine(S, mn, tn, r, n, path, c, key, top, res)
        for key in keys:
            ts = [S.resolve(t) for mod, t in S.registry_keys[c.open[1]][key]]
            ps = []
            for t in ts:
                vs = [v for v in G.reduced(t) if not ref.lossy(S, t, v)]
                for v in vs[:2 if tier == 'quick' else None]:
                    e = ref.encode(S, t, v)
                    muts = list(tlv.mutations(tlv.parse(e)))
                    if tier == 'quick':
                        muts = [x for x in muts if x[0].endswith(' at ()') or x[0].endswith(' ()')] + muts[-4:]
                    ps += [b for d, b in muts]
            ps = list(dict.fromkeys(gen.ANYS + ps))
            for x in forms(S, c, ps):
                self.one(S, mn, tn, r, path, c, key, ref.encode(S, r, top(key, x)), res)
        if keys and not res.samples:
            res.samples.append('%s.%s%s.%s under %s' % (mn, tn, ''.join('.' + p for p in path), c.name, keys[0]))

    def first(self, S, mn, tn, path, c):
        for m2, t2, p2, n, c2, wrap in opens.sites(S, gen.Gen(S, 0)):
            if c2.open[1] == c.open[1]:
                return (m2, t2, p2, c2.name) == (mn, tn, path, c.name)

    def mine(self, S, mn, tn, r, n, path, c, key, top, res):
        """A caller's map resolves a key nobody registered."""
        b = ref.encode(S, r, top(key, forms(S, c, [b'\x02\x02\x01\x00'])[0]))
        case = where(mn, tn, path, c.name, key, b, 'own map')
        res.states += 1
        res.transitions += 1
        res.traces += 1
        k = impl.univ.ObjectIdentifier(key) if isinstance(key, tuple) else impl.univ.Integer(key)
        try:
            o, _ = decode(mn, tn, b, openTypes={k: impl.univ.Integer()})
            from .c08_opentypes import OpenTypes
            h = OpenTypes().goto(S, r, o, path)
            x = h.getComponentByPosition(impl.check_names(n, h).index(c.name))
            xs = list(x) if isinstance(x, (impl.univ.SetOf, impl.univ.SequenceOf)) else [x]
            got = [int(i) if isinstance(i, impl.univ.Integer) else impl.show(impl.der_encoder.encode(i)) for i in xs]
        except Exception as e:
            return res.fail(case, 'own map', '%s refused: %s' % (b.hex()[:200], desc(e)))
        if got != [256] * len(got) or not got:
            res.fail(case, 'own map', '%s: the caller\'s type was not used, got %r' % (b.hex()[:200], got))

    def one(self, S, mn, tn, r, path, c, key, b, res):
        try:
            v = ref.decode(S, r, b)
        except ref.Reject:
            return
        if not model.okvals(S, r, v):
            return
        case = where(mn, tn, path, c.name, key, b, 'payload')
        # resolution off
        res.states += 1
        res.transitions += 2
        res.traces += 2
        try:
            o, rest = decode(mn, tn, b)
            w = impl.walk(S, r, o)
        except Exception as e:
            return res.fail(case, 'off', '%s refused though open types are off: %s' % (b.hex()[:300], desc(e)))
        if w != v or rest:
            return res.fail(case, 'off', '%s read as %s' % (b.hex()[:300], impl.show(w)[:300]))
        # resolution on
        p = opens.predict(S, r, v)
        res.count('model: ' + p)
        if p == 'skip':
            return
        try:
            o, rest = decode(mn, tn, b, decodeOpenTypes=True)
            w = None
        except Exception as e:
            w = desc(e)
        if p == 'reject':
            if w is None:
                res.fail(case, 'mismatch', '%s: payload is not of the registered type, yet accepted as %s' % (
                    b.hex()[:300], ' '.join(o.prettyPrint().split())[:200]))
        elif w is not None:
            res.fail(case, 'on', '%s refused: %s' % (b.hex()[:300], w))
        else:
            d = opens.check(S, r, v, o)
            if d or rest:
                res.fail(case, 'on', '%s: %s' % (b.hex()[:300], d or 'octets left over'))

    def replay(self, case, res):
        S = model.load()
        opens.load_all()
        mn, tn = case['type'].split('.')
        r = S.resolve(S.modules[mn].types[tn])
        class C: name = ''
        self.one(S, mn, tn, r, (), C, '', bytes.fromhex(case['bytes']), res)


CHECK = Opaque()
