"""C14: what one revision of a standard writes, the others read.

For every two modules of a family, every type both publish and every value of it
(the model's enumeration) that both revisions encode alike: bytes produced
through one module, decoded and re-encoded through the other, are the same value
and the same bytes, in both directions."""
from .. import common, model, ref, gen, impl
from ..common import desc

FAMILIES = [
    ('rfc2459', 'rfc3280', 'rfc5280'), ('rfc2315', 'rfc3852', 'rfc5652'), ('rfc2560', 'rfc6960'), ('rfc2314', 'rfc2986'),
    ('rfc5208', 'rfc5958'), ('rfc2511', 'rfc4211'), ('rfc2437', 'rfc3447', 'rfc8017', 'rfc4055'), ('rfc4210', 'rfc2511', 'rfc4211'),
    ('rfc3281', 'rfc5755'), ('rfc2634', 'rfc5035'), ('rfc3770', 'rfc4334'), ('rfc3279', 'rfc5480', 'rfc2459'), ('rfc3739', 'rfc2985'),
    ('rfc1155', 'rfc1902'), ('rfc1157', 'rfc1905'), ('rfc2251', 'rfc4511'), ('rfc5753', 'rfc3278'), ('rfc2315', 'rfc5652'),
    ('rfc6402', 'rfc5272'), ('rfc5084', 'rfc5083'), ('rfc7292', 'rfc5652'), ('rfc3161', 'rfc5816'), ('rfc4985', 'rfc5280'),
]


class Revisions(common.Check):
    id = 'C14'
    title = 'Revisions agree'

    def depth(self, tier):
        return 3 if tier == 'quick' else 5

    def rule(self, tier):
        return 'every type published by two modules of a family, every value one deviation path deep, types entered to depth %d' % self.depth(tier)

    def tasks(self, tier):
        S = model.load()
        out = set()
        for f in FAMILIES:
            f = [m for m in f if m in S.modules]
            for a in f:
                for b in f:
                    if a != b:
                        for tn in S.modules[a].types:
                            if tn in S.modules[b].types:
                                if (a, tn) in self.published(S) and (b, tn) in self.published(S):
                                    out.add((a, b, tn))
        return model.chunks(sorted(out), 64)

    def published(self, S):
        if not hasattr(self, '_pub'):
            self._pub = set(model.types(S))
        return self._pub

    def run_task(self, task, tier, res):
        S = model.load()
        G = gen.Gen(S, self.depth(tier))
        for a, b, tn in task:
            ra, rb = S.resolve(S.modules[a].types[tn]), S.resolve(S.modules[b].types[tn])
            n = 0
            for v in G.variants(ra):
                if ref.lossy(S, ra, v):
                    continue
                e = ref.encode(S, ra, v)
                try:
                    w = ref.decode(S, rb, e)
                    if ref.lossy(S, rb, w) or ref.encode(S, rb, w) != e or not model.okall(S, rb, w):
                        continue
                except (ref.Reject, ref.DontCare, KeyError):
                    continue
                n += 1
                self.one(S, a, b, tn, ra, rb, v, w, e, res)
            res.count('values the revisions share', n)
            if n and len(res.samples) < 1:
                res.samples.append('%s.%s / %s.%s: %d values' % (a, tn, b, tn, n))

    def one(self, S, a, b, tn, ra, rb, v, w, e, res):
        res.states += 1
        res.traces += 1
        res.transitions += 3
        case = {'type': '%s.%s' % (b, tn), 'value': impl.show(v)[:300], 'from': a, 'bytes': e.hex()}
        try:
            x = impl.der_encoder.encode(impl.build(S, ra, impl.schema(a, tn), v))
        except Exception as ex:
            return res.fail(case, 'encode', '%s.%s cannot encode it: %s' % (a, tn, desc(ex)))
        try:
            o, rest = impl.der_decoder.decode(x, asn1Spec=impl.schema(b, tn))
            got = impl.walk(S, rb, o)
            y = impl.der_encoder.encode(o)
        except Exception as ex:
            return res.fail(case, 'decode', '%s of %s.%s is refused by %s.%s: %s' % (x.hex()[:200], a, tn, b, tn, desc(ex)))
        if rest or got != w:
            res.fail(case, 'value', '%s of %s.%s is read by %s.%s as %s' % (x.hex()[:200], a, tn, b, tn, impl.show(got)[:300]))
        if x != y:
            res.fail(case, 'bytes', '%s.%s writes %s, %s.%s writes %s' % (a, tn, x.hex()[:200], b, tn, y.hex()[:200]))

    def replay(self, case, res):
        S = model.load()
        b, tn = case['type'].split('.')
        a = case['from']
        ra, rb = S.resolve(S.modules[a].types[tn]), S.resolve(S.modules[b].types[tn])
        e = bytes.fromhex(case['bytes'])
        self.one(S, a, b, tn, ra, rb, ref.decode(S, ra, e), ref.decode(S, rb, e), e, res)


CHECK = Revisions()
