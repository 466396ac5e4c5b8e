"""C02: which components may be absent, what absence means, what must be there.

For every SEQUENCE and SET node of every published type, every component, from
the minimal and the full value: remove it, add it, set it to its default, and
write its default on the wire; encoder, decoder and reader are compared with
the model at each step."""
from .. import common, model, ref, gen, impl
from ..common import desc
from .c03_malformed import judge
from .c08_opentypes import OpenTypes


class Presence(common.Check):
    id = 'C02'
    title = 'Optional, default and mandatory components'
    assumptions = ['the model in /verif/spec states the standards correctly']

    def rule(self, tier):
        return 'every component of every SEQUENCE/SET node, referenced types entered %d deep, from minimal and full values' % (
            2 if tier == 'quick' else 4)

    def tasks(self, tier):
        return model.chunks(model.types(model.load()), 48)

    def run_task(self, task, tier, res):
        S = model.load()
        G = gen.Gen(S, 0)
        for mn, tn in task:
            r = S.resolve(S.modules[mn].types[tn])
            for path, n, wrap in model.sites(S, G, r, refs=2 if tier == 'quick' else 4):
                if n.kind in ('SEQUENCE', 'SET'):
                    self.node(S, G, mn, tn, r, path, n, wrap, res)

    def node(self, S, G, mn, tn, r, path, n, wrap, res):
        bases = [v for v in G.reduced(n)]
        for bi, base in enumerate(bases):
            for c in n.comps:
                cr = S.resolve(c.type)
                case = {'type': '%s.%s' % (mn, tn), 'value': '%s.%s from %s value' % (
                    ''.join('.' + p for p in path), c.name, ('minimal', 'full')[bi])}
                rest = {k: x for k, x in base.items() if k != c.name}
                try:
                    sample = base[c.name] if c.name in base else G.present(cr)
                except gen.NoValue:
                    continue
                if c.default is not None:
                    self.defaulted(S, mn, tn, r, path, n, c, cr, wrap, rest, sample, case, res)
                elif c.optional:
                    if ref.satisfies(n, rest):
                        self.roundtrip(S, mn, tn, r, wrap(rest), dict(case, absent=c.name), res)
                        self.absent(S, mn, tn, r, path, n, c, wrap(rest), case, res)
                    w = order(n, dict(rest, **{c.name: sample}))
                    if ref.satisfies(n, w):
                        self.roundtrip(S, mn, tn, r, wrap(w), case, res)
                else:
                    self.mandatory(S, mn, tn, r, path, c, wrap, rest, n, case, res)

    def roundtrip(self, S, mn, tn, r, v, case, res, e=None):
        if ref.lossy(S, r, v) or not model.okall(S, r, v):
            return
        e = ref.encode(S, r, v)
        want = impl.norm(S, r, v)
        res.states += 1
        res.transitions += 2
        res.traces += 1
        try:
            b = impl.der_encoder.encode(impl.build(S, r, impl.schema(mn, tn), v))
            if b != e:
                res.fail(case, 'encode', '%s encodes as %s, should be %s' % (impl.show(v)[:200], b.hex()[:200], e.hex()[:200]))
            w = impl.walk(S, r, impl.der_decoder.decode(e, asn1Spec=impl.schema(mn, tn))[0])
            if w != want:
                res.fail(case, 'decode', '%s decodes as %s' % (e.hex()[:200], impl.show(w)[:200]))
        except Exception as x:
            res.fail(case, 'refused', '%s: %s' % (impl.show(v)[:200], desc(x)))

    def absent(self, S, mn, tn, r, path, n, c, v, case, res):
        if ref.lossy(S, r, v) or blank_ok(S, S.resolve(c.type)):
            return
        res.states += 1
        res.transitions += 1
        try:
            o, _ = impl.der_decoder.decode(ref.encode(S, r, v), asn1Spec=impl.schema(mn, tn))
            h = OpenTypes().goto(S, r, o, path)
            x = h.getComponentByPosition(impl.check_names(n, h).index(c.name))
            if x.isValue:
                res.fail(case, 'absent', 'absent component reads as %s' % ' '.join(x.prettyPrint().split())[:200])
        except Exception as x:
            res.fail(case, 'refused', '%s: %s' % (impl.show(v)[:200], desc(x)))

    def defaulted(self, S, mn, tn, r, path, n, c, cr, wrap, rest, sample, case, res):
        d = ref.default(S, c)
        # never assigned: reads as the default already
        if not path:
            res.states += 1
            try:
                x = impl.schema(mn, tn).getComponentByPosition(
                    impl.check_names(n, impl.schema(mn, tn)).index(c.name))
                w = impl.walk(S, cr, x)
                if w != impl.norm(S, cr, d):
                    res.fail(case, 'default', 'unset component reads as %s, the default is %s' % (impl.show(w)[:200], impl.show(d)))
            except Exception as x:
                res.fail(case, 'default', 'unset component cannot be read, the default is %s: %s' % (impl.show(d), desc(x)))
        if not ref.satisfies(n, rest):
            return
        self.roundtrip(S, mn, tn, r, wrap(rest), dict(case, absent=c.name), res)
        if not ref.has_any(S, cr):
            self.roundtrip(S, mn, tn, r, wrap(order(n, dict(rest, **{c.name: d}))), dict(case, default=c.name), res)
        if sample != d and not ref.lossy(S, cr, sample, True):
            self.roundtrip(S, mn, tn, r, wrap(order(n, dict(rest, **{c.name: sample}))), case, res)
        # the default on the wire
        v = wrap(order(n, dict(rest, **{c.name: d})))
        if ref.lossy(S, r, v):
            return
        ref.EXPLICIT['on'] = 1
        try:
            e = ref.encode(S, r, v)
        finally:
            ref.EXPLICIT.clear()
        res.states += 1
        res.transitions += 1
        try:
            o = impl.ber_decoder.decode(e, asn1Spec=impl.schema(mn, tn))[0]
            w = impl.walk(S, r, o)
            if w != impl.norm(S, r, v):
                res.fail(case, 'wire default', '%s decodes as %s' % (e.hex()[:200], impl.show(w)[:200]))
        except Exception as x:
            res.fail(case, 'wire default', '%s refused: %s' % (e.hex()[:200], desc(x)))

    def mandatory(self, S, mn, tn, r, path, c, wrap, rest, n, case, res):
        v = wrap(order(n, rest))
        hole = wrap(order(n, dict(rest, **{c.name: ref.MISSING})))
        e = ref.encode(S, r, hole)
        res.states += 2
        res.transitions += 2
        res.traces += 1
        try:
            b = impl.der_encoder.encode(impl.build(S, r, impl.schema(mn, tn), v))
            if blank_ok(S, S.resolve(c.type)) or ('%s.%s' % (mn, tn), c.name) in PRESET or below_optional(S, r, path):
                res.count('the library fills the hole itself')
            else:
                res.fail(case, 'omitted', 'a value without mandatory %s was encoded as %s' % (c.name, b.hex()[:200]))
        except Exception as x:
            if type(x).__name__ == 'Timeout':
                raise
        want = judge(S, mn, tn, r, e)
        if want[0] != 'reject':
            res.count('another component fits the hole')
            return
        try:
            o, left = impl.der_decoder.decode(e, asn1Spec=impl.schema(mn, tn))
            res.fail(case, 'missing', '%s lacks mandatory %s, yet is taken for %s' % (
                e.hex()[:200], c.name, impl.show(impl.walk(S, r, o))[:200]))
        except Exception as x:
            if type(x).__name__ == 'Timeout':
                raise

    def replay(self, case, res):
        S = model.load()
        G = gen.Gen(S, 0)
        mn, tn = case['type'].split('.')
        r = S.resolve(S.modules[mn].types[tn])
        for path, n, wrap in model.sites(S, G, r, refs=2):
            if n.kind in ('SEQUENCE', 'SET') and case['value'].startswith(''.join('.' + p for p in path) + '.'):
                self.node(S, G, mn, tn, r, path, n, wrap, res)


# An SNMPv1 message is born with its only version already in place.
PRESET = [('rfc1157.Message', 'version')]


def blank_ok(S, r):
    """Is a fresh, unassigned value of r complete to the codec library?  True
    for lists and for records without mandatory components: the library hands
    such a value out when an absent component is read, and encodes it."""
    if r.kind in ('SEQUENCE OF', 'SET OF'):
        return True
    if r.kind in ('SEQUENCE', 'SET'):
        return all(c.optional or c.default is not None or blank_ok(S, S.resolve(c.type)) for c in r.comps)
    return False


def below_optional(S, r, path):
    """Does the path lead through an OPTIONAL component or a list?  The library
    leaves an incomplete one out."""
    for p in path:
        if r.kind in ('SEQUENCE OF', 'SET OF'):
            return True
        c = [x for x in r.comps if x.name == p][0]
        if r.kind != 'CHOICE' and (c.optional or c.default is not None):
            return True
        r = S.resolve(c.type)
    return False


def order(n, v):
    return {k.name: v[k.name] for k in n.comps if k.name in v}


CHECK = Presence()
