"""C04: published types serve as building blocks of an application's own types.

Explored: every published type x every way of deriving from it or holding it
(clone, subclass, explicit and implicit tags of low and high numbers, element of a list, mandatory, optional and defaulted component,
alternative, registered open type) x values of the model.  Encoding, decoding and
what is refused must be those of the derived type's model."""
from .. import common, model, ref, gen, impl, opens
from ..common import desc
from pyasn1 import error
from pyasn1.type import univ, tag, namedtype, constraint, opentype

INT = b'\x02\x01\x07'
TRUE = b'\x01\x01\xff'
PRESET = (impl.module('rfc1157').Version,)       # holds 0 from the start, and so does an optional component of it
PLAIN = ('own', 'clone', 'subtype', 'subclass')


def context(n, cons=True):
    return tag.Tag(tag.tagClassContext, tag.tagFormatConstructed if cons else tag.tagFormatSimple, n)


def seq(*comps):
    class Own(univ.Sequence):
        componentType = namedtype.NamedTypes(*comps)
    return Own()


def wrap(n, e):
    return ref.tlv(2, True, n, e)


def retag(n, e):
    (cls, cons, num), s, end = ref.header(e, 0)
    return ref.tlv(2, cons, n, e[s:end])


class Form(object):
    """A type made from schema s: how values go in and come out, what they encode to."""

    def __init__(self, name, schema, expect, position=None, before=None):
        self.name, self.schema, self.expect, self.position, self.before = name, schema, expect, position, before

    def build(self, S, r, vs):
        if self.position is None:
            return impl.build(S, r, self.schema, vs[0])
        o = self.schema.clone()
        if self.position == 'all':
            o.clear()
            for i, v in enumerate(vs):
                impl.put(S, r, o, i, v)
            return o
        if self.before:
            self.before(o)
        impl.put(S, r, o, self.position, vs[0])
        return o

    def read(self, S, r, o):
        if self.position is None:
            return [impl.walk(S, r, o)]
        if self.position == 'all':
            return [impl.walk(S, r, o.getComponentByPosition(i)) for i in range(len(o))]
        if isinstance(o, univ.Choice):
            return [impl.walk(S, r, o.getComponent())]
        return [impl.walk(S, r, o.getComponentByPosition(self.position))]


def ends(o):
    o.setComponentByPosition(0, 7)
    o.setComponentByPosition(2, True)


def forms(S, r, cls, s):
    tagged = bool(r.stack)
    one = lambda f: lambda es: f(es[0])
    yield Form('own', s, one(lambda e: e))
    yield Form('clone', s.clone(), one(lambda e: e))
    yield Form('subtype', s.subtype(), one(lambda e: e))
    if cls is not None:
        yield Form('subclass', type('Own' + cls.__name__, (cls,), {})(), one(lambda e: e))
    bound = r.kind in impl.CONSTRUCTED and list(gen.atoms(r.cons))      # not to be put into anything when it may not be empty
    if r.kind != 'ANY':
        for n in (5, 1000):
            yield Form('explicit %d' % n, s.subtype(explicitTag=context(n)), one(lambda e, n=n: wrap(n, e)))
        x = s.subtype(explicitTag=context(1)).subtype(explicitTag=context(0))
        yield Form('explicit twice', x, one(lambda e: wrap(0, wrap(1, e))))
        if tagged and not (r.kind == 'CHOICE'):
            for n in [x for x in (5, 1000) if r.stack != [(2, x)]]:
                yield Form('implicit %d' % n, s.subtype(implicitTag=context(n, False)), one(lambda e, n=n: retag(n, e)))
            x = s.subtype(implicitTag=context(1, False)).subtype(explicitTag=context(0))
            yield Form('implicit and explicit', x, one(lambda e: wrap(0, retag(1, e))))
        if cls in PRESET or bound:
            return
        yield Form('optional', seq(namedtype.OptionalNamedType('x', s.subtype(explicitTag=context(0))),
                                   namedtype.OptionalNamedType('y', s.subtype(explicitTag=context(1)))),
                   one(lambda e: ref.tlv(0, True, 16, wrap(1, e))), 1)

        class Alt(univ.Choice):
            componentType = namedtype.NamedTypes(
                namedtype.NamedType('n', univ.Integer()),
                namedtype.NamedType('x', s.subtype(explicitTag=context(0))),
                namedtype.NamedType('y', s.subtype(explicitTag=context(1))))
        yield Form('alternative', Alt(), one(lambda e: wrap(1, e)), 2)
    if bound:
        return
    yield Form('list', univ.SequenceOf(componentType=s), lambda es: ref.tlv(0, True, 16, b''.join(es)), 'all')
    yield Form('component', seq(namedtype.NamedType('n', univ.Integer()), namedtype.NamedType('x', s), namedtype.NamedType('b', univ.Boolean())),
               one(lambda e: ref.tlv(0, True, 16, INT + e + TRUE)), 1, ends)


class Blocks(common.Check):
    id = 'C04'
    title = 'Published types as building blocks'
    assumptions = ['the model in /verif/spec states the standards correctly', 'untagged open types are not tagged by the library: used as they are']

    def rule(self, tier):
        return 'every type x 16 ways of deriving from it or holding it x every %s value' % (
            'minimal and full' if tier == 'quick' else 'depth-1')

    def tasks(self, tier):
        S = model.load()
        return model.chunks(model.types(S), 48)

    def run_task(self, task, tier, res):
        S = model.load()
        G = gen.Gen(S, 0 if tier == 'quick' else 1)
        for mn, tn in task:
            r = S.resolve(S.modules[mn].types[tn])
            try:
                vs = G.reduced(r) + (G.variants(r) if tier != 'quick' else [])
            except gen.NoValue:
                continue
            vs = [v for v in vs if not ref.lossy(S, r, v, True)]
            good, seen = [], set()
            for v in vs:
                e = ref.encode(S, r, v)
                if e not in seen and self.works(S, mn, tn, r, v, e, res):
                    seen.add(e)
                    good.append((v, e))
            self.type(S, mn, tn, r, good, res)
        res.samples.append('%s.%s' % task[-1])

    def works(self, S, mn, tn, r, v, e, res):
        """Is the type itself in order for this value?  Else it is C01's."""
        try:
            o = impl.build(S, r, impl.schema(mn, tn), v)
            a, b = impl.der_encoder.encode(o), impl.der_encoder.encode(o)
            d, rest = impl.der_decoder.decode(e, asn1Spec=impl.schema(mn, tn))
            if (a, b, rest, impl.der_encoder.encode(d)) == (e, e, b'', e):
                return True
        except Exception:
            pass
        res.count('values left to C01')
        return False

    def type(self, S, mn, tn, r, good, res):
        if not good:
            return
        case = {'type': '%s.%s' % (mn, tn)}
        x = getattr(impl.module(mn), tn)
        cls = x if isinstance(x, type) else None
        if cls is None:
            res.fail(dict(case, value='', how='derive'), 'derive', 'is no class, so it cannot be called or subclassed')
        try:
            fs = list(forms(S, r, cls, cls() if cls else x))
        except Exception as ex:
            return res.fail(dict(case, value='', how='derive'), 'derive', 'cannot be derived from: ' + desc(ex))
        for f in fs:
            for i, (v, e) in enumerate(good):
                vs, es = [v], [e]
                if f.position == 'all':
                    w = good[(i + 1) % len(good)]
                    vs, es = [v, w[0]], [e, w[1]]
                self.one(S, r, f, vs, es, dict(case, value=impl.show(v)[:600], how=f.name, bytes=e.hex()), res)
        self.default(S, r, cls() if cls else x, good, case, res)
        self.opened(S, r, cls() if cls else x, good, case, res)

    def one(self, S, r, f, vs, es, case, res):
        res.states += 1
        res.traces += 1
        res.transitions += 2
        want = f.expect(es)
        try:
            o = f.build(S, r, vs)
            a = impl.der_encoder.encode(o)
        except Exception as ex:
            return res.fail(case, 'encode', 'used as %s the value is refused: %s' % (f.name, desc(ex)))
        if a != want:
            return res.fail(case, 'encode', 'used as %s it encodes as %s, should be %s' % (f.name, a.hex()[:300], want.hex()[:300]))
        try:
            d, rest = impl.der_decoder.decode(want, asn1Spec=f.schema)
            got = f.read(S, r, d)
            again = impl.der_encoder.encode(d)
        except Exception as ex:
            return res.fail(case, 'decode', 'used as %s it cannot be decoded: %s' % (f.name, desc(ex)))
        ws = [impl.norm(S, r, v) for v in vs]
        if rest or got != ws or again != want:
            return res.fail(case, 'decode', 'used as %s it is decoded as %s, should be %s' % (f.name, impl.show(got)[:300], impl.show(ws)[:300]))
        if f.name not in PLAIN and f.position is None and ref.header(es[0], 0)[0][::2] != ref.header(want, 0)[0][::2]:
            # its own encoding is not one of the derived type
            try:
                impl.der_decoder.decode(es[0], asn1Spec=f.schema)
                res.fail(case, 'decode', 'used as %s the untagged encoding is taken' % f.name)
            except error.PyAsn1Error:
                pass
            except Exception as ex:
                res.fail(case, 'decode', 'used as %s the untagged encoding fails: %s' % (f.name, desc(ex)))

    def default(self, S, r, s, good, case, res):
        """As a DEFAULT component: left out when equal, read back when absent."""
        if r.kind in impl.CONSTRUCTED or r.kind == 'ANY':
            return
        for i, (v, e) in enumerate(good):
            res.states += 1
            res.transitions += 3
            c = dict(case, value=impl.show(v)[:600], how='default')
            try:
                d = s.subtype(impl.native(r, v), explicitTag=context(0))
                own = seq(namedtype.DefaultedNamedType('x', d))
                got, rest = impl.der_decoder.decode(b'\x30\x00', asn1Spec=own)
                o = own.clone()
                o.setComponentByPosition(0, impl.native(r, v))
                w, we = good[(i + 1) % len(good)]
                p = own.clone()
                p.setComponentByPosition(0, impl.native(r, w))
                a = impl.walk(S, r, got[0]), impl.der_encoder.encode(o), impl.der_encoder.encode(p)
                b = v, b'\x30\x00', b'\x30\x00' if we == e else ref.tlv(0, True, 16, wrap(0, we))
                if a != b:
                    res.fail(c, 'default', 'as a default: %r, should be %r' % (a, b))
            except Exception as ex:
                res.fail(c, 'default', 'cannot serve as a default: ' + desc(ex))

    def opened(self, S, r, s, good, case, res):
        """As the type an application registers for one of its own identifiers."""
        own = seq(namedtype.NamedType('id', univ.Integer()),
                  namedtype.NamedType('x', univ.Any(), openType=opentype.OpenType('id', {univ.Integer(7): s})))
        for v, e in good:
            if opens.predict(S, r, v) != 'ok' or opens.lossy(S, r, v):
                continue
            res.states += 1
            res.transitions += 2
            c = dict(case, value=impl.show(v)[:600], how='open')
            want = ref.tlv(0, True, 16, INT + e)
            try:
                d, rest = impl.der_decoder.decode(want, asn1Spec=own, decodeOpenTypes=True)
                got = impl.walk(S, r, d[1])
                if got != impl.norm(S, r, v):
                    res.fail(c, 'open', 'resolved to %s, should be %s' % (impl.show(got)[:300], impl.show(v)[:300]))
                o = own.clone()
                o[0] = 7
                o[1] = impl.build(S, r, s, v)
                a = impl.der_encoder.encode(o)
                if a != want:
                    res.fail(c, 'open', 'as an open type it encodes as %s, should be %s' % (a.hex()[:300], want.hex()[:300]))
            except Exception as ex:
                res.fail(c, 'open', 'cannot serve as an open type: ' + desc(ex))

    def replay(self, case, res):
        S = model.load()
        mn, tn = case['type'].split('.')
        r = S.resolve(S.modules[mn].types[tn])
        G = gen.Gen(S, 1)
        vs = [v for v in G.reduced(r) + G.variants(r) if not ref.lossy(S, r, v, True)]
        good = [(v, ref.encode(S, r, v)) for v in vs]
        self.type(S, mn, tn, r, [g for g in good if self.works(S, mn, tn, r, g[0], g[1], res)], res)


CHECK = Blocks()
