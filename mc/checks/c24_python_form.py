"""C24: objects convert to plain Python data and print completely.

Explored, for every published type: every value of the model to the depth bound,
as built and as decoded, and every registered type as a resolved open component.
The native codec's output must be the model's: a dictionary keyed by component
name, a list, a number, dotted text, octets; prettyPrint must show every
component with its value; and from that Python data the same value comes back."""
from .. import common, model, ref, gen, impl, opens
from ..common import desc
from .c08_opentypes import forms, decode
from .c18_dump_tools import shown
from pyasn1.codec.native import encoder as native_encoder, decoder as native_decoder

ANYTHING = object()          # an absent component of which nothing is required: the library shows one
CODEC = {'BMPString': 'utf-16-be', 'UniversalString': 'utf-32-be', 'UTF8String': 'utf-8'}


def form(S, r, v, opened=False):
    """Plain Python data for abstract value v; open components resolved if opened."""
    k = r.kind
    if k in ('SEQUENCE', 'SET'):
        out = {}
        for c in r.comps:
            q = S.resolve(c.type)
            if c.name in v:
                cs = opens.candidates(S, c, v) if opened else ()
                if cs:
                    ps = [form(S, cs[0], ref.decode(S, cs[0], p), opened) for p in opens.payloads(S, c, v)]
                    out[c.name] = ps if isinstance(v[c.name], list) else ps[0]
                else:
                    out[c.name] = form(S, q, v[c.name], opened and not c.open)
            elif c.default is not None:
                out[c.name] = form(S, q, ref.default(S, c))
            elif blank(S, q):
                out[c.name] = ANYTHING
        return out
    if k == 'CHOICE':
        return {v[0]: form(S, S.resolve([c.type for c in r.comps if c.name == v[0]][0]), v[1], opened)}
    if k in ('SEQUENCE OF', 'SET OF'):
        q = S.resolve(r.elem)
        return [form(S, q, x, opened) for x in v]
    if k == 'OBJECT IDENTIFIER':
        return '.'.join(map(str, v))
    if k == 'BIT STRING':
        return v or '0'                    # the library writes no bits so
    if k in ('INTEGER', 'ENUMERATED', 'BOOLEAN', 'NULL', 'OCTET STRING', 'ANY'):
        return v
    return v.encode(CODEC.get(k, 'latin-1'))


def exact(a, w):
    """Data a is w, type by type."""
    if w is ANYTHING:
        return True
    if isinstance(w, dict):
        if not isinstance(a, dict) or any(k not in w for k in a):
            return False
        return [k for k in a if w[k] is not ANYTHING] == [k for k in w if w[k] is not ANYTHING] and all(exact(a[k], w[k]) for k in a)
    if isinstance(w, list):
        return isinstance(a, list) and len(a) == len(w) and all(map(exact, a, w))
    if a is None and isinstance(w, bytes) and w == b'\x05\x00':      # a default given as a NULL
        return True
    return type(a) is type(w) and a == w


def restorable(S, r, v, top=True):
    """Can the library make the value from Python data at all?"""
    k = r.kind
    if k in ('SEQUENCE', 'SET'):
        if not top and (not v or list(gen.atoms(r.cons))):
            return False
        return all(restorable(S, S.resolve(c.type), v[c.name], False) for c in r.comps if c.name in v) and \
            not any(c.name not in v and (blank(S, S.resolve(c.type)) or c.default is not None and S.resolve(c.type).kind in impl.CONSTRUCTED)
                    for c in r.comps)
    if k == 'CHOICE':
        return restorable(S, S.resolve([c.type for c in r.comps if c.name == v[0]][0]), v[1], False)
    if k in ('SEQUENCE OF', 'SET OF'):
        if not v or not top and list(gen.atoms(r.cons)):
            return False
        return all(restorable(S, S.resolve(r.elem), x, False) for x in v)
    return not (k in ('BIT STRING', 'NULL') and not v)


def blank(S, q):
    return q.kind in ('SEQUENCE', 'SET') and all(c.optional or c.default is not None for c in q.comps)


class Python(common.Check):
    id = 'C24'
    title = 'Python data and printed form'
    assumptions = ['the model in /verif/spec states the standards correctly',
                   'lists with a size constraint, empty lists, empty BIT STRINGs and components of which nothing is required '
                   'cannot be made from Python data by the codec library; not judged in that direction']

    def rule(self, tier):
        return 'every value of every type, deviations %d deep, built and decoded; every registered type in every open component' % (
            1 if tier == 'quick' else 2)

    def tasks(self, tier):
        S = model.load()
        return [('types', x) for x in model.chunks(model.types(S), 48)] + [('opens', m) for m in sorted(S.modules)]

    def run_task(self, task, tier, res):
        S = model.load()
        getattr(self, task[0])(S, task[1], tier, res)

    def types(self, S, chunk, tier, res):
        G = gen.Gen(S, 1 if tier == 'quick' else 2)
        for mn, tn in chunk:
            r = S.resolve(S.modules[mn].types[tn])
            try:
                vs = G.reduced(r) + G.variants(r)
            except gen.NoValue:
                continue
            seen = set()
            for v in vs:
                if ref.lossy(S, r, v):
                    continue
                e = ref.encode(S, r, v)
                if e not in seen:
                    seen.add(e)
                    self.one(S, mn, tn, r, v, e, res)
        res.samples.append('%s.%s: %d values' % (mn, tn, len(seen)))

    def one(self, S, mn, tn, r, v, e, res):
        case = {'type': '%s.%s' % (mn, tn), 'value': impl.show(v)[:600], 'bytes': e.hex()}
        try:
            b = impl.build(S, r, impl.schema(mn, tn), v)
            d, rest = impl.der_decoder.decode(e, asn1Spec=impl.schema(mn, tn))
            if len(set(impl.der_encoder.encode(b) for i in (0, 1))) > 1:
                raise ValueError
        except Exception:
            return res.count('values left to C01 and C13')
        for how, o, w in (('built', b, v), ('decoded', d, impl.norm(S, r, v))):
            res.states += 1
            self.judge(S, dict(case, how=how), o, form(S, r, w), res)
            try:
                text = o.prettyPrint()
                miss = shown(S, r, v, text)
                if miss:
                    res.fail(dict(case, how=how), 'print', 'printed without %s: %r' % (miss, text[:400]))
            except Exception as ex:
                res.fail(dict(case, how=how), 'print', 'cannot be printed: ' + desc(ex))
        if not restorable(S, r, v):
            return res.count('beyond the native decoder')
        res.traces += 1
        res.transitions += 1
        try:
            x = native_decoder.decode(native_encoder.encode(b), asn1Spec=impl.schema(mn, tn))
            a = impl.der_encoder.encode(x)
            if a != e:
                res.fail(case, 'back', 'made from Python data it encodes as %s, should be %s' % (a.hex()[:300], e.hex()[:300]))
        except Exception as ex:
            res.fail(case, 'back', 'cannot be made from Python data: ' + desc(ex))

    def judge(self, S, case, o, want, res):
        res.transitions += 1
        try:
            n = native_encoder.encode(o)
        except Exception as ex:
            return res.fail(case, 'native', 'has no Python form: ' + desc(ex))
        if not exact(n, want):
            res.fail(case, 'native', 'as Python data %r, should be %r' % (n, want))

    def opens(self, S, mod, tier, res):
        """Every open component x every type this module registers for it."""
        opens.load_all()
        G = gen.Gen(S, 0)
        for m2, tn, path, n, c, wrap in opens.sites(S, G):
            r = S.resolve(S.modules[m2].types[tn])
            m = G.minimal(n)
            for key in sorted(S.registry_keys[c.open[1]], key=repr):
                regs = S.registry_keys[c.open[1]][key]
                if regs[0][0] != mod or len(regs) > 1:
                    continue
                t = S.resolve(regs[0][1])
                try:
                    pay = [ref.encode(S, t, pv) for pv in G.reduced(t) if not ref.lossy(S, t, pv)]
                except gen.NoValue:
                    continue
                for x in forms(S, c, pay):
                    v = dict(m)
                    v[c.open[0]] = key
                    v[c.name] = x
                    v = {k.name: v[k.name] for k in n.comps if k.name in v}
                    top = wrap(v)
                    if not ref.satisfies(n, v) or ref.lossy(S, r, top) or opens.lossy(S, r, top):
                        continue
                    e = ref.encode(S, r, top)
                    top = ref.decode(S, r, e)
                    case = {'type': '%s.%s' % (m2, tn), 'value': impl.show(top)[:600], 'bytes': e.hex(), 'how': 'resolved'}
                    if opens.predict(S, r, top) != 'ok':
                        continue
                    try:
                        o, rest = decode(m2, tn, e, decodeOpenTypes=True)
                        want = form(S, r, top, True)
                        if opens.check(S, r, top, o):
                            continue
                    except Exception:
                        res.count('values left to C08')
                        continue
                    res.states += 1
                    self.judge(S, case, o, want, res)

    def replay(self, case, res):
        S = model.load()
        mn, tn = case['type'].split('.')
        r = S.resolve(S.modules[mn].types[tn])
        e = bytes.fromhex(case['bytes'])
        if case.get('how') == 'resolved':
            opens.load_all()
            self.judge(S, case, decode(mn, tn, e, decodeOpenTypes=True)[0], form(S, r, ref.decode(S, r, e), True), res)
        else:
            self.one(S, mn, tn, r, ref.decode(S, r, e), e, res)


CHECK = Python()
