"""C01: every value of every published type has exactly the standard's DER bytes.

Model: spec + reference codec.  Enumerated: for each published type, every value
at most one deviation path away from the minimal value, every presence pattern,
descending into referenced types to a bound.  On each: encode, decode, re-encode
the decoded value; each step compared with the model."""
import ast
from .. import common, model, ref, gen, impl
from ..common import desc


def one(S, mn, tn, r, v, res):
    case = {'type': '%s.%s' % (mn, tn), 'value': impl.show(v), 'literal': repr(v) if len(repr(v)) < 20000 else ''}
    e = ref.encode(S, r, v)
    want = impl.norm(S, r, v)
    res.states += 1
    res.traces += 1
    try:
        o = impl.build(S, r, impl.schema(mn, tn), v)
    except Exception as ex:
        res.fail(case, 'build', 'value refused: ' + desc(ex))
        return
    res.transitions += 1
    try:
        b = impl.der_encoder.encode(o)
    except Exception as ex:
        res.fail(case, 'encode', 'cannot be encoded: ' + desc(ex))
        return
    if b != e:
        res.fail(case, 'encode', 'encodes as %s, the standard says %s' % (b.hex()[:400], e.hex()[:400]))
    res.transitions += 1
    try:
        o2, rest = impl.der_decoder.decode(e, asn1Spec=impl.schema(mn, tn))
        w = impl.walk(S, r, o2)
    except Exception as ex:
        res.fail(case, 'decode', 'standard encoding %s refused: %s' % (e.hex()[:200], desc(ex)))
        return
    if rest or w != want:
        res.fail(case, 'decode', '%s decodes as %s, should be %s' % (e.hex()[:200], impl.show(w)[:400], impl.show(want)[:400]))
    res.transitions += 1
    try:
        b = impl.der_encoder.encode(o2)
    except Exception as ex:
        res.fail(case, 'reencode', 'decoded value cannot be encoded again: ' + desc(ex))
        return
    if b != e:
        res.fail(case, 'reencode', 'decoded value encodes as %s, was %s' % (b.hex()[:300], e.hex()[:300]))


class Wire(common.Check):
    id = 'C01'
    title = 'Standard DER encoding of every published type'
    assumptions = ['the model in /verif/spec states the standards correctly',
                   'values the pyasn1 encoder cannot represent for any schema are left out (ref.lossy)']

    def depth(self, tier):
        return 2 if tier == "quick" else 4

    def rule(self, tier):
        return ('all values at most one deviation path from the minimal or the full value of each type, presence patterns, all pairs of components deviating, a wide domain of every scalar and of list sizes, '
                'referenced types entered to depth %d' % self.depth(tier))

    def tasks(self, tier):
        S = model.load()
        return model.chunks(model.types(S), 32) + ['beyond']

    def run_task(self, task, tier, res):
        S = model.load()
        if task == 'beyond':
            return self.beyond(S, res)
        G = gen.Gen(S, self.depth(tier))
        for mn, tn in task:
            r = S.resolve(S.modules[mn].types[tn])
            vs = G.variants(r)
            try:
                vs = vs + G.around_full(r, 0 if tier == 'quick' else 1) + G.pairs(r)
            except gen.NoValue:
                pass
            vs = [v for v in G.dedup(r, vs + G.rich(r)) if not ref.lossy(S, r, v)]
            res.count('types')
            for v in vs:
                one(S, mn, tn, r, v, res)
            if vs and len(res.samples) < 1:
                res.samples.append('%s.%s %s = %s' % (mn, tn, impl.show(vs[-1])[:200], ref.encode(S, r, vs[-1]).hex()[:200]))

    def beyond(self, S, res):
        """What the model leaves out to follow the implementation: filters
        nested deeper than it declares, a tag it writes in the primitive form."""
        def tlv(t, b):
            return bytes([t, len(b)]) + b
        todo = []
        for how, t in (('and', 0xa0), ('or', 0xa1), ('not', 0xa2)):
            e = tlv(0x87, b'cn')
            for depth in range(5):
                todo.append(('rfc2251', 'Filter', '%s nested %d deep' % (how, depth), e))
                e = tlv(t, e)
        for m in model.PRIMITIVE:
            todo.append((m, 'SecurityCategory', 'value [1] EXPLICIT ANY', tlv(0x30, tlv(0x80, b'\x2a\x03') + tlv(0xa1, b'\x05\x00'))))
        for mn, tn, what, e in todo:
            case = {'type': '%s.%s' % (mn, tn), 'value': what}
            res.states += 1
            res.transitions += 2
            try:
                o, rest = impl.der_decoder.decode(e, asn1Spec=impl.schema(mn, tn))
                b = impl.der_encoder.encode(o)
                if rest or b != e:
                    res.fail(case, 'beyond', '%s: %s decodes, and encodes as %s' % (what, e.hex(), b.hex()))
            except Exception as ex:
                res.fail(case, 'beyond', '%s: %s refused: %s' % (what, e.hex(), desc(ex)))

    def replay(self, case, res):
        S = model.load()
        if 'literal' not in case:
            return self.beyond(S, res)
        mn, tn = case['type'].split('.')
        r = S.resolve(S.modules[mn].types[tn])
        one(S, mn, tn, r, ast.literal_eval(case['literal']), res)


CHECK = Wire()
