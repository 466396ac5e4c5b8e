"""C03: encodings that are not of the type are refused, as a whole.

Model: reference decoder over the spec.  Enumerated: every single structural
edit (identity, class, drop, repeat, swap, insert, empty, wrap, unwrap) of every
element of an encoding of every published type.  The implementation must accept
exactly what the reference decoder accepts, with the same value."""
from .. import common, model, ref, gen, impl, tlv
from ..common import desc


def judge(S, mn, tn, r, b):
    """('skip',) | ('reject',) | ('accept', value), from the model."""
    try:
        v = ref.decode(S, r, b)
    except ref.DontCare:
        return ('skip',)
    except ref.Reject:
        return ('reject',)
    return ('accept', v) if model.okvals(S, r, v) else ('reject',)


def one(S, mn, tn, r, b, what, res):
    want = judge(S, mn, tn, r, b)
    if want[0] == 'skip':
        res.count('left to the codec library')
        return
    res.states += 1
    res.transitions += 1
    res.traces += 1
    res.count('model ' + want[0] + 's')
    case = {'type': '%s.%s' % (mn, tn), 'value': what, 'bytes': b.hex()}
    try:
        o, rest = impl.der_decoder.decode(b, asn1Spec=impl.schema(mn, tn))
        w = ('accept', impl.walk(S, r, o))
        if rest:
            w = ('accept', 'part of it, leaving %s' % rest.hex())
    except common.Timeout:
        raise
    except Exception as e:
        w = ('reject', desc(e))
    if want[0] != w[0]:
        if want[0] == 'reject':
            res.fail(case, 'accepted', '%s: %s is not an encoding of the type, yet is taken for %s' % (
                what, b.hex()[:300], impl.show(w[1])[:300]))
        else:
            res.fail(case, 'refused', '%s: %s is an encoding of %s, yet refused: %s' % (
                what, b.hex()[:300], impl.show(want[1])[:300], w[1][:300]))
    elif want[0] == 'accept' and want[1] != w[1]:
        res.fail(case, 'value', '%s: %s is an encoding of %s, yet read as %s' % (
            what, b.hex()[:300], impl.show(want[1])[:300], impl.show(w[1])[:300]))


class Malformed(common.Check):
    id = 'C03'
    title = 'Malformed encodings are refused'
    assumptions = ['malformed primitive contents and the tag of a tagged ANY are the codec library\'s business and not judged']

    def rule(self, tier):
        return ('every single TLV edit of %s encoding of each type' %
                ('every depth-0 variant' if tier == 'quick' else 'every depth-1 variant'))

    def tasks(self, tier):
        S = model.load()
        return model.chunks(model.types(S), 64)

    def run_task(self, task, tier, res):
        S = model.load()
        G = gen.Gen(S, 0 if tier == 'quick' else 1)
        for mn, tn in task:
            r = S.resolve(S.modules[mn].types[tn])
            vs = G.reduced(r) + G.variants(r)
            seen = set()
            for v in vs:
                if ref.lossy(S, r, v):
                    continue
                e = ref.encode(S, r, v)
                if len(e) > 1500:
                    continue
                for d, b in tlv.mutations(tlv.parse(e)):
                    if b not in seen:
                        seen.add(b)
                        one(S, mn, tn, r, b, d, res)
        if task and len(res.samples) < 1:
            res.samples.append('%s.%s: %d edited encodings' % (mn, tn, len(seen)))

    def replay(self, case, res):
        S = model.load()
        mn, tn = case['type'].split('.')
        r = S.resolve(S.modules[mn].types[tn])
        one(S, mn, tn, r, bytes.fromhex(case['bytes']), case['value'], res)


CHECK = Malformed()
