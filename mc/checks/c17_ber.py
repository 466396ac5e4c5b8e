"""C17: the other encodings BER allows carry the same values.

For every type and value of the model: each single element's length in the long
or the indefinite form, and all of them, decoded by the BER decoder, are the same value.  So is
what the BER encoder writes."""
import ast
from .. import common, model, ref, gen, impl
from ..common import desc


def head(b, i):
    """(identifier octets, content start, end) of the element at i (DER)."""
    j = i + 1
    if b[i] & 31 == 31:
        while b[j] & 128:
            j += 1
        j += 1
    k = j
    n = b[j]
    j += 1
    if n & 128:
        m = n & 127
        n = int.from_bytes(b[j:j + m], 'big')
        j += m
    return b[i:k], j, j + n


def tree(b, i=0):
    ident, s, e = head(b, i)
    if ident[0] & 32:
        kids, j = [], s
        while j < e:
            k, j = tree(b, j)
            kids.append(k)
        return (ident, kids), e
    return (ident, b[s:e]), e


def ser(t, how=None, at=None, n=None):
    """Serialise; how(counter) picks the length form of each constructed/primitive element."""
    if n is None:
        n = [0]
    me = n[0]
    n[0] += 1
    ident, c = t
    if isinstance(c, list):
        body = b''.join(ser(k, how, at, n) for k in c)
    else:
        body = c
    f = how(me, t) if how else None
    if f == 'indef' and isinstance(c, list) and c:      # pyasn1 drops empty elements of indefinite length
        return ident + b'\x80' + body + b'\x00\x00'
    if f == 'long':
        return ident + b'\x84' + len(body).to_bytes(4, 'big') + body
    return ident + ref.length(len(body)) + body


def count(t):
    return 1 + (sum(map(count, t[1])) if isinstance(t[1], list) else 0)


def forms(e, indef=True):
    """(what, bytes): BER encodings of the same value, without a schema."""
    t, end = tree(e)
    n = count(t)
    if indef:
        yield 'all lengths indefinite', ser(t, lambda i, x: 'indef')
    yield 'all lengths long', ser(t, lambda i, x: 'long')
    for k in range(n):
        yield 'length %d long' % k, ser(t, lambda i, x: 'long' if i == k else None)
        if indef:
            yield 'length %d indefinite' % k, ser(t, lambda i, x: 'indef' if i == k else None)
    for k in range(n) if indef else ():
        yield 'lengths from %d on indefinite' % k, ser(t, lambda i, x: 'indef' if i >= k else None)


def hollow(t):
    return isinstance(t[1], list) and (not t[1] or any(map(hollow, t[1])))


def canon(b, i=0, top=True):
    """The elements in b with shortest definite lengths."""
    out = b''
    while i < len(b):
        if b[i:i + 2] == b'\x00\x00' and not top:
            return out, i + 2
        j = i + 1
        if b[i] & 31 == 31:
            while b[j] & 128:
                j += 1
            j += 1
        k = j
        n = b[j]
        j += 1
        if n == 128:
            body, e = canon(b, j, False)
        else:
            if n & 128:
                m = n & 127
                n = int.from_bytes(b[j:j + m], 'big')
                j += m
            e = j + n
            body = b[j:e]
            if len(body) < n:
                raise ValueError
            if b[i] & 32:
                body = canon(body)
        out += b[i:k] + ref.length(len(body)) + body
        i = e
    if not top:
        raise ValueError
    return out


def untold(S, r, v, top=True):
    """Does v hold what pyasn1 cannot read in the indefinite form whatever the
    schema: a tagged ANY, an ANY on its own, a SET with an untagged CHOICE?"""
    if r.kind == 'ANY':
        return top or bool(r.stack) or bool(v and v[0] & 32)
    if r.kind in ('SEQUENCE', 'SET'):
        cs = [(c.name, S.resolve(c.type)) for c in r.comps]
        if r.kind == 'SET' and any(x.kind == 'CHOICE' and not x.stack for n, x in cs):
            return True
        return any(untold(S, x, v[n], False) for n, x in cs if n in v)
    if r.kind == 'CHOICE':
        return untold(S, S.resolve([c for c in r.comps if c.name == v[0]][0].type), v[1], False)
    if r.kind in ('SEQUENCE OF', 'SET OF'):
        return any(untold(S, S.resolve(r.elem), x, False) for x in v)
    return False


def prune(S, r, v):
    """v without optional components that hold nothing."""
    if r.kind in ('SEQUENCE', 'SET'):
        out = {}
        for c in r.comps:
            if c.name in v:
                cr = S.resolve(c.type)
                x = prune(S, cr, v[c.name])
                none = [{}, []]
                if cr.kind in ('SEQUENCE', 'SET') and all(k.optional or k.default is not None for k in cr.comps):
                    none.append(impl.norm(S, cr, {}))
                if not ((c.optional or c.default is not None) and x in none):
                    out[c.name] = x
        return out
    if r.kind == 'CHOICE':
        return (v[0], prune(S, S.resolve([c for c in r.comps if c.name == v[0]][0].type), v[1]))
    if r.kind in ('SEQUENCE OF', 'SET OF'):
        return [prune(S, S.resolve(r.elem), x) for x in v]
    return v


def settle(S, r, v):
    """v with the octets of ANY in canonical form."""
    if r.kind in ('SEQUENCE', 'SET'):
        return {c.name: settle(S, S.resolve(c.type), v[c.name]) for c in r.comps if c.name in v}
    if r.kind == 'CHOICE':
        return (v[0], settle(S, S.resolve([c for c in r.comps if c.name == v[0]][0].type), v[1]))
    if r.kind in ('SEQUENCE OF', 'SET OF'):
        return [settle(S, S.resolve(r.elem), x) for x in v]
    if r.kind == 'ANY':
        try:
            return canon(v)
        except (ValueError, IndexError):
            return v
    return v


class Ber(common.Check):
    id = 'C17'
    title = 'BER'

    def rule(self, tier):
        return 'every type, %s; every single liberty and all together' % ('every value one deviation away' if tier == 'quick' else 'every value one deviation away, referenced types entered')

    def tasks(self, tier):
        return model.chunks(model.types(model.load()), 64)

    def run_task(self, task, tier, res):
        S = model.load()
        G = gen.Gen(S, 0 if tier == 'quick' else 1)
        for mn, tn in task:
            r = S.resolve(S.modules[mn].types[tn])
            vs = G.reduced(r) + G.variants(r)
            for v in vs:
                if not ref.lossy(S, r, v):
                    e = ref.encode(S, r, v)
                    if len(e) < 1500:
                        self.one(S, mn, tn, r, v, e, res)

    def one(self, S, mn, tn, r, v, e, res):
        want = impl.norm(S, r, settle(S, r, v))
        name = '%s.%s' % (mn, tn)
        seen = set([e])
        for what, b in forms(e, not untold(S, r, v)):
            if b in seen:
                continue
            seen.add(b)
            res.states += 1
            res.traces += 1
            res.transitions += 1
            case = {'type': name, 'value': impl.show(v)[:300], 'case': what, 'bytes': b.hex()[:3000]}
            try:
                o, rest = impl.ber_decoder.decode(b, asn1Spec=impl.schema(mn, tn))
                w = impl.norm(S, r, settle(S, r, impl.walk(S, r, o)))
            except Exception as ex:
                res.fail(case, 'decode', '%s, %s: refused: %s' % (what, b.hex()[:200], desc(ex)))
                continue
            if rest or w != want:
                res.fail(case, 'value', '%s, %s: read as %s, is %s' % (what, b.hex()[:200], impl.show(w)[:200], impl.show(want)[:200]))
        if hollow(tree(e)[0]):
            return
        want = prune(S, r, want)
        for cname, enc, dec in (('BER', impl.ber_encoder, impl.ber_decoder),):
            res.states += 1
            res.transitions += 2
            case = {'type': name, 'value': impl.show(v)[:300], 'case': cname}
            try:
                o = impl.build(S, r, impl.schema(mn, tn), v)
                b = enc.encode(o)
                o2, rest = dec.decode(b, asn1Spec=impl.schema(mn, tn))
                w = prune(S, r, impl.norm(S, r, settle(S, r, impl.walk(S, r, o2))))
            except Exception as ex:
                res.fail(case, 'roundtrip', '%s: %s' % (cname, desc(ex)))
                continue
            if rest or w != want:
                res.fail(case, 'roundtrip', '%s %s: read as %s, is %s' % (cname, b.hex()[:200], impl.show(w)[:200], impl.show(want)[:200]))


CHECK = Ber()
