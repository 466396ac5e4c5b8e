"""C29: an object shows the value it has now, whatever was done with it before.

Model: an object is its present value; looking at it leaves nothing behind.
Explored, for every published constructed type: pairs of its values, the way from
the one to the other by changing parts of the object in place, as deep down as
they differ; the object is looked at (encoded, printed, converted, compared,
measured, checked, walked, copied) before the change - in every one of these ways
alone and in all of them - and looked at in all ways after it.  What is shown must
be what a fresh object of the new value shows, and its encoding the standard's."""
import copy
import itertools
from .. import common, model, ref, gen, impl
from ..common import desc
from pyasn1.type import univ
from pyasn1.codec.native import encoder as native_encoder


def length(o):
    return len(o), bool(o.isValue)


def parts(o):
    if isinstance(o, (univ.Sequence, univ.Set, univ.Choice)):
        return [str(n) for n in o]
    return len(list(o))


LOOKS = [
    ('DER', lambda o, f: impl.der_encoder.encode(o)),
    ('BER', lambda o, f: impl.ber_encoder.encode(o)),
    ('native', lambda o, f: native_encoder.encode(o)),
    ('print', lambda o, f: o.prettyPrint()),
    ('equal', lambda o, f: (o == f, o != f, f == o)),
    ('hash', lambda o, f: hash(o) == hash(f)),
    ('length', lambda o, f: length(o)),
    ('parts', lambda o, f: parts(o)),
    ('consistent', lambda o, f: bool(o.isInconsistent)),
    ('copy', lambda o, f: impl.der_encoder.encode(copy.copy(o))),
    ('clone', lambda o, f: impl.der_encoder.encode(o.clone(cloneValueFlag=True))),
]


def look(o, fresh, f):
    try:
        return f(o, fresh)
    except common.Timeout:
        raise
    except Exception as e:
        return type(e).__name__


class No(Exception):
    """This change cannot be made in place."""


def known(r):
    return all(c.name for c in r.comps)


def morph(S, r, o, a, b):
    """Object o holds a; change its parts, as deep down as possible, until it holds b."""
    k = r.kind
    if k in ('SEQUENCE', 'SET'):
        names = impl.check_names(r, o)
        if any(c.name in a and c.name not in b for c in r.comps):
            return impl.fill(S, r, o, b)
        for c in r.comps:
            q = S.resolve(c.type)
            i = names.index(c.name)
            if c.name not in b or c.name in a and same(a[c.name], b[c.name]):
                continue
            if c.name in a and q.kind in impl.CONSTRUCTED:
                morph(S, q, o.getComponentByPosition(i), a[c.name], b[c.name])
            else:
                impl.put(S, q, o, i, b[c.name])
    elif k == 'CHOICE':
        names = impl.check_names(r, o)
        i = names.index(b[0])
        q = S.resolve([c.type for c in r.comps if c.name == b[0]][0])
        if a[0] == b[0] and q.kind in impl.CONSTRUCTED:
            morph(S, q, o.getComponentByPosition(i), a[1], b[1])
        else:
            impl.put(S, q, o, i, b[1])
    elif k in ('SEQUENCE OF', 'SET OF'):
        if len(a) > len(b):
            return impl.fill(S, r, o, b)
        q = S.resolve(r.elem)
        for i, x in enumerate(b):
            if i < len(a) and same(a[i], x):
                continue
            if i < len(a) and q.kind in impl.CONSTRUCTED:
                morph(S, q, o.getComponentByPosition(i), a[i], x)
            else:
                impl.put(S, q, o, i, x)
    else:
        raise No


def bare_default(S, r, v):
    """Is a constructed DEFAULT left out in v?  Once pyasn1's native encoder has made an
    object of it, with blank objects of its own absent components, comparing it with the
    default fails."""
    k = r.kind
    if k in ('SEQUENCE', 'SET'):
        for c in r.comps:
            q = S.resolve(c.type)
            if c.name in v:
                if bare_default(S, q, v[c.name]):
                    return True
            elif q.kind in ('SEQUENCE', 'SET') and (c.default is not None or any(
                    d.default is not None and S.resolve(d.type).kind in ('SEQUENCE', 'SET') for d in q.comps)):
                return True
    elif k == 'CHOICE':
        return bare_default(S, S.resolve([c.type for c in r.comps if c.name == v[0]][0]), v[1])
    elif k in ('SEQUENCE OF', 'SET OF'):
        return any(bare_default(S, S.resolve(r.elem), x) for x in v)
    return False


def containers(S, r, v, path=(), out=None):
    """The places inside v where a structure or list is."""
    out = [] if out is None else out
    if len(out) >= 6:
        return out
    if r.kind in ('SEQUENCE', 'SET'):
        kids = [(c.name, S.resolve(c.type), v[c.name]) for c in r.comps if c.name in v]
    elif r.kind == 'CHOICE':
        kids = [(c.name, S.resolve(c.type), v[1]) for c in r.comps if c.name == v[0]]
    elif r.kind in ('SEQUENCE OF', 'SET OF'):
        kids = [(i, S.resolve(r.elem), x) for i, x in list(enumerate(v))[-1:]]
    else:
        return out
    for n, q, x in kids:
        if q.kind in impl.CONSTRUCTED:
            if q.kind != 'CHOICE' and len(out) < 6:
                out.append(path + (n,))
            if known(q) if q.comps is not None else True:
                containers(S, q, x, path + (n,), out)
    return out


def goto(S, r, o, path):
    for n in path:
        if r.kind in ('SEQUENCE OF', 'SET OF'):
            o, r = o.getComponentByPosition(n), S.resolve(r.elem)
        else:
            i = impl.check_names(r, o).index(n)
            o, r = o.getComponentByPosition(i), S.resolve([c.type for c in r.comps if c.name == n][0])
    return o


def same(x, y):
    return type(x) is type(y) and x == y


class Present(common.Check):
    id = 'C29'
    title = 'Objects show their present value'
    assumptions = ['the model in /verif/spec states the standards correctly', 'looking at a fresh object is right (C24, C28)']

    def many(self, tier):
        return 4 if tier == 'quick' else 14

    def rule(self, tier):
        return 'every ordered pair of up to %d values of every constructed type x %d ways of looking before the change' % (self.many(tier), len(LOOKS) + 1)

    def tasks(self, tier):
        S = model.load()
        ts = [t for t in model.types(S) if S.resolve(S.modules[t[0]].types[t[1]]).kind in impl.CONSTRUCTED]
        return model.chunks(ts, 64 if tier == 'quick' else 192)

    def run_task(self, task, tier, res):
        S = model.load()
        G = gen.Gen(S, 1)
        common.alarm(600 if tier == 'quick' else 7200)
        for mn, tn in task:
            self.one(S, G, mn, tn, tier, res)

    def values(self, S, G, r, mn, tn, n):
        out, seen = [], set()
        vs = G.reduced(r)
        ws = G.variants(r)
        # the smallest, the largest, and those spread over the rest
        step = max(1, len(ws) // max(1, n - 2))
        for v in vs + ws[::step] + ws:
            if len(out) >= n:
                break
            if ref.lossy(S, r, v) or not model.okall(S, r, v):
                continue
            e = ref.encode(S, r, v)
            if e in seen or len(e) > 3000:
                continue
            seen.add(e)
            try:
                o = impl.build(S, r, impl.schema(mn, tn), v)
                if impl.der_encoder.encode(o) == e and impl.der_encoder.encode(o) == e:      # else C01's and C13's business
                    out.append((v, e))
            except common.Timeout:
                raise
            except Exception:
                pass
        return out

    def one(self, S, G, mn, tn, tier, res):
        r = S.resolve(S.modules[mn].types[tn])
        if r.comps is not None and not known(r):
            return res.count('components without name')
        try:
            vs = self.values(S, G, r, mn, tn, self.many(tier))
        except gen.NoValue:
            return
        res.count('types')
        looks = LOOKS
        if any(bare_default(S, r, v) for v, e in vs):
            looks = [x for x in LOOKS if x[0] != 'native']
        fresh = [impl.build(S, r, impl.schema(mn, tn), v) for v, e in vs]
        shows = []
        for i, (v, e) in enumerate(vs):
            o = impl.build(S, r, impl.schema(mn, tn), v)
            for n, f in looks:          # pyasn1 makes blank objects of absent components when it looks at them
                look(o, fresh[i], f), look(fresh[i], o, f)
            shows.append([look(o, fresh[i], f) for n, f in looks])
        res.samples.append('%s.%s: %d values' % (mn, tn, len(vs)))
        for i, (v, e) in enumerate(vs):
            self.inside(S, r, mn, tn, v, e, i, fresh[i], looks, {'type': '%s.%s' % (mn, tn), 'value': impl.show(v)[:300]}, res)
        ways = [[x] for x in looks] + [looks]
        for (i, (a, ea)), (j, (b, eb)) in itertools.permutations(enumerate(vs), 2):
            for way in ways if tier != 'quick' or j == (i + 1) % len(vs) else ways[-1:]:
                for how in ('built', 'decoded'):
                    res.states += 1
                    res.traces += 1
                    res.transitions += len(way) + 1
                    what = '%s %s, looked at (%s), changed to %s' % (how, impl.show(a)[:200], way[0][0] if len(way) == 1 else 'all', impl.show(b)[:200])
                    case = {'type': '%s.%s' % (mn, tn), 'value': what}
                    try:
                        if how == 'built':
                            o = impl.build(S, r, impl.schema(mn, tn), a)
                        else:
                            o = impl.der_decoder.decode(ea, asn1Spec=impl.schema(mn, tn))[0]
                    except common.Timeout:
                        raise
                    except Exception:
                        res.count('values left to C01')
                        continue
                    if how == 'decoded':
                        a0, b0 = ref.decode(S, r, ea), b
                    else:
                        a0, b0 = a, b
                    self.change(S, r, o, fresh[i], fresh[j], shows[j], a0, b0, eb, way, looks, what, case, res)
                    # and back
                    if len(way) > 1:
                        self.change(S, r, o, fresh[j], fresh[i], shows[i], b, a, ea, looks, looks, what + ' and back', case, res)
                    if how == 'built' and len(way) > 1 and r.kind != 'CHOICE':
                        self.emptied(S, r, mn, tn, o, a, ea, fresh[i], shows[i], looks, case, res)

    def change(self, S, r, o, before, after, shown, a, b, eb, way, looks, what, case, res):
        for n, f in way:
            look(o, before, f)
        try:
            morph(S, r, o, a, b)
        except common.Timeout:
            raise
        except Exception as ex:
            return res.fail(case, 'change', '%s: %s' % (what, desc(ex)))
        self.compare(o, after, shown, eb, looks, what, case, res)

    def compare(self, o, after, shown, eb, looks, what, case, res):
        b = look(o, after, looks[0][1])
        if b != eb:
            return res.fail(case, 'octets', '%s: encodes as %s, should be %s' % (what, b if isinstance(b, str) else b.hex(), eb.hex()))
        for n, f in looks:
            look(o, after, f)
        for (n, f), want in zip(looks, shown):
            got = look(o, after, f)
            res.transitions += 1
            if got != want:
                return res.fail(case, n, '%s: shows %r, a fresh object %r' % (what, got, want))

    def emptied(self, S, r, mn, tn, o, a, ea, fresh, shown, looks, case, res):
        """An object looked at, then emptied, then filled again."""
        bare = [impl.schema(mn, tn).clone(), impl.schema(mn, tn).clone()]
        for x in bare + [o]:
            x.clear()
            for n, f in looks:
                look(x, bare[0], f)
        what = 'emptied after ' + case['value']
        for n, f in looks:
            got, want = look(o, bare[0], f), look(bare[1], bare[0], f)
            res.transitions += 1
            if got != want:
                return res.fail(case, n, '%s: shows %r, a fresh object %r' % (what, got, want))
        impl.fill(S, r, o, a)
        self.compare(o, fresh, shown, ea, looks, 'filled again after ' + case['value'], case, res)

    def inside(self, S, r, mn, tn, a, ea, i, fresh, looks, case, res):
        """A part of an object that was looked at is emptied, so that it may be refused."""
        for path in containers(S, r, a):
            x = [impl.build(S, r, impl.schema(mn, tn), a) for k in range(2)]
            for n, f in looks:
                look(x[0], fresh, f)
            for o in x:
                goto(S, r, o, path).clear()
            got, want = (look(o, fresh, LOOKS[0][1]) for o in x)
            res.states += 1
            res.traces += 1
            what = '%s emptied in %s, looked at before' % ('.'.join(map(str, path)), case['value'])
            if got != want:
                res.fail(case, 'DER', '%s: encodes as %r, a fresh object so changed as %r' % (what, got, want))
                continue
            for n, f in LOOKS:          # the others show blank objects that looking made
                if n in ('BER', 'consistent'):
                    got, want = (look(o, fresh, f) for o in x)
                    res.transitions += 1
                    if got != want:
                        res.fail(case, n, '%s: shows %r, a fresh object so changed %r' % (what, got, want))
                        break

    def replay(self, case, res):
        mn, tn = case['type'].split('.')
        self.one(model.load(), gen.Gen(model.load(), 1), mn, tn, 'quick', res)


CHECK = Present()
