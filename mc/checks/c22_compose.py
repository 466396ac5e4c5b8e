"""C22: values are put together from objects of the published types, in any order.

Model: a constructed value is the last assignment made to each of its
components.  Enumerated: for every published type, every component declared as a
published type takes an object of that type (tagged as declared); every order of
assigning the components; components taken from a decoded message; assignments
overwritten by later ones; alternatives of a CHOICE one after another; lists
filled one by one, at once and over a longer list."""
import itertools
from .. import common, model, ref, gen, impl
from ..common import desc
from pyasn1.type import tag


def tagged(o, t):
    """The published type under the tags its component declares."""
    for mode, cls, num in reversed(t.tags):
        simple = o.tagSet and not o.tagSet.superTags[-1].tagFormat and mode == 'I'
        x = tag.Tag(cls << 6, tag.tagFormatSimple if simple else tag.tagFormatConstructed, num)
        o = o.subtype(implicitTag=x) if mode == 'I' else o.subtype(explicitTag=x)
    return o


def typed(S, t, v):
    """An object of the published type t refers to, holding v."""
    b = S.resolve(S.named_type(*t.ref))
    x = tagged(impl.schema(*t.ref), t)
    if b.kind not in impl.CONSTRUCTED:
        return x.clone(impl.native(b, v))
    impl.fill(S, b, x, v)
    return x


def published(S, c):
    """Does the standard declare this component as a published type as it is?"""
    t = c.type
    cr = S.resolve(t)
    return t.kind == 'REF' and not t.named and not c.open and \
        not (t.tags and t.tags[0][0] == 'I' and cr.kind in ('CHOICE', 'ANY'))


class Compose(common.Check):
    id = 'C22'
    title = 'Values are composed of the published types in any order'
    assumptions = ['the model in /verif/spec states the standards correctly']

    def rule(self, tier):
        return ('every component x %s values of its type as an object; all orders of assignment of at most %d components'
                % (('minimal and full', 4) if tier == 'quick' else ('depth-1', 6)))

    def tasks(self, tier):
        S = model.load()
        return model.chunks([t for t in model.types(S) if S.resolve(S.modules[t[0]].types[t[1]]).kind in impl.CONSTRUCTED], 48)

    def run_task(self, task, tier, res):
        S = model.load()
        G = gen.Gen(S, 0 if tier == 'quick' else 1)
        for mn, tn in task:
            r = S.resolve(S.modules[mn].types[tn])
            vs = G.reduced(r) if tier == 'quick' else G.reduced(r) + G.variants(r)
            vs = [v for v in vs if not ref.lossy(S, r, v)]
            self.classes(S, mn, tn, r, vs[:8], res)
            if r.kind in ('SEQUENCE OF', 'SET OF'):
                self.lists(S, G, mn, tn, r, vs, tier, res)
            else:
                self.parts(S, G, mn, tn, r, tier, res)
                self.replace(S, G, mn, tn, r, tier, res)
                self.orders(S, mn, tn, r, vs[:2] if tier == 'quick' else vs[:40], tier, res)
                self.transplant(S, mn, tn, r, vs, res)
                if r.kind == 'CHOICE':
                    self.alternatives(S, mn, tn, r, vs, res)
        if not res.samples:
            res.samples.append('%s.%s' % (mn, tn))

    # ---- one step: run f, compare the octets
    def step(self, S, mn, tn, r, v, what, stage, f, res):
        res.states += 1
        res.traces += 1
        case = {'type': '%s.%s' % (mn, tn), 'value': what, 'task': repr([(mn, tn)])}
        want = ref.encode(S, r, v)
        try:
            o = f()
            b = impl.der_encoder.encode(o)
        except common.Timeout:
            raise
        except Exception as e:
            return res.fail(case, stage, '%s: %s' % (what, desc(e)))
        res.transitions += 2
        if b != want:
            return res.fail(case, stage, '%s: encodes as %s, should be %s' % (what, b.hex()[:250], want.hex()[:250]))
        try:
            w = impl.walk(S, r, o)
        except Exception as e:
            return res.fail(case, stage, '%s: cannot be read: %s' % (what, desc(e)))
        if w != impl.norm(S, r, v) and r.kind != 'SET OF' and not setof(S, r):
            res.fail(case, stage, '%s: reads as %s, should be %s' % (what, impl.show(w)[:250], impl.show(impl.norm(S, r, v))[:250]))

    def parts(self, S, G, mn, tn, r, tier, res):
        """Objects of the published types in the places that call for them."""
        try:
            m = G.minimal(r)
        except gen.NoValue:
            return
        for c in r.comps:
            if not published(S, c) or not c.name:
                continue
            cr = S.resolve(c.type)
            try:
                vs = G.reduced(cr) if tier == 'quick' else G.reduced(cr) + G.variants(cr, 0)
            except gen.NoValue:
                continue
            for v in vs:
                top = (c.name, v) if r.kind == 'CHOICE' else \
                    {x.name: v if x.name == c.name else m[x.name] for x in r.comps if x.name == c.name or x.name in m}
                if not ref.satisfies(r, top) or ref.lossy(S, r, top) or not model.okall(S, r, top):
                    continue
                res.count('object assigned')

                def f():
                    o = impl.schema(mn, tn).clone()
                    if r.kind != 'CHOICE':
                        impl.fill(S, r, o, {n: y for n, y in top.items() if n != c.name})
                    o[c.name] = typed(S, c.type, v)
                    return o
                self.step(S, mn, tn, r, top, '.%s = %s of %s' % (c.name, impl.show(v)[:150], '.'.join(c.type.ref)), 'object', f, res)

    def replace(self, S, G, mn, tn, r, tier, res):
        """One component of an object that has a value already gets that of another object."""
        try:
            m = G.minimal(r)
        except gen.NoValue:
            return
        for i, c in enumerate(r.comps):
            cr = S.resolve(c.type)
            try:
                xs = G.dedup(cr, G.reduced(cr) + G.variants(cr, 0))
            except gen.NoValue:
                continue
            tops = []
            for x in xs:
                t = (c.name, x) if r.kind == 'CHOICE' else {k.name: x if k.name == c.name else m[k.name] for k in r.comps if k.name == c.name or k.name in m}
                if ref.satisfies(r, t) and not ref.lossy(S, r, t) and model.okall(S, r, t):
                    tops.append(t)
            n = 4 if tier == 'quick' else 9
            tops = tops[:n - 1] + tops[n - 1:][-1:]
            for a, b in itertools.permutations(tops, 2):
                for how in ('built', 'decoded') if readable(S, r, mn, tn, a) and readable(S, r, mn, tn, b) else ('built',):
                    res.count('components replaced')

                    def make(v):
                        if how == 'built':
                            return impl.build(S, r, impl.schema(mn, tn), v)
                        return impl.der_decoder.decode(ref.encode(S, r, v), asn1Spec=impl.schema(mn, tn))[0]

                    def f():
                        o, src = make(a), make(b)
                        j = impl.check_names(r, src).index(c.name)
                        x = src.getComponent() if r.kind == 'CHOICE' else src.getComponentByPosition(j)
                        self.move(S, cr, x, o, j)
                        return o
                    self.step(S, mn, tn, r, b, '.%s of %s %s replaced by that of %s' % (c.name, how, impl.show(a)[:150], impl.show(b)[:150]), 'replace', f, res)

    def assign(self, S, r, o, c, v):
        """Assign by name: plain value, or fill in place."""
        cr = S.resolve(c.type)
        if cr.kind in impl.CONSTRUCTED:
            if published(S, c):
                o[c.name] = typed(S, c.type, v)
            else:
                impl.fill(S, cr, o[c.name], v)
        else:
            o[c.name] = impl.native(cr, v)

    def orders(self, S, mn, tn, r, vs, tier, res):
        if r.kind == 'CHOICE':
            return
        limit = 4 if tier == 'quick' else 6
        for v in vs:
            names = [c for c in r.comps if c.name in v]
            if not all(c.name for c in names):
                return
            if len(names) <= limit:
                perms = list(itertools.permutations(names))
            else:
                perms = [tuple(names[i:] + names[:i]) for i in range(len(names))] + [tuple(names[::-1])]
            for p in perms:
                res.count('orders')

                def f():
                    o = impl.schema(mn, tn).clone()
                    o.clear()
                    for c in p:
                        self.assign(S, r, o, c, v[c.name])
                    return o
                self.step(S, mn, tn, r, v, 'assigned in the order ' + ', '.join(c.name for c in p), 'order', f, res)
        # a value overwritten by another, component by component
        for a, b in itertools.permutations(vs[:3], 2):
            if not set(a) <= set(b) or not all(a):
                continue

            def f():
                o = impl.schema(mn, tn).clone()
                o.clear()
                for x in (a, b):
                    for c in r.comps:
                        if c.name in x:
                            self.assign(S, r, o, c, x[c.name])
                return o
            self.step(S, mn, tn, r, b, '%s overwritten with %s' % (impl.show(a)[:120], impl.show(b)[:120]), 'overwrite', f, res)

    def classes(self, S, mn, tn, r, vs, res):
        """What is read from a component declared as a published type is an object of its class."""
        for v in vs:
            e = ref.encode(S, r, v)
            for how in ('built', 'decoded'):
                try:
                    o = impl.build(S, r, impl.schema(mn, tn), v) if how == 'built' else impl.der_decoder.decode(e, asn1Spec=impl.schema(mn, tn))[0]
                except common.Timeout:
                    raise
                except Exception:               # C01's business
                    continue
                if r.kind in ('SEQUENCE OF', 'SET OF'):
                    got = [('element', r.elem, x) for x in o]
                elif r.kind == 'CHOICE':
                    got = [(c.name, c.type, o.getComponent()) for c in r.comps if c.name == v[0]]
                else:
                    names = impl.check_names(r, o)
                    got = [(c.name, c.type, o.getComponentByPosition(names.index(c.name))) for c in r.comps
                           if not c.open and (c.name in v or c.default is not None)]
                for name, t, x in got:
                    if t.kind != 'REF':
                        continue
                    res.states += 1
                    res.transitions += 1
                    res.traces += 1
                    res.count('classes read')
                    k = impl.schema(*t.ref).__class__
                    if not isinstance(x, k):
                        res.fail({'type': '%s.%s' % (mn, tn), 'value': '.%s of %s %s' % (name, how, impl.show(v)[:150]), 'task': repr([(mn, tn)])}, 'class',
                                 '%s is a %s.%s, should be a %s.%s' % (name, type(x).__module__, type(x).__name__, k.__module__, k.__name__))

    def transplant(self, S, mn, tn, r, vs, res):
        """Components of a decoded value make another value."""
        for v in vs:
            e = ref.encode(S, r, v)
            res.count('decoded and put together again')

            def f():
                src, _ = impl.der_decoder.decode(e, asn1Spec=impl.schema(mn, tn))
                o = impl.schema(mn, tn).clone()
                names = impl.check_names(r, src)
                if r.kind == 'CHOICE':
                    i = names.index(src.getName())
                    self.move(S, S.resolve(r.comps[i].type), src.getComponent(), o, i)
                    return o
                o.clear()
                for i, n in enumerate(names):
                    x = src.getComponentByPosition(i, default=None, instantiate=False)
                    if x is not None and x.isValue:
                        self.move(S, S.resolve([c for c in r.comps if c.name == n][0].type if n else r.comps[i].type), x, o, i)
                return o
            self.step(S, mn, tn, r, v, 'components of decoded %s' % impl.show(v)[:200], 'transplant', f, res)

    def move(self, S, cr, x, o, i):
        if resized(S, cr):
            # a copy of a sized list is not of the list's type to the library
            impl.put(S, cr, o, i, impl.walk(S, cr, x))
        else:
            o.setComponentByPosition(i, x)

    def alternatives(self, S, mn, tn, r, vs, res):
        one = {}
        for v in vs:
            one.setdefault(v[0], v)
        alts = [v for v in one.values() if v[0]]
        for a, b in itertools.permutations(alts, 2) if len(alts) <= 12 else zip(alts, alts[1:] + alts[:1]):
            cs = {c.name: c for c in r.comps}
            res.count('alternatives in turn')

            def f():
                o = impl.schema(mn, tn).clone()
                self.assign(S, r, o, cs[a[0]], a[1])
                self.assign(S, r, o, cs[b[0]], b[1])
                return o
            self.step(S, mn, tn, r, b, 'alternative %s after %s' % (b[0], a[0]), 'alternative', f, res)

    def lists(self, S, G, mn, tn, r, vs, tier, res):
        et = r.elem
        er = S.resolve(et)
        for v in vs:
            res.count('lists')
            if et.kind == 'REF' and not et.tags and v and not et.named:
                def f():
                    o = impl.schema(mn, tn)
                    o.extend([typed(S, et, x) for x in v])
                    return o
                self.step(S, mn, tn, r, v, 'extended with %d objects' % len(v), 'list', f, res)

                def f():
                    o = impl.schema(mn, tn)
                    for x in v:
                        o.append(typed(S, et, x))
                    return o
                self.step(S, mn, tn, r, v, '%d objects appended' % len(v), 'list', f, res)
            e = ref.encode(S, r, v)

            def f():
                src, _ = impl.der_decoder.decode(e, asn1Spec=impl.schema(mn, tn))
                o = impl.schema(mn, tn)
                o.clear()
                for i, x in enumerate(src):
                    self.move(S, er, x, o, i)
                return o
            self.step(S, mn, tn, r, v, 'elements of decoded %s' % impl.show(v)[:200], 'transplant', f, res)


def readable(S, r, mn, tn, v):
    try:
        impl.der_decoder.decode(ref.encode(S, r, v), asn1Spec=impl.schema(mn, tn))
        return True
    except Exception:                       # C01's business
        return False


def resized(S, r):
    return r.kind in ('SEQUENCE', 'SET', 'SEQUENCE OF', 'SET OF') and (
        bool(r.cons) or r.kind.endswith('OF') and resized(S, S.resolve(r.elem)))


def setof(S, r, seen=()):
    """Is there a SET OF below r (read back in the order written)?"""
    if id(r) in seen:
        return False
    seen += (id(r),)
    if r.kind == 'SET OF':
        return True
    if r.kind == 'SEQUENCE OF':
        return setof(S, S.resolve(r.elem), seen)
    return any(setof(S, S.resolve(c.type), seen) for c in r.comps or ())


CHECK = Compose()
