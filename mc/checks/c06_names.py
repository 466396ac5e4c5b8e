"""C06: named numbers and named bits.

Every node of every type that can carry names: each standard name gives its
number, each number prints as its name, a value set by name encodes as the
number, no name is missing and none is made up, and nodes without names take
none.  For named-bit lists every single bit, every pair and the whole set."""
import itertools
from .. import common, model, ref, gen, impl
from ..common import desc

KINDS = ('INTEGER', 'ENUMERATED', 'BIT STRING')


def at(S, r, o, path):
    """Schema object at a path of the type tree."""
    for p in path:
        if r.kind in ('SEQUENCE OF', 'SET OF'):
            r, o = S.resolve(r.elem), o.componentType
        else:
            c = [x for x in r.comps if x.name == p][0]
            i = [nt.name for nt in o.componentType.namedTypes].index(p)
            r, o = S.resolve(c.type), o.componentType.getTypeByPosition(i)
    return o


class Names(common.Check):
    id = 'C06'
    title = 'Named numbers and bits'

    def rule(self, tier):
        return 'every INTEGER, ENUMERATED and BIT STRING node, every name, every pair of names'

    def tasks(self, tier):
        return model.chunks(model.types(model.load()), 32)

    def run_task(self, task, tier, res):
        S = model.load()
        G = gen.Gen(S, 0)
        for mn, tn in task:
            r = S.resolve(S.modules[mn].types[tn])
            for path, n, wrap in model.sites(S, G, r, refs=1 if tier == 'quick' else 3):
                if n.kind in KINDS:
                    self.site(S, mn, tn, r, path, n, wrap, res)

    def site(self, S, mn, tn, r, path, n, wrap, res):
        where = ''.join('.' + p for p in path)
        case = {'type': '%s.%s' % (mn, tn), 'value': where}
        try:
            o = at(S, r, impl.schema(mn, tn), path)
            impl.need(o, {'INTEGER': impl.univ.Integer, 'ENUMERATED': impl.univ.Enumerated,
                          'BIT STRING': impl.univ.BitString}[n.kind])
        except Exception as e:
            return res.fail(case, 'shape', '%s: %s' % (where, desc(e)))
        names = n.named or []
        res.count('named nodes' if names else 'unnamed nodes')
        res.states += 1
        res.transitions += 1
        have = dict(o.namedValues.items())
        # several names may stand for one number; the library keeps one of them
        numbers = {}
        for k, v in names:
            numbers.setdefault(v, []).append(k)
        if {k for k in have if k not in dict(names)}:
            return res.fail(case, 'extra', '%s has names %r the standard has not' % (
                where, sorted(k for k in have if k not in dict(names))))
        for k, v in names:
            res.states += 1
            res.transitions += 3
            res.traces += 1
            c2 = dict(case, value='%s %s' % (where, k))
            if len(numbers[v]) > 1 and k not in have:
                continue
            if have.get(k) != v:
                res.fail(c2, 'name', '%s name %r stands for %r, should be %r' % (where, k, have.get(k), v))
                continue
            want = '0' * v + '1' if n.kind == 'BIT STRING' else v
            if not ref.satisfies(n, want):
                continue
            try:
                x = o.clone(k)
                got = ''.join(map(str, x)) if n.kind == 'BIT STRING' else int(x)
                if got != want:
                    res.fail(c2, 'set', '%s set to %r holds %r' % (where, k, got))
                if n.kind != 'BIT STRING':
                    y = o.clone(v).prettyPrint()
                    if y not in numbers[v] or v != dict(names)[y]:
                        res.fail(c2, 'print', '%s of %r prints as %r, should be %r' % (where, v, y, k))
                    if impl.der_encoder.encode(x) != ref.encode(S, n, v):
                        res.fail(c2, 'encode', '%s set to %r encodes as %s' % (where, k, impl.der_encoder.encode(x).hex()))
            except Exception as e:
                res.fail(c2, 'set', '%s cannot be set to %r: %s' % (where, k, desc(e)))
        if n.kind == 'BIT STRING' and names:
            combos = list(itertools.combinations(names, 2)) + [tuple(names)]
            for ks in combos:
                bits = ['0'] * (max(v for k, v in ks) + 1)
                for k, v in ks:
                    bits[v] = '1'
                want = ''.join(bits)
                if not ref.satisfies(n, want):
                    continue
                res.states += 1
                res.transitions += 1
                text = ','.join(k for k, v in ks)
                try:
                    got = ''.join(map(str, o.clone(text)))
                except Exception as e:
                    got = desc(e)
                if got != want:
                    res.fail(dict(case, value='%s %s' % (where, text)), 'set', '%s set to %r holds %s, should be %s' % (
                        where, text, got[:200], want))
        else:
            # an unnamed number must print as itself
            v = 1 + max([v for k, v in names] or [0]) if n.kind != 'BIT STRING' else None
            if v is not None and ref.satisfies(n, v):
                res.states += 1
                if o.clone(v).prettyPrint() != str(v):
                    res.fail(case, 'print', '%s of %d prints as %r' % (where, v, o.clone(v).prettyPrint()))

    def replay(self, case, res):
        S = model.load()
        self.run_task([tuple(case['type'].split('.'))], 'thorough', res)


CHECK = Names()
