"""C28: objects act as the Python values they stand for.

Explored: every value of every type (depth bound), built and decoded, and all
ordered pairs of the values of a type: comparison, order and hash as the values
have, lists as lists, structures as mappings from component names, choices by the
name of the alternative, scalars as numbers, octets, text and tuples.  Oracle: the
same operation on the abstract value."""
import itertools
from .. import common, model, ref, gen, impl
from ..common import desc
from pyasn1.type import base, univ
from pyasn1 import error


class Unordered(Exception):
    """The library cannot compare what is absent with what is there."""


def equal(S, r, v, w):
    """What == says: alternatives of a CHOICE count for their contents alone."""
    k = r.kind
    if k in ('SEQUENCE', 'SET'):
        for c in r.comps:
            a, b = c.name in v, c.name in w
            q = S.resolve(c.type)
            d = ref.default(S, c) if c.default is not None else None
            if d is None and a != b:
                raise Unordered
            if (a or b or d is not None) and not equal(S, q, v.get(c.name, d), w.get(c.name, d)):
                return False
        return True
    if k == 'CHOICE':
        if v[0] != w[0]:
            raise Unordered
        return equal(S, S.resolve([c.type for c in r.comps if c.name == v[0]][0]), v[1], w[1])
    if k in ('SEQUENCE OF', 'SET OF'):
        q = S.resolve(r.elem)
        return len(v) == len(w) and all(equal(S, q, x, y) for x, y in zip(v, w))
    return v == w


class Bad(Exception):
    pass


def need(ok, what):
    if not ok:
        raise Bad(what)


def acts(S, r, o, v, depth=0):
    """Object o acts as v."""
    k = r.kind
    need(o.isValue, 'has no value')
    if k in ('SEQUENCE', 'SET'):
        names = impl.check_names(r, o)
        need(len(o.componentType) == len(names), 'components')
        for c in r.comps:
            if c.name not in v and c.default is None:
                continue
            x = o.getComponentByName(names[names.index(c.name)]) if '' not in names else o.getComponentByPosition(names.index(c.name))
            if '' not in names:
                need(c.name in o, '%r in the object' % c.name)
                need(o[c.name] is x, '[%r] and getComponentByName differ' % c.name)
                need(o[names.index(c.name)] is x, '[%d] and [%r] differ' % (names.index(c.name), c.name))
            acts(S, S.resolve(c.type), x, v[c.name] if c.name in v else ref.default(S, c), depth + 1)
        need(list(o) == names, 'iterates over %r' % list(o))
        need('no such component' not in o, 'a component nobody declared')
        if all(c.name in v or c.default is not None for c in r.comps):
            need(list(o.keys()) == names and [n for n, x in o.items()] == names and len(list(o.values())) == len(names), 'keys, items or values')
            need(all(a is b for a, b in zip(o.values(), (o[i] for i in range(len(names))))), 'values()')
    elif k == 'CHOICE':
        impl.check_names(r, o)
        need(len(o) == 1 and bool(o), 'an alternative is chosen')
        if '' not in [c.name for c in r.comps]:
            n = o.getName()
            need(n == v[0] and n in o and list(o) == [n] and o[n] is o.getComponent(), 'alternative %r' % n)
            need(not any(c.name in o for c in r.comps if c.name != n), 'another alternative in it')
        acts(S, S.resolve([c.type for c in r.comps if c.name == v[0]][0]), o.getComponent(), v[1], depth + 1)
    elif k in ('SEQUENCE OF', 'SET OF'):
        q = S.resolve(r.elem)
        need(len(o) == len(v) and bool(o) == bool(v), 'length %d' % len(o))
        xs = list(o)
        need(len(xs) == len(v), 'iterates over %d' % len(xs))
        for i, x in enumerate(v):
            need(xs[i] is o[i] and o.getComponentByPosition(i) is xs[i], '[%d]' % i)
            acts(S, q, xs[i], x, depth + 1)
    else:
        scalar(r, k, o, v)


def part(r, o, v, f):
    """Slices are objects of the type, if it has them."""
    return all(f(o[i:j]) == v[i:j] for i, j in ((0, 2), (1, None), (0, -1)) if r.kind == 'ANY' or ref.satisfies(r, v[i:j]))


def scalar(r, k, o, v):
    if k in ('INTEGER', 'ENUMERATED'):
        need(int(o) == v and o == v and v == o and not o != v, 'int %r' % int(o))
        need(not o == v + 1 and o != v - 1 and o < v + 1 and o > v - 1 and o <= v and o >= v, 'order')
        need(hash(o) == hash(v) and {v: 1}.get(o) == 1, 'hash')
        need(bool(o) == bool(v) and [10, 11][o > v] == 10, 'truth')
        need(range(9)[o] == v if 0 <= v < 9 else True, 'index')
        for a, f in (('abs', abs), ('sum', lambda x: x + 1), ('difference', lambda x: x - 1), ('product', lambda x: x * 2), ('remainder', lambda x: x % 7)):
            if k == 'INTEGER' and ref.satisfies(r, f(v)):       # arithmetic gives objects of the type
                need(f(o) == f(v), a)
    elif k == 'BOOLEAN':
        need(bool(o) == v and o == v and int(o) == int(v) and (not o) == (not v), 'truth')
    elif k == 'NULL':
        need(o == b'' or o == '' or not o, 'null')
    elif k == 'BIT STRING':
        bits = tuple(map(int, v))
        need(tuple(o) == bits and len(o) == len(bits) and o == bits and not o != bits, 'bits %r' % (tuple(o),))
        need(all(o[i] == bits[i] for i in range(len(bits))), 'indexing')
        need(o.asInteger() == int(v or '0', 2) and o.asNumbers() == tuple(o.asOctets()), 'number')
        need(o.asBinary() == (v or '0') or o.asBinary().rjust(len(v), '0') == v, 'binary %r' % o.asBinary())
        need(o != bits + (1,), 'longer bits')
    elif k == 'ANY' and v == b'\x05\x00' and isinstance(o, univ.Null):
        pass                                    # a default given as a NULL
    elif k in ('OCTET STRING', 'ANY'):
        need(bytes(o) == v and o == v and not o != v and o.asOctets() == v and tuple(o.asNumbers()) == tuple(v), 'octets %r' % bytes(o))
        need(len(o) == len(v) and bool(o) == bool(v) and o != v + b'x', 'length')
        need(hash(o) == hash(v) and {v: 1}.get(o) == 1, 'hash')
        need(part(r, o, v, bytes) and all(o[i] == v[i] for i in range(min(4, len(v)))), 'slices')
        need(list(o) == list(v), 'iterates')
    elif k == 'OBJECT IDENTIFIER':
        need(tuple(o) == v and o == v and not o != v and len(o) == len(v) and o.asTuple() == v, 'arcs %r' % (tuple(o),))
        need(hash(o) == hash(v) and {v: 1}.get(o) == 1, 'hash')
        need(o[0] == v[0] and o[-1] == v[-1], 'arcs')
        need(list(gen.atoms(r.cons)) or tuple(o[:2]) == v[:2] and tuple(o + (1,)) == v + (1,), 'slices')
        need(str(o) == '.'.join(map(str, v)) and o != v + (1,) and o < v + (1,), 'text or order')
        longer = univ.ObjectIdentifier(v + (5,))
        need(o.isPrefixOf(longer) and o.isPrefixOf(o) and not longer.isPrefixOf(o), 'prefix')
    elif k in ('UTCTime', 'GeneralizedTime'):
        need(str(o) == v and o == v and hash(o) == hash(v) and len(o) == len(v), 'text %r' % str(o))
        t = o.asDateTime
        w = v.rstrip('Z')
        w = w if k != 'UTCTime' else ('20' if int(w[:2]) < 69 else '19') + w
        need((t.year, t.month, t.day, t.hour, t.minute) == (int(w[:4]), int(w[4:6]), int(w[6:8]), int(w[8:10]), int(w[10:12])), 'date %r' % t)
        need(t.utcoffset().total_seconds() == 0, 'zone')
        need(k != 'UTCTime' or type(o).fromDateTime(t) == v, 'from a date')
    else:
        need(str(o) == v and o == v and v == o and not o != v, 'text %r' % str(o))
        need(len(o) == len(v) and bool(o) == bool(v) and o != v + 'x', 'length')
        need(hash(o) == hash(v) and {v: 1}.get(o) == 1, 'hash')
        need(part(r, o, v, str), 'slices')
        need(bytes(o) == v.encode(ref.CODECS[k]) and o < v + 'x', 'octets')


class Values(common.Check):
    id = 'C28'
    title = 'Objects act as the Python values they stand for'
    assumptions = ['the model in /verif/spec states the standards correctly',
                   'absent components cannot be compared with present ones in pyasn1, and a CHOICE compares as its contents']

    def rule(self, tier):
        return 'every value of every type, deviations %d deep, built and decoded; all ordered pairs of up to %d values of each type' % (
            1 if tier == 'quick' else 2, self.pairs(tier))

    def pairs(self, tier):
        return 16 if tier == 'quick' else 60

    def tasks(self, tier):
        return model.chunks(model.types(model.load()), 64)

    def run_task(self, task, tier, res):
        S = model.load()
        G = gen.Gen(S, 1 if tier == 'quick' else 2)
        for mn, tn in task:
            r = S.resolve(S.modules[mn].types[tn])
            try:
                vs = G.reduced(r) + G.variants(r) + ([] if tier == 'quick' and r.kind in ('SEQUENCE OF', 'SET OF') else G.rich(r))
            except gen.NoValue:
                continue
            vs = [v for v in G.dedup(r, vs) if not ref.lossy(S, r, v)]
            res.count('types')
            for v in vs:
                self.one(S, mn, tn, r, v, res)
            for v, w in itertools.product(vs[:self.pairs(tier)], repeat=2):
                self.pair(S, mn, tn, r, v, w, res)

    def one(self, S, mn, tn, r, v, res):
        case = {'type': '%s.%s' % (mn, tn), 'value': impl.show(v)[:600], 'literal': repr((mn, tn, v))}
        res.states += 1
        try:
            s = impl.schema(mn, tn)
            e = ref.encode(S, r, v)
            a = impl.build(S, r, s, v)
            if impl.der_encoder.encode(a) != e:
                raise ValueError
            b, _ = impl.der_decoder.decode(e, asn1Spec=s)
            if impl.der_encoder.encode(b) != e:
                raise ValueError
        except Exception:
            return res.count('values left to C01')
        for how, o in (('built', a), ('decoded', b)):
            res.transitions += 1
            try:
                w = v if how == 'built' else ref.decode(S, r, e)
                acts(S, r, o, w)
                res.traces += 1
                try:
                    same = impl.der_encoder.encode(o) == e
                except Exception:
                    same = True                 # what is encoded once only is C13's business
                if not same:
                    res.fail(case, 'changed', 'the %s object is changed by looking at it' % how)
            except Exception as ex:
                res.fail(case, 'acts', 'the %s object: %s' % (how, desc(ex)))

    def pair(self, S, mn, tn, r, v, w, res):
        case = {'type': '%s.%s' % (mn, tn), 'value': '%s and %s' % (impl.show(v)[:300], impl.show(w)[:300]), 'literal': repr((mn, tn, v, w))}
        s = impl.schema(mn, tn)
        try:
            same = equal(S, r, v, w)
        except Unordered:
            return res.count('not comparable')
        if same and v != w:                     # a default, given or not
            return res.count('not comparable')
        try:
            a = impl.build(S, r, s, v)
            b = impl.build(S, r, s, w)
        except Exception:
            return
        res.states += 1
        res.transitions += 2
        try:
            if bool(a == b) != same or bool(a != b) == same:
                res.fail(case, 'compare', '== says %r and != says %r' % (a == b, a != b))
            if r.kind in ('INTEGER', 'ENUMERATED') and ((a < b) != (v < w) or (a >= b) != (v >= w)):
                res.fail(case, 'compare', 'order')
            if same and isinstance(a, base.SimpleAsn1Type) and r.kind != 'BIT STRING' and hash(a) != hash(b):
                res.fail(case, 'compare', 'hash')
        except error.PyAsn1Error as ex:
            if 'Attempted "__' in str(ex) or 'Bad BitString init' in str(ex):      # absent here, present there; bits in a CHOICE
                return res.count('not comparable')
            res.fail(case, 'compare', desc(ex))
        except Exception as ex:
            res.fail(case, 'compare', desc(ex))

    def replay(self, case, res):
        import ast
        S = model.load()
        mn, tn, *v = ast.literal_eval(case['literal'])
        r = S.resolve(S.modules[mn].types[tn])
        (self.one if len(v) == 1 else self.pair)(S, mn, tn, r, *v, res)


CHECK = Values()
