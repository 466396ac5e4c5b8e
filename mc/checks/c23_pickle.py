"""C23: objects and schemas survive pickling.

Explored, for every published type: every value of the model, as built and as
decoded, every registered type as a resolved open component, and the schema
itself; every pickle protocol; restored in the same process and in a fresh one
that has imported nothing.  The restored object is the same value, of the same
class, and independent of the original; the restored schema decodes.  The same
for copy.copy and copy.deepcopy; the library cannot copy absent components
deeply, so only objects without any are copied that way."""
import copy, pickle, subprocess, sys
from pyasn1.type import base
from .. import common, model, ref, gen, impl, opens, fork
from ..common import desc
from .c08_opentypes import forms, decode


COPIES = [('deepcopy', copy.deepcopy), ('copy', copy.copy)]


def wipe(x, depth=0):
    """Clears every constructed object within x, the innermost first."""
    if depth > 8 or not isinstance(x, base.ConstructedAsn1Type) or not x.isValue:
        return
    for y in list(x.components) if hasattr(x, 'components') else list(x.values()):
        wipe(y, depth + 1)
    x.clear()


class Pickle(common.Check):
    id = 'C23'
    title = 'Objects survive pickling'
    assumptions = ['the model in /verif/spec states the standards correctly']

    def rule(self, tier):
        return 'every %s value of every type x {built, decoded} x protocols %s x {same process, fresh process}; every schema; every registered type in every open component' % (
            ('minimal and full', '2 and highest') if tier == 'quick' else ('depth-1', '2 to highest'))

    def tasks(self, tier):
        S = model.load()
        n = 3 if tier == 'quick' else 12
        return [(m, i, n) for m in sorted(S.modules, key=lambda m: -len(S.modules[m].types)) for i in range(n)]

    def run_task(self, task, tier, res):
        # in a process of its own: what else is loaded makes the pickles large
        a = fork.run(self.isolated, task, tier)
        if a[0] != 'ok':
            return res.fail({'type': task[0], 'task': repr(task)}, 'explore', '%s %s' % a[1:])
        res.merge(a[1])

    def isolated(self, task, tier):
        res = common.Result()
        task, part, parts = task
        S = model.load()
        impl.module(task)
        protocols = (2, pickle.HIGHEST_PROTOCOL) if tier == 'quick' else range(2, pickle.HIGHEST_PROTOCOL + 1)
        todo = []        # (case, class, octets expected, pickle, octets for a schema)
        for case, r, o, e in self.values(S, task, part, parts, tier, res):
            res.states += 1
            for how, f in COPIES:
                res.transitions += 1
                try:
                    x = f(o)
                except Exception as ex:
                    if how == 'deepcopy' and '__deepcopy__' in str(ex):
                        res.count('absent components, which the library cannot copy deeply')
                        continue
                    res.fail(case, 'copy', 'cannot be copied (%s): %s' % (how, desc(ex)))
                    break
                self.same(dict(case, protocol=how), x, o, e, res, how != 'copy')
            for p in protocols if case['how'] != 'resolved' else protocols[-1:]:
                res.transitions += 1
                try:
                    d = pickle.dumps(o, p)
                    x = pickle.loads(d)
                except Exception as ex:
                    res.fail(dict(case, protocol=p), 'pickle', 'cannot be pickled and restored (protocol %d): %s' % (p, desc(ex)))
                    break
                self.same(dict(case, protocol=p), x, o, e, res)
                if p == pickle.HIGHEST_PROTOCOL or tier != 'quick' and p == 2:
                    todo.append((dict(case, protocol=p), type(o), e, d, None))
        for tn in sorted(S.modules[task].types)[part::parts]:
            r = S.resolve(S.modules[task].types[tn])
            s = impl.schema(task, tn)
            case = {'type': '%s.%s' % (task, tn), 'value': 'the schema', 'task': repr((task, part, parts))}
            try:
                d = pickle.dumps(s)
                x = pickle.loads(d)
            except Exception as ex:
                res.fail(case, 'schema', 'the schema cannot be pickled and restored: ' + desc(ex))
                continue
            for v in gen.Gen(S, 0).reduced(r)[:2 if tier == 'quick' else None]:
                if ref.lossy(S, r, v):
                    continue
                e = ref.encode(S, r, v)
                res.states += 1
                res.transitions += 1
                try:
                    o, rest = impl.der_decoder.decode(e, asn1Spec=x)
                    if impl.der_encoder.encode(o) != e or rest or type(o) is not type(s):
                        res.fail(case, 'schema', 'the restored schema decodes %s otherwise' % e.hex()[:200])
                    todo.append((case, type(o), e, d, e))
                except Exception as ex:
                    res.fail(case, 'schema', 'the restored schema refuses %s: %s' % (e.hex()[:200], desc(ex)))
        self.fresh(todo, res)
        if todo:
            res.samples.append('%s, %d pickles restored in a fresh process' % (task, len(todo)))
        return res

    def values(self, S, mn, part, parts, tier, res):
        G = gen.Gen(S, 0)
        for tn in sorted(S.modules[mn].types)[part::parts]:
            r = S.resolve(S.modules[mn].types[tn])
            try:
                vs = G.reduced(r)
                vs = vs[:1] + vs[1:][-1:] if tier == 'quick' else vs + G.variants(r)
            except gen.NoValue:
                continue
            for v in vs:
                if ref.lossy(S, r, v):
                    continue
                e = ref.encode(S, r, v)
                case = {'type': '%s.%s' % (mn, tn), 'value': impl.show(v)[:600], 'task': repr((mn, part, parts))}
                try:
                    o = impl.build(S, r, impl.schema(mn, tn), v)
                    if impl.der_encoder.encode(o) == e and impl.der_encoder.encode(o) == e:     # else C01's, C13's business
                        yield dict(case, how='built'), r, o, e
                    o, _ = impl.der_decoder.decode(e, asn1Spec=impl.schema(mn, tn))
                    if impl.der_encoder.encode(o) == e:
                        yield dict(case, how='decoded'), r, o, e
                except Exception:
                    res.count('values left to C01')
        seen = set()
        for m2, tn, path, n, c, wrap in opens.sites(S, G):
            home = m2 == c.open[1][0] and c.open[1] not in seen
            if home:
                seen.add(c.open[1])
            if tier == 'quick' and not home or tier != 'quick' and m2 != mn:
                continue
            keys = [k for k in sorted(S.registry_keys[c.open[1]], key=repr)
                    if tier != 'quick' or any(x == mn for x, _ in S.registry_keys[c.open[1]][k])][part::parts]
            r = S.resolve(S.modules[m2].types[tn])
            m = G.minimal(n)
            for key in keys:
                regs = [x for x in S.registry_keys[c.open[1]][key] if tier != 'quick' or x[0] == mn]
                impl.module(regs[0][0])
                t = S.resolve(regs[0][1])
                try:
                    pay = [ref.encode(S, t, pv) for pv in G.reduced(t) if not ref.lossy(S, t, pv)]
                except gen.NoValue:
                    continue
                for x in forms(S, c, pay[:1] if tier == 'quick' else pay):
                    v = dict(m)
                    v[c.open[0]] = key
                    v[c.name] = x
                    v = wrap({k.name: v[k.name] for k in n.comps if k.name in v})
                    e = ref.encode(S, r, v)
                    try:
                        o, _ = decode(m2, tn, e, decodeOpenTypes=True)
                        b = impl.der_encoder.encode(o)
                        if impl.der_encoder.encode(o) != b:     # C13's business
                            continue
                    except Exception:                           # C08's business
                        continue
                    if b == e:
                        res.count('resolved open components')
                        yield {'type': '%s.%s' % (m2, tn), 'value': impl.show(v)[:600], 'task': repr((mn, part, parts)), 'how': 'resolved'}, r, o, e

    def same(self, case, x, o, e, res, deep=True):
        try:
            b = impl.der_encoder.encode(x)
            if b != e:
                res.fail(case, 'restored', 'restored object encodes as %s, was %s' % (b.hex()[:200], e.hex()[:200]))
            elif type(x) is not type(o):
                res.fail(case, 'restored', 'restored object is a %s' % type(x).__name__)
            elif x is o and hasattr(o, 'clear'):
                res.fail(case, 'restored', 'not a new object')
            elif hasattr(x, 'clear') and deep:
                wipe(x)
                if impl.der_encoder.encode(o) != e:
                    res.fail(case, 'independent', 'clearing the restored object changed the original')
        except Exception as ex:
            res.fail(case, 'restored', 'restored object: ' + desc(ex))

    def fresh(self, todo, res):
        p = subprocess.run([sys.executable, '-m', 'mc.revive'], cwd=common.ROOT, stdout=subprocess.PIPE,
                           input=pickle.dumps([(d, x) for _, _, _, d, x in todo]), timeout=500)
        if p.returncode:
            return res.fail({'type': 'fresh process'}, 'fresh', 'the fresh process fails with %d' % p.returncode)
        for (case, cls, e, d, x), a in zip(todo, pickle.loads(p.stdout)):
            res.traces += 1
            res.transitions += 1
            if a != ('ok', cls.__module__ + '.' + cls.__qualname__, e):
                res.fail(case, 'fresh', 'restored in a fresh process: %s' % (a,))

    def replay(self, case, res):
        import ast
        self.run_task(ast.literal_eval(case['task']), 'thorough', res)


CHECK = Pickle()
