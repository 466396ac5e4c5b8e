"""C13: objects are isolated: using one never changes another, nor the schema.

Explored, per published constructed type: all histories of a bounded length over
{build, decode, decode damaged bytes, refill a live object, write into every part
of a throw-away object, read every part of one}.  After every step each live
object still encodes to its own value of the model; after every history a fresh
object, the defaults and the structure of the schema are as at the start."""
import itertools
from .. import common, model, ref, gen, impl, regs
from ..common import desc

OPS = ['build0', 'build1', 'decode0', 'decode1', 'damaged', 'refill0', 'refill1', 'write', 'read']


class Skip(Exception):
    pass


def defaults(obj, seen=()):
    """Encodings of the default values of a schema, by path."""
    out = []
    if isinstance(obj, (impl.univ.Sequence, impl.univ.Set)) and type(obj) not in seen:
        for nt in obj.componentType.namedTypes:
            if nt.isDefaulted:
                try:
                    out.append((nt.name, impl.der_encoder.encode(nt.asn1Object)))
                except Exception as e:
                    out.append((nt.name, type(e).__name__))
            out.append((nt.name, defaults(nt.asn1Object, seen + (type(obj),))))
    return tuple(out)


def scribble(S, G, r, obj, depth):
    """Write into every part of obj."""
    if r.kind in ('SEQUENCE', 'SET'):
        names = impl.check_names(r, obj)
        for c in r.comps:
            cr = S.resolve(c.type)
            i = names.index(c.name)
            try:
                if cr.kind in impl.CONSTRUCTED:
                    if depth:
                        scribble(S, G, cr, obj.getComponentByPosition(i), depth - 1)
                else:
                    obj.setComponentByPosition(i, impl.native(cr, gen.candidates(cr)[-1]))
            except common.Timeout:
                raise
            except Exception:
                pass                    # e.g. a value the constraints of this place refuse
    elif r.kind == 'CHOICE':
        names = impl.check_names(r, obj)
        for c in r.comps:
            cr = S.resolve(c.type)
            i = names.index(c.name)
            try:
                if cr.kind in impl.CONSTRUCTED:
                    if depth:
                        scribble(S, G, cr, obj.getComponentByPosition(i), depth - 1)
                else:
                    obj.setComponentByPosition(i, impl.native(cr, gen.candidates(cr)[-1]))
            except common.Timeout:
                raise
            except Exception:
                pass
    elif r.kind in ('SEQUENCE OF', 'SET OF'):
        er = S.resolve(r.elem)
        for i in range(2):
            try:
                if er.kind in impl.CONSTRUCTED:
                    if depth:
                        scribble(S, G, er, obj.getComponentByPosition(i), depth - 1)
                else:
                    obj.setComponentByPosition(i, impl.native(er, gen.candidates(er)[-1]))
            except common.Timeout:
                raise
            except Exception:
                pass


def look(obj, depth):
    """Read every part of obj."""
    try:
        if isinstance(obj, (impl.univ.Sequence, impl.univ.Set, impl.univ.Choice)):
            for i in range(len(obj.componentType.namedTypes)):
                x = obj.getComponentByPosition(i)
                if depth:
                    look(x, depth - 1)
        elif isinstance(obj, (impl.univ.SequenceOf, impl.univ.SetOf)):
            for i in range(len(obj)):
                look(obj.getComponentByPosition(i), depth - 1)
        obj.prettyPrint()
        repr(obj)
    except common.Timeout:
        raise
    except Exception:
        pass


class Isolation(common.Check):
    id = 'C13'
    title = 'Objects are isolated'

    def rule(self, tier):
        return 'all histories of %d operations of %d kinds on every published constructed type' % (2 if tier == 'quick' else 4, len(OPS))

    def tasks(self, tier):
        S = model.load()
        ts = [t for t in model.types(S) if S.resolve(S.modules[t[0]].types[t[1]]).kind in impl.CONSTRUCTED]
        return model.chunks(ts, 64 if tier == 'quick' else 160)

    def run_task(self, task, tier, res):
        S = model.load()
        self.deep = 1 if tier == 'quick' else 3
        before = {t: self.state(S, *t) for t in task}
        for mn, tn in task:
            self.one(S, mn, tn, 2 if tier == 'quick' else 4, res)
        for mn, tn in task:
            if self.state(S, mn, tn) != before[mn, tn]:
                res.fail({'type': '%s.%s' % (mn, tn), 'value': 'after the histories of all types', 'task': repr(task)}, 'schema',
                         'the schema of %s.%s or its default values are changed by use' % (mn, tn))

    def state(self, S, mn, tn):
        o = impl.schema(mn, tn)
        return regs.signature1(o), defaults(o)

    def values(self, S, G, r):
        vs = []
        for v in G.reduced(r) + G.variants(r):
            if not ref.lossy(S, r, v):
                e = ref.encode(S, r, v)
                if e not in [x[1] for x in vs]:
                    vs.append((v, e))
        if not vs:
            raise Skip
        big = max(vs, key=lambda x: len(x[1]) if len(x[1]) < 800 else 0)
        return [vs[0], big]

    def one(self, S, mn, tn, depth, res, only=None):
        r = S.resolve(S.modules[mn].types[tn])
        G = gen.Gen(S, 0)
        try:
            vals = self.values(S, G, r)
            sch = impl.schema(mn, tn)
            for v, e in vals:           # types that cannot do this much are other checks' business
                if impl.der_encoder.encode(impl.build(S, r, sch, v)) != e:
                    raise Skip
                o, rest = impl.der_decoder.decode(e, asn1Spec=sch)
                if rest or impl.der_encoder.encode(o) != e:
                    raise Skip
        except common.Timeout:
            raise
        except Exception:
            res.count('types left to C01')
            return
        start = self.state(S, mn, tn)
        kinds = set()
        for n in range(1, depth + 1):
            for seq in itertools.product(OPS, repeat=n):
                if only is not None and list(seq) != only:
                    continue
                if seq[0].startswith('refill') or n > 1 and seq[-1][:5] in ('build', 'decod'):
                    continue                    # the probes at the end of every history build and decode
                res.states += 1
                res.traces += 1
                case = {'type': '%s.%s' % (mn, tn), 'value': ' '.join(seq), 'seq': list(seq)}
                bad = self.history(S, G, mn, tn, r, vals, seq, res)
                if bad and bad.split(':')[0] not in kinds:
                    kinds.add(bad.split(':')[0])
                    res.fail(case, 'history', '%s.%s after %s: %s' % (mn, tn, ' '.join(seq), bad))
        if self.state(S, mn, tn) != start:
            res.fail({'type': '%s.%s' % (mn, tn), 'value': 'all histories'}, 'schema',
                     'the schema of %s.%s or its default values are changed by use' % (mn, tn))

    def history(self, S, G, mn, tn, r, vals, seq, res):
        live = []               # (object, encoding it must have)
        for op in seq:
            res.transitions += 1
            try:
                if op.startswith('build'):
                    v, e = vals[int(op[-1])]
                    live.append([impl.build(S, r, impl.schema(mn, tn), v), e])
                elif op.startswith('decode'):
                    v, e = vals[int(op[-1])]
                    live.append([impl.der_decoder.decode(e, asn1Spec=impl.schema(mn, tn), decodeOpenTypes=len(live) % 2 == 1)[0], e])
                elif op.startswith('refill') and live:
                    v, e = vals[int(op[-1])]
                    impl.fill(S, r, live[0][0], v)
                    live[0][1] = e
                elif op == 'damaged':
                    for e in (vals[1][1][:-1], vals[1][1] + b'', b'\x30\x80'):
                        try:
                            impl.der_decoder.decode(e, asn1Spec=impl.schema(mn, tn))
                        except common.Timeout:
                            raise
                        except Exception:
                            pass
                elif op == 'write':
                    scribble(S, G, r, impl.schema(mn, tn).clone(), self.deep)
                    o = impl.der_decoder.decode(vals[1][1], asn1Spec=impl.schema(mn, tn))[0]
                    scribble(S, G, r, o, self.deep)
                elif op == 'read':
                    look(impl.schema(mn, tn).clone(), self.deep)
                    look(impl.der_decoder.decode(vals[0][1], asn1Spec=impl.schema(mn, tn))[0], self.deep)
            except common.Timeout:
                raise
            except Exception as ex:
                return '%s fails: %s' % (op, desc(ex))
            bad = self.intact(live)
            if bad:
                return bad
        for i, (v, e) in enumerate(vals):
            try:
                o = impl.der_decoder.decode(e, asn1Spec=impl.schema(mn, tn))[0]
                w = impl.walk(S, r, o)
                b = impl.der_encoder.encode(impl.build(S, r, impl.schema(mn, tn), v))
            except common.Timeout:
                raise
            except Exception as ex:
                return 'value %d can no longer be coded: %s' % (i, desc(ex))
            if w != impl.norm(S, r, v):
                return 'value %d reads as %s' % (i, impl.show(w)[:300])
            if b != e:
                return 'value %d, built anew, encodes as %s' % (i, b.hex()[:200])
        return self.intact(live)

    def intact(self, live):
        for i, (o, e) in enumerate(live):
            try:
                b = impl.der_encoder.encode(o)
            except Exception as ex:
                return 'object %d can no longer be encoded: %s' % (i, desc(ex))
            if b != e:
                return 'object %d encodes as %s, its value is %s' % (i, b.hex()[:200], e.hex()[:200])

    def replay(self, case, res):
        S = model.load()
        mn, tn = case['type'].split('.')
        self.deep = 2
        self.one(S, mn, tn, max(2, len(case.get('seq', ()))), res)


CHECK = Isolation()
