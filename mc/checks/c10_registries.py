"""C10: registries hold exactly the standard's identifiers, each with a type that
codes values as the standard's type does.

Explored: for every module, a fresh process importing just it; then one importing
all.  In each state every registry must hold exactly the registrations the model
gives for the modules then loaded; for every registered key every minimal, full
and per-alternative value of the standard's type is encoded and decoded through
the type found in the registry, with all modules loaded and with only the module
that registers it."""
from .. import common, spec, ref, gen, impl, regs, fork
from ..common import desc


def state(mn):
    """Runs in a child: import mn alone, look at every registry."""
    S = spec.load()
    names = sorted(S.modules) if mn == '*' else [mn]
    regs.load(names)
    return regs.snapshot(S, deep=False), regs.loaded()


def through(rn, keys, tier, alone=None):
    """Runs in a child with everything loaded, or one module only: use the
    registered types."""
    from .. import model
    S = model.load()
    regs.load([alone] if alone else sorted(S.modules))
    G = gen.Gen(S, 1 if tier == 'quick' else 2)
    live = {regs.key(k): t for k, t in getattr(impl.module(rn[0]), rn[1]).items()}
    out = []
    n = 0
    for key in keys:
        if key not in live:
            continue
        t = live[key]
        t = t() if isinstance(t, type) else t
        bad = []
        entries = [x for x in S.registry_keys[rn][key] if not alone or x[0] == alone]
        for mod, mt in entries:
            r = S.resolve(mt)
            err = None
            vs = [v for v in G.reduced(r) + G.variants(r) if not ref.lossy(S, r, v)]
            for v in vs:
                n += 1
                e = ref.encode(S, r, v)
                try:
                    b = impl.der_encoder.encode(impl.build(S, r, t, v))
                    o, rest = impl.der_decoder.decode(e, asn1Spec=t)
                    if b != e:
                        err = 'value %s encodes as %s, should be %s' % (impl.show(v)[:150], b.hex()[:150], e.hex()[:150])
                    elif rest or impl.walk(S, r, o) != impl.norm(S, r, v):
                        err = '%s decodes as %s' % (e.hex()[:150], impl.show(impl.walk(S, r, o))[:150])
                except Exception as x:
                    if exempt(S, r, v):
                        continue
                    err = '%s: %s' % (impl.show(v)[:150], desc(x))
                if err:
                    break
            if err:
                bad.append(err)
        if len(bad) == len(entries):
            out.append((key, bad[0]))
    return n, out


def exempt(S, r, v):
    """Known finding of C01: values of this type do not decode."""
    return (r.label or '').endswith('ESSCertIDv2') or (r.label or '').endswith('ChangeSubjectName')


class Registries(common.Check):
    id = 'C10'
    title = 'Registries hold exactly the standard registrations'

    def rule(self, tier):
        return 'every module alone, all together; every key through its registered type'

    def tasks(self, tier):
        S = spec.load()
        out = [('state', m) for m in sorted(S.modules)] + [('state', '*')]
        for rn, d in S.registry_keys.items():
            ks = sorted(d, key=repr)
            for i in range(0, len(ks), 40):
                out.append(('through', rn, tuple(ks[i:i + 40])))
            for m in sorted(set(x[0] for k in ks for x in d[k])):
                out.append(('through', rn, tuple(k for k in ks if any(x[0] == m for x in d[k])), m))
        return out

    def run_task(self, task, tier, res):
        S = spec.load()
        if task[0] == 'state':
            mn = task[1]
            r = fork.run(state, mn)
            res.states += 1
            res.traces += 1
            case = {'type': mn, 'value': 'import of %s' % mn, 'task': repr(task)}
            if r[0] != 'ok':
                return res.fail(case, 'import', '%s cannot be imported on its own: %s' % (mn, r[1]))
            snap, mods = r[1]
            want = regs.expected(S, mods)
            for rn in want:
                res.transitions += 1
                have = set(snap.get(rn, ()))
                for k in sorted(want[rn] - have, key=repr):
                    res.fail(dict(case, value='%s.%s %s' % (rn[0], rn[1], k)), 'missing',
                             'after importing %s, %s.%s lacks %s' % (mn, rn[0], rn[1], dots(k)))
                for k in sorted(have - want[rn], key=repr):
                    res.fail(dict(case, value='%s.%s %s' % (rn[0], rn[1], k)), 'extra',
                             'after importing %s, %s.%s holds %s, which no loaded module registers' % (
                                 mn, rn[0], rn[1], dots(k)))
            res.count('keys', sum(map(len, want.values())))
        else:
            rn, keys = task[1:3]
            alone = task[3] if len(task) > 3 else None
            r = fork.run(through, rn, keys, tier, alone)
            case = {'type': '%s.%s' % rn, 'value': '', 'task': repr(task)}
            if r[0] != 'ok':
                return res.fail(case, 'use', 'registered types cannot be used: %s %s' % (r[1], r[2]))
            n, out = r[1]
            res.states += n
            res.traces += n
            res.transitions += 2 * n
            for k, e in out:
                res.fail(dict(case, value=dots(k)), 'type', '%s.%s[%s]: %s' % (rn[0], rn[1], dots(k), e))
            res.samples.append('%s.%s: %d keys, %d values' % (rn[0], rn[1], len(keys), n))


def dots(k):
    return '.'.join(map(str, k)) if isinstance(k, tuple) else str(k)


CHECK = Registries()
