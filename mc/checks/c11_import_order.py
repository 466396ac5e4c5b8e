"""C11: what is registered depends on which modules are loaded, not on the order.

State: the set of loaded modules.  Transition: importing one more.  Explored:
sequences of imports in forked processes that start with no module loaded; every
state reached along different orders must show the same registries, and no
transition may change or drop a registration already there."""
import itertools
from .. import common, spec, regs, fork, impl


def conflicts(S):
    """Groups of modules registering the same key."""
    out = set()
    for rn, d in S.registry_keys.items():
        for k, l in d.items():
            ms = sorted(set(m for m, t in l))
            if len(ms) > 1:
                out.add(tuple(ms))
    return sorted(out)


def path(names):
    """Child: import in order; report non-monotonic steps and the final state."""
    S = spec.load()
    before, bad = {}, []
    for n in names:
        regs.load([n])
        now = regs.snapshot(S)
        for rn in before:
            for k in before[rn]:
                if k not in now.get(rn, {}):
                    bad.append((n, rn, k, 'dropped'))
                elif now[rn][k] != before[rn][k]:
                    bad.append((n, rn, k, 'changed'))
        before = now
    regs._sigs.clear()                  # registered types must not have changed in place either
    now = regs.snapshot(S)
    for rn in now:
        for k in now[rn]:
            if now[rn][k] != before[rn][k]:
                bad.append((names[-1], rn, k, 'changed in place'))
    return now, bad, regs.loaded()


def types(names):
    """Child: structure of every published type when its module is loaded, and
    again when all are."""
    S = spec.load()
    first, bad, n = {}, [], 0
    for m in names:
        regs.load([m])
        for x in regs.loaded():
            if x not in first and x in S.modules:
                first[x] = look(S, x)
    for x in first:
        now = look(S, x)
        n += len(now)
        bad += ['%s.%s' % (x, t) for t in now if now[t] != first[x][t]]
    return n, bad


def look(S, m):
    mod = impl.module(m)
    out = {}
    for t in S.modules[m].types:
        x = getattr(mod, t)
        out[t] = hash(repr(regs.signature1(x)))
    for v in S.modules[m].values:
        out[v] = hash(repr(getattr(mod, v)))
    return out


def deep(names):
    regs.BEHAVIOUR.append(1)
    return path(names)


def pairs_of(a, bs):
    """Child with a loaded: for each b, fork again."""
    regs.load([a])
    out = {}
    for b in bs:
        out[b] = fork.run(after, [b])
    return out


def after(names):
    S = spec.load()
    first = regs.snapshot(S)
    regs.load(names)
    now = regs.snapshot(S)
    bad = [(rn, k) for rn in first for k in first[rn] if now.get(rn, {}).get(k) != first[rn][k]]
    return digest(now), bad, regs.loaded()


def digest(snap):
    import hashlib
    return hashlib.sha1(repr(sorted((rn, sorted(d.items(), key=repr)) for rn, d in snap.items())).encode()).hexdigest()


class Order(common.Check):
    id = 'C11'
    title = 'Import order does not matter'

    def rule(self, tier):
        if tier == 'quick':
            return 'all orders of up to 3 modules that register a common key; 10 orders of all modules; each registering module before and after each other that fills the same registry in forward and reverse order'
        return 'all ordered pairs of the 130 modules; all permutations of up to 4 modules with a common key; 40 orders of all modules'

    def tasks(self, tier):
        S = spec.load()
        out = []
        for g in conflicts(S):
            for n in (2, 3) if tier == 'quick' else (2, 3, 4):
                for c in itertools.combinations(g, n):
                    out.append(('perm', c))
        for key, ms in self.fillers(S).items():
            out.append(('seq', tuple(ms)))
        n = 10 if tier == 'quick' else 40
        for i in range(0, n, 2):
            out.append(('all', i, n))
        ms = sorted(S.modules)
        for i in range(0, 2 if tier == 'quick' else 12):
            k = i * len(ms) // 12
            out.append(('types', tuple(ms[k:] + ms[:k])[::1 if i % 2 else -1]))
        if tier != 'quick':
            for i, a in enumerate(ms):
                for j in range(0, len(ms), 33):
                    out.append(('pair', a, tuple(b for b in ms[j:j + 33] if b != a)))
        return list(dict.fromkeys(out))

    def fillers(self, S):
        d = {}
        for m in S.modules.values():
            for rm, rn, k, t in m.registers:
                d.setdefault((rm, rn), [])
                if m.name not in d[rm, rn]:
                    d[rm, rn].append(m.name)
        return {k: sorted(v) for k, v in d.items() if len(v) > 1}

    def run_task(self, task, tier, res):
        if task[0] == 'perm':
            self.same([list(p) for p in itertools.permutations(task[1])], task, res)
        elif task[0] == 'types':
            r = fork.run(types, list(task[1]))
            res.states += len(task[1])
            res.transitions += len(task[1])
            case = {'type': 'types', 'value': ' '.join(task[1][:5]), 'task': repr(task)}
            if r[0] != 'ok':
                return res.fail(case, 'import', r[1] + r[2])
            res.count('types compared', r[1][0])
            for t in r[1][1]:
                res.fail(dict(case, type=t), 'type', '%s changes when other modules are imported' % t)
        elif task[0] == 'seq':
            ms = list(task[1])
            orders = [ms, ms[::-1]]
            orders += [[m] + [x for x in ms if x != m] for m in ms] if len(ms) <= 12 or tier != 'quick' else []
            self.same(orders, task, res)
        elif task[0] == 'all':
            ms = sorted(spec.load().modules)
            k = task[1] * len(ms) // task[2]
            self.same([ms, ms[k:] + ms[:k], (ms[k:] + ms[:k])[::-1]], task, res)
        else:
            a, bs = task[1:]
            r = fork.run(pairs_of, a, bs)
            if r[0] != 'ok':
                return res.fail({'type': a, 'value': a, 'task': repr(task)}, 'import', r[1])
            for b, x in r[1].items():
                case = {'type': '%s,%s' % (a, b), 'value': '%s then %s' % (a, b), 'task': repr(('perm', tuple(sorted((a, b)))))}
                res.states += 1
                res.transitions += 2
                res.traces += 1
                if x[0] != 'ok':
                    res.fail(case, 'import', '%s after %s: %s' % (b, a, x[1]))
                    continue
                dg, bad, mods = x[1]
                # the other order, compared exactly; a difference is looked at closely
                if bad:
                    self.same([[a, b], [b, a]], ('perm', tuple(sorted((a, b)))), res)
                else:
                    self.pairs_seen = getattr(self, 'pairs_seen', 0) + 1
                if a < b:
                    y = fork.run(path, [b, a])
                    res.states += 1
                    res.transitions += 2
                    if y[0] != 'ok':
                        res.fail(case, 'import', '%s after %s: %s' % (a, b, y[1]))
                    elif digest(y[1][0]) != dg:
                        self.same([[a, b], [b, a]], ('perm', tuple(sorted((a, b)))), res)

    def same(self, orders, task, res):
        got = []
        for o in orders:
            r = fork.run(path, o)
            res.states += len(o)
            res.transitions += len(o)
            res.traces += 1
            res.count('orders')
            if r[0] != 'ok':
                return res.fail({'type': ','.join(sorted(o)[:3]), 'value': ' '.join(o)[:300], 'task': repr(task)}, 'import',
                                'importing %s: %s %s' % (' '.join(o)[:300], r[1], r[2]))
            got.append(r[1])
        ref0 = got[0]
        if all(digest(g[0]) == digest(ref0[0]) and not g[1] for g in got):
            return
        # constraints may be written differently and mean the same
        got = []
        for o in orders:
            r = fork.run(deep, o)
            if r[0] != 'ok':
                return res.fail({'type': ','.join(sorted(o)[:3]), 'value': ' '.join(o)[:300], 'task': repr(task)}, 'import', r[1])
            got.append(r[1])
        ref0 = got[0]
        seen = set()
        for o, (snap, bad, mods) in zip(orders, got):
            text = ' '.join(o) if len(o) < 6 else '%s ... (%d modules)' % (' '.join(o[:4]), len(o))
            for n, rn, k, what in bad:
                if (rn, k, what) not in seen:
                    seen.add((rn, k, what))
                    res.fail({'type': '%s.%s' % rn, 'value': dots(k), 'order': text, 'task': repr(task)}, 'monotone',
                             'importing %s in the order %s: registration of %s in %s.%s is %s' % (
                                 n, text, dots(k), rn[0], rn[1], what))
            for rn in set(snap) | set(ref0[0]):
                x, y = snap.get(rn, {}), ref0[0].get(rn, {})
                for k in set(x) | set(y):
                    if x.get(k) != y.get(k) and (rn, k, 'order') not in seen:
                        seen.add((rn, k, 'order'))
                        res.fail({'type': '%s.%s' % rn, 'value': dots(k), 'order': text, 'task': repr(task)}, 'order',
                                 '%s.%s[%s] differs between import orders %s and %s' % (
                                     rn[0], rn[1], dots(k), ' '.join(orders[0][:6]), text))


def dots(k):
    return '.'.join(map(str, k)) if isinstance(k, tuple) else str(k)


CHECK = Order()
