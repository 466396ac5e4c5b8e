"""C12: importing a module is safe while other threads use the registries.

The scheduler is the interpreter's trace hook: every line (thorough: every
bytecode) executed at module level while a module and its dependencies are
imported is a point where another thread may run.  At each one an observer looks
at all registries: what was registered stays, what appears is a registration of
the model and already in its final form.  Then, for modules that share a
registry, a second real thread imports another module at every such point where
a registry has just changed, and at the first and last line: both imports must
finish and leave the state some sequential order leaves."""
import sys, threading
from .. import common, spec, regs, fork, impl
from .c11_import_order import conflicts, dots


class Watch(object):
    def __init__(self, S, opcodes=False):
        self.S = S
        self.maps = [(m.name, n) for m in S.modules.values() for n in m.maps]
        self.allowed = {rn: set(d) for rn, d in S.registry_keys.items()}
        self.seen = {}
        self.sizes = {}
        self.points = 0
        self.changes = 0
        self.bad = []
        self.born = []              # (where, registry, key, type, signature when it appeared)
        self.opcodes = opcodes
        self.thread = threading.get_ident()

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if 'pyasn1_modules' not in f or threading.get_ident() != self.thread:
            return None
        if frame.f_code.co_name != '<module>' and not self.opcodes:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        self.observe('%s:%d' % (frame.f_code.co_filename.rsplit('/', 1)[-1], frame.f_lineno))
        return self.local

    def observe(self, where):
        self.points += 1
        changed = False
        for mn, name in self.maps:
            mod = sys.modules.get(regs.PKG + mn)
            d = getattr(mod, name, None) if mod is not None else None
            if d is None:
                continue
            old = self.seen.setdefault((mn, name), {})
            if len(d) == len(old) and self.sizes.get((mn, name)) == list(map(id, d.values())):
                continue
            self.sizes[mn, name] = list(map(id, d.values()))
            changed = True
            now = {regs.key(k): v for k, v in list(d.items())}
            for k in old:
                if k not in now:
                    self.bad.append((where, (mn, name), k, 'vanishes'))
            for k, v in now.items():
                if k not in old or old[k] is not v:
                    if k not in self.allowed.get((mn, name), ()):
                        self.bad.append((where, (mn, name), k, 'is visible for a moment, though nobody registers it'))
                        continue
                    try:
                        s = regs.signature1(v)
                    except Exception as e:
                        s = repr(e)
                    self.born.append((where, (mn, name), k, v, s))
            self.seen[mn, name] = now
        if changed:
            self.changes += 1


def lines(mn, opcodes):
    """Child: import mn, observing at every point."""
    S = spec.load()
    w = Watch(S, opcodes)
    sys.settrace(w.trace)
    try:
        regs.load([mn])
    finally:
        sys.settrace(None)
    w.observe('end')
    for where, rn, k, v, s in w.born:
        try:
            now = regs.signature1(v)
        except Exception as e:
            now = repr(e)
        if now != s:
            w.bad.append((where, rn, k, 'is visible before its type is complete'))
    return w.points, w.changes, len(w.born), w.bad


def sequential(names):
    regs.load(names)
    return regs.snapshot(spec.load())


def settled(t, ident):
    """Wait until the second thread has ended or waits for a module another
    thread is importing (the import system's own record of who waits)."""
    boot = sys.modules.get('_frozen_importlib')
    waits = getattr(boot, '_blocking_on', {})
    still = 0
    for i in range(2000):
        t.join(0.003)
        if not t.is_alive():
            return True
        still = still + 1 if ident and waits.get(ident[0]) else 0
        if still >= 8:
            return False
    return False


def two(a, b, at):
    """Child: thread 1 imports a; when its at-th preemption point comes, it stands
    still while thread 2 imports b, until b is done or needs a module thread 1 is
    importing.  Returns the number of points and the final state."""
    S = spec.load()
    st = {'n': 0, 't': None, 'err': [], 'sizes': None, 'blocked': 0}
    ident = []
    sys.setswitchinterval(0.001)

    def other():
        ident.append(threading.get_ident())
        try:
            regs.load([b])
        except BaseException as e:
            st['err'].append('%s in the second thread: %s: %s' % (b, type(e).__name__, e))

    # where to preempt: whenever a registry that b writes to has changed
    maps = sorted(set(x[:2] for x in S.modules[b].registers))

    def local(frame, event, arg):
        if st['t'] is not None:
            return None
        sizes = []
        for mn, name in maps:
            d = getattr(sys.modules.get(regs.PKG + mn), name, None)
            sizes.append(-1 if d is None else len(d))
        if sizes == st['sizes']:
            return local
        st['sizes'] = sizes
        if st['n'] == at:
            st['t'] = threading.Thread(target=other)
            st['t'].daemon = True
            sys.settrace(None)
            st['t'].start()
            if not settled(st['t'], ident):
                st['blocked'] = 1
        st['n'] += 1
        return local

    def trace(frame, event, arg):
        f = frame.f_code.co_filename
        if st['t'] is not None or 'pyasn1_modules' not in f or frame.f_code.co_name != '<module>':
            return None
        return local
    sys.settrace(trace)
    try:
        regs.load([a])
    except BaseException as e:
        st['err'].append('%s: %s: %s' % (a, type(e).__name__, e))
    finally:
        sys.settrace(None)
    if st['t'] is None:
        other()
    else:
        st['t'].join(60)
        if st['t'].is_alive():
            st['err'].append('imports of %s and %s deadlock' % (a, b))
            return st['n'], st['err'], {}, st['blocked']
    return st['n'], st['err'], regs.snapshot(S), st['blocked']


class Atomic(common.Check):
    id = 'C12'
    title = 'Imports are safe beside concurrent use'
    assumptions = ['the interpreter lock: Python code of two threads interleaves at bytecode boundaries']

    def rule(self, tier):
        return ('every %s of every module import as a preemption point; two importing threads with one preemption at '
                'every registry change' % ('module-level line' if tier == 'quick' else 'bytecode'))

    def pairs(self, S, tier):
        out = set()
        for g in conflicts(S):
            for i, a in enumerate(g):
                for j, b in enumerate(g):
                    if a != b and (tier != 'quick' or i + j == 1):
                        out.add((a, b))
        return sorted(out)

    def tasks(self, tier):
        S = spec.load()
        out = []
        reg = sorted(set(m.name for m in S.modules.values() if m.registers))
        for m in sorted(S.modules) if tier != 'quick' else reg:
            out.append(('lines', m))
        for a, b in self.pairs(S, tier):
            out.append(('threads', a, b))
        return out

    def run_task(self, task, tier, res):
        if task[0] == 'lines':
            mn = task[1]
            r = fork.run(lines, mn, tier != 'quick')
            case = {'type': mn, 'value': 'import of %s' % mn, 'task': repr(task)}
            if r[0] != 'ok':
                return res.fail(case, 'import', r[1] + r[2])
            points, changes, born, bad = r[1]
            res.states += points
            res.transitions += changes
            res.traces += 1
            res.count('registrations seen appearing', born)
            for where, rn, k, what in bad:
                res.fail(dict(case, value='%s.%s %s' % (rn[0], rn[1], dots(k))), 'observer',
                         'while %s is imported, at %s: %s.%s[%s] %s' % (mn, where, rn[0], rn[1], dots(k), what))
        else:
            a, b = task[1:]
            case = {'type': '%s,%s' % (a, b), 'value': 'concurrent import', 'task': repr(task)}
            want = []
            for o in ([a, b], [b, a]):
                r = fork.run(sequential, o)
                if r[0] != 'ok':
                    return res.fail(case, 'import', r[1] + r[2])
                want.append(r[1])
            r = fork.run(two, a, b, -1)
            if r[0] != 'ok':
                return res.fail(case, 'import', r[1] + r[2])
            for at in range(r[1][0]):
                r = fork.run(two, a, b, at)
                res.states += 1
                res.transitions += 2
                res.traces += 1
                res.count('two-thread schedules')
                if r[0] != 'ok':
                    return res.fail(dict(case, schedule=at), 'threads', r[1] + r[2])
                points, err, dg, blocked = r[1]
                res.count('schedules where the second thread had to wait', blocked)
                for e in err:
                    res.fail(dict(case, schedule=at), 'threads', e)
                for rn in () if err else set(dg) | set(want[0]):
                    for k in set(dg.get(rn, {})) | set(want[0].get(rn, {})):
                        if dg.get(rn, {}).get(k) not in [w.get(rn, {}).get(k) for w in want]:
                            res.fail(dict(case, schedule=at, value='%s.%s %s' % (rn[0], rn[1], dots(k))), 'threads',
                                     'importing %s with %s in a second thread at point %d: %s.%s[%s] is as no sequential order leaves it' % (
                                         a, b, at, rn[0], rn[1], dots(k)))


CHECK = Atomic()
