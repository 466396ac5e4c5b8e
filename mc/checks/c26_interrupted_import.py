"""C26: an import that is cut short can be repeated.

Fault injection by the interpreter's trace hook: the import of a module is
interrupted at a line of it.  Everything that outlives the failed import (the
modules loaded by then and all they hold) is fingerprinted at every line; quick
takes one crash point of each distinct state, thorough every line.  Left behind
may be only complete registrations of the standard; importing again must succeed
and leave what an undisturbed import leaves; so must importing everything else
after it, a second interruption, and reloading."""
import importlib, inspect, re, sys
from .. import common, spec, regs, fork, impl
from .c11_import_order import dots


class Interrupted(BaseException):
    """As KeyboardInterrupt: no handler takes it for a missing module."""


def survivors(but):
    """Fingerprint of all that outlives the failure of importing `but`."""
    out = []
    for n in regs.loaded() + ['pem', 'compat']:
        m = sys.modules.get(regs.PKG + n)
        if m is None or n == but:
            continue
        for k, v in vars(m).items():
            out.append((n, k, id(v), len(v) if isinstance(v, (dict, list, set)) else vars_of(v)))
    out.append(sorted(k for k in sys.modules if 'pyasn1' in k and k != regs.PKG + but))
    return hash(repr(out))


def vars_of(v):
    return tuple(map(id, vars(v).values())) if isinstance(v, type) else None


def walk(mn, at, count, prints=None):
    """Import mn, raising Interrupted at its at-th line, those of functions it calls included; count[0] = lines seen."""
    mine = '/%s.py' % mn

    def local(frame, event, arg):
        if event == 'line':
            if count[0] == at:
                sys.settrace(None)
                raise Interrupted()
            count[0] += 1
            if prints is not None:
                prints.append(survivors(mn))
        return local

    def trace(frame, event, arg):
        f = frame.f_code.co_filename
        if 'pyasn1_modules' not in f:
            return None
        if frame.f_code.co_name != '<module>':
            # a function of the package, called by the module and not by one it imports
            if not frame.f_code.co_flags & inspect.CO_OPTIMIZED:
                return None
            while frame is not None and not ('pyasn1_modules' in frame.f_code.co_filename and frame.f_code.co_name == '<module>'):
                frame = frame.f_back
            if frame is None:
                return None
        return local if frame.f_code.co_filename.endswith(mine) else None
    sys.settrace(trace)
    try:
        regs.load([mn])
    finally:
        sys.settrace(None)


def points(mn):
    """Child: number of lines, and the crash points of distinct states."""
    n, prints = [0], []
    walk(mn, -1, n, prints)
    distinct = [i for i in range(len(prints)) if i == 0 or prints[i] != prints[i - 1]]
    return n[0], distinct


def state(S, mn):
    return regs.snapshot(S), {x: look(S, x) for x in ([mn] if mn else regs.loaded()) if x in S.modules}


def look(S, m):
    """Structure of what module m publishes, the same in every process."""
    mod = impl.module(m)
    out = {t: hash(repr(regs.signature1(getattr(mod, t)))) for t in S.modules[m].types}
    for v in S.modules[m].values:
        out[v] = hash(re.sub(r'0x[0-9a-f]+', '', repr(getattr(mod, v))))
    return out


def clean(mn, more):
    S = spec.load()
    regs.load([mn] + more)
    return state(S, None)


def differ(a, b):
    """First differences of two states."""
    out = []
    for rn in sorted(set(a[0]) | set(b[0]), key=repr):
        x, y = a[0].get(rn), b[0].get(rn)
        if x is None or y is None:
            out.append('%s.%s %s' % (rn[0], rn[1], 'is gone' if x is None else 'is new'))
            continue
        for k in sorted(set(x) | set(y), key=repr):
            if k not in x:
                out.append('%s.%s lacks %s' % (rn + (dots(k),)))
            elif k not in y:
                out.append('%s.%s has surplus %s' % (rn + (dots(k),)))
            elif x[k] != y[k]:
                out.append('%s.%s[%s] is another type' % (rn + (dots(k),)))
    for m in sorted(set(a[1]) | set(b[1])):
        x, y = a[1].get(m), b[1].get(m)
        if x is None or y is None:
            out.append('module %s is %s' % (m, 'not loaded' if x is None else 'loaded too'))
        elif x != y:
            out += ['%s.%s is not the same' % (m, t) for t in x if x.get(t) != y.get(t)][:3]
    return out


def crash(mn, ats, want, more):
    """Child: import mn, interrupted at each of ats in turn, then undisturbed, then more."""
    S = spec.load()
    bad = []
    for at in ats:
        try:
            walk(mn, at, [0])
            return ['the import is not interrupted at line event %d' % at]
        except Interrupted:
            pass
        except BaseException as e:
            return ['when repeated, the import fails with %s' % common.desc(e)]
        if regs.PKG + mn in sys.modules:
            bad.append('the failed import leaves its module behind')
        left = regs.snapshot(S)
        for rn in left:
            if rn not in want[0]:
                bad.append('the failed import leaves %s.%s' % rn)
                continue
            for k, v in left[rn].items():
                w = want[0][rn].get(k)
                if w and len(S.registry_keys.get(rn, {}).get(k, ())) > 1:
                    continue            # two standards register it; C11 has the finding
                if v != w and not rn[0].endswith(' component'):
                    bad.append('the failed import leaves %s.%s[%s], %s' % (rn + (dots(k), 'incomplete' if w else 'which nobody registers')))
        regs._sigs.clear()
        regs._opened.clear()
    try:
        regs.load([mn] + more)
    except BaseException as e:
        return bad + ['when repeated, the import fails with %s' % common.desc(e)]
    return bad + differ(state(S, None), want)


def reload(mn, want):
    S = spec.load()
    regs.load([mn])
    try:
        importlib.reload(sys.modules[regs.PKG + mn])
    except BaseException as e:
        return ['reloading fails with %s' % common.desc(e)]
    regs._sigs.clear()
    regs._opened.clear()
    return differ(state(S, None), want)


_all = []           # the undisturbed state with all modules loaded


class Interrupts(common.Check):
    id = 'C26'
    title = 'An interrupted import can be repeated'
    assumptions = ['what a failed import leaves is in the modules that are loaded: compared to find equal crash points in quick']

    def rule(self, tier):
        return ('crash at %s of every module, import repeated; two crashes; crash and then all other modules; reload' % (
            'one line of each distinct surviving state' if tier == 'quick' else 'every line'))

    def tasks(self, tier):
        S = spec.load()
        if tier == 'quick':
            return sorted(S.modules)
        return [(m, i, 4) for m in sorted(S.modules) for i in range(4)]

    def run_task(self, task, tier, res):
        mn, part, parts = (task, 0, 1) if isinstance(task, str) else task
        S = spec.load()
        case = {'type': mn, 'task': repr(task)}
        r = fork.run(points, mn)
        w = fork.run(clean, mn, [])
        if r[0] != 'ok' or w[0] != 'ok':
            return res.fail(dict(case, value='import'), 'import', ' '.join((r if r[0] != 'ok' else w)[1:]))
        n, distinct = r[1]
        want = w[1]
        todo = [[i] for i in (distinct if tier == 'quick' else range(n))] + [[distinct[-1], i] for i in distinct[-6:]]
        for ats in todo[part::parts]:
            self.judge(dict(case, value='interrupted at line events %s' % ats), 'interrupted',
                       fork.run(crash, mn, ats, want, []), res)
        if part:
            return
        self.judge(dict(case, value='reloaded'), 'reload', fork.run(reload, mn, want), res)
        res.samples.append('%s: %d lines, %d distinct surviving states' % (mn, n, len(distinct)))
        if tier == 'quick' and not S.modules[mn].registers:
            return
        others = [m for m in sorted(S.modules) if m != mn]
        if not _all:
            _all.append(fork.run(clean, 'rfc1155', sorted(S.modules)))
        w = _all[0]
        if w[0] != 'ok':
            return res.fail(dict(case, value='import of all'), 'import', w[1] + w[2])
        for at in distinct[-1:] if tier == 'quick' else distinct:
            self.judge(dict(case, value='interrupted at line event %d, then all others' % at), 'all',
                       fork.run(crash_all, mn, at, w[1], others), res)

    def judge(self, case, stage, r, res):
        res.states += 1
        res.traces += 1
        res.transitions += 2
        if r[0] != 'ok':
            return res.fail(case, stage, r[1] + r[2])
        for x in r[1][:4]:
            res.fail(case, stage, x)


def crash_all(mn, at, want, others):
    """Child: the interrupted module is imported last, so that others meet what it left."""
    S = spec.load()
    try:
        walk(mn, at, [0])
    except Interrupted:
        pass
    regs._opened.clear()
    try:
        regs.load(others + [mn])
    except BaseException as e:
        return ['after it, importing fails with %s' % common.desc(e)]
    # where two modules register one key, the last one wins (a known finding of C11)
    a, b = state(S, mn), (want[0], {mn: want[1][mn]})
    return [x for x in differ(a, b) if 'is another type' not in x]


CHECK = Interrupts()
