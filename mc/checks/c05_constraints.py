"""C05: a value is accepted exactly when it satisfies the standard's constraints.

Every node of every published type (references entered once), every boundary:
RANGE and SIZE ends and their neighbours, every permitted single value and its
neighbours, every character of the alphabet and characters outside it; at nodes
without constraint, a set of extreme values must be accepted.  Scalars are
judged when assigned and when decoded; list sizes when encoded."""
from .. import common, model, ref, gen, impl
from ..common import desc

INF = float('inf')
PROBE = {'PrintableString': 'A', 'NumericString': '1', 'IA5String': 'a', 'VisibleString': 'a', 'ISO646String': 'a',
         'UTCTime': '1', 'GeneralizedTime': '2'}

KINDS = {'numbers': ('INTEGER', 'ENUMERATED'), 'texts': tuple(k for k in ref.STRINGS if k not in ('UTCTime', 'GeneralizedTime')),
         'octets': ('OCTET STRING', 'BIT STRING')}


def flat(cons):
    return list(gen.atoms(cons))


def resize(r, n):
    """A value of r's kind of size n, within r's alphabet."""
    k = r.kind
    if k == 'BIT STRING':
        return '1' * n
    if k == 'OCTET STRING':
        return b'a' * n
    al = gen.alphabet(r)
    return (al[0] if al else PROBE.get(k, 'A')) * n


def probes(r):
    """Boundary values of a scalar, inside and outside its constraints."""
    k = r.kind
    cons = flat(r.cons)
    out = []
    if k in ('INTEGER', 'ENUMERATED'):
        pts = {0, 1, -1, 2, 127, 128, 255, 256, -128, 2147483647, 2147483648, 4294967295, 4294967296, 1 << 64, -(1 << 64)}
        for c in cons:
            for x in (c[1:3] if c[0] == 'RANGE' else c[1] if c[0] == 'VALUES' else ()):
                if isinstance(x, int) or abs(x) != INF:
                    pts.update((x - 1, x, x + 1))
        for n, x in r.named or ():
            pts.update((x - 1, x, x + 1))
        return sorted(int(x) for x in pts)
    if k in ('BIT STRING', 'OCTET STRING') or k in ref.STRINGS and k not in ('UTCTime', 'GeneralizedTime'):
        sizes = set(range(0, 12)) | {15, 16, 17, 20, 24, 32, 33, 40, 41, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 1000}
        for c in cons:
            if c[0] == 'SIZE':
                for x in c[1:3]:
                    if x != INF and x <= 70000:
                        sizes.update((x - 1, x, x + 1))
        out = [resize(r, int(n)) for n in sorted(sizes) if n >= 0]
        vals = [x for c in cons if c[0] == 'VALUES' for x in c[1]]
        for x in vals:
            if isinstance(x, bytes) or isinstance(x, str):
                x = x.encode() if k == 'OCTET STRING' and isinstance(x, str) else x
                out += [x, x + x[-1:], x[:-1]]
        if k in ref.STRINGS:
            al = gen.alphabet(r)
            if al:
                ok = [n for n in range(1, 70) if all(c[1] <= n <= c[2] for c in cons if c[0] == 'SIZE')]
                n = ok[0] if ok else 1
                out += [ch * n for ch in map(chr, range(32, 127))]
                out += [al[0] * (n - 1) + ch for ch in map(chr, range(32, 127))] if n > 1 else []
        if k == 'OCTET STRING':
            out += [bytes([x]) for x in (0, 127, 128, 255)]
        return list(dict.fromkeys(out))
    if k == 'BOOLEAN':
        return [True, False]
    if k == 'OBJECT IDENTIFIER':
        vals = [x for c in cons if c[0] == 'VALUES' for x in c[1]]
        return vals + [x + (1,) for x in vals] + [(0, 0), (0, 39), (1, 39), (2, 40), (2, 999), (2, 5, 4, 1 << 64), (1, 3, 0)]
    return []


def goto(S, r, o, path):
    for p in path:
        if r.kind == 'CHOICE':
            o = o.getComponent()
            r = S.resolve([c for c in r.comps if c.name == p][0].type)
        elif p == '*':
            r = S.resolve(r.elem)
            o = o.getComponentByPosition(0)
        else:
            o = o.getComponentByPosition(impl.check_names(r, o).index(p))
            r = S.resolve([c for c in r.comps if c.name == p][0].type)
    return o


class Constraints(common.Check):
    id = 'C05'
    title = 'Value constraints accept and refuse as the standard says'
    assumptions = ['sizes above 70000 are not materialised']

    def rule(self, tier):
        return 'every boundary of every node, referenced structured types entered %d deep' % (1 if tier == 'quick' else 3)

    def tasks(self, tier):
        return [[('*', k)] for k in KINDS] + model.chunks(model.types(model.load()), 64)

    def run_task(self, task, tier, res):
        S = model.load()
        G = gen.Gen(S, 0)
        if task[0][0] == '*':
            return self.together(S, G, KINDS[task[0][1]], tier, res)
        for mn, tn in task:
            r = S.resolve(S.modules[mn].types[tn])
            for path, n, wrap in model.sites(S, G, r, refs=1 if tier == 'quick' else 3):
                self.site(S, G, mn, tn, r, path, n, wrap, res)

    def site(self, S, G, mn, tn, r, path, n, wrap, res):
        where = ''.join('.' + p for p in path)
        if n.kind in ('SEQUENCE OF', 'SET OF'):
            return self.sized(S, G, mn, tn, r, path, n, wrap, where, res)
        ps = probes(n)
        if ps:
            res.count('scalar nodes' + (' with constraints' if n.cons else ''))
        for v in ps:
            top = wrap(v)
            good = ref.satisfies(n, v)
            if good and not model.okall(S, r, top):
                continue                # another constraint is in the way
            if ref.lossy(S, r, top):
                continue
            self.scalar(S, mn, tn, r, top, good, '%s = %s' % (where, impl.show(v)), res)

    def together(self, S, G, kinds, tier, res):
        """One history through all nodes of the package that have constraints: what one of
        them accepts is given to all others, then what one of them refuses, and again."""
        nodes = []
        pool = {}
        for mn, tn in model.types(S):
            r = S.resolve(S.modules[mn].types[tn])
            for path, n, wrap in model.sites(S, G, r, refs=0):
                if n.kind in kinds and n.cons and (not n.named or n.kind not in ('INTEGER', 'ENUMERATED')):
                    nodes.append((mn, tn, r, path, n, wrap))
                    for c in flat(n.cons):
                        if c[0] in ('SIZE', 'RANGE'):
                            for x in c[1:3]:
                                if abs(x) != INF and (c[0] == 'RANGE' or x <= 1000):
                                    pool.setdefault(n.kind, set()).update((int(x), int(x) + 1))
        every = sorted(set().union(*pool.values())) if pool else []
        for turn in (True, False, True, False):
            for mn, tn, r, path, n, wrap in nodes:
                where = ''.join('.' + p for p in path)
                for x in every:
                    v = x if n.kind in ('INTEGER', 'ENUMERATED') else resize(n, x) if x >= 0 else None
                    if v is None or ref.satisfies(n, v) != turn:
                        continue
                    top = wrap(v)
                    if turn and not model.okall(S, r, top) or ref.lossy(S, r, top):
                        continue
                    res.states += 1
                    res.transitions += 1
                    res.traces += 1
                    res.count('in one history')
                    what = '%s = %s after values of all other types' % (where, impl.show(v))
                    try:
                        impl.der_encoder.encode(impl.build(S, r, impl.schema(mn, tn), top))
                        err = None
                    except Exception as e:
                        err = desc(e)
                    if turn == bool(err):
                        res.fail({'type': '%s.%s' % (mn, tn), 'value': what, 'task': '*'}, 'history',
                                 '%s is %s' % (what, 'allowed, yet refused: %s' % err if err else 'not allowed, yet accepted'))

    def scalar(self, S, mn, tn, r, top, good, what, res):
        case = {'type': '%s.%s' % (mn, tn), 'value': what, 'literal': repr(top) if len(repr(top)) < 20000 else ''}
        res.states += 1
        res.transitions += 2
        res.traces += 1
        res.count('allowed' if good else 'forbidden')
        e = ref.encode(S, r, top)
        try:
            b = impl.der_encoder.encode(impl.build(S, r, impl.schema(mn, tn), top))
            err = None
        except Exception as x:
            err = desc(x)
        if good and err:
            res.fail(case, 'assign', '%s is allowed, yet refused: %s' % (what, err))
        elif not good and not err:
            res.fail(case, 'assign', '%s is not allowed, yet accepted' % what)
        try:
            o, rest = impl.der_decoder.decode(e, asn1Spec=impl.schema(mn, tn))
            err = None
        except Exception as x:
            err = desc(x)
        if good and err:
            res.fail(case, 'decode', '%s is allowed, yet its encoding is refused: %s' % (what, err))
        elif good and impl.walk(S, r, o) != impl.norm(S, r, top):
            res.fail(case, 'decode', '%s does not survive encoding' % what)
        elif not good and not err:
            res.fail(case, 'decode', '%s is not allowed, yet its encoding is accepted' % what)

    def sized(self, S, G, mn, tn, r, path, n, wrap, where, res):
        sizes = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 20, 33, 65, 129, 257}
        if path:
            sizes = {x for x in sizes if x < 33}
        for c in flat(n.cons):
            if c[0] == 'SIZE':
                for x in c[1:3]:
                    if x != INF and x <= 40000:
                        sizes.update((x - 1, x, x + 1))
        er = S.resolve(n.elem)
        try:
            e = G.present(er)
        except gen.NoValue:
            return
        res.count('list nodes' + (' with constraints' if n.cons else ''))
        for size in sorted(sizes):
            if size < 0 or size > 600 and path:
                continue
            v = [e] * int(size)
            good = ref.satisfies(n, v)
            top = wrap(v)
            if good and (not model.okall(S, r, top) or ref.lossy(S, r, top)):
                continue
            what = '%s with %d elements' % (where, size)
            case = {'type': '%s.%s' % (mn, tn), 'value': what, 'literal': repr(top) if len(repr(top)) < 20000 else ''}
            res.states += 1
            res.transitions += 1
            res.traces += 1
            res.count('allowed sizes' if good else 'forbidden sizes')
            try:
                o = impl.build(S, r, impl.schema(mn, tn), top)
                if not good and ref.lossy(S, r, top):
                    # the encoder leaves such a list out; the object itself must say it is wrong
                    l = goto(S, r, o, path)
                    if l.isInconsistent:
                        raise l.isInconsistent
                b = impl.der_encoder.encode(o)
                err = None
            except Exception as x:
                err = desc(x)
            if good and (err or b != ref.encode(S, r, top)):
                res.fail(case, 'size', '%s is allowed, yet %s' % (what, err or 'encoded as ' + b.hex()[:200]))
            elif not good and not err:
                res.fail(case, 'size', '%s is not allowed, yet encoded' % what)

    def replay(self, case, res):
        S = model.load()
        G = gen.Gen(S, 0)
        if case.get('task') == '*':
            for k in sorted(KINDS):
                self.together(S, G, KINDS[k], 'quick', res)
            return
        mn, tn = case['type'].split('.')
        r = S.resolve(S.modules[mn].types[tn])
        for path, n, wrap in model.sites(S, G, r, refs=3):
            if case['value'].startswith(''.join('.' + p for p in path) + ' '):
                self.site(S, G, mn, tn, r, path, n, wrap, res)


CHECK = Constraints()
