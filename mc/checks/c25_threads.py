"""C25: threads that use the package do not disturb one another.

Two threads run one operation each - reading PEM or base64 text, or building,
encoding, decoding, converting and printing objects of a type.  A scheduler holds
them by the interpreter's trace hook and explores every schedule: for the PEM
reader all schedules of up to two switches at every line of the package; for
objects one switch at every call of any function.  What each operation gives must
be what it gives alone, and must stay so afterwards."""
import io, sys, threading, time
from .. import common, model, ref, gen, impl, fork
from ..common import desc
from .c15_pem import A, B, begin, end
from pyasn1.codec.native import encoder as native_encoder

INF = 1 << 60


class Baton(object):
    """Runs operations in threads of their own, one at a time, as told:
    schedule = [(thread, steps), ...]; a step ends where counts(frame, event) says."""

    def __init__(self, ops, counts, lines, patience):
        self.ops, self.counts, self.lines, self.patience = ops, counts, lines, patience

    def run(self, schedule, count=False):
        n = len(self.ops)
        self.count = count
        self.go = [threading.Semaphore(0) for i in range(n)]
        self.back = [threading.Semaphore(0) for i in range(n)]
        self.left = [0] * n
        self.taken = [0] * n
        self.done = [False] * n
        self.out = [None] * n
        self.away = set()          # threads that wait for another one (a lock)
        ts = [threading.Thread(target=self.body, args=(i,)) for i in range(n)]
        for t in ts:
            t.daemon = True
            t.start()
        for i, steps in schedule:
            if steps:
                self.step(i, steps)
        since = time.time()
        while not all(self.done):
            for i in range(n):
                if not self.done[i]:
                    self.step(i, INF)
            if time.time() - since > 120:
                raise common.Timeout('the threads do not come back')
        for t in ts:
            t.join(60)
        return self.out

    def step(self, i, steps):
        """Let thread i run; when it does not come back it waits for another, which goes on."""
        if i not in self.away:
            if self.done[i]:
                return
            self.left[i] = steps
            self.go[i].release()
        if self.back[i].acquire(timeout=self.patience):
            self.away.discard(i)
        else:
            self.away.add(i)

    def body(self, i):
        self.go[i].acquire()

        def point(frame, event):
            if self.counts(frame, event):
                self.taken[i] += 1
                self.left[i] -= 1
                if self.left[i] <= 0:
                    self.back[i].release()
                    self.go[i].acquire()
                    if self.left[i] == INF and not self.count:
                        sys.settrace(None)              # no more switches: run on unwatched

        def local(frame, event, arg):
            point(frame, event)
            return local

        def glob(frame, event, arg):
            point(frame, event)
            return local if self.lines(frame) else None
        if self.count or self.left[i] != INF:
            sys.settrace(glob)
        try:
            self.out[i] = self.ops[i]()
        except Exception as e:
            self.out[i] = 'fails: ' + desc(e)
        finally:
            sys.settrace(None)
        self.done[i] = True
        self.back[i].release()


def ours(frame):
    return 'pyasn1_modules' in frame.f_code.co_filename


def line_points(frame, event):
    return event == 'line' and ours(frame)


def call_points(frame, event):
    return event == 'call' and 'pyasn1' in frame.f_code.co_filename


def pem_ops():
    from pyasn1_modules import pem
    block = lambda k, b: [begin(k)] + b + [end(k)]
    a, b = block(A, ['MAMCAQU=']), block(B, ['MAMC', 'AQY='])
    text = lambda *ls: '\n'.join(sum(ls, [])) + '\n'
    ma, mb = (begin(A), end(A)), (begin(B), end(B))
    out = {}

    def reads(name, t, *m):
        def op():
            f = io.StringIO(t)
            got = []
            while True:
                idx, s = pem.readPemBlocksFromFile(f, *m)
                if idx < 0:
                    return got
                got.append((idx, s))
        out[name] = op
    reads('blocks A B', text(a, ['x'], b), ma, mb)
    reads('blocks B A', text(b, a), mb, ma)
    reads('block A only', text(b, a), ma)
    reads('open block', text([begin(A), 'MAMC']), ma, mb)
    reads('no block', text(['x']), mb)
    out['readPemFromFile'] = lambda: pem.readPemFromFile(io.StringIO(text(a, a)))
    out['readBase64FromFile'] = lambda: pem.readBase64FromFile(io.StringIO('MAMC\nAQU=\n'))
    out['readBase64fromText'] = lambda: pem.readBase64fromText('MAMCAQc=')
    out['bad text'] = lambda: pem.readBase64fromText('MAMCAQc')
    return out


def type_ops(S, mn, tn, r):
    """name: operation, on the smallest and the largest value."""
    vs = [v for v in gen.Gen(S, 0).reduced(r) if not ref.lossy(S, r, v)]
    if not vs:
        return {}
    small, full = vs[0], vs[-1]
    schema = impl.schema(mn, tn)
    out = {}
    for name, v in (('small', small), ('full', full)):
        e = ref.encode(S, r, v)
        o = impl.build(S, r, schema, v)
        out['decode ' + name] = lambda e=e: impl.show(impl.walk(S, r, impl.der_decoder.decode(e, asn1Spec=schema)[0]))
        out['resolve ' + name] = lambda e=e: impl.der_encoder.encode(impl.der_decoder.decode(e, asn1Spec=schema, decodeOpenTypes=True)[0]).hex()
        out['build ' + name] = lambda v=v: impl.der_encoder.encode(impl.build(S, r, schema, v)).hex()
        out['print ' + name] = lambda o=o: impl.der_encoder.encode(o).hex() + o.prettyPrint() + repr(native_encoder.encode(o))
    return out


PAIRS = [('decode full', 'build small'), ('build full', 'decode small'), ('resolve full', 'decode full'), ('print full', 'build full')]


class Threads(common.Check):
    id = 'C25'
    title = 'Threads do not disturb one another'
    assumptions = ['the interpreter lock: Python code of two threads interleaves at the points of the trace hook']

    def rule(self, tier):
        q = tier == 'quick'
        return ('PEM: every ordered pair of 9 operations, every schedule of %s at every line; objects: the largest type of at '
                'most %d octets of each module, %d pairs of operations, one switch at every call' % (
                    'one switch' if q else 'two switches', 90 if q else 150, 2 if q else 4))

    def tasks(self, tier):
        self.quick = tier == 'quick'
        S = model.load()
        names = sorted(['blocks A B', 'blocks B A', 'block A only', 'open block', 'no block', 'readPemFromFile', 'readBase64FromFile',
                        'readBase64fromText', 'bad text'])
        out = [('pem', a) for a in names]
        for mn in sorted(S.modules):
            tn = self.biggest(S, mn)
            if tn:
                out += [('type', mn, tn, a, b) for a, b in PAIRS[:2 if tier == 'quick' else None]]
        return out

    def biggest(self, S, mn):
        best = (0, None)
        most = 90 if self.quick else 150
        G = gen.Gen(S, 0)
        for tn in sorted(S.modules[mn].types):
            r = S.resolve(S.modules[mn].types[tn])
            try:
                n = max(len(ref.encode(S, r, v)) for v in G.reduced(r) if not ref.lossy(S, r, v))
            except (gen.NoValue, ValueError):
                continue
            if n <= most and n > best[0] and r.kind in impl.CONSTRUCTED:
                best = (n, tn)
        return best[1]

    def run_task(self, task, tier, res):
        if task[0] == 'pem':
            ops = pem_ops()
            for b in sorted(ops):
                self.pair(ops, task[1], b, 1 if tier == 'quick' else 2, line_points, ours, {'type': 'pem', 'task': repr(task)}, res)
        else:
            mn, tn, a, b = task[1:]
            S = model.load()
            r = S.resolve(S.modules[mn].types[tn])
            try:
                ops = type_ops(S, mn, tn, r)
            except Exception:
                return res.count('types left to C01')
            if a in ops and all(self.alone(ops[x]) == self.alone(ops[x]) for x in (a, b)):      # else C13's business
                self.pair(ops, a, b, 1, call_points, lambda f: False, {'type': '%s.%s' % (mn, tn), 'task': repr(task)}, res)

    def alone(self, op):
        try:
            return op()
        except Exception as e:
            return 'fails: ' + desc(e)

    def pair(self, ops, a, b, switches, points, lines, case, res):
        want = [self.alone(ops[a]), self.alone(ops[b])]
        bt = Baton([ops[a], ops[b]], points, lines, .1 if case['type'] == 'pem' else 3)
        bt.run([], True)
        n, m = bt.taken
        case = dict(case, value='%s | %s' % (a, b))
        if bt.out != want:
            return res.fail(case, 'threads', 'in threads of their own the operations give %r' % (bt.out,))
        for i in range(n + 1):
            for j in range(1, m + 1) if switches > 1 else (INF,):
                got = bt.run([(0, i), (1, j)])
                res.states += 1
                res.transitions += 1 + (switches > 1)
                res.traces += 1
                for k in (0, 1):
                    if got[k] != want[k]:
                        return res.fail(dict(case, schedule='%d, %d' % (i, j)), 'threads',
                                        '%s gives %s when a second thread runs %s after %d steps%s; alone it gives %s' % (
                                            (a, b)[k], str(got[k])[:300], (b, a)[k], i, ' for %d steps' % j if j < INF else '', str(want[k])[:300]))
        got = [self.alone(ops[a]), self.alone(ops[b])]
        if got != want:
            res.fail(case, 'after', 'afterwards the operations give %s' % str(got)[:600])
        res.count('pairs of operations')
        if not res.samples:
            res.samples.append('%s: %s, %d and %d points' % (case['type'], case['value'], n, m))

    def replay(self, case, res):
        import ast
        self.run_task(ast.literal_eval(case['task']), 'thorough', res)


CHECK = Threads()
