"""C15: the PEM reader finds exactly the blocks the text has.

Model: a line-oriented state machine (outside / inside block i).  Explored: all
line sequences up to a length over {begin and end line of three markers, body
pieces, blank, other text}, read to the end by repeated calls with every marker
set, from in-memory and real files, with every line ending."""
import io, itertools, os, shutil, tempfile
from .. import common

ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


class DontCare(Exception):
    pass


class Refuse(Exception):
    pass


def b64(text):
    """Own base64 decoder: whitespace aside, only whole groups with padding at the end."""
    text = ''.join(text.split())
    if not text:
        return b''
    body = text.rstrip('=')
    pad = len(text) - len(body)
    if any(c not in ALPHA for c in body):
        raise DontCare                  # other text inside a block
    if len(text) % 4 or pad > 2:
        raise Refuse if not pad else DontCare
    bits = ''.join(format(ALPHA.index(c), '06b') for c in body)
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits) // 8 * 8, 8))


def begin(n):
    return '-----BEGIN %s-----' % n


def end(n):
    return '-----END %s-----' % n


A, B, C = 'CERTIFICATE', 'X509 CRL', 'RSA PRIVATE KEY'
LINES = [begin(A), end(A), begin(B), end(B), begin(C), 'MAMCAQU=', 'MAM', 'CAQUw', '', 'x: -----BEGIN CERTIFICATE-----']
MARKERS = [
    ((begin(A), end(A)),),
    ((begin(B), end(B)),),
    ((begin(A), end(A)), (begin(B), end(B))),
    ((begin(B), end(B)), (begin(A), end(A))),
    ((begin(C), end(C)), (begin(A), end(A)), (begin(B), end(B))),
    ((begin(A), end(A)), (begin(B), end(A))),       # two kinds of block with a common end line
]


def blocks(lines, markers):
    """[(index, bytes | 'refuse' | 'dontcare')] in order; then the last call's answer:
    None after a complete read, the index if the text ends inside a block."""
    out = []
    inside, body = None, []
    for l in lines:
        l = l.strip()
        if inside is None:
            for i, (b, e) in enumerate(markers):
                if l == b:
                    inside, body = i, []
        elif l == markers[inside][1]:
            try:
                x = b64(''.join(body))
            except Refuse:
                x = 'refuse'
            except DontCare:
                x = 'dontcare'
            out.append((inside, x))
            inside = None
        else:
            body.append(l)
    return out, inside


def check(pem, lines, markers, f, case, res, single=False):
    want, tail = blocks(lines, markers)
    for i, (idx, x) in enumerate(want):
        res.transitions += 1
        try:
            if single:
                got = (0, pem.readPemFromFile(f, *markers[0]) if single == 'given' else pem.readPemFromFile(f))
            else:
                got = pem.readPemBlocksFromFile(f, *markers)
        except ValueError as e:
            got = 'refuse', str(e)
        if isinstance(x, str) and x == 'dontcare':
            if isinstance(got, tuple) and got[0] not in ('refuse', idx):
                return res.fail(case, 'block', 'block %d is one of kind %d, read as %r' % (i, idx, got))
            continue
        if isinstance(x, str) and x == 'refuse':
            if got[0] != 'refuse':
                return res.fail(case, 'body', 'block %d is not base64, yet read as %r' % (i, got))
            continue                    # the next block can be read all the same
        if not (isinstance(got, tuple) and len(got) == 2 and got == (idx, x)):
            return res.fail(case, 'block', 'block %d is (%d, %s), read as %r' % (i, idx, x.hex(), got))
    res.transitions += 1
    try:
        if single:
            got = pem.readPemFromFile(f, *markers[0]) if single == 'given' else pem.readPemFromFile(f)
            if got:
                res.fail(case, 'end', 'no further block, yet read %r' % (got,))
        else:
            got = pem.readPemBlocksFromFile(f, *markers)
            if got[1] or got[0] != -1 and got[0] != tail:
                res.fail(case, 'end', 'no further block, yet read %r' % (got,))
    except Exception as e:
        res.fail(case, 'end', 'no further block, yet refused: ' + common.desc(e))


FAULTY = [begin(A), end(A), begin(B), end(B), 'MAMC', 'MAM', 'x']


class Broken(OSError):
    pass


class Faulty(io.StringIO):
    """A text whose k-th line cannot be read, once."""

    def __init__(self, text, k):
        io.StringIO.__init__(self, text)
        self.k = k
        self.line = 0
        self.raised = False

    def step(self):
        if self.line == self.k and not self.raised:
            self.raised = True
            raise Broken('the disk is broken')

    def readline(self, *a):
        self.step()
        x = io.StringIO.readline(self, *a)
        self.line += bool(x)
        return x

    def __next__(self):
        self.step()
        x = io.StringIO.__next__(self)
        self.line += 1
        return x

    def read(self, *a):
        if not self.raised and self.line <= self.k:
            self.line = self.k
            self.step()
        return io.StringIO.read(self, *a)

    def readlines(self, *a):
        if not self.raised:
            self.line = self.k
            self.step()
        return io.StringIO.readlines(self, *a)


class Pem(common.Check):
    id = 'C15'
    title = 'PEM blocks'

    def depth(self, tier):
        return 6 if tier == 'quick' else 7

    def rule(self, tier):
        return ('all sequences of at most %d lines of %d kinds x %d marker sets; endings and files on those of 3 lines; '
                'counts and lengths around powers of two') % (self.depth(tier), len(LINES), len(MARKERS))

    def tasks(self, tier):
        return [(i, j) for i in range(len(LINES)) for j in range(len(LINES))] + ['short', 'files', 'faults', 'two'] + [
            ('large', k) for k in range(6, 15 if tier == 'quick' else 19)]

    def run_task(self, task, tier, res):
        from pyasn1_modules import pem
        if task == 'short':
            seqs = [()] + [(l,) for l in LINES]
        elif task == 'files':
            return self.files(pem, res)
        elif task == 'faults':
            return self.faults(pem, tier, res)
        elif task == 'two':
            return self.two(pem, tier, res)
        elif task[0] == 'large':
            return self.large(pem, task[1], res)
        else:
            head = tuple(LINES[i] for i in task)
            seqs = (head + t for n in range(self.depth(tier) - 1) for t in itertools.product(LINES, repeat=n))
        for lines in seqs:
            res.states += 1
            common.alarm(15)
            text = '\n'.join(lines) + '\n'
            for k, ms in enumerate(MARKERS):
                res.traces += 1
                check(pem, lines, ms, io.StringIO(text), {'type': 'markers %d' % k, 'value': text, 'how': 'blocks'}, res)
            for how in ('default', 'given'):
                res.traces += 1
                check(pem, lines, MARKERS[how == 'given'], io.StringIO(text),
                      {'type': 'markers %d' % (how == 'given'), 'value': text, 'how': how}, res, how)
        if task == (0, 5):
            res.samples.append(repr(text))

    def large(self, pem, k, res):
        """Counts and lengths around a power of two: text lines, blocks, lines of a body, a long line."""
        block = [begin(A), 'MAMCAQU=', end(A)]
        for n in (2 ** k - 1, 2 ** k, 2 ** k + 1):
            for lines in (['x'] * n + block, block + ['x'] * n + block, block * n, ['x' * n] + block,
                          [begin(A)] + ['MAMC'] * n + ['AQU=', end(A)] + block, [begin(A), 'MAMC' * n + 'AQU=', end(A)] + block,
                          [''] * n + block + [''] * n + block, [begin(A)] + [''] * n + block[1:] + block,
                          [begin(C)] + ['MAMC'] * n + [end(C)] + block, (block + [begin(B), 'MAM=', end(B)]) * n,
                          ['-----BEGIN X-----' + 'é' * n, '\u2028' * n] + block):
                common.alarm(60)
                res.states += 1
                text = '\n'.join(lines) + '\n'
                for m in (0, 2):
                    res.traces += 1
                    check(pem, lines, MARKERS[m], io.StringIO(text), {'type': 'markers %d' % m, 'value': text, 'how': 'blocks'}, res)

    def files(self, pem, res):
        d = tempfile.mkdtemp()
        try:
            p = os.path.join(d, 'x.pem')
            for n in range(0, 4):
                for lines in itertools.product(LINES, repeat=n):
                    if n == 3 and lines[0] not in (LINES[0], LINES[2]):
                        continue
                    for nl, pre, post, last in itertools.product(('\n', '\r\n'), ('', '  '), ('', ' \t'), (True, False)):
                        text = nl.join(pre + l + post for l in lines) + (nl if last else '')
                        res.states += 1
                        for k in (0, 2, 5):
                            res.traces += 1
                            check(pem, lines, MARKERS[k], io.StringIO(text, newline=''),
                                  {'type': 'markers %d' % k, 'value': text, 'how': 'blocks', 'lines': list(lines)}, res)
                        if n >= 2 and not pre and last:
                            with open(p, 'w', newline='') as f:
                                f.write(text)
                            with open(p) as f:
                                res.traces += 1
                                check(pem, lines, MARKERS[2], f, {'type': 'markers 2', 'value': text, 'how': 'blocks',
                                                                   'lines': list(lines)}, res)
        finally:
            shutil.rmtree(d)

    def faults(self, pem, tier, res):
        """Reading fails at every line of every text: the error comes through, and
        what is read afterwards, from this file or another, begins afresh."""
        other = [begin(A), 'CAQU', end(A)]
        for n in range(1, 5 if tier == 'quick' else 6):
            for lines in itertools.product(FAULTY, repeat=n):
                text = '\n'.join(lines) + '\n'
                for k in range(n + 1):
                    common.alarm(15)
                    res.states += 1
                    self.fault(pem, list(lines), text, k, other, res)

    def fault(self, pem, lines, text, k, other, res):
        ms = MARKERS[2]
        case = {'type': 'markers 2', 'value': text, 'how': 'fault', 'fault': k}
        res.traces += 1
        f = Faulty(text, k)
        for i in range(len(lines) + 2):
            res.transitions += 1
            try:
                got = pem.readPemBlocksFromFile(f, *ms)
            except Broken:
                break
            except Exception:           # a body that is not base64
                if f.raised:
                    return res.fail(case, 'fault', 'a read error turns into another one')
                continue
            if f.raised:
                return res.fail(case, 'fault', 'a read error at line %d is passed over, result %r' % (k, got))
            if f.line > len(lines):
                return                  # complete without reading that far
        check(pem, other, ms, io.StringIO('\n'.join(other) + '\n'), case, res)
        check(pem, lines[f.line:], ms, f, case, res)

    def two(self, pem, tier, res):
        """Two files read alternately, in every order of the calls: each is read as if it were alone."""
        texts = [[begin(A), 'MAMC', end(A)], [begin(A), 'MAMC'], [begin(A), 'MAM', end(A), begin(A), 'CAQU', end(A)],
                 [begin(B), 'MAMCAQU=', end(B), 'x', begin(A), 'CAQU', end(A)], [begin(B), '', end(B), begin(A)], ['x'], []]
        calls = 3 if tier == 'quick' else 4
        for a, b in itertools.product(texts, repeat=2):
            for order in set(itertools.permutations([0] * calls + [1] * calls)):
                for m in itertools.product((0, 2, 3), repeat=2):
                    common.alarm(15)
                    res.states += 1
                    res.traces += 1
                    self.alternate(pem, (a, b), order, m, res)

    def alternate(self, pem, texts, order, m, res):
        files = [io.StringIO('\n'.join(t) + '\n') for t in texts]
        want = [blocks(t, MARKERS[k]) for t, k in zip(texts, m)]
        done = [0, 0]
        case = {'type': 'markers %d' % m[0], 'value': repr(texts), 'how': 'alternate', 'order': list(order), 'm': list(m)}
        for w in order:
            res.transitions += 1
            try:
                got = pem.readPemBlocksFromFile(files[w], *MARKERS[m[w]])
            except ValueError:
                got = 'refuse', None
            out, tail = want[w]
            n = done[w]
            done[w] += 1
            if n < len(out):
                ok = got[0] == 'refuse' if isinstance(out[n][1], str) else got == out[n]
            else:
                ok = not got[1] and got[0] in (-1, tail) if n == len(out) else not got[1]
            if not ok:
                return res.fail(case, 'alternate', 'read %d of file %d gives %r, alone it gives %r' % (n, w, got, out[n:n + 1]))

    def replay(self, case, res):
        from pyasn1_modules import pem
        if case['how'] == 'fault':
            return self.fault(pem, case['value'].split('\n')[:-1], case['value'], case['fault'], [begin(A), 'CAQU', end(A)], res)
        if case['how'] == 'alternate':
            import ast
            return self.alternate(pem, ast.literal_eval(case['value']), case['order'], case['m'], res)
        k = int(case['type'].split()[1])
        lines = case.get('lines', case['value'].split('\n')[:-1])
        check(pem, lines, MARKERS[k], io.StringIO(case['value'], newline=''), case, res,
              case['how'] if case['how'] != 'blocks' else False)


CHECK = Pem()
