"""C18: the dump tools show every message they are given, and only what they are given.

Explored, per tool: every value of its message type (the model's enumeration)
alone; every sequence of at most three input pieces (two messages, a damaged
message, a block of another kind, other text).  The tools themselves are run,
in-process, and judged by how they end and what they print."""
import base64, itertools, re
from .. import common, model, ref, gen, impl, tools, tlv
from . import c17_ber

BLOCKS = {       # tool: ((block kind, module, type), ...)
    'x509dump.py': (('CERTIFICATE', 'rfc2459', 'Certificate'),),
    'x509dump-rfc5280.py': (('CERTIFICATE', 'rfc5280', 'Certificate'),),
    'crldump.py': (('X509 CRL', 'rfc2459', 'CertificateList'),),
    'pkcs10dump.py': (('CERTIFICATE REQUEST', 'rfc2314', 'CertificationRequest'),),
    'pkcs1dump.py': (('RSA PRIVATE KEY', 'rfc2437', 'RSAPrivateKey'), ('DSA PRIVATE KEY', 'rfc2459', 'DSAPrivateKey')),
    'pkcs8dump.py': (('PRIVATE KEY', 'rfc5208', 'PrivateKeyInfo'),
                     ('ENCRYPTED PRIVATE KEY', 'rfc5208', 'EncryptedPrivateKeyInfo')),
}
PLAIN = {
    'cmpdump.py': ('rfc4210', 'PKIMessage'),
    'crmfdump.py': ('rfc2511', 'CertReqMessages'),
    'ocspreqdump.py': ('rfc2560', 'OCSPRequest'),
    'ocsprspdump.py': ('rfc2560', 'OCSPResponse'),
}
PKCS7 = {(1, 2, 840, 113549, 1, 7, i + 1): n for i, n in enumerate(
    ('Data', 'SignedData', 'EnvelopedData', 'SignedAndEnvelopedData', 'DigestedData', 'EncryptedData'))}


def names(S, r, v, out):
    """The components that must be shown: name=, and the value of a plain number or identifier."""
    if r.kind in ('SEQUENCE', 'SET'):
        for c in r.comps:
            if c.name in v:
                q = S.resolve(c.type)
                out.append(leaf(c.name, q, v[c.name]))
                names(S, q, v[c.name], out)
    elif r.kind == 'CHOICE':
        q = S.resolve([a.type for a in r.comps if a.name == v[0]][0])
        out.append(leaf(v[0], q, v[1]))
        names(S, q, v[1], out)
    elif r.kind in ('SEQUENCE OF', 'SET OF'):
        for x in v:
            names(S, S.resolve(r.elem), x, out)
    return out


def leaf(name, q, v):
    """A pattern the line that shows the component matches."""
    n = re.escape(name) + '='
    k = q.kind
    if k in ('INTEGER', 'ENUMERATED'):
        return n + '(%s)' % '|'.join([str(v)] + [re.escape(x) for x, i in (q.named or ()) if i == v])
    if k == 'OBJECT IDENTIFIER':
        return n + re.escape('.'.join(map(str, v)))
    if k == 'BOOLEAN':
        return n + str(bool(v))
    if k in ('OCTET STRING', 'ANY') and v:
        return n + ('(%s|0x%s)' % (re.escape(v.decode('latin-1')), v.hex()) if all(32 < x < 127 for x in v) else '0x' + v.hex())
    if k == 'BIT STRING':
        return n + (str(int(v, 2)) if v else '.*')
    if isinstance(v, str) and re.match(r'[!-~]+$', v):
        return n + re.escape(v)
    return None if k == 'CHOICE' and v[0] == '' else n + '.*'


def shown(S, r, v, text):
    """None, or what is missing from the text."""
    want = {}
    for n in names(S, r, v, []):
        if n:
            want[n] = want.get(n, 0) + 1
    for n in want:
        if len(re.findall(r'(?m)^\s*%s\s*$' % n, text)) < want[n]:
            return '%s, which the message has %d times' % (n, want[n])


def values(S, mn, tn, tier):
    r = S.resolve(S.modules[mn].types[tn])
    G = gen.Gen(S, 4 if tier == 'quick' else 8)
    seen = set()
    for v in G.reduced(r) + G.variants(r):
        if not ref.lossy(S, r, v):
            e = ref.encode(S, r, v)
            if e not in seen:
                seen.add(e)
                yield v, e
    level = G.reduced(r)
    for n in range(2 if tier == 'quick' else 3):
        above, level = level, []
        for v in above:
            for v in twice(S, G, r, v):
                e = ref.encode(S, r, v)
                if e not in seen and not ref.lossy(S, r, v):
                    seen.add(e)
                    level.append(v)
                    yield v, e


def twice(S, G, r, v):
    """v with two different elements in one of its lists."""
    if r.kind in ('SEQUENCE', 'SET'):
        for c in r.comps:
            if c.name in v:
                for x in twice(S, G, S.resolve(c.type), v[c.name]):
                    yield dict(v, **{c.name: x})
    elif r.kind == 'CHOICE':
        for x in twice(S, G, S.resolve([c.type for c in r.comps if c.name == v[0]][0]), v[1]):
            yield (v[0], x)
    elif r.kind in ('SEQUENCE OF', 'SET OF'):
        er = S.resolve(r.elem)
        two = []
        for x in G.reduced(er) + G.variants(er):
            if len(two) < 2 and (not two or ref.encode(S, er, x) != ref.encode(S, er, two[0])) and not ref.lossy(S, er, x, True):
                two.append(x)
        if len(two) == 2 and ref.satisfies(r, two):
            yield two
        for i, x in enumerate(v):
            for y in twice(S, G, er, x):
                yield v[:i] + [y] + v[i + 1:]


def loose(e):
    """The same value in BER that is not DER."""
    t = c17_ber.tree(e)[0]
    yield 'long length', c17_ber.ser(t, lambda i, x: 'long' if not i else None)
    yield 'inner long length', c17_ber.ser(t, lambda i, x: 'long' if i == 1 else None)


def booleans(n):
    if n.kids is None:
        return tlv.Node(n.cls, n.cons, n.num, None, b'\x01' if (n.cls, n.num, n.data) == (0, 1, b'\xff') else n.data)
    return tlv.Node(n.cls, n.cons, n.num, [booleans(k) for k in n.kids], None)


def unruly(S, r, v, e):
    """Encodings of v that BER allows and DER does not, of DER's lengths."""
    sort = ref.setof_sort
    try:
        ref.setof_sort = lambda parts: sort(parts)[::-1]
        a = ref.encode(S, r, v)
    finally:
        ref.setof_sort = sort
    if a != e:
        yield 'SET OF not in order', a
    b = tlv.dump(booleans(tlv.parse(e)))
    if b != e:
        yield 'TRUE as 1', b
    ref.EXPLICIT['on'] = 1
    try:
        d = ref.encode(S, r, impl.norm(S, r, v))
    finally:
        ref.EXPLICIT.clear()
    if d != e:
        yield 'default written', d


class Dump(common.Check):
    id = 'C18'
    title = 'Dump tools'
    task_timeout = 300

    def rule(self, tier):
        return ('every value of each tool\'s message type (deviations entered %d deep); all sequences of at most %d input '
                'pieces of 5 to 7 kinds; every truncation of 4 messages' % ((4, 4) if tier == 'quick' else (8, 5)))

    def tasks(self, tier):
        out = []
        for t in sorted(BLOCKS):
            out.append(('seq', t))
            for k in BLOCKS[t]:
                out += [('block', t, k, i) for i in range(4)]
        for t in sorted(PLAIN):
            out += [('plain', t, i) for i in range(4)]
        out += [('pkcs7', k) for k in sorted(PKCS7)] + [('cmc', i) for i in range(4)] + [('usage',)]
        return out

    def expect(self, tool, text, count, res, what, S=None, r=None, v=None):
        """Run on text; it must end well, and show count messages."""
        res.transitions += 1
        res.traces += 1
        end, out = tools.run(tool, (), text)
        case = {'type': tool, 'value': what, 'stdin': text[:3000]}
        if end == 'never ends':
            raise common.Timeout('%s never ends on %s' % (tool, what))
        if end != 'done':
            res.fail(case, 'end', '%s on %s %s' % (tool, what, end))
            return ''
        if count is not None:
            m = re.search(r'\*\*\* (\d+) ', out)
            if not m or int(m.group(1)) != count:
                res.fail(case, 'count', '%s on %s, %d messages, says %r' % (tool, what, count, out[-80:]))
        if v is not None:
            miss = shown(S, r, v, out)
            if miss:
                res.fail(case, 'shown', '%s on %s does not show %s' % (tool, what, miss))
        return out

    def refuse(self, tool, text, res, what):
        res.transitions += 1
        end, out = tools.run(tool, (), text)
        if end == 'never ends':
            raise common.Timeout('%s never ends on %s' % (tool, what))
        if end == 'done':
            res.fail({'type': tool, 'value': what, 'stdin': text[:3000]}, 'accepted', '%s on %s ends as if all was well: %r' % (
                tool, what, out[-200:]))

    def run_task(self, task, tier, res):
        S = model.load()
        if task[0] == 'block':
            tool, (kind, mn, tn), part = task[1:]
            r = S.resolve(S.modules[mn].types[tn])
            for i, (v, e) in enumerate(values(S, mn, tn, tier)):
                if i % 4 == part:
                    res.states += 1
                    self.expect(tool, tools.armour(e, kind), 1, res, impl.show(v)[:300], S, r, v)
                    for w, x in unruly(S, r, v, e):
                        res.count(w)
                        self.refuse(tool, tools.armour(x, kind), res, 'a message that is not DER: ' + w)
                    if i < 4:
                        self.expect(tool, tools.armour(e + b'\x00\x00\x01', kind), 1, res, 'surplus octets', S, r, v)
                        for w, x in loose(e):
                            self.refuse(tool, tools.armour(x, kind), res, 'a message that is not DER: ' + w)
                        for n in range(1, len(e)):
                            res.states += 1
                            self.refuse(tool, tools.armour(e[:n], kind), res, 'a message cut at octet %d' % n)
        elif task[0] == 'seq':
            self.sequences(task[1], S, res, 4 if tier == 'quick' else 5)
        elif task[0] == 'plain':
            tool, part = task[1:]
            mn, tn = PLAIN[tool]
            r = S.resolve(S.modules[mn].types[tn])
            for i, (v, e) in enumerate(values(S, mn, tn, tier)):
                if i % 4 == part:
                    res.states += 1
                    for w in (64, 76, 10 ** 6) if i < 8 else (64,):
                        self.expect(tool, tools.plain(e, w), None, res, impl.show(v)[:300], S, r, v)
                    for w, x in unruly(S, r, v, e):
                        res.count(w)
                        self.refuse(tool, tools.plain(x), res, 'a message that is not DER: ' + w)
                    if i < 4:
                        for w, x in loose(e):
                            self.refuse(tool, tools.plain(x), res, 'a message that is not DER: ' + w)
                        for n in range(1, len(e)):
                            res.states += 1
                            self.refuse(tool, tools.plain(e[:n]), res, 'a message cut at octet %d' % n)
            if not part:
                self.expect(tool, '', None, res, 'empty input')
        elif task[0] == 'pkcs7':
            self.pkcs7(task[1], S, tier, res)
        elif task[0] == 'cmc':
            self.cmc(task[1], S, tier, res)
        else:
            for tool in sorted(BLOCKS) + sorted(PLAIN) + ['pkcs7dump.py', 'cmcdump.py']:
                res.states += 1
                res.transitions += 1
                for args in (('x', 'y'), ('x',), ('-x',)):
                    for text in ('', self.sample(tool, S)):
                        end, out = tools.run(tool, args, text)
                        if end == 'done' or 'Usage' not in out or tool not in out or '=' in out:
                            res.fail({'type': tool, 'value': 'arguments %s' % (args,)}, 'usage', '%s given surplus arguments: %s %r' % (
                                tool, end, out[:200]))
            from pyasn1 import debug
            text = self.sample('cmpdump.py', S)
            on = []
            res.transitions += 2
            a = tools.run('cmpdump.py', (), text)
            b = tools.run('cmpdump.py', ('-d',), text, [(debug, 'setLogger', on.append)])
            if a != b or a[0] != 'done' or not (on and on[-1] & debug.DEBUG_ALL):
                res.fail({'type': 'cmpdump.py', 'value': '-d'}, 'debug', 'with debugging %s, the tool %s' % ('on' if on else 'off', b[0]))
        if task[:2] == ('seq', 'x509dump.py'):
            res.samples.append('x509dump.py on every sequence of at most 3 pieces')

    def sample(self, tool, S):
        """Good input for the tool."""
        if tool in BLOCKS:
            kind, mn, tn = BLOCKS[tool][0]
            return tools.armour(next(values(S, mn, tn, 'quick'))[1], kind)
        if tool in PLAIN:
            return tools.plain(next(values(S, *PLAIN[tool], 'quick'))[1])
        r = S.resolve(S.modules['rfc2315'].types['ContentInfo'])
        e = ref.encode(S, r, {'contentType': min(PKCS7), 'content': b'\x04\x00'})
        return tools.armour(e, 'PKCS7') if tool == 'pkcs7dump.py' else tools.plain(e)

    def sequences(self, tool, S, res, depth):
        """Pieces one after the other: the output is that of each, and the count their number."""
        pieces = []
        for kind, mn, tn in BLOCKS[tool]:
            r = S.resolve(S.modules[mn].types[tn])
            vs = list(values(S, mn, tn, 'quick'))
            for v, e in (vs[0], vs[-1]):
                pieces.append(('%s.%s' % (mn, tn), tools.armour(e, kind), 1))
        kinds = [k[0] for k in BLOCKS[tool]]
        other = vs[0][1]
        pieces += [('other block', tools.armour(other, 'PUBLIC KEY'), 0), ('text', 'Bag Attributes\n  x: y\n\n', 0),
                   ('other block 2', tools.armour(other, 'NEW ' + kinds[0]), 0)]
        alone = {}
        for name, t, n in pieces:
            if n:
                out = self.expect(tool, t, 1, res, name)
                alone[t] = out[:out.rindex('***')] if '***' in out else out
        for k in range(0, depth + 1):
            for seq in itertools.product(pieces, repeat=k):
                res.states += 1
                n = sum(p[2] for p in seq)
                out = self.expect(tool, ''.join(p[1] for p in seq), n, res, ' + '.join(p[0] for p in seq))
                if '***' in out and out[:out.rindex('***')] != ''.join(alone[p[1]] for p in seq if p[2]):
                    res.fail({'type': tool, 'value': ' + '.join(p[0] for p in seq)}, 'sequence',
                             '%s on a sequence of inputs does not print what it prints for each' % tool)
        # a damaged message among good ones
        for p in pieces:
            if p[2]:
                raw = base64.b64decode(''.join(p[1].split('\n')[1:-2]))
                kind = p[1].split('\n')[0][11:-5]
                lines = p[1].split('\n')
                bad = [('cut', tools.armour(raw[:-1], kind)), ('empty', tools.armour(b'', kind)),
                       ('not base64', lines[0] + '\n' + 'AAAAA\n' + lines[-2] + '\n')]
                last = [('unterminated after %d lines' % i, '\n'.join(lines[:i]) + '\n') for i in range(1, len(lines) - 1)]
                for good in (0, 1, 2):
                    for name, t in bad + last:
                        res.states += 1
                        self.refuse(tool, p[1] * good + t, res, '%d messages and a damaged block (%s)' % (good, name))
                    for name, t in bad:
                        for after in (1, 2):
                            res.states += 1
                            self.refuse(tool, p[1] * good + t + p[1] * after, res, '%d messages, a damaged block (%s), %d messages' % (good, name, after))

    def pkcs7(self, key, S, tier, res):
        tool, tn = 'pkcs7dump.py', PKCS7[key]
        r = S.resolve(S.modules['rfc2315'].types[tn])
        cr = S.resolve(S.modules['rfc2315'].types['ContentInfo'])
        for v, e in values(S, 'rfc2315', tn, tier):
            res.states += 1
            ci = ref.encode(S, cr, {'contentType': key, 'content': e})
            for text in (tools.armour(ci, 'PKCS7'), 'some text\n' + tools.armour(b'', 'X') + tools.armour(ci + b'\x00', 'PKCS7')):
                self.expect(tool, text, None, res, '%s %s' % (tn, impl.show(v)[:300]), S, r, v)
        self.expect(tool, tools.armour(ref.encode(S, cr, {'contentType': key}), 'PKCS7'), None, res, 'a message without content')
        for n in range(1, len(ci)):
            self.refuse(tool, tools.armour(ci[:n], 'PKCS7'), res, 'a message cut at octet %d' % n)
        for w, x in loose(ci):
            self.refuse(tool, tools.armour(x, 'PKCS7'), res, 'a message that is not DER: ' + w)
        self.refuse(tool, tools.armour(b'', 'PKCS7') + tools.armour(ci, 'PKCS7'), res, 'an empty block')
        self.refuse(tool, tools.armour(ref.encode(S, cr, {'contentType': key, 'content': b'\x01\x01\xff'}), 'PKCS7'), res,
                    'content that is not a ' + tn)
        self.refuse(tool, '', res, 'empty input')

    def cmc(self, part, S, tier, res):
        tool = 'cmcdump.py'
        ci = S.resolve(S.modules['rfc5652'].types['ContentInfo'])
        sd = S.resolve(S.modules['rfc5652'].types['SignedData'])
        oid = lambda m, n: S.modules[m].consts[n][1]
        signed = (1, 2, 840, 113549, 1, 7, 2)
        ct = (1, 2, 840, 113549, 1, 9, 16, 1, 6)
        pki = (1, 3, 6, 1, 5, 5, 7, 12, 2)
        G = gen.Gen(S, 0)
        m = G.minimal(sd)
        r = S.resolve(S.modules['rfc6402'].types['PKIData'])
        m0 = G.minimal(r)

        def in_signed(typ, data):
            return ref.encode(S, sd, dict(m, encapContentInfo={'eContentType': typ, 'eContent': data}))

        def wrap(typ, data):
            return ref.encode(S, ci, {'contentType': typ, 'content': data})
        for i, (v, e) in enumerate(values(S, 'rfc6402', 'PKIData', tier)):
            if i % 4 != part:
                continue
            res.states += 1
            w0 = {'contentType': signed, 'content': in_signed(pki, e)}
            w1 = dict(m, encapContentInfo={'eContentType': pki, 'eContent': e})
            layers = [(ci, w0), (sd, w1), (r, v)]
            self.layers(tool, S, ref.encode(S, ci, w0), layers, res)
            if i < 8:
                deep = wrap(ct, ref.encode(S, ci, w0))
                self.layers(tool, S, deep, [(ci, {'contentType': ct, 'content': ref.encode(S, ci, w0)})] + layers, res)
                for n in range(1, len(deep), 1 if i < 4 else 7):
                    self.refuse(tool, tools.plain(deep[:n]), res, 'a message cut at octet %d' % n)
                for at in (0, 1, 2):        # each layer with surplus octets, or not in DER
                    for what, f in [('surplus octets', lambda x: x + b'\x05\x00')] + [
                            ('not DER: ' + k, lambda x, k=k: dict(loose(x))[k]) for k in ('long length', 'inner long length')]:
                        x = f(e) if at == 2 else e
                        x = in_signed(pki, x)
                        x = f(x) if at == 1 else x
                        x = wrap(signed, x)
                        x = f(x) if at == 0 else x
                        res.states += 1
                        self.refuse(tool, tools.plain(x), res, 'layer %d with %s' % (at, what))
        for i, (v, e) in enumerate(values(S, 'rfc5652', 'SignedData', tier)):
            if i % 4 == part:
                res.states += 1
                w1 = dict(v, encapContentInfo={'eContentType': pki, 'eContent': ref.encode(S, r, m0)})
                x = ref.encode(S, sd, w1)
                self.layers(tool, S, wrap(signed, x), [(ci, {'contentType': signed, 'content': x}), (sd, w1), (r, m0)], res)
        if part == 0:
            e = ref.encode(S, r, m0)
            for typ in ((1, 2, 840, 113549, 1, 7, 1), (1, 3, 6, 1, 5, 5, 7, 12, 3), (1, 2, 3), (1, 3, 6, 1, 5, 5, 7, 12, 2, 1)):
                for what, x in (('text', b'\x04\x01x'), ('what looks like PKIData', e), ('what looks like SignedData', in_signed(pki, e)),
                                ('what looks like ContentInfo', wrap(signed, in_signed(pki, e)))):
                    for y in (wrap(typ, x), wrap(signed, in_signed(typ, x))):
                        res.states += 1
                        res.transitions += 1
                        end, out = tools.run(tool, (), tools.plain(y))
                        case = {'type': tool, 'value': 'content type %s' % (typ,), 'stdin': tools.plain(y)}
                        if end == 'never ends':
                            res.fail(case, 'end', '%s never ends on content of type %s' % (tool, typ))
                            return
                        if end == 'done' or '(pkidata)' in out:
                            res.fail(case, 'end', '%s takes content of type %s, %s, for something it knows' % (tool, typ, what))
                        elif 'New layer' not in out:
                            res.fail(case, 'end', '%s does not show the outer layer: %s' % (tool, end))

    def layers(self, tool, S, e, layers, res):
        """Each layer is shown, in order, with its components."""
        what = impl.show(layers[-1][1])[:300]
        out = self.expect(tool, tools.plain(e), None, res, what)
        parts = re.split(r'(?m)^ \* New layer ', out)[1:]
        if len(parts) != len(layers):
            return res.fail({'type': tool, 'value': what, 'stdin': tools.plain(e)[:3000]}, 'layers', '%d layers, %d shown' % (len(layers), len(parts)))
        for i, (p, (r, v)) in enumerate(zip(parts, layers)):
            miss = shown(S, r, v, p)
            if miss or not p.startswith('(pkidata):' if i == len(layers) - 1 else '(wrapper):'):
                return res.fail({'type': tool, 'value': what, 'stdin': tools.plain(e)[:3000]}, 'layers', 'layer %d does not show %s' % (i, miss))

    def replay(self, case, res):
        res.transitions += 1
        end, out = tools.run(case['type'], (), case.get('stdin', ''))
        print(end, out[-500:])
        res.fail(case, 'replayed', 'tool run again on the recorded input, ends: ' + end)


CHECK = Dump()
