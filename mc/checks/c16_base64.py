"""C16: base64 readers give exactly the octets, however the text is laid out.

Enumerated: all octet strings of at most two octets, every prefix of a string
holding every 6-bit group, and these at every line width, line ending and
indentation, through all four readers."""
import base64, io, os, shutil, tempfile
from .. import common
from .c15_pem import ALPHA

BEGIN, END = '-----BEGIN CERTIFICATE-----', '-----END CERTIFICATE-----'
BEGIN2, END2 = '-----BEGIN PKCS7-----', '-----END PKCS7-----'


def enc(b):
    bits = ''.join(format(x, '08b') for x in b)
    bits += '0' * (-len(bits) % 6)
    s = ''.join(ALPHA[int(bits[i:i + 6], 2)] for i in range(0, len(bits), 6))
    return s + '=' * (-len(s) % 4)


def alls():
    """Octets whose encoding has every character of the alphabet at every position of a group."""
    bits = ''.join(format(x, '06b') for k in range(4) for i in range(64) for x in [(i * 7 + k * 16) % 64])
    bits += ''.join(format(i, '06b') * 4 for i in range(64))
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits) // 8 * 8, 8))


def layouts(s, widths):
    for w in widths:
        ls = [s[i:i + w] for i in range(0, len(s), w)] or ['']
        for nl in ('\n', '\r\n'):
            yield '%d%s' % (w, 'c' if nl != '\n' else ''), nl.join(ls) + nl
        yield '%dn' % w, '\n'.join(ls)
    yield 'indent', ''.join(' ' + s[i:i + 10] + ' \n' for i in range(0, len(s), 10))
    yield 'gaps', ''.join(s[i:i + 20] + '\n\n' for i in range(0, len(s), 20))


def readers(pem):
    yield 'readBase64fromText', pem.readBase64fromText
    yield 'readBase64FromFile', lambda t: pem.readBase64FromFile(io.StringIO(t, newline=''))
    sep = lambda t: '' if t.endswith('\n') else '\n'
    yield 'readPemFromFile', lambda t: pem.readPemFromFile(io.StringIO('x\n' + BEGIN + '\n' + t + sep(t) + END + '\n', newline=''))
    yield 'readPemBlocksFromFile', lambda t: pem.readPemBlocksFromFile(
        io.StringIO(BEGIN2 + '\r\n' + t + sep(t) + END2, newline=''), (BEGIN, END), (BEGIN2, END2))[1]


def one(pem, name, f, b, t, lay, res):
    res.transitions += 1
    res.traces += 1
    case = {'type': name, 'value': t, 'bytes': b.hex(), 'layout': lay}
    try:
        x = f(t)
    except Exception as e:
        return res.fail(case, 'read', 'base64 of %s refused: %s' % (b.hex()[:200], common.desc(e)))
    if not isinstance(x, bytes) or x != b:
        res.fail(case, 'read', 'base64 of %s read as %r' % (b.hex()[:200], x[:100]))


class Base64(common.Check):
    id = 'C16'
    title = 'Base64 text'

    def rule(self, tier):
        return ('all octet strings of 0, 1 and 2 octets; prefixes of a covering string x line widths x line endings x 4 readers; '
                'octets and characters around powers of two up to 2^%d' % (18 if tier == 'quick' else 22))

    def tasks(self, tier):
        return list(range(28 if tier == 'quick' else 32))

    def run_task(self, task, tier, res):
        from pyasn1_modules import pem
        rs = list(readers(pem))
        if task > 16:
            full = alls() * 8000
            for d in range(-3, 4):
                for n in {2 ** (task - 9) + d, (2 ** (task - 9) + d) * 3 // 4}:      # octets, characters
                    b = full[:n]
                    t = base64.b64encode(b).decode()
                    assert n > 3000 or t == enc(b)
                    res.states += 1
                    for lay, x in layouts(t, (64, 76, 2 ** 30) + ((1, 1023, 4096) if n < 50000 else ())):
                        for name, f in rs:
                            one(pem, name, f, b, x, lay, res)
            return
        if task < 16:
            strings = [bytes([i, j]) for i in range(task * 16, task * 16 + 16) for j in range(256)]
            if not task:
                strings += [b''] + [bytes([i]) for i in range(256)]
            for b in strings:
                res.states += 1
                t = enc(b)
                for name, f in rs:
                    one(pem, name, f, b, t, 'plain', res)
            step = 1 if tier != 'quick' else 5
            full = alls()
            for n in range(task * step, len(full) + 1, 16 * step):
                b = full[:n]
                res.states += 1
                for lay, t in layouts(enc(b), (1, 3, 4, 10, 60, 63, 64, 65, 76, 100000) if n < 60 or tier != 'quick' else (7, 64, 76)):
                    for name, f in rs:
                        one(pem, name, f, b, t, lay, res)
        else:
            # through real files
            d = tempfile.mkdtemp()
            try:
                full = alls()
                for n in list(range(0, 70)) + [len(full)]:
                    b = full[:n]
                    res.states += 1
                    p = os.path.join(d, 'f')
                    for lay, t in layouts(enc(b), (64, 76)):
                        with open(p, 'w', newline='') as f:
                            f.write(t)
                        with open(p) as f:
                            one(pem, 'readBase64FromFile', lambda t: pem.readBase64FromFile(f), b, t, lay, res)
                        with open(p, 'w', newline='') as f:
                            f.write(BEGIN + '\n' + t + '\n' + END + '\n')
                        with open(p) as f:
                            one(pem, 'readPemFromFile', lambda t: pem.readPemFromFile(f), b, t, lay, res)
            finally:
                shutil.rmtree(d)
        if task == 1:
            res.samples.append('%s = %s' % (enc(full[:9]), full[:9].hex()))

    def replay(self, case, res):
        from pyasn1_modules import pem
        for name, f in readers(pem):
            if name == case['type']:
                one(pem, name, f, bytes.fromhex(case['bytes']), case['value'], case['layout'], res)


CHECK = Base64()
