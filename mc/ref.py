"""Reference DER codec over the model (spec.R).  Deliberately boring.

Abstract values: dict (SEQUENCE/SET), (alternative, value) (CHOICE), list
(.. OF), int, bool, str of '0'/'1' (BIT STRING), bytes (OCTET STRING, ANY),
None (NULL), tuple of ints (OBJECT IDENTIFIER), str (strings and times).
"""
from .spec import CONSTRUCTED

CODECS = {'BMPString': 'utf-16-be', 'UniversalString': 'utf-32-be', 'UTF8String': 'utf-8',
          'TeletexString': 'iso-8859-1', 'T61String': 'iso-8859-1', 'VideotexString': 'iso-8859-1',
          'GraphicString': 'iso-8859-1', 'GeneralString': 'iso-8859-1',
          'ObjectDescriptor': 'iso-8859-1', 'VisibleString': 'us-ascii', 'ISO646String': 'us-ascii',
          'NumericString': 'us-ascii', 'PrintableString': 'us-ascii', 'IA5String': 'us-ascii',
          'UTCTime': 'us-ascii', 'GeneralizedTime': 'us-ascii'}
STRINGS = tuple(CODECS)


MISSING = object()       # stands for a component left out of an encoding on purpose
EXPLICIT = {}            # {'on': 1}: defaults are written out, as BER allows


class Reject(Exception):
    """Not an encoding of the type."""


class DontCare(Reject):
    """Malformed at the level of primitive contents: the codec library's domain."""


def length(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([0x80 | len(b)]) + b


def ident(cls, cons, num):
    first = (cls << 6) | (0x20 if cons else 0)
    if num < 31:
        return bytes([first | num])
    out = [num & 0x7f]
    num >>= 7
    while num:
        out.append(0x80 | (num & 0x7f))
        num >>= 7
    return bytes([first | 31] + out[::-1])


def tlv(cls, cons, num, content):
    return ident(cls, cons, num) + length(len(content)) + content


def int_bytes(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return v.to_bytes(n, 'big', signed=True)


def base128(n):
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.append(0x80 | (n & 0x7f))
        n >>= 7
    return bytes(out[::-1])


def content(S, r, v):
    k = r.kind
    if k == 'BOOLEAN':
        return b'\xff' if v else b'\x00'
    if k in ('INTEGER', 'ENUMERATED'):
        return int_bytes(v)
    if k == 'NULL':
        return b''
    if k == 'OCTET STRING':
        return v
    if k == 'BIT STRING':
        pad = -len(v) % 8
        bits = v + '0' * pad
        return bytes([pad]) + bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
    if k == 'OBJECT IDENTIFIER':
        return base128(v[0] * 40 + v[1]) + b''.join(base128(x) for x in v[2:])
    if k in CODECS:
        return v.encode(CODECS[k])
    if k in ('SEQUENCE', 'SET'):
        parts = []
        for c in r.comps:
            if c.name not in v:
                if not c.optional and c.default is None:
                    raise Reject('missing %s' % c.name)
                continue
            cr = S.resolve(c.type)
            if v[c.name] is MISSING:
                continue
            e = encode(S, cr, v[c.name])
            if c.default is not None and not EXPLICIT and e == encode(S, cr, default(S, c)):
                continue
            parts.append(e)
        if k == 'SET':
            parts.sort(key=tagkey)
        return b''.join(parts)
    if k == 'SEQUENCE OF':
        er = S.resolve(r.elem)
        return b''.join(encode(S, er, x) for x in v)
    if k == 'SET OF':
        er = S.resolve(r.elem)
        return b''.join(setof_sort([encode(S, er, x) for x in v]))
    raise AssertionError(k)


def setof_sort(parts):
    n = max([len(p) for p in parts] or [0])
    return sorted(parts, key=lambda p: p + bytes(n - len(p)))


def tagkey(e):
    (cls, cons, num), _, _ = header(e, 0)
    return (cls, num)


def encode(S, r, v):
    if r.kind == 'ANY':
        out = v
        for cls, num in reversed(r.stack):
            out = tlv(cls, not r.prim, num, out)
        return out
    if r.kind == 'CHOICE':
        for c in r.comps:
            if c.name == v[0]:
                out = encode(S, S.resolve(c.type), v[1])
                break
        else:
            raise Reject('no alternative %r' % (v[0],))
        for cls, num in reversed(r.stack):
            out = tlv(cls, True, num, out)
        return out
    cls, num = r.stack[-1]
    out = tlv(cls, r.kind in CONSTRUCTED, num, content(S, r, v))
    for cls, num in reversed(r.stack[:-1]):
        out = tlv(cls, True, num, out)
    return out


def default(S, c):
    """The DEFAULT of a component as an abstract value."""
    d = c.default[0]
    r = S.resolve(c.type)
    if isinstance(d, bytes):
        return decode(S, r, d)
    if r.kind == 'BOOLEAN':
        return bool(d)
    return d


# ---------------------------------------------------------------- decoding

def header(b, i):
    if i >= len(b):
        raise Reject('truncated')
    o = b[i]
    cls, cons, num = o >> 6, bool(o & 0x20), o & 31
    i += 1
    if num == 31:
        num = 0
        while True:
            if i >= len(b):
                raise Reject('truncated')
            num = (num << 7) | (b[i] & 0x7f)
            i += 1
            if not b[i - 1] & 0x80:
                break
    if i >= len(b):
        raise Reject('truncated')
    n = b[i]
    i += 1
    if n & 0x80:
        k = n & 0x7f
        if k == 0 or i + k > len(b):
            raise Reject('length')
        n = int.from_bytes(b[i:i + k], 'big')
        i += k
    if i + n > len(b):
        raise Reject('truncated')
    return (cls, cons, num), i, i + n


def split(b):
    out, i = [], 0
    while i < len(b):
        _, _, e = header(b, i)
        out.append(b[i:e])
        i = e
    return out


def matches(S, r, t):
    """Could a TLV with tag t=(cls,num) begin a value of r?"""
    if r.stack:
        return r.stack[0] == t
    if r.kind == 'ANY':
        return True
    return any(matches(S, S.resolve(c.type), t) for c in r.comps)


def decode(S, r, b):
    parts = split(b)
    if len(parts) != 1:
        raise Reject('one value expected')
    return _decode(S, r, b, 0)


def _decode(S, r, b, depth):
    (cls, cons, num), s, e = header(b, 0)
    explicit = r.stack if r.kind in ('ANY', 'CHOICE') else r.stack[:-1]
    for want in explicit:
        if (cls, num) != want or not (cons or r.prim):
            # the library's decoder takes anything for an ANY, tagged or not
            raise (DontCare if r.kind == 'ANY' else Reject)('tag %r' % ((cls, num),))
        b = b[s:e]
        inner = split(b)
        if r.kind != 'ANY':
            if len(inner) != 1:
                raise Reject('explicit content')
            (cls, cons, num), s, e = header(b, 0)
    if r.kind == 'ANY':
        return b
    if r.kind == 'CHOICE':
        for c in r.comps:
            cr = S.resolve(c.type)
            if matches(S, cr, (cls, num)):
                return (c.name, _decode(S, cr, b, depth + 1))
        raise Reject('no alternative')
    if (cls, num) != r.stack[-1]:
        raise Reject('tag %r, not %r' % ((cls, num), r.stack[-1]))
    if cons != (r.kind in CONSTRUCTED):
        raise DontCare('form')
    return uncontent(S, r, b[s:e], depth)


def uncontent(S, r, b, depth):
    k = r.kind
    if k == 'BOOLEAN':
        if b == b'\x00':
            return False
        if b == b'\xff':
            return True
        raise DontCare('boolean')
    if k in ('INTEGER', 'ENUMERATED'):
        v = int.from_bytes(b, 'big', signed=True)
        if not b or int_bytes(v) != b:
            raise DontCare('integer')
        return v
    if k == 'NULL':
        if b:
            raise DontCare('null')
        return None
    if k == 'OCTET STRING':
        return b
    if k == 'BIT STRING':
        if not b or b[0] > 7 or b == b'\x07' or len(b) == 1 and b[0] or b[0] and b[-1] & ((1 << b[0]) - 1):
            raise DontCare('bits')
        bits = ''.join('{:08b}'.format(x) for x in b[1:])
        return bits[:len(bits) - b[0]]
    if k == 'OBJECT IDENTIFIER':
        arcs, n = [], 0
        if not b or b[-1] & 0x80:
            raise DontCare('oid')
        for i, x in enumerate(b):
            if x == 0x80 and (i == 0 or not b[i - 1] & 0x80):
                raise DontCare('oid')
            n = (n << 7) | (x & 0x7f)
            if not x & 0x80:
                arcs.append(n)
                n = 0
        f = min(arcs[0] // 40, 2)
        return (f, arcs[0] - 40 * f) + tuple(arcs[1:])
    if k in CODECS:
        try:
            return b.decode(CODECS[k])
        except UnicodeError:
            raise DontCare('text')
    if k in ('SEQUENCE OF', 'SET OF'):
        er = S.resolve(r.elem)
        return [_decode(S, er, p, depth + 1) for p in split(b)]
    parts = split(b)
    out = {}
    if k == 'SEQUENCE':
        i = 0
        for c in r.comps:
            cr = S.resolve(c.type)
            if i < len(parts):
                (cls, _, num), _, _ = header(parts[i], 0)
                if matches(S, cr, (cls, num)):
                    out[c.name] = _decode(S, cr, parts[i], depth + 1)
                    i += 1
                    continue
                if cr.kind == 'ANY':
                    raise DontCare('any tag may stand for a tagged ANY')
            missing(S, c, out)
        if i != len(parts):
            raise Reject('extra component')
        return out
    assert k == 'SET'
    seen = set()
    for p in parts:
        (cls, _, num), _, _ = header(p, 0)
        for c in r.comps:
            cr = S.resolve(c.type)
            if c.name not in seen and matches(S, cr, (cls, num)):
                out[c.name] = _decode(S, cr, p, depth + 1)
                seen.add(c.name)
                break
        else:
            # the library's decoder lets the last of several equal members win
            again = any(matches(S, S.resolve(c.type), (cls, num)) for c in r.comps)
            raise (DontCare if again else Reject)('extra or repeated component')
    for c in r.comps:
        if c.name not in seen:
            missing(S, c, out)
    return {c.name: out[c.name] for c in r.comps if c.name in out}


def missing(S, c, out):
    if c.default is not None:
        out[c.name] = default(S, c)
    elif not c.optional:
        raise Reject('missing %s' % c.name)


# ------------------------------------------------------------- constraints

def size_of(r, v):
    return len(v)


def ok1(r, c, v):
    k = c[0]
    if k == 'SIZE':
        return c[1] <= size_of(r, v) <= c[2]
    if k == 'RANGE':
        return c[1] <= v <= c[2]
    if k == 'VALUES':
        return v in c[1]
    if k == 'FROM':
        return all(x in c[1] for x in v)
    if k == 'WITH':
        return all((n in v) == (w == 'PRESENT') for n, w in c[1])
    if k == '&':
        return all(ok1(r, x, v) for x in c[1])
    if k == '|':
        return any(ok1(r, x, v) for x in c[1])
    raise AssertionError(k)


def satisfies(r, v):
    """Local constraints of r on v (not of its components)."""
    return all(ok1(r, c, v) for c in r.cons)


# ---------------------------------------------------- limits of the library

def lossy(S, r, v, opt=False):
    """Does v hold an empty constructed value below an OPTIONAL component?

    pyasn1's encoder drops such values (it hands the "omit when empty" option
    down through CHOICE alternatives and list elements), so that they cannot be
    represented whatever the schema says; no schema in this repository can
    change it.  The enumeration leaves them out."""
    k = r.kind
    if k == 'CHOICE':
        for c in r.comps:
            if c.name == v[0]:
                return lossy(S, S.resolve(c.type), v[1], opt)
    if k in ('SEQUENCE', 'SET'):
        if opt and not content(S, r, v):
            return True
        for c in r.comps:
            if c.name in v:
                cr = S.resolve(c.type)
                if lossy(S, cr, v[c.name], c.optional):
                    return True
                if c.default is not None and has_any(S, cr) and \
                        encode(S, cr, v[c.name]) == encode(S, cr, default(S, c)):
                    return True      # an open type never compares equal to its default
    if k in ('SEQUENCE OF', 'SET OF'):
        if opt and not v:
            return True
        er = S.resolve(r.elem)
        return any(lossy(S, er, x, opt) for x in v)
    return False


def has_any(S, r):
    if r.kind == 'ANY':
        return True
    if r.kind in ('SEQUENCE', 'SET'):
        return any(has_any(S, S.resolve(c.type)) for c in r.comps)
    return False
