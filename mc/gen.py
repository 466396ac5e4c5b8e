"""Exhaustive enumeration of abstract values, bounded by deviations.

The minimal value of a type has every optional and defaulted component absent,
the first alternative taken, and the shortest list.  A deviation changes one
node of the value tree.  variants(r, depth) yields every value reachable by one
deviation along one path, descending into referenced types to `depth`, plus all
presence patterns of the components of the type itself.
"""
import itertools
from . import ref
from .spec import CONSTRUCTED

INF = float('inf')
NULL_TLV = b'\x05\x00'
ANYS = [b'\x05\x00', b'\x02\x03\x01\x02\x03', b'\x30\x03\x02\x01\x05', b'\x04\x00']


class NoValue(Exception):
    pass


def atoms(cons):
    for c in cons:
        if c[0] in '&|':
            for x in atoms(c[1]):
                yield x
        else:
            yield c


def bounds(r, kind):
    out = set()
    for c in atoms(r.cons):
        if c[0] == kind:
            out.add(c[1])
            out.add(c[2])
    return sorted(x for x in out if abs(x) != INF)


SAMPLE = {'NumericString': '1', 'PrintableString': 'A', 'UTF8String': u'\u00e9', 'BMPString': u'\u0416',
          'UniversalString': u'\U0001F600', 'TeletexString': u'\u00e9', 'T61String': u'\u00e9'}
FILL = {'NumericString': '7'}


def alphabet(r):
    for c in atoms(r.cons):
        if c[0] == 'FROM':
            return c[1]
    return None


def candidates(r, rich=True):
    """Candidate values of a primitive kind, simplest first; all satisfy r."""
    k = r.kind
    vals = []
    singles = [v for c in atoms(r.cons) if c[0] == 'VALUES' for v in c[1]]
    if k == 'BOOLEAN':
        vals = [True, False]
    elif k == 'NULL':
        vals = [None]
    elif k == 'INTEGER':
        vals = [0, 1, 2, 3, -1, 127, 128, 255, 256, -127, -129, 1 << 31, 1 << 63, (1 << 64) + 5]
        vals += [v for v in singles if isinstance(v, int)]
        vals += bounds(r, 'RANGE')
        for n, v in r.named or ():
            vals.append(v)
    elif k == 'ENUMERATED':
        vals = [v for n, v in r.named or ()] + [v for v in singles if isinstance(v, int)]
        if not vals:
            vals = [0, 1]
    elif k == 'BIT STRING':
        vals = ['1', '', '0', '10000001', '000000001', '1' * 16]
        for n in bounds(r, 'SIZE'):
            if n <= 4096:
                vals.append('0' * (n - 1) + '1' if n else '')
        for n, v in r.named or ():
            vals.append('0' * v + '1')
        if r.named:
            # DER forbids trailing zero bits in named bit lists
            vals = [v for v in vals if v == '' or v.endswith('1')]
    elif k in ('OCTET STRING',):
        vals = [b'', b'\x00', b'\xff\x80', b'abc', b'x' * 130]
        vals += [v if isinstance(v, bytes) else v.encode() for v in singles]
        for n in bounds(r, 'SIZE'):
            if n <= 4096:
                vals.append(bytes(i & 255 for i in range(n)))
    elif k == 'OBJECT IDENTIFIER':
        vals = [(1, 3, 6, 1, 4, 1, 99999, 7), (2, 999, 3), (0, 9, 2342), (2, 16, 840, 1, 101, 3, 4, 2, 1)]
        vals = [v for v in singles] + vals
    elif k == 'UTCTime':
        vals = ['170711000102Z', '991231235959Z']
    elif k == 'GeneralizedTime':
        vals = ['20170711000102Z', '19991231235959Z']
    elif k == 'ANY':
        vals = list(ANYS)
    elif k in ref.STRINGS:
        al = alphabet(r)
        f = al[0] if al else FILL.get(k, 'A')
        s = al[-1] if al else SAMPLE.get(k, 'z')
        vals = ['', f, s, f + s, f * 3, f * 130]
        if al:
            vals += list(al)
        vals += [v for v in singles if isinstance(v, str)]
        for n in bounds(r, 'SIZE'):
            if n <= 4096:
                vals.append(f * n)
        for n, v in r.named or ():
            if isinstance(v, str):
                vals.append(v)
        if vals[0] == '':
            vals = vals[1:] + ['']
        # size 1.. something common first
    else:
        raise AssertionError(k)
    seen, out = set(), []
    for v in vals:
        if (v, type(v)) in seen:
            continue
        seen.add((v, type(v)))
        try:
            good = ref.satisfies(r, v)
        except TypeError:
            good = False
        if good:
            out.append(v)
    # the encoder of the library pads the most negative value of a given width
    out = [v for v in out if not (type(v) is int and v < 0 and int_min(v))]
    if not out:
        raise NoValue('no candidate for %r %r' % (r, r.cons))
    return out


def rich(r):
    """A wide domain of values of a scalar type: every width, size, octet and character form."""
    k = r.kind
    if k == 'INTEGER':
        vals = {s * ((1 << n) + d) for n in list(range(0, 72)) + [127, 128, 159, 160, 161, 255, 256, 320, 511, 512, 1023, 1024, 2047, 2048, 4096]
                for d in (-1, 0, 1) for s in (1, -1)} | set(range(-130, 300)) | {10 ** n for n in range(40)}
        vals = sorted(vals, key=lambda x: (abs(x), x))
    elif k == 'BIT STRING':
        vals = []
        for n in list(range(0, 71)) + [127, 128, 129, 255, 256, 257, 1023, 1024, 1032, 2048, 4096]:
            vals += ['1' * n, '0' * n, '0' * (n - 1) + '1' if n else '', '1' + '0' * (n - 1) if n else '', ('10' * n)[:n], ('0011' * n)[:n]]
        if r.named:
            vals = [v for v in vals if v == '' or v.endswith('1')]
    elif k == 'OCTET STRING':
        vals = [bytes([x]) for x in range(256)] + [bytes([x, y]) for x in (0, 48) for y in list(range(0, 256, 17)) + [1, 2, 4, 127, 128]]
        vals += [bytes((i * 7) & 255 for i in range(n)) for n in list(range(0, 300)) + [511, 512, 1000, 4096, 65535, 65536]]
        vals += TEXTS_B
    elif k == 'OBJECT IDENTIFIER':
        arcs = [0, 1, 39, 40, 47, 48, 79, 80, 127, 128, 129, 16383, 16384, 2097151, 2097152, (1 << 32) - 1, 1 << 32, (1 << 64) - 1, 1 << 128]
        vals = [(a, b) for a in (0, 1) for b in range(40)] + [(2, b) for b in arcs] + [(1, 3, a) for a in arcs] + [(2, 5, a, b) for a in arcs for b in arcs]
        vals += [(1, 2) + tuple(range(n)) for n in range(0, 70)] + [(2, 999) + (1 << 40,) * n for n in range(1, 20)]
    elif k == 'UTCTime':
        vals = ['%s%s0000Z' % (y + md, h) for y in ('00', '49', '50', '69', '70', '99') for md in ('0101', '0228', '0229', '0630', '1231') for h in ('00', '12', '23')]
        vals = [v for v in vals if '0229' not in v or int(v[:2]) % 4 == 0] + ['170711235959Z', '170711000001Z']
    elif k == 'GeneralizedTime':
        vals = ['%s%s0000Z' % (y + md, h) for y in ('0001', '1899', '1949', '1950', '1969', '2000', '2049', '2050', '2100', '9999')
                for md in ('0101', '0228', '1231') for h in ('00', '23')] + ['20000229235959Z', '20170711000001Z', '20170711000001.5Z', '20170711000001.125Z']
    elif k in ref.STRINGS:
        al = alphabet(r)
        if al:
            chars = list(al)
        elif k == 'NumericString':
            chars = list('0123456789 ')
        elif k == 'PrintableString':
            chars = list("ABCXYZabcxyz0189 '()+,-./:=?")
        elif ref.CODECS[k] == 'us-ascii':
            chars = [chr(x) for x in range(0 if k == 'IA5String' else 32, 128 if k == 'IA5String' else 127)]
        elif ref.CODECS[k] == 'iso-8859-1':
            chars = [chr(x) for x in range(256)]
        else:
            chars = [chr(x) for x in list(range(0, 256)) + [0x100, 0x416, 0x7ff, 0x800, 0x20ac, 0x4e2d, 0xd7ff, 0xe000, 0xfffd, 0xffff]]
            chars += ['\U00010000', '\U0001F600', '\U0010FFFF'] if k != 'BMPString' else []
        vals = chars + [chars[0] + ch + chars[-1] for ch in chars] + [ch * 2 for ch in chars]
        vals += [''.join(chars[i % len(chars)] for i in range(n)) for n in list(range(0, 300)) + [1000, 32768]]
        vals += [t for t in TEXTS if all(ch in chars for ch in t)]
    else:
        return candidates(r)
    out = []
    for v in list(dict.fromkeys(vals)) + candidates(r):
        if v not in out[-1:] and ref.satisfies(r, v) and not (type(v) is int and v < 0 and int_min(v)):
            out.append(v)
    return out


TEXTS = ['None', 'true', '0', '00', '0x41', "'41'H", "'01'B", '1.2.3', '-1', '1e5', ' a', 'a ', ' ', '  ', 'a  b', '*', 'http://a.example/b?c=d#e', 'a@b.example',
         '-----BEGIN', 'CN=a,O=b', 'a=b+c=d', '\\,', '{}', '%s', '%', '"', "'", 'a.b', '.', 'A', 'a', 'Straße', 'été', '日本', '\n', 'a\nb', '\r\n', '\t', '\0', 'a\0b']
TEXTS_B = [t.encode() for t in TEXTS] + [b'\x05\x00', b'0\x00', b'0\x03\x02\x01\x05', b'\x04\x02ab', b'\xef\xbb\xbfa', b'\xfe\xff\x00a']


def int_min(v):
    n = -v
    return n & (n - 1) == 0 and (n.bit_length() - 1) % 8 == 7


class Gen(object):
    def __init__(self, S, full_depth=2, limit=100000):
        self.S = S
        self.full_depth = full_depth
        self.mincache = {}
        self.redcache = {}
        self.limit = limit

    # ---- minimal values
    def minimal(self, r, stack=()):
        key = id(r)
        if key in self.mincache:
            return self.mincache[key]
        if key in stack:
            raise NoValue('recursive')
        st = stack + (key,)
        k = r.kind
        if k == 'CHOICE':
            err = None
            for c in r.comps:
                try:
                    v = (c.name, self.minimal(self.S.resolve(c.type), st))
                    break
                except NoValue as e:
                    err = e
            else:
                raise NoValue('no finite alternative')
        elif k in ('SEQUENCE', 'SET'):
            need = self.required(r)
            v = {}
            for c in r.comps:
                if (c.optional or c.default is not None) and c.name not in need:
                    continue
                v[c.name] = self.minimal(self.S.resolve(c.type), st)
        elif k in ('SEQUENCE OF', 'SET OF'):
            n = max([c[1] for c in atoms(r.cons) if c[0] == 'SIZE'] or [0])
            v = self.make_list(r, n, st)
        else:
            v = candidates(r)[0]
        # a CHOICE's minimal value may depend on the recursion context
        if not stack:
            self.mincache[key] = v
        return v

    def present(self, r):
        """Simplest value an optional component can carry."""
        m = self.minimal(r)
        if not ref.lossy(self.S, r, m, True):
            return m
        for v in self.reduced(r) + self.variants(r, 0):
            if not ref.lossy(self.S, r, v, True):
                return v
        if r.kind in ('SEQUENCE OF', 'SET OF'):
            return [self.present(self.S.resolve(r.elem))]
        raise NoValue('always empty')

    def make_list(self, r, n, st=()):
        if n == 0:
            return []
        er = self.S.resolve(r.elem)
        m = self.minimal(er, st)
        return [m] * int(n)

    def required(self, r):
        """Optional components a WITH constraint makes mandatory."""
        for c in r.cons:
            x = c
            if x[0] == '|':
                x = x[1][0]
            if x[0] == 'WITH':
                return [n for n, w in x[1] if w == 'PRESENT']
            if x[0] == 'SIZE':
                return [k.name for k in r.comps[::-1][:int(x[1])]]
        return []

    # ---- variants
    def variants(self, r, depth=None, stack=()):
        """All single-path deviations; first is the minimal value."""
        if depth is None:
            depth = self.full_depth
        k = r.kind
        if stack.count(id(r)) >= 2:
            try:
                return [self.minimal(r)]
            except NoValue:
                return []
        st = stack + (id(r),)
        out = []
        if k == 'CHOICE':
            m = self.minimal(r)
            out.append(m)
            for c in r.comps:
                cr = self.S.resolve(c.type)
                for v in self.sub(cr, depth, st):
                    out.append((c.name, v))
        elif k in ('SEQUENCE', 'SET'):
            m = self.minimal(r)
            out.append(m)
            opts = [c for c in r.comps if c.name not in m]
            mv = {}
            for c in r.comps:
                try:
                    mv[c.name] = self.present(self.S.resolve(c.type))
                except NoValue:
                    pass
            # presence patterns: all when few, else singles, pairs, all-but-one, all
            names = [c.name for c in opts if c.name in mv]
            for pat in self.patterns(names, top=not stack):
                v = dict(m)
                for n in pat:
                    c = [x for x in opts if x.name == n][0]
                    v[n] = self.differing(c, mv[n])
                v = {c.name: v[c.name] for c in r.comps if c.name in v}
                out.append(v)
            for c in r.comps:
                cr = self.S.resolve(c.type)
                for cv in self.sub(cr, depth, st):
                    if ref.lossy(self.S, cr, cv, c.optional):
                        continue
                    v = dict(m)
                    v[c.name] = cv
                    out.append({x.name: v[x.name] for x in r.comps if x.name in v})
            out = [v for v in out if ref.satisfies(r, v)]
        elif k in ('SEQUENCE OF', 'SET OF'):
            m = self.minimal(r)
            out.append(m)
            er = self.S.resolve(r.elem)
            lo = max([c[1] for c in atoms(r.cons) if c[0] == 'SIZE'] or [0])
            hi = min([c[2] for c in atoms(r.cons) if c[0] == 'SIZE'] or [INF])
            evs = self.sub(er, depth, st)
            n = max(lo, 1)
            if n <= hi and evs:
                for ev in evs:
                    out.append([ev] + [evs[0]] * (int(n) - 1))
            if evs:
                for n in (2, 3):
                    if lo <= n <= hi:
                        pool = [evs[i % len(evs)] for i in range(n)]
                        out.append(pool)
                        out.append(pool[::-1])
        else:
            out = candidates(r)
        return self.dedup(r, out)

    def rich(self, r):
        """Scalars over a wide domain, lists of many sizes with different elements."""
        if r.kind in ('SEQUENCE OF', 'SET OF'):
            er = self.S.resolve(r.elem)
            try:
                els = [x for x in self.reduced(er) + self.variants(er, 0) if not ref.lossy(self.S, er, x, True)]
            except NoValue:
                return []
            els = els[:5] or []
            out = [[els[i % m] for i in range(n)] for n in list(range(1, 41)) + [64, 65, 128, 300] for m in range(1, len(els) + 1)]
            return self.dedup(r, [v for v in out if ref.satisfies(r, v)])
        return [] if r.kind in CONSTRUCTED or r.kind in ('ANY', 'CHOICE') else rich(r)

    def around_full(self, r, depth):
        """The value with everything present, one component of it deviating."""
        if r.kind not in ('SEQUENCE', 'SET'):
            return []
        full = self.reduced(r)[-1]
        out = []
        for c in r.comps:
            if c.name in full:
                for cv in self.sub(self.S.resolve(c.type), depth, (id(r),)):
                    if not ref.lossy(self.S, self.S.resolve(c.type), cv, c.optional):
                        out.append({k: cv if k == c.name else x for k, x in full.items()})
        return self.dedup(r, [v for v in out if ref.satisfies(r, v)])

    def pairs(self, r):
        """Two components deviating from the minimal value at once."""
        if r.kind not in ('SEQUENCE', 'SET'):
            return []
        m = self.minimal(r)
        alt = {}
        for c in r.comps:
            q = self.S.resolve(c.type)
            alt[c.name] = [x for x in self.reduced(q) if not ref.lossy(self.S, q, x, c.optional)]
        out = []
        for a, b in itertools.combinations([c.name for c in r.comps], 2):
            for x in alt[a]:
                for y in alt[b]:
                    v = dict(m)
                    v[a], v[b] = x, y
                    out.append({c.name: v[c.name] for c in r.comps if c.name in v})
        return self.dedup(r, [v for v in out if ref.satisfies(r, v)])

    def differing(self, c, v):
        """A value for a defaulted component that differs from the default."""
        if c.default is None:
            return v
        d = ref.default(self.S, c)
        if v != d:
            return v
        cr = self.S.resolve(c.type)
        for x in self.variants(cr, 0, (1,)):
            if x != d:
                return x
        return v

    def patterns(self, names, top):
        n = len(names)
        if n <= (7 if top else 3):
            for k in range(1, n + 1):
                for p in itertools.combinations(names, k):
                    yield p
            return
        for a in names:
            yield (a,)
        if top:
            for p in itertools.combinations(names, 2):
                yield p
            for a in names:
                yield tuple(x for x in names if x != a)
        yield tuple(names)

    def sub(self, cr, depth, st):
        """Variants of a component.  Inline structure belongs to the type being
        explored; a reference to another published type costs one depth."""
        if cr.label is None or cr.src.kind != 'REF' and False:
            return self.variants(cr, depth, st)
        if depth <= 0:
            return self.reduced(cr, st)
        return self.variants(cr, depth - 1, st)

    def reduced(self, r, st=()):
        """Minimal, full, and one value per alternative."""
        key = id(r)
        if key in self.redcache:
            return self.redcache[key]
        k = r.kind
        if k == 'CHOICE':
            out = []
            for c in r.comps:
                try:
                    out.append((c.name, self.minimal(self.S.resolve(c.type))))
                except NoValue:
                    pass
        elif k in ('SEQUENCE', 'SET'):
            m = self.minimal(r)
            out = [m]
            v = {}
            for c in r.comps:
                try:
                    v[c.name] = self.differing(c, m[c.name] if c.name in m else self.present(self.S.resolve(c.type)))
                except NoValue:
                    pass
            if ref.satisfies(r, v):
                out.append(v)
        elif k in ('SEQUENCE OF', 'SET OF'):
            m = self.minimal(r)
            out = [m]
            if not m:
                try:
                    e = self.minimal(self.S.resolve(r.elem))
                    if ref.satisfies(r, [e]):
                        out.append([e])
                except NoValue:
                    pass
        else:
            out = candidates(r)[:3]
        out = self.dedup(r, out)
        self.redcache[key] = out
        return out

    def dedup(self, r, vals):
        seen, out = set(), []
        for v in vals:
            k = freeze(v)
            if k not in seen:
                seen.add(k)
                out.append(v)
        return out


def freeze(v):
    if isinstance(v, dict):
        return ('d',) + tuple((k, freeze(x)) for k, x in v.items())
    if isinstance(v, list):
        return ('l',) + tuple(freeze(x) for x in v)
    if isinstance(v, tuple):
        return ('t',) + tuple(freeze(x) for x in v)
    return (type(v).__name__, v)
