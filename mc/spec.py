"""The model: an independent description of every published specification.

/verif/spec/<module>.asn holds, in a small ASN.1-like notation, the types,
named values, identifiers and registrations the standards define.  This file
parses it.  Nothing here looks at the implementation.

Notation
    Name ::= Type                    published type
    name Type ::= value              published constant
    name MAP                         published registry
    REGISTER module.map { key Type, ... }   what a module adds to a registry
    Type  = [n] IMPLICIT|EXPLICIT prefixes, a core, then constraints
            [n] IMPLICIT ANY: the tag is emitted in primitive form (see DESIGN.md)
    field = name Type [OPEN(governor, registry)] [OPTIONAL | DEFAULT v]
"""
import os, re

SPECDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')

UNIVERSAL = {
    'BOOLEAN': 1, 'INTEGER': 2, 'BIT STRING': 3, 'OCTET STRING': 4, 'NULL': 5,
    'OBJECT IDENTIFIER': 6, 'ObjectDescriptor': 7, 'REAL': 9, 'ENUMERATED': 10,
    'UTF8String': 12, 'SEQUENCE': 16, 'SET': 17, 'SEQUENCE OF': 16, 'SET OF': 17,
    'NumericString': 18, 'PrintableString': 19, 'TeletexString': 20, 'T61String': 20,
    'VideotexString': 21, 'IA5String': 22, 'UTCTime': 23, 'GeneralizedTime': 24,
    'GraphicString': 25, 'VisibleString': 26, 'ISO646String': 26, 'GeneralString': 27,
    'UniversalString': 28, 'BMPString': 30,
}
CLASSES = {'UNIVERSAL': 0, 'APPLICATION': 1, 'PRIVATE': 3}
CONSTRUCTED = ('SEQUENCE', 'SET', 'SEQUENCE OF', 'SET OF')

TOK = re.compile(r"""\s*(?:
    (?P<hex>'[0-9A-Fa-f]*'H) |
    (?P<str>'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*") |
    (?P<oid>\d+(?:\.\d+)+(?!\.)) |
    (?P<num>-?\d+) |
    (?P<dots>\.\.) |
    (?P<name>[A-Za-z_][A-Za-z0-9_\-]*(?:\.[A-Za-z_][A-Za-z0-9_\-]*)?) |
    (?P<asg>::=) |
    (?P<p>[{}()\[\],|&])
    )""", re.X)


class Comp(object):
    __slots__ = ('name', 'type', 'optional', 'default', 'open')

    def __init__(self, name, type, optional, default, open):
        self.name, self.type, self.optional, self.default, self.open = name, type, optional, default, open


class T(object):
    """A type expression.  kind is a base kind, or 'REF' with .ref = (mod, name)."""
    __slots__ = ('kind', 'ref', 'tags', 'comps', 'elem', 'named', 'cons', '_res', 'label')

    def __init__(self, kind):
        self.kind = kind
        self.ref = None
        self.tags = []       # prefixes, outermost first: (mode, cls, num)
        self.comps = None
        self.elem = None
        self.named = None    # [(name, value)]
        self.cons = []
        self._res = None
        self.label = None


class Module(object):
    def __init__(self, name):
        self.name = name
        self.types = {}      # name -> T
        self.values = {}     # name -> (T, value)
        self.maps = []       # registry names
        self.registers = []  # [(mod, map, key, T)]


class Parser(object):
    def __init__(self, text, mod, spec):
        self.toks = []
        self.mod = mod
        self.spec = spec
        pos = 0
        text = re.sub(r'/\*.*?\*/', '', text)
        text = re.sub(r'(?m)^#.*$', '', text)
        text = text.rstrip()
        while pos < len(text):
            m = TOK.match(text, pos)
            if not m:
                raise SyntaxError('%s: cannot read %r' % (mod, text[pos:pos + 60]))
            k = m.lastgroup
            self.toks.append((k, m.group(k)))
            pos = m.end()
        self.i = 0

    def peek(self, n=0):
        return self.toks[self.i + n] if self.i + n < len(self.toks) else ('end', '')

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def eat(self, s):
        t = self.next()
        if t[1] != s:
            raise SyntaxError('%s: expected %r, found %r near %s' % (
                self.mod, s, t[1], ' '.join(x[1] for x in self.toks[max(0, self.i - 12):self.i + 4])))
        return t

    def isp(self, s, n=0):
        k, v = self.peek(n)
        return v == s and k in ('p', 'name', 'asg', 'dots')

    def module(self):
        self.eat('MODULE')
        m = Module(self.next()[1])
        assert m.name == self.mod
        while self.peek()[0] != 'end':
            k, name = self.next()
            if name == 'REGISTER':
                q, reg = self.next()
                rm, rn = reg.split('.')
                self.eat('{')
                while not self.isp('}'):
                    key = self.value()
                    t = self.type()
                    m.registers.append((rm, rn, key, t))
                    if self.isp(','):
                        self.next()
                self.eat('}')
            elif self.isp('MAP'):
                self.next()
                m.maps.append(name)
            elif self.isp('::='):
                self.next()
                t = self.type()
                t.label = '%s.%s' % (self.mod, name)
                m.types[name] = t
            else:
                t = self.type()
                self.eat('::=')
                m.values[name] = (t, self.value(True))
        return m

    def value(self, rec=False):
        k, v = self.next()
        if k == 'oid':
            return tuple(int(x) for x in v.split('.'))
        if k == 'num':
            return int(v)
        if k == 'hex':
            return bytes.fromhex(v[1:-2])
        if k == 'str':
            return eval(v)
        if v in ('TRUE', 'FALSE'):
            return v == 'TRUE'
        if v == '{' and rec:
            d = {}
            while not self.isp('}'):
                f = self.next()[1]
                d[f] = self.value()
                if self.isp(','):
                    self.next()
            self.eat('}')
            return d
        raise SyntaxError('%s: bad value %r' % (self.mod, v))

    def bound(self):
        k, v = self.next()
        if v == 'MAX':
            return float('inf')
        if v == 'MIN':
            return float('-inf')
        return int(v)

    def range(self):
        self.eat('(')
        a = self.bound()
        b = a
        if self.isp('..'):
            self.next()
            b = self.bound()
        self.eat(')')
        return a, b

    def constraint(self):
        if self.isp('SIZE'):
            self.next()
            return ('SIZE',) + self.range()
        if self.isp('VALUES') or self.isp('FROM'):
            k = self.next()[1]
            self.eat('(')
            vs = []
            while not self.isp(')'):
                vs.append(self.value())
                if self.isp(','):
                    self.next()
            self.eat(')')
            return (k, vs)
        if self.isp('WITH'):
            self.next()
            self.eat('(')
            vs = []
            while not self.isp(')'):
                n = self.next()[1]
                vs.append((n, self.next()[1]))
                if self.isp(','):
                    self.next()
            self.eat(')')
            return ('WITH', vs)
        if self.isp('('):
            if self.peek(1)[0] == 'num' or self.peek(1)[1] in ('MIN', 'MAX'):
                return ('RANGE',) + self.range()
            self.eat('(')
            parts = [self.constraint()]
            op = None
            while self.isp('&') or self.isp('|'):
                op = self.next()[1]
                parts.append(self.constraint())
            self.eat(')')
            return (op, parts) if op else parts[0]
        return None

    def type(self):
        tags = []
        while self.isp('['):
            self.next()
            k, v = self.next()
            cls = 2
            if k == 'name':
                cls = CLASSES[v]
                k, v = self.next()
            self.eat(']')
            mode = self.next()[1]
            assert mode in ('IMPLICIT', 'EXPLICIT'), mode
            tags.append((mode[0], cls, int(v)))
        k, v = self.next()
        if k != 'name':
            raise SyntaxError('%s: type expected, found %r near %s' % (
                self.mod, v, ' '.join(x[1] for x in self.toks[max(0, self.i - 12):self.i + 4])))
        if v in ('BIT', 'OCTET') and self.isp('STRING'):
            self.next()
            v += ' STRING'
        elif v == 'OBJECT' and self.isp('IDENTIFIER'):
            self.next()
            v = 'OBJECT IDENTIFIER'
        if v in ('SEQUENCE', 'SET'):
            cons = []
            while True:
                c = self.constraint()
                if c is None:
                    break
                cons.append(c)
            if self.isp('OF'):
                self.next()
                t = T(v + ' OF')
                t.elem = self.type()
            else:
                t = T(v)
                t.comps = self.body() if self.isp('{') else []
            t.cons = cons
        elif v == 'CHOICE':
            t = T('CHOICE')
            t.comps = self.body()
        elif v == 'ANY' or v in UNIVERSAL:
            t = T(v)
        else:
            t = T('REF')
            t.ref = tuple(v.split('.')) if '.' in v else (self.mod, v)
        t.tags = tags
        if self.isp('{') and t.kind not in ('SEQUENCE', 'SET', 'CHOICE', 'SEQUENCE OF', 'SET OF'):
            # named numbers / bits, or a field list refining a reference
            nt = self.peek(2)
            self.next()
            t.named = []
            while not self.isp('}'):
                n = self.next()[1]
                self.eat('(')
                k, x = self.next()
                t.named.append((n, int(x) if k == 'num' else eval(x) if k == 'str' else x))
                self.eat(')')
                if self.isp(','):
                    self.next()
            self.eat('}')
        while True:
            c = self.constraint()
            if c is None:
                break
            t.cons.append(c)
        return t

    def body(self):
        self.eat('{')
        comps = []
        while not self.isp('}'):
            k, name = self.next()
            if k == 'str':
                name = eval(name)
            t = self.type()
            opt, dfl, opn = False, None, None
            while True:
                if self.isp('OPEN'):
                    self.next()
                    self.eat('(')
                    gov = self.next()[1]
                    self.eat(',')
                    reg = self.next()[1]
                    self.eat(')')
                    opn = (gov, tuple(reg.split('.')) if '.' in reg else (self.mod, reg))
                elif self.isp('OPTIONAL'):
                    self.next()
                    opt = True
                elif self.isp('DEFAULT'):
                    self.next()
                    dfl = (self.value(),)
                else:
                    break
            comps.append(Comp(name, t, opt, dfl, opn))
            if self.isp(','):
                self.next()
        self.eat('}')
        return comps


class R(object):
    """A resolved type: base kind, complete tag stack, merged constraints."""
    __slots__ = ('kind', 'stack', 'comps', 'elem', 'named', 'cons', 'label', 'src', '_cache', 'prim')

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.label)


class Spec(object):
    def __init__(self, specdir=SPECDIR):
        self.modules = {}
        for f in sorted(os.listdir(specdir)):
            if f.endswith('.asn'):
                n = f[:-4]
                self.modules[n] = Parser(open(os.path.join(specdir, f)).read(), n, self).module()
        self.registry_keys = {}
        for m in self.modules.values():
            for mn in m.maps:
                self.registry_keys.setdefault((m.name, mn), {})
        for m in self.modules.values():
            for rm, rn, key, t in m.registers:
                self.registry_keys[(rm, rn)].setdefault(key, []).append((m.name, t))

    def named_type(self, mod, name):
        return self.modules[mod].types[name]

    def resolve(self, t):
        if t._res is not None:
            return t._res
        r = R()
        r.src = t
        if t.kind == 'REF':
            b = self.resolve(self.named_type(*t.ref))
            r.kind, r.comps, r.elem, r.named = b.kind, b.comps, b.elem, b.named
            stack = list(b.stack)
            r.cons = b.cons + t.cons
            r.label = t.label or '%s.%s' % t.ref
        else:
            r.kind, r.comps, r.elem, r.named = t.kind, t.comps, t.elem, t.named
            stack = [] if t.kind in ('CHOICE', 'ANY') else [(0, UNIVERSAL[t.kind])]
            r.cons = list(t.cons)
            r.label = t.label
        if t.named is not None:
            r.named = t.named
        r.prim = t.kind == 'ANY' and [m for m, c, n in t.tags] == ['I']
        for mode, cls, num in reversed(t.tags):
            if mode == 'I' and stack:
                stack[0] = (cls, num)
            else:
                stack.insert(0, (cls, num))
        r.stack = stack
        r._cache = {}
        t._res = r
        return r


_spec = None


def load():
    global _spec
    if _spec is None:
        _spec = Spec()
    return _spec
