"""Adaptor: abstract values <-> the implementation under check, by its public
interface only (schema objects, component names, the codecs)."""
import importlib

from . import REPO
from pyasn1.codec.der import encoder as der_encoder, decoder as der_decoder
from pyasn1.codec.ber import encoder as ber_encoder, decoder as ber_decoder
from pyasn1.codec.cer import encoder as cer_encoder, decoder as cer_decoder
from pyasn1.type import univ, base, char, useful
from pyasn1 import error


class Mismatch(Exception):
    """The implementation has not the shape the model says it has."""


def module(name):
    return importlib.import_module('pyasn1_modules.' + name)


def schema(mod, name):
    cls = getattr(module(mod), name)
    return cls() if isinstance(cls, type) else cls


CONSTRUCTED = ('SEQUENCE', 'SET', 'CHOICE', 'SEQUENCE OF', 'SET OF')


def build(S, r, obj, v):
    """A value of schema object obj holding abstract value v."""
    if r.kind not in CONSTRUCTED:
        return obj.clone(native(r, v))
    out = obj.clone()
    fill(S, r, out, v)
    return out


def fill(S, r, out, v):
    """Populate a constructed object in place, as an application does."""
    k = r.kind
    if k in ('SEQUENCE', 'SET'):
        out.clear()
        names = check_names(r, out)
        for c in r.comps:
            if c.name in v:
                put(S, S.resolve(c.type), out, names.index(c.name), v[c.name])
    elif k == 'CHOICE':
        names = check_names(r, out)
        for c in r.comps:
            if c.name == v[0]:
                put(S, S.resolve(c.type), out, names.index(c.name), v[1])
    else:
        out.clear()
        er = S.resolve(r.elem)
        if out.componentType is None:
            raise Mismatch('list without element type')
        for i, x in enumerate(v):
            put(S, er, out, i, x)


def put(S, r, out, i, v):
    if r.kind in CONSTRUCTED:
        sub = out.getComponentByPosition(i)
        if r.kind in ('SEQUENCE', 'SET'):
            need(sub, univ.Sequence if r.kind == 'SEQUENCE' else univ.Set)
        elif r.kind == 'CHOICE':
            need(sub, univ.Choice)
        else:
            need(sub, univ.SequenceOf if r.kind == 'SEQUENCE OF' else univ.SetOf)
        fill(S, r, sub, v)
    else:
        out.setComponentByPosition(i, native(r, v))


def native(r, v):
    k = r.kind
    if k == 'NULL':
        return ''
    if k == 'BOOLEAN':
        return int(v)
    if k == 'BIT STRING':
        return tuple(int(x) for x in v)
    return v


def check_names(r, obj):
    names = [nt.name for nt in obj.componentType.namedTypes]
    want = [c.name for c in r.comps]
    if '' in want:
        if len(names) != len(want):
            raise Mismatch('components %r, model %r' % (names, want))
        return want
    if sorted(names) != sorted(want):
        raise Mismatch('components %r, model %r' % (names, want))
    return names


def walk(S, r, obj):
    """Abstract value held by obj, read through component names."""
    k = r.kind
    if k in ('SEQUENCE', 'SET'):
        need(obj, univ.Sequence if k == 'SEQUENCE' else univ.Set)
        names = check_names(r, obj)
        out = {}
        for c in r.comps:
            x = obj.getComponentByPosition(names.index(c.name), default=None, instantiate=c.default is not None)
            if x is None or not x.isValue:
                continue
            out[c.name] = walk(S, S.resolve(c.type), x)
        return out
    if k == 'CHOICE':
        need(obj, univ.Choice)
        names = check_names(r, obj)
        n = obj.getName()
        x = obj.getComponent()
        if '' in names:
            n = [c.name for c in r.comps][0] if len(r.comps) == 1 else n
        for c in r.comps:
            if c.name == n:
                return (n, walk(S, S.resolve(c.type), x))
        raise Mismatch('alternative %r' % n)
    if k in ('SEQUENCE OF', 'SET OF'):
        need(obj, univ.SequenceOf if k == 'SEQUENCE OF' else univ.SetOf)
        er = S.resolve(r.elem)
        return [walk(S, er, obj.getComponentByPosition(i)) for i in range(len(obj))]
    if k == 'NULL':
        need(obj, univ.Null)
        return None
    if k == 'BOOLEAN':
        need(obj, univ.Boolean)
        return bool(obj)
    if k in ('INTEGER', 'ENUMERATED'):
        need(obj, univ.Integer if k == 'INTEGER' else univ.Enumerated)
        return int(obj)
    if k == 'BIT STRING':
        need(obj, univ.BitString)
        return ''.join(str(x) for x in obj)
    if k == 'OBJECT IDENTIFIER':
        need(obj, univ.ObjectIdentifier)
        return tuple(obj)
    if k == 'ANY' and not isinstance(obj, univ.Any):
        return der_encoder.encode(obj)      # an open type set to a typed value
    if k == 'OCTET STRING' or k == 'ANY':
        need(obj, univ.OctetString)
        return obj.asOctets()
    need(obj, getattr(char, k, None) or getattr(useful, k))
    return str(obj)


def need(obj, cls):
    if not isinstance(obj, cls):
        raise Mismatch('%s where %s expected' % (type(obj).__name__, cls.__name__))


def norm(S, r, v):
    """Abstract value as read back: defaults filled in, SET OF in DER order."""
    from . import ref
    k = r.kind
    if k in ('SEQUENCE', 'SET'):
        out = {}
        for c in r.comps:
            if c.name in v:
                out[c.name] = norm(S, S.resolve(c.type), v[c.name])
            elif c.default is not None:
                out[c.name] = norm(S, S.resolve(c.type), ref.default(S, c))
        return out
    if k == 'CHOICE':
        c = [x for x in r.comps if x.name == v[0]][0]
        return (v[0], norm(S, S.resolve(c.type), v[1]))
    if k == 'SEQUENCE OF':
        er = S.resolve(r.elem)
        return [norm(S, er, x) for x in v]
    if k == 'SET OF':
        er = S.resolve(r.elem)
        enc = {}
        for x in v:
            enc.setdefault(ref.encode(S, er, x), x)
        out = []
        for e in ref.setof_sort([ref.encode(S, er, x) for x in v]):
            out.append(norm(S, er, enc[e]))
        return out
    return v


def show(v):
    if isinstance(v, bytes):
        return "'%s'H" % v.hex() if len(v) < 200 else "'%s..'H(%d)" % (v[:40].hex(), len(v))
    if isinstance(v, dict):
        return '{%s}' % ', '.join('%s %s' % (k or "''", show(x)) for k, x in v.items())
    if isinstance(v, list):
        return '[%s]' % ', '.join(show(x) for x in v[:5]) + ('...(%d)' % len(v) if len(v) > 5 else '')
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str):
        return '%s: %s' % (v[0], show(v[1]))
    return repr(v) if not isinstance(v, str) or len(v) < 100 else repr(v[:40]) + '..(%d)' % len(v)
