"""Registries of the implementation, observed from outside."""
import importlib, sys
from . import impl

PKG = 'pyasn1_modules.'


def loaded():
    return sorted(n[len(PKG):] for n in sys.modules if n.startswith(PKG + 'rfc'))


def key(k):
    return int(k) if isinstance(k, impl.univ.Integer) or isinstance(k, int) else tuple(k)


_sigs = {}


def signature(t):
    """Structure of a schema: what decides how values are coded."""
    k = id(t)
    if k not in _sigs:
        _sigs[k] = (t, signature1(t))       # t is kept, so that its id stays its own
    return _sigs[k][1]


def signature1(t, seen=()):
    if isinstance(t, type):
        t = t()
    kind = kindof(t)
    if id(type(t)) in seen:
        return ('again', kind)
    try:
        tags = tuple((x.tagClass, x.tagId) for x in t.tagSet.superTags)
    except Exception:
        tags = ()
    out = [kind, tags]
    s2 = seen + (id(type(t)),) if kind in ('Sequence', 'Set', 'Choice', 'SequenceOf', 'SetOf') and type(t).__module__.startswith(PKG) else seen
    if kind in ('Sequence', 'Set', 'Choice'):
        for nt in t.componentType.namedTypes:
            out.append((nt.name, nt.isOptional, nt.isDefaulted, bool(nt.openType), signature1(nt.asn1Object, s2)))
    elif kind in ('SequenceOf', 'SetOf'):
        out.append(signature1(t.componentType, s2) if t.componentType is not None else None)
        out.append(sizes(t))
    else:
        out.append(constraints(t))
        if hasattr(t, 'namedValues'):
            out.append(tuple(sorted(dict(t.namedValues.items()).items(), key=repr)))
    return tuple(out)


BEHAVIOUR = []            # non-empty: constraints are compared by what they accept
_accepted = {}
INTS = [-2, -1, 0, 1, 2, 3, 4, 5, 10, 127, 128, 255, 256, 65535, 65536, 1 << 31, 1 << 32, 1 << 64]
SIZES = [0, 1, 2, 3, 4, 5, 6, 8, 10, 11, 15, 16, 17, 20, 24, 32, 33, 40, 41, 63, 64, 65, 100, 127, 128, 129, 200, 201,
         255, 256, 257, 1000, 4096, 32768, 32769]


def sizes(t):
    """What numbers of elements a list takes."""
    text = repr((getattr(t, 'subtypeSpec', None), getattr(t, 'sizeSpec', None)))
    if text not in _accepted:
        acc = []
        for n in SIZES:
            try:
                for spec in (t.subtypeSpec, t.sizeSpec):
                    if spec:
                        spec([0] * n)
                acc.append(n)
            except Exception:
                pass
        _accepted[text] = tuple(acc)
    return _accepted[text]


def constraints(t):
    text = repr(getattr(t, 'subtypeSpec', None))
    if not BEHAVIOUR:
        return text
    k = kindof(t)
    if (k, text) not in _accepted:
        if k in ('Integer', 'Enumerated'):
            vals = INTS
        elif k == 'OctetString' or k == 'Any':
            vals = [b'a' * n for n in SIZES]
        elif k == 'BitString':
            vals = [(1,) * n for n in SIZES]
        elif k in ('Null', 'Boolean', 'ObjectIdentifier', 'Real'):
            vals = []
        else:
            vals = ['1' * n for n in SIZES] + [chr(c) for c in range(32, 127)]
        acc = []
        for i, v in enumerate(vals):
            try:
                t.clone(v)
                acc.append(i)
            except Exception:
                pass
        _accepted[k, text] = tuple(acc)
    return _accepted[k, text]


def kindof(t):
    for c in type(t).__mro__:
        if c.__module__.startswith('pyasn1.'):
            return c.__name__
    return type(t).__name__


def snapshot(spec, deep=True, mods=None):
    """{(module, map): {key: signature}} of the registries in loaded modules."""
    out = {}
    for mn, m in spec.modules.items():
        mod = sys.modules.get(PKG + mn)
        if mod is None:
            continue
        for name in m.maps:
            d = getattr(mod, name)
            out[mn, name] = {key(k): signature(v) if deep else id(v) for k, v in d.items()}
    if deep:
        out.update(views(out))
    return out


def opened(t, path, out):
    """Open components declared in a type itself, its nameless parts included."""
    for nt in getattr(getattr(t, 'componentType', None), 'namedTypes', ()):
        if nt.openType:
            out.append((path + '.' + nt.name, nt.openType))
        if type(nt.asn1Object).__module__.startswith('pyasn1.'):
            opened(nt.asn1Object, path + '.' + nt.name, out)
    e = getattr(t, 'componentType', None)
    if hasattr(e, 'tagSet') and type(e).__module__.startswith('pyasn1.'):
        opened(e, path + '.*', out)


_opened = {}


def views(registries):
    """The registries as the open components see them: the very registry, or what it holds instead."""
    maps, out = {}, {}
    for mn, name in registries:
        maps[id(getattr(sys.modules[PKG + mn], name))] = '%s.%s' % (mn, name)
    for mn in loaded():
        mod = sys.modules[PKG + mn]
        if mn not in _opened:
            _opened[mn] = l = []
            for n in sorted(vars(mod)):
                if isinstance(vars(mod)[n], type):
                    opened(vars(mod)[n], n, l)
        for path, ot in _opened[mn]:
            m = maps.get(id(getattr(ot, '_OpenType__typeMap', None)))
            out['%s component' % mn, path] = {'reads': m} if m else {key(k): signature(ot[k]) for k in ot}
    return out


def expected(spec, mods):
    """Keys the model says each registry holds once mods are loaded."""
    out = {}
    for mn in mods:
        for name in spec.modules[mn].maps if mn in spec.modules else ():
            out[mn, name] = set()
    for mn in mods:
        for rm, rn, k, t in spec.modules[mn].registers if mn in spec.modules else ():
            out.setdefault((rm, rn), set()).add(k)
    return out


def load(names):
    for n in names:
        importlib.import_module(PKG + n)
