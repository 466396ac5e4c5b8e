"""The model, with the adjustments the known findings call for."""
from . import spec, ref, gen

_model = None
PRIMITIVE = ('rfc2634', 'rfc3281', 'rfc5755')


def load():
    """The specification.  SecurityCategory.value (known finding F1) is modelled
    with the primitive tag the implementation emits; if the implementation emits
    the constructed form the standard asks for, the model follows the standard."""
    global _model
    if _model is None:
        S = spec.load()
        from . import impl
        for m in PRIMITIVE:
            t = S.modules[m].types['SecurityCategory']
            try:
                o = impl.schema(m, 'SecurityCategory')
                o['type'] = (1, 2, 3)
                o['value'] = b'\x05\x00'
                e = impl.der_encoder.encode(o)
                if e[-4:-3] == b'\xa1':
                    for c in t.comps:
                        if c.name == 'value':
                            c.type.tags = [('E', 2, 1)]
                            c.type._res = None
            except Exception:
                pass
        _model = S
    return _model


def types(S):
    return [(mn, tn) for mn, m in S.modules.items() for tn in m.types]


def chunks(seq, n):
    seq = list(seq)
    return [seq[i::n] for i in range(n) if seq[i::n]]


def okvals(S, r, v):
    """Do all scalar constraints hold inside v (list sizes are not looked at
    when decoding)?"""
    if r.kind == 'CHOICE':
        return okvals(S, S.resolve([c for c in r.comps if c.name == v[0]][0].type), v[1])
    if r.kind in ('SEQUENCE', 'SET'):
        return all(okvals(S, S.resolve(c.type), v[c.name]) for c in r.comps if c.name in v)
    if r.kind in ('SEQUENCE OF', 'SET OF'):
        return all(okvals(S, S.resolve(r.elem), x) for x in v)
    return ref.satisfies(r, v)


def okall(S, r, v):
    """Does v satisfy every constraint of the model, at every node?"""
    if r.kind == 'CHOICE':
        return okall(S, S.resolve([c for c in r.comps if c.name == v[0]][0].type), v[1])
    if r.kind in ('SEQUENCE', 'SET'):
        if not all(okall(S, S.resolve(c.type), v[c.name]) for c in r.comps if c.name in v):
            return False
    if r.kind in ('SEQUENCE OF', 'SET OF'):
        if not all(okall(S, S.resolve(r.elem), x) for x in v):
            return False
    return ref.satisfies(r, v)


def sites(S, G, r, refs=1, path=(), wrap=None, seen=()):
    """Every node of the type tree of r: (path, node, wrap), where wrap(x) is a
    value of r holding x at that node.  Inline structure is entered entirely,
    references to published types `refs` deep."""
    if wrap is None:
        wrap = lambda x: x
    yield path, r, wrap
    if id(r) in seen:
        return
    seen = seen + (id(r),)
    kids = []
    if r.kind in ('SEQUENCE', 'SET'):
        try:
            m = G.minimal(r)
        except gen.NoValue:
            return
        for c in r.comps:
            kids.append((c.name, S.resolve(c.type),
                         lambda x, n=c.name: wrap({k.name: x if k.name == n else m[k.name] for k in r.comps
                                                   if k.name == n or k.name in m})))
    elif r.kind == 'CHOICE':
        for c in r.comps:
            kids.append((c.name, S.resolve(c.type), lambda x, n=c.name: wrap((n, x))))
    elif r.kind in ('SEQUENCE OF', 'SET OF'):
        lo = int(max([c[1] for c in gen.atoms(r.cons) if c[0] == 'SIZE'] or [1]))
        kids.append(('*', S.resolve(r.elem), lambda x: wrap([x] * max(lo, 1))))
    for n, cr, w in kids:
        left = refs - (1 if cr.label and cr.kind in impl_constructed else 0)
        if left < 0:
            yield path + (n,), cr, w
        else:
            for t in sites(S, G, cr, left, path + (n,), w, seen):
                yield t


impl_constructed = ('SEQUENCE', 'SET', 'CHOICE', 'SEQUENCE OF', 'SET OF')
