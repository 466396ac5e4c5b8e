"""Open types in the model: what decoding with open-type resolution must give."""
from . import ref, model, impl, spec, gen


def candidates(S, c, v, loaded=None):
    """Types registered for component c of the (SEQUENCE) value v."""
    if not c.open or c.name not in v or c.open[0] not in v:
        return []
    reg = S.registry_keys.get(c.open[1], {})
    return [S.resolve(t) for m, t in reg.get(v[c.open[0]], ()) if loaded is None or m in loaded]


def payloads(S, c, v):
    """Raw octets the open component holds: a list."""
    x = v[c.name]
    return x if isinstance(x, list) else [x]


def predict(S, r, v, loaded=None):
    """'ok' | 'reject' | 'skip': what resolving every open type in v must do."""
    k = r.kind
    out = 'ok'
    if k == 'CHOICE':
        c = [x for x in r.comps if x.name == v[0]][0]
        return predict(S, S.resolve(c.type), v[1], loaded)
    if k in ('SEQUENCE OF', 'SET OF'):
        er = S.resolve(r.elem)
        return worst([predict(S, er, x, loaded) for x in v])
    if k not in ('SEQUENCE', 'SET'):
        return 'ok'
    votes = []
    for c in r.comps:
        if c.name not in v or c.default is not None and v[c.name] == ref.default(S, c):
            continue
        cs = candidates(S, c, v, loaded)
        if cs:
            for p in payloads(S, c, v):
                votes.append(agree([verdict(S, t, p, loaded) for t in cs]))
        elif not c.open:
            votes.append(predict(S, S.resolve(c.type), v[c.name], loaded))
    return worst(votes)


def verdict(S, t, p, loaded):
    try:
        parts = ref.split(p)
    except ref.Reject:
        return 'reject'
    if len(parts) > 1:
        return 'skip'            # the codec library ignores what follows a payload
    if not parts:
        return 'skip'
    try:
        v = ref.decode(S, t, p)
    except ref.DontCare:
        return 'skip'
    except ref.Reject:
        return 'reject'
    if not model.okvals(S, t, v):
        return 'reject'
    return predict(S, t, v, loaded)


def worst(l):
    return 'skip' if 'skip' in l else 'reject' if 'reject' in l else 'ok'


def agree(l):
    return l[0] if len(set(l)) == 1 else 'skip'


def check(S, r, v, o, loaded=None, path=''):
    """None if o is v with its open types resolved, else what differs."""
    k = r.kind
    try:
        if k in ('SEQUENCE', 'SET'):
            names = impl.check_names(r, o)
            for c in r.comps:
                x = o.getComponentByPosition(names.index(c.name), default=None, instantiate=False)
                has = x is not None and x.isValue
                here = '%s.%s' % (path, c.name)
                if not has and c.default is not None:
                    continue
                if has != (c.name in v):
                    return '%s is %s' % (here, 'present' if has else 'absent')
                if not has:
                    continue
                cs = candidates(S, c, v, loaded)
                if not cs:
                    if c.open:
                        w = opaque(x)
                        if w != v[c.name]:
                            return '%s is %s, not the octets %s' % (here, impl.show(w)[:200], impl.show(v[c.name])[:200])
                        continue
                    d = check(S, S.resolve(c.type), v[c.name], x, loaded, here)
                    if d:
                        return d
                    continue
                islist = isinstance(v[c.name], list)
                xs = [x.getComponentByPosition(i) for i in range(len(x))] if islist else [x]
                ps = payloads(S, c, v)
                if len(xs) != len(ps):
                    return '%s has %d values' % (here, len(xs))
                for i, (y, p) in enumerate(zip(xs, ps)):
                    ds = [typed(S, t, p, y, loaded, here) for t in cs]
                    if all(ds):
                        return ds[0]
            return None
        if k == 'CHOICE':
            impl.check_names(r, o)
            names = [nt.name for nt in o.componentType.namedTypes]
            n = o.getName()
            if '' in names and len(r.comps) == 1:
                n = r.comps[0].name
            if n != v[0]:
                return '%s is alternative %r, not %r' % (path, n, v[0])
            c = [x for x in r.comps if x.name == v[0]][0]
            return check(S, S.resolve(c.type), v[1], o.getComponent(), loaded, path + '/' + v[0])
        if k in ('SEQUENCE OF', 'SET OF'):
            if len(o) != len(v):
                return '%s has %d elements, not %d' % (path, len(o), len(v))
            er = S.resolve(r.elem)
            for i, x in enumerate(v):
                d = check(S, er, x, o.getComponentByPosition(i), loaded, '%s[%d]' % (path, i))
                if d:
                    return d
            return None
        w = impl.walk(S, r, o)
        if w != v:
            return '%s is %s, not %s' % (path, impl.show(w)[:200], impl.show(v)[:200])
        return None
    except impl.Mismatch as e:
        return '%s: %s' % (path, e)


def typed(S, t, p, y, loaded, here):
    try:
        pv = ref.decode(S, t, p)
    except ref.Reject as e:
        return '%s: payload %s is not of the registered type' % (here, p.hex()[:100])
    if type(y).__name__ == 'Any' and t.kind != 'ANY':
        return '%s left opaque, though a type is registered' % here
    return check(S, t, pv, y, loaded, here + '!')


def opaque(x):
    """Octets held by an unresolved open component."""
    if isinstance(x, (impl.univ.SetOf, impl.univ.SequenceOf)):
        return [opaque(x.getComponentByPosition(i)) for i in range(len(x))]
    if not isinstance(x, impl.univ.OctetString):
        raise impl.Mismatch('resolved to %s, though nothing is registered' % type(x).__name__)
    return x.asOctets()


def load_all():
    for mn in model.load().modules:
        impl.module(mn)


def sites(S, G):
    """Every published or inline SEQUENCE with an open component:
    (module, type, path, node, component, wrap)."""
    for mn, tn in model.types(S):
        r = S.resolve(S.modules[mn].types[tn])
        for path, n, wrap in model.sites(S, G, r, refs=0):
            if n.kind in ('SEQUENCE', 'SET') and (not path or not n.label):
                for c in n.comps:
                    if c.open:
                        yield mn, tn, path, n, c, wrap


def lossy(S, r, v, opt=False):
    """Would v, its open types resolved, fall under ref.lossy?"""
    k = r.kind
    if k == 'CHOICE':
        c = [x for x in r.comps if x.name == v[0]][0]
        return lossy(S, S.resolve(c.type), v[1], opt)
    if k in ('SEQUENCE OF', 'SET OF'):
        er = S.resolve(r.elem)
        return any(lossy(S, er, x, opt) for x in v)
    if k not in ('SEQUENCE', 'SET'):
        return False
    for c in r.comps:
        if c.name not in v:
            continue
        cs = candidates(S, c, v)
        for p in payloads(S, c, v) if cs else ():
            for t in cs:
                try:
                    pv = ref.decode(S, t, p)
                except ref.Reject:
                    continue
                if ref.lossy(S, t, pv, c.optional) or lossy(S, t, pv, c.optional):
                    return True
        if not cs and not c.open and lossy(S, S.resolve(c.type), v[c.name], c.optional):
            return True
    return False
