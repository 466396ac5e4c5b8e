"""Generic TLV trees: parse any DER encoding, mutate nodes, serialise."""
from . import ref


class Node(object):
    __slots__ = ('cls', 'cons', 'num', 'kids', 'data')

    def __init__(self, cls, cons, num, kids, data):
        self.cls, self.cons, self.num, self.kids, self.data = cls, cons, num, kids, data


def parse(b):
    (cls, cons, num), s, e = ref.header(b, 0)
    assert e == len(b)
    if cons:
        return Node(cls, cons, num, [parse(x) for x in ref.split(b[s:e])], None)
    return Node(cls, cons, num, None, b[s:e])


def dump(n):
    return ref.tlv(n.cls, n.cons, n.num, n.data if n.kids is None else b''.join(dump(k) for k in n.kids))


FOREIGN = Node(3, False, 30, None, b'x')           # [PRIVATE 30] never used by any schema
FOREIGN_NULL = Node(0, False, 5, None, b'')


def paths(n, pre=()):
    yield pre
    for i, k in enumerate(n.kids or ()):
        for p in paths(k, pre + (i,)):
            yield p


def at(n, path):
    for i in path:
        n = n.kids[i]
    return n


def edit(n, path, f):
    """Copy of n where the list holding path's node is rewritten by f(list, index)."""
    if len(path) == 1:
        return Node(n.cls, n.cons, n.num, f(list(n.kids), path[0]), None)
    kids = list(n.kids)
    kids[path[0]] = edit(kids[path[0]], path[1:], f)
    return Node(n.cls, n.cons, n.num, kids, None)


def put(n, path, new):
    if not path:
        return new
    def f(l, i):
        l[i] = new
        return l
    return edit(n, path, f)


def mutations(root):
    """Every single structural edit of the tree: (description, bytes)."""
    for p in paths(root):
        n = at(root, p)
        # another identity for the element
        yield ('tag+1 at %s' % (p,), dump(put(root, p, Node(n.cls, n.cons, n.num + 1, n.kids, n.data))))
        if n.num > (1 if n.cls == 0 else 0):      # UNIVERSAL 0 is reserved
            yield ('tag-1 at %s' % (p,), dump(put(root, p, Node(n.cls, n.cons, n.num - 1, n.kids, n.data))))
        if n.num or n.cls != 2:
            yield ('class at %s' % (p,), dump(put(root, p, Node((n.cls + 2) % 4, n.cons, n.num, n.kids, n.data))))
        if p:
            yield ('drop %s' % (p,), dump(edit(root, p, lambda l, i: l[:i] + l[i + 1:])))
            yield ('repeat %s' % (p,), dump(edit(root, p, lambda l, i: l[:i + 1] + l[i:])))
            if p[-1] + 1 < len(at(root, p[:-1]).kids):
                yield ('swap %s' % (p,), dump(edit(root, p, lambda l, i: l[:i] + [l[i + 1], l[i]] + l[i + 2:])))
            yield ('foreign before %s' % (p,), dump(edit(root, p, lambda l, i: l[:i] + [FOREIGN] + l[i:])))
        if n.kids is not None:
            yield ('foreign last in %s' % (p,), dump(put(root, p, Node(n.cls, n.cons, n.num, n.kids + [FOREIGN], None))))
            yield ('null last in %s' % (p,), dump(put(root, p, Node(n.cls, n.cons, n.num, n.kids + [FOREIGN_NULL], None))))
            if n.kids:
                yield ('empty %s' % (p,), dump(put(root, p, Node(n.cls, n.cons, n.num, [], None))))
                if len(n.kids) == 1:
                    yield ('unwrap %s' % (p,), dump(put(root, p, n.kids[0])))
        yield ('wrap %s' % (p,), dump(put(root, p, Node(2, True, 0, [n], None))))
