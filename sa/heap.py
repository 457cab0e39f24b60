"""Abstract heap objects (immutable contents, so a state copy is a dict copy)."""
from .terms import *
from .ops import *


class HList:
    """segs: ('item', Val) | ('comp', binders, ns, segs) | ('if', cond, segs)
    | ('splat', Val) | ('phi', loopid)"""
    __slots__ = ('segs', 'kind')

    def __init__(self, segs=(), kind='list'):
        self.segs = tuple(segs)
        self.kind = kind


class HDict:
    __slots__ = ('d', 'unknown', 'memo')

    def __init__(self, d=None, unknown=False, memo=()):
        self.d = dict(d or {})
        self.unknown = unknown
        self.memo = memo        # (key, value) kept under keys the analysis has no constant for


class Store:
    __slots__ = ('bs', 'ns', 'guards', 'idx', 'val', 'loc')

    def __init__(self, bs, ns, guards, idx, val, loc):
        self.bs, self.ns, self.guards = tuple(bs), tuple(ns), tuple(guards)
        self.idx, self.val, self.loc = tuple(idx), val, loc


class HArr:
    """shape: tuple of N or None (unknown); base: Val (scalar fill, vector or
    table) the array was created from; stores applied in order."""
    __slots__ = ('shape', 'base', 'stores', 'bad', 'dtype')

    def __init__(self, shape, base, stores=(), bad=None, dtype=None):
        self.shape, self.base, self.stores = shape, base, tuple(stores)
        self.bad = bad
        self.dtype = dtype

    def with_store(self, st):
        if self.dtype:
            st = Store(st.bs, st.ns, st.guards, st.idx, cast_to(self.dtype, st.val), st.loc)
        return HArr(self.shape, self.base, self.stores + (st,), self.bad, self.dtype)


class HInst:
    """Instance: of an analysed class (fields) or of an outside class
    (history of mutating method calls)."""
    __slots__ = ('cls', 'fields', 'hist')

    def __init__(self, cls, fields=None, hist=()):
        self.cls = cls
        self.fields = dict(fields or {})
        self.hist = tuple(hist)


class It(Val):
    """Lazy iterable: domain binders with bounds, and the element."""
    __slots__ = ('bs', 'ns', 'elem', 'cond')
    ty = 'iter'

    def __init__(self, bs, ns, elem, cond=TRUE):
        self.bs, self.ns, self.elem, self.cond = tuple(bs), tuple(ns), elem, cond

    def key(self):
        return ('IT', tuple(b.key() for b in self.bs), tuple(n.key() for n in self.ns), self.elem.key())


def root_of(v):
    """The parameter a path term hangs off, or None if it is not a path."""
    while True:
        if isinstance(v, View):
            v = v.base
            continue
        a = as_atom(v)
        if a is None:
            return None
        if a.op == 'par':
            return a
        if a.op in ('attr', 'at', 'item', 'col', 'row', 'slice', 'rev', 'select'):
            v = a.args[0]
            continue
        return None


def path_str(v):
    if isinstance(v, View):
        return path_str(v.base) + '[' + ','.join(show(i) for i in v.idx) + ']'
    a = as_atom(v)
    if a is None:
        return show(v)
    if a.op == 'par':
        return a.args[0]
    if a.op == 'attr':
        return path_str(a.args[0]) + '.' + a.args[1]
    if a.op == 'at':
        return path_str(a.args[0]) + '[*]'
    if a.op == 'item':
        return path_str(a.args[0]) + '[' + repr(a.args[1]) + ']'
    if a.op in ('col', 'row'):
        return path_str(a.args[0]) + '[:,%s]' % show(a.args[1])
    if a.op in ('slice', 'rev'):
        return path_str(a.args[0]) + '[..]'
    if a.op == 'copyof':
        return 'copyof(%s)' % path_str(a.args[0])
    return show(v)


def chain_of(v):
    """path_str of v and of every object it is reached through, innermost first"""
    out = []
    while True:
        out.append(path_str(v))
        if isinstance(v, View):
            v = v.base
            continue
        a = as_atom(v) if isinstance(v, N) else None
        if a is None or a.op not in ('attr', 'at', 'item', 'col', 'row', 'slice', 'rev', 'select'):
            return out
        v = a.args[0]
