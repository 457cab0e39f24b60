"""Interpreted outside functions: name -> f(interp, args, kw, node)."""
from .terms import *
from .terms import _ATOMS
from .ops import *
from .ops import _skey
from .heap import *

LIB = {}
MISSING = object()
UNROLL = 24


def lib(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


def g(args, kw, i, name, default=MISSING):
    if i is not None and i < len(args):
        return args[i]
    if name in kw:
        return kw[name]
    return default


def N1(v):
    return N(v.t) if isinstance(v, N) else v


# ---------------------------------------------------------------- creation
def shape_of(I, v):
    v = I.fz(v)
    if isinstance(v, Tup):
        return tuple(I.tonum(x) for x in v.items)
    return (I.tonum(v),)


def new_array(I, shape, base, dtype=None):
    if len(shape) == 0:
        return base
    if len(shape) > 2:
        return I.opaque('array of rank %d' % len(shape))
    return I.alloc(HArr(shape, base, (), None, dtype))


def dtype_of(v):
    if v is MISSING or v is NONE:
        return None
    return dtype_kind(v.name if isinstance(v, Mod) else getattr(v, 'v', getattr(v, 'name', '')))


@lib('numpy.zeros', 'numpy.empty')
def _zeros(I, a, k, n):
    return new_array(I, shape_of(I, g(a, k, 0, 'shape')), num(0), dtype_of(g(a, k, 1, 'dtype')))


@lib('numpy.ones')
def _ones(I, a, k, n):
    return new_array(I, shape_of(I, g(a, k, 0, 'shape')), num(1), dtype_of(g(a, k, 1, 'dtype')))


@lib('numpy.full')
def _full(I, a, k, n):
    return new_array(I, shape_of(I, g(a, k, 0, 'shape')), I.fz(g(a, k, 1, 'fill_value')), dtype_of(g(a, k, 2, 'dtype')))


def like(I, v, base, dt=MISSING):
    r = like_(I, v, base)
    kind = dtype_of(dt)
    if kind and isinstance(r, Ref):
        o = I.heap[r.id]
        I.heap[r.id] = HArr(o.shape, o.base, o.stores, o.bad, kind)
    return r


def like_(I, v, base):
    if isinstance(v, Ref) and isinstance(I.heap.get(v.id), HArr) and I.heap[v.id].shape is not None:
        return I.alloc(HArr(I.heap[v.id].shape, base))
    fv = I.fz(v)
    if isinstance(fv, Tup):
        if fv.items and isinstance(fv.items[0], Tup):
            return new_array(I, (num(len(fv.items)), num(len(fv.items[0].items))), base)
        return new_array(I, (num(len(fv.items)),), base)
    if isinstance(fv, N) and fv.ty in ('num', 'time'):
        return base
    if isinstance(fv, N) and fv.ty == 'arr2':
        return I.opaque('like of matrix', None, 'arr2')
    return new_array(I, (f_len(fv),), base)


@lib('numpy.zeros_like', 'numpy.empty_like')
def _zl(I, a, k, n):
    return like(I, a[0], num(0), g(a, k, 1, 'dtype'))


@lib('numpy.ones_like')
def _ol(I, a, k, n):
    return like(I, a[0], num(1), g(a, k, 1, 'dtype'))


@lib('numpy.full_like')
def _fl(I, a, k, n):
    return like(I, a[0], I.fz(g(a, k, 1, 'fill_value')), g(a, k, 2, 'dtype'))


@lib('numpy.array')
def _array(I, a, k, n):
    v = a[0] if a else k.get('object')
    r = toarray(I, v)
    dt = dtype_of(g(a, k, 1, 'dtype'))
    if dt:
        return I.map1(lambda x: cast_to(dt, x), r)
    if 'copy' in k and truth(k['copy']) is FALSE and not I.listobj(v) and not isinstance(v, Tup):
        return v
    if isinstance(r, N) and (isinstance(v, (Ref, View)) or root_of(r) is not None or isinstance(v, N)):
        return I.fresh_array(v if not I.listobj(v) else r)
    return r


def toarray(I, v):
    fv = I.fz(v)
    return arrify(fv)


def arrify(fv):
    if isinstance(fv, Tup):
        return Tup([arrify(x) for x in fv.items], 'array')
    a = as_atom(fv)
    if a is not None and a.op == 'comp' and isinstance(a.args[2], Tup):
        w = len(a.args[2].items)
        return mk('table', tuple(f_col(fv, j) for j in range(w)), 'table')
    return fv


@lib('numpy.asarray')
def _asarray(I, a, k, n):
    v = a[0] if a else k.get('a')
    if isinstance(v, (View,)) or isinstance(v, Ref) and isinstance(I.heap.get(v.id), HArr):
        return v
    return toarray(I, v)


@lib('numpy.copy')
def _copy(I, a, k, n):
    return I.fresh_array(a[0])


@lib('numpy.atleast_1d')
def _al1(I, a, k, n):
    v = I.fz(a[0])
    if isinstance(v, N) and v.ty in ('num', 'time'):
        return Tup([v], 'array')
    return a[0]


@lib('numpy.arange')
def _arange(I, a, k, n):
    v = [I.tonum(I.rv(x)) for x in a]
    st = num(1)
    if len(v) == 1:
        lo, hi = num(0), v[0]
    elif len(v) == 2:
        lo, hi = v
    else:
        lo, hi, st = v[:3]
    if 'step' in k:
        st = I.tonum(I.rv(k['step']))
    if intconst(lo) is not None and intconst(hi) is not None and intconst(st):
        r = range(intconst(lo), intconst(hi), intconst(st))
        if len(r) <= UNROLL:
            return Tup([num(x) for x in r], 'array')
    c = const(st)
    if c == 1 and isint(lo) and isint(hi):
        return N1(add(lo, f_iota(sub(hi, lo))))
    if c == -1 and isint(lo) and isint(hi):
        return N1(sub(lo, f_iota(sub(lo, hi))))
    return mk('arange', (lo, hi, st), 'arr')


@lib('numpy.linspace')
def _linspace(I, a, k, n):
    lo, hi = I.tonum(I.rv(a[0])), I.tonum(I.rv(a[1]))
    m = g(a, k, 2, 'num', num(50))
    m = I.tonum(I.rv(m))
    ep = g(a, k, 3, 'endpoint', TRUE)
    d = sub(m, num(1)) if ep is TRUE else m
    if const(d) == 0:
        return Tup([lo], 'array')
    return N1(add(lo, mul(f_iota(m), div(sub(hi, lo), d))))


@lib('numpy.logspace', 'numpy.geomspace')
def _logspace(I, a, k, n):
    return I.lib_atom('numpy.logspace', a, k, 'arr')


@lib('numpy.eye', 'numpy.identity')
def _eye(I, a, k, n):
    m = intconst(I.rv(a[0]))
    if m is None or m > 8:
        return I.opaque('eye')
    return Tup([Tup([num(int(i == j)) for j in range(m)], 'array') for i in range(m)], 'array')


@lib('numpy.diag')
def _diag(I, a, k, n):
    v = I.fz(a[0])
    if isinstance(v, Tup) and not isinstance(v.items[0], Tup):
        m = len(v.items)
        return Tup([Tup([v.items[i] if i == j else num(0) for j in range(m)], 'array') for i in range(m)], 'array')
    return I.opaque('diag')


# ---------------------------------------------------------------- elementwise
def ew(name, f):
    LIB[name] = lambda I, a, k, n: I.map1(f, a[0])


ew('numpy.abs', f_abs)
ew('numpy.sqrt', f_sqrt)
ew('numpy.exp', f_exp)
ew('numpy.cos', f_cos)
ew('numpy.sin', f_sin)
ew('numpy.real', f_real)
ew('numpy.conj', f_conj)
ew('numpy.square', lambda v: mul(v, v))
ew('numpy.negative', neg)
ew('numpy.reciprocal', inv)
ew('numpy.floor', f_floor)
ew('numpy.ceil', lambda v: neg(f_floor(neg(v))))
ew('numpy.trunc', f_trunc)
ew('numpy.isnan', lambda v: mk('isnan', (v,), join_ty([v.ty])))
ew('numpy.log', lambda v: mk('log', (v,), join_ty([v.ty])))
ew('numpy.log2', lambda v: mul(mk('log', (v,), join_ty([v.ty])), inv(mk('log', (num(2),), 'num'))))
ew('numpy.log10', lambda v: mul(mk('log', (v,), join_ty([v.ty])), inv(mk('log', (num(10),), 'num'))))
ew('numpy.sign', lambda v: mk('sign', (v,), join_ty([v.ty])))
ew('numpy.imag', lambda v: f_real(mul(neg(IMAG), v)))
ew('numpy.nan_to_num', lambda v: mk('lib', ('nan_to_num', v), v.ty))
ew('numpy.real_if_close', f_real)


@lib('numpy.round', 'builtins.round')
def _round(I, a, k, n):
    d = I.fz(g(a, k, 1, 'decimals', num(0)))
    if d is NONE:
        d = num(0)

    def f(v):
        c = const(v)
        if c is not None and intconst(d) == 0:
            return num(round(c))
        if intconst(d) == 0 and isint(v):
            return v
        return mk('round', (v, d), join_ty([v.ty]))
    return I.map1(f, a[0])


@lib('numpy.logical_not')
def _lnot(I, a, k, n):
    return f_not(I.fz(a[0]))


@lib('numpy.logical_and')
def _land(I, a, k, n):
    return f_and(I.fz(a[0]), I.fz(a[1]))


@lib('numpy.logical_or')
def _lor(I, a, k, n):
    return f_or(I.fz(a[0]), I.fz(a[1]))


def op2(name, op):
    LIB[name] = lambda I, a, k, n: I.binop(op, a[0], a[1], n)


for _n, _o in (('add', '+'), ('subtract', '-'), ('multiply', '*'), ('divide', '/'), ('power', '**'),
               ('floor_divide', '//'), ('mod', '%'), ('remainder', '%'), ('dot@', '@')):
    op2('numpy.' + _n, _o)
op2('builtins.pow', '**')


def cm(name, op):
    LIB['numpy.' + name] = lambda I, a, k, n: cmp(op, I.fz(a[0]), I.fz(a[1]))


for _n, _o in (('less', '<'), ('less_equal', '<='), ('greater', '>'), ('greater_equal', '>='), ('equal', '=='),
               ('not_equal', '!=')):
    cm(_n, _o)


@lib('numpy.maximum', 'numpy.fmax')
def _maximum(I, a, k, n):
    return N1(f_max2(I.tonum(I.fz(a[0])), I.tonum(I.fz(a[1]))))


@lib('numpy.minimum', 'numpy.fmin')
def _minimum(I, a, k, n):
    return N1(f_min2(I.tonum(I.fz(a[0])), I.tonum(I.fz(a[1]))))


@lib('numpy.clip')
def _clip(I, a, k, n):
    v = I.tonum(I.fz(a[0]))
    lo = I.fz(g(a, k, 1, 'a_min', k.get('min', NONE)))
    hi = I.fz(g(a, k, 2, 'a_max', k.get('max', NONE)))
    if lo is not NONE:
        v = f_max2(v, lo)
    if hi is not NONE:
        v = f_min2(v, hi)
    out = g(a, k, 3, 'out', NONE)
    if out is not NONE:
        I.store_index(out, [FULL], v, n)
        return out
    return N1(v)


@lib('numpy.where')
def _where(I, a, k, n):
    c = I.fz(a[0])
    if len(a) == 3:
        x, y = I.fz(a[1]), I.fz(a[2])
        c = truth(c) if not (isinstance(c, N) and c.ty in ARR) else c
        if isinstance(x, N) and isinstance(y, N) or c in (TRUE, FALSE):
            return N1(f_ite(c, x, y))
        return I.opaque('where over tuples', n)
    return Tup([whereidx(c)], 'tuple')


def whereidx(c):
    return mk('whereidx', (c,), 'arr')


@lib('numpy.flatnonzero')
def _fnz(I, a, k, n):
    return whereidx(I.fz(a[0]))


@lib('numpy.select')
def _select(I, a, k, n):
    cs, vs = I.concrete(a[0]), I.concrete(a[1])
    d = I.fz(g(a, k, 2, 'default', num(0)))
    if cs is None or vs is None:
        return I.opaque('select', n)
    for c, v in reversed(list(zip(cs, vs))):
        d = f_ite(I.fz(c), I.fz(v), d)
    return d


@lib('numpy.vectorize')
def _vectorize(I, a, k, n):
    return Partial(Mod('sa.vectorized'), [a[0]], {})


@lib('sa.vectorized')
def _vectorized(I, a, k, n):
    f, v = a[0], I.fz(a[1])
    if isinstance(v, N) and v.ty == 'arr' and len(a) == 2:
        b = fresh_binder()
        L = f_len(v)
        r = I.fz(I.comp_call(f, [b], [L], [f_at(v, b)], TRUE, n))
        return r
    if isinstance(v, N) and v.ty == 'num':
        return I.call(f, [v] + list(a[2:]), k, n)
    return I.opaque('vectorize', n)


@lib('numpy.apply_along_axis')
def _aaa(I, a, k, n):
    return I.opaque('apply_along_axis', n)


# ---------------------------------------------------------------- reductions
def seqval(I, v):
    v = I.fz(v)
    return v


def axis_of(I, a, k, i=1):
    ax = g(a, k, i, 'axis', NONE)
    ax = I.fz(ax)
    return None if ax is NONE else intconst(ax)


def reduce_(I, a, k, n, one, name):
    v = toarray(I, a[0])
    ax = axis_of(I, a, k)
    if isinstance(v, Tup) and v.items and all(isinstance(x, (N, Tup)) for x in v.items):
        inner = v.items[0]
        if isinstance(inner, Tup):
            if ax == 0:
                return Tup([one(Tup([r.items[j] for r in v.items], 'array')) for j in range(len(inner.items))], 'array')
            if ax in (1, -1):
                return Tup([one(r) for r in v.items], 'array')
            return one(Tup([x for r in v.items for x in r.items], 'array'))
        if isinstance(inner, N) and inner.ty in ARR:
            if ax == 0 and name in ('sum', 'mean'):
                return one(v)
            if ax in (1, -1):
                return Tup([one(x) for x in v.items], 'array')
            return I.opaque('%s over array list' % name, n)
        return one(v)
    if isinstance(v, N):
        at = as_atom(v)
        if v.ty in ('arr2', 'rows', 'table', 'carr2', 'list'):
            if at is not None and at.op == 'comp' and isinstance(at.args[2], N) and at.args[2].ty == 'arr' or v.ty == 'arr2' \
                    and at is None:
                if ax == 0 and name in ('sum', 'mean'):
                    return one(v)
                if ax in (1, -1) and at is not None and at.op == 'comp':
                    fr = [fresh_binder() for _ in at.args[0]]
                    body = subst(at.args[2], dict(zip(at.args[0], fr)))
                    return f_comp(fr, at.args[1], one(body))
                if ax is None and at is not None and at.op == 'comp' and name in ('sum', 'max', 'min'):
                    fr = [fresh_binder() for _ in at.args[0]]
                    body = subst(at.args[2], dict(zip(at.args[0], fr)))
                    return one(f_comp(fr, at.args[1], one(body)))
            if at is not None and at.op == 'table':
                if ax == 0:
                    return Tup([one(c) for c in at.args], 'array')
                if ax in (1, -1) and name == 'sum':
                    r = num(0)
                    for c in at.args:
                        r = add(r, c)
                    return r
            m = ravel(v)
            if ax is None and m is not None:
                return one(m)
            return I.opaque('%s over matrix' % name, n)
        if ax not in (None, 0, -1):
            return I.opaque('%s axis' % name, n)
        if v.ty in ('num', 'time'):
            return v
        return one(v)
    return I.opaque('%s of %s' % (name, show(v)[:30]), n)


def LIBRED(name, one):
    LIB['numpy.' + name] = lambda I, a, k, n: reduce_(I, a, k, n, one, name)


LIBRED('sum', f_sum)
LIBRED('mean', f_mean)
LIBRED('max', f_maxv)
LIBRED('min', f_minv)


@lib('numpy.average')
def _average(I, a, k, n):
    w = g(a, k, 2, 'weights', NONE)
    if w is NONE:
        return reduce_(I, a, k, n, f_mean, 'mean')
    return I.opaque('weighted average', n)


@lib('numpy.argmax')
def _argmax(I, a, k, n):
    return arg_(I, a, k, n, 'argmax')


@lib('numpy.argmin')
def _argmin(I, a, k, n):
    return arg_(I, a, k, n, 'argmin')


def arg_(I, a, k, n, op):
    v = toarray(I, a[0])
    ax = axis_of(I, a, k)
    if ax not in (None, 0, -1):
        return I.opaque('argmax axis', n)
    if isinstance(v, Tup):
        if v.items and isinstance(v.items[0], Tup):
            return I.opaque('argmax matrix', n)
        return mk(op, (v,), 'num')
    if v.ty in ('arr2', 'table', 'rows'):
        m = ravel(v)
        if m is not None:
            return f_argext(op, m)
        return I.opaque('argmax matrix', n)
    return f_argext(op, v)


@lib('numpy.any', 'builtins.any')
def _any(I, a, k, n):
    v = I.fz(a[0])
    if isinstance(v, Tup):
        return f_or(*[truth(x) for x in v.items]) if v.items else FALSE
    return mk('exists', (v,), 'num')


@lib('numpy.all', 'builtins.all')
def _all(I, a, k, n):
    v = I.fz(a[0])
    if isinstance(v, Tup):
        return f_and(*[truth(x) for x in v.items]) if v.items else TRUE
    if isinstance(v, N):
        a_ = as_atom(v)
        if a_ is not None and a_.op == 'comp':
            fr = [fresh_binder() for _ in a_.args[0]]
            body = subst(a_.args[2], dict(zip(a_.args[0], fr)))
            return f_not(mk('exists', (f_comp(fr, a_.args[1], f_not(truth(body))),), 'num'))
        return f_not(mk('exists', (f_not(v),), 'num'))
    return I.opaque('all', n)


@lib('numpy.dot', 'numpy.inner', 'numpy.vdot')
def _dot(I, a, k, n):
    x, y = toarray(I, a[0]), toarray(I, a[1])
    if isinstance(x, Tup) and isinstance(y, Tup) and x.items and y.items:
        if isinstance(x.items[0], Tup) and isinstance(y.items[0], Tup):
            return I.matmul(x, y)
        if len(x.items) == len(y.items) and not isinstance(x.items[0], Tup) and not isinstance(y.items[0], Tup):
            r = num(0)
            for p, q in zip(x.items, y.items):
                r = add(r, mul(p, q))
            return r
    if isinstance(x, N) and isinstance(y, N):
        if x.ty == 'num' or y.ty == 'num':
            return mul(x, y)
        if x.ty == 'arr' and y.ty == 'arr':
            return f_sum(mul(x, y))
    return I.matmul(x, y)


@lib('builtins.sum')
def _sum(I, a, k, n):
    start = I.fz(g(a, k, 1, 'start', num(0)))
    v = a[0]
    return sum_val(I, v, start, n)


def sum_val(I, v, start, n):
    lo = I.listobj(v)
    r = start
    if lo is not None:
        for s in lo.segs:
            r = sum_seg(I, s, r, n)
        return r
    items = I.concrete(v)
    if items is not None:
        for x in items:
            r = I.binop('+', r, x, n)
        return r
    bs, ns, e, c = I.domain(v)
    e = I.tonum(I.fz(e))
    if c is not TRUE:
        e = f_ite(c, e, num(0))
    return add(I.tonum(r), f_sum(f_comp(bs, ns, e)))


def sum_seg(I, s, r, n):
    if s[0] == 'item':
        return I.binop('+', r, s[1], n)
    if s[0] == 'comp':
        e = num(0)
        for x in s[3]:
            e = sum_seg(I, x, e, n)
        if not isinstance(e, N):
            return I.opaque('sum of non-numbers', n)
        t = f_sum(f_comp(list(s[1]), list(s[2]), e))
        return add(I.tonum(r), t)
    if s[0] == 'if':
        e = num(0)
        for x in s[2]:
            e = sum_seg(I, x, e, n)
        return add(I.tonum(r), f_ite(s[1], e, num(0)))
    if s[0] == 'splat':
        return add(I.tonum(r), f_sum(s[1]))
    return I.opaque('sum', n)


def extreme(I, a, k, n, op):
    key = g(a, k, None, 'key', NONE)
    if len(a) > 1:
        seq = list(a)
        items = seq
    else:
        items = I.concrete(a[0])
        seq = a[0]
    if key is not NONE:
        if items is not None and len(items) <= UNROLL:
            if len(items) == 1:
                return items[0]
            return I.opaque('%s with key over short list' % op, n)
        bs, ns, e, c = I.domain(seq)
        if c is not TRUE:
            return I.opaque('filtered extremum', n)
        kv = I.fz(I.call(key, [e], {}, n))
        if isinstance(kv, Tup):
            return I.opaque('tuple key', n)
        return I.arg_all(op, kv, I.fz(e), bs, ns)
    if items is not None:
        vs = [I.fz(x) for x in items]
        if all(isinstance(x, N) for x in vs) and vs:
            return (f_max2 if op == 'max' else f_min2)(*vs)
        return I.opaque('%s of non-numbers' % op, n)
    v = I.fz(seq)
    if isinstance(v, N) and (v.ty in ARR or v.ty in ('numlist', 'unk')):
        return f_maxv(v) if op == 'max' else f_minv(v)
    a_ = as_atom(v)
    if a_ is not None and a_.op == 'comp' and isinstance(a_.args[2], Tup):
        # lexicographic maximum of tuples: decided by the first component
        fr = [fresh_binder() for _ in a_.args[0]]
        body = subst(a_.args[2], dict(zip(a_.args[0], fr)))
        return I.arg_all(op, body.items[0], body, fr, list(a_.args[1]))
    return I.opaque('%s' % op, n)


LIB['builtins.max'] = lambda I, a, k, n: extreme(I, a, k, n, 'max')
LIB['builtins.min'] = lambda I, a, k, n: extreme(I, a, k, n, 'min')


# ---------------------------------------------------------------- shaping
def flatmesh(v):
    """Replace grid matrices by their row-major flattening."""
    m = {}
    for i, a in atoms_in(v).items():
        if a.op == 'mesh':
            m[i] = a.args[0]
    return m


def ravel(v):
    if isinstance(v, Tup):
        if v.items and isinstance(v.items[0], Tup):
            return Tup([x for r in v.items for x in r.items], 'array')
        return v
    if v.ty == 'arr':
        return v
    a = as_atom(v)
    if a is not None and a.op == 'colvec':
        return a.args[0]
    m = flatmesh(v)
    if m:
        return subst(v, m)
    a = as_atom(v)
    if a is not None and a.op == 'comp' and isinstance(a.args[2], N) and a.args[2].ty == 'arr':
        fr = [fresh_binder() for _ in a.args[0]]
        body = subst(a.args[2], dict(zip(a.args[0], fr)))
        b = fresh_binder()
        return f_comp(fr + [b], list(a.args[1]) + [f_len(body)], f_at(body, b))
    return None


@lib('numpy.meshgrid')
def _mesh(I, a, k, n):
    if len(a) != 2:
        return I.opaque('meshgrid', n)
    x, y = toarray(I, a[0]), toarray(I, a[1])
    if not (isinstance(x, N) and isinstance(y, N)):
        return I.opaque('meshgrid of literals', n)
    ij = k.get('indexing')
    i, j = fresh_binder(), fresh_binder()
    if isinstance(ij, Kst) and ij.v == 'ij':
        bs, ns = [i, j], [f_len(x), f_len(y)]
        return Tup([mk('mesh', (f_comp(bs, ns, f_at(x, i)),), 'arr2'), mk('mesh', (f_comp(bs, ns, f_at(y, j)),), 'arr2')])
    bs, ns = [i, j], [f_len(y), f_len(x)]
    return Tup([mk('mesh', (f_comp(bs, ns, f_at(x, j)),), 'arr2'), mk('mesh', (f_comp(bs, ns, f_at(y, i)),), 'arr2')])


@lib('numpy.tile')
def _tile(I, a, k, n):
    v, r = toarray(I, a[0]), g(a, k, 1, 'reps')
    if isinstance(v, N) and v.ty == 'arr' and isinstance(r, N) and r.ty not in ARR:
        b1, b2 = fresh_binder(), fresh_binder()
        return f_comp([b1, b2], [r, f_len(v)], f_at(v, b2))
    return I.lib_atom('numpy.tile', a, k, 'arr')


@lib('numpy.repeat')
def _repeat(I, a, k, n):
    v, r = toarray(I, a[0]), g(a, k, 1, 'repeats')
    if isinstance(v, N) and v.ty == 'arr' and isinstance(r, N) and r.ty not in ARR and len(a) + len(k) == 2:
        b1, b2 = fresh_binder(), fresh_binder()
        return f_comp([b1, b2], [f_len(v), r], f_at(v, b1))
    return I.lib_atom('numpy.repeat', a, k, 'arr')


@lib('numpy.ravel')
def _ravel(I, a, k, n):
    v = toarray(I, a[0])
    r = ravel(v) if isinstance(v, (N, Tup)) else None
    return r if r is not None else I.opaque('ravel', n)


@lib('numpy.squeeze')
def _squeeze(I, a, k, n):
    v = toarray(I, a[0])
    x = as_atom(v) if isinstance(v, N) else None
    if x is not None and x.op == 'colvec':
        return x.args[0]
    return a[0]


@lib('numpy.vectorize')
def _vectorize(I, a, k, n):
    if a and isinstance(a[0], Mod) and a[0].name in ('builtins.complex', 'builtins.abs', 'builtins.float'):
        return a[0]
    return I.opaque('vectorize', n)


@lib('numpy.reshape')
def _reshape(I, a, k, n):
    sh = [I.fz(x) for x in a[1:]]
    if len(sh) == 1 and isinstance(sh[0], Tup):
        sh = list(sh[0].items)
    if len(sh) == 1 and intconst(sh[0]) == -1:
        return _ravel(I, a[:1], {}, n)
    if len(sh) == 1 and isinstance(sh[0], N):
        v = toarray(I, a[0])
        r = ravel(v) if isinstance(v, (N, Tup)) else None
        if r is not None and equal(f_len(r), sh[0]):
            return r
    if len(sh) == 2 and intconst(sh[1]) == 1:
        v = toarray(I, a[0])
        r = ravel(v) if isinstance(v, (N, Tup)) else None
        if isinstance(r, N) and r.ty == 'arr':
            return f_colvec(r)
    return I.opaque('reshape', n)


@lib('numpy.transpose')
def _transpose(I, a, k, n):
    return transpose(toarray(I, a[0]))


def transpose(v):
    if isinstance(v, Tup) and v.items:
        if isinstance(v.items[0], Tup):
            return Tup([Tup(list(c), 'array') for c in zip(*[r.items for r in v.items])], 'array')
        if all(isinstance(x, N) and x.ty == 'arr' for x in v.items):
            return mk('table', tuple(v.items), 'table')
        return v
    a = as_atom(v)
    if a is not None and a.op == 'table':
        return Tup(list(a.args), 'array')
    if a is not None and a.op == 'T':
        return a.args[0]
    if a is not None and a.op == 'comp' and isinstance(a.args[2], Tup):
        return Tup([f_col(v, k) for k in range(len(a.args[2].items))], 'array')
    if isinstance(v, N) and v.ty == 'arr':
        return v
    return mk('T', (v,), 'arr2')


def cat_items(I, v):
    items = I.concrete(v)
    return None if items is None else [toarray(I, x) for x in items]


@lib('numpy.concatenate', 'numpy.hstack')
def _concat(I, a, k, n):
    ax = axis_of(I, a, k)
    items = cat_items(I, a[0])
    if items is None or ax not in (None, 0, -1):
        return I.opaque('concatenate', n)
    return concat(I, items, n)


def concat(I, items, n):
    out = []
    if any(isinstance(x, N) and x.ty not in ('arr', 'num', 'time', 'unk') for x in items):
        return I.opaque('concatenate matrices', n)
    for x in items:
        a = as_atom(x)
        if a is not None and a.op == 'concatv':
            out.extend(a.args)
        elif isinstance(x, N) and x.ty in ('num', 'time'):
            out.append(Tup([x], 'array'))
        else:
            out.append(x)
    merged = []
    for x in out:
        if isinstance(x, Tup) and not x.items:
            continue
        if merged and isinstance(merged[-1], Tup) and isinstance(x, Tup):
            merged[-1] = Tup(list(merged[-1].items) + list(x.items), 'array')
        else:
            merged.append(x)
    if len(merged) == 1:
        return merged[0]
    return mk('concatv', tuple(merged), 'arr')


@lib('numpy.append')
def _append(I, a, k, n):
    if axis_of(I, a, k, 2) is not None:
        return I.opaque('append axis', n)
    v = toarray(I, a[0])
    x = toarray(I, a[1])
    if isinstance(v, N) and v.ty == 'arr' and isinstance(x, N) and x.ty == 'num' or isinstance(v, Tup):
        return concat(I, [v, x], n)
    return concat(I, [v, x], n)


@lib('numpy.column_stack')
def _colstack(I, a, k, n):
    items = cat_items(I, a[0])
    if items is None or not all(isinstance(x, N) for x in items):
        return I.opaque('column_stack', n)
    cols = []
    for x in items:
        at = as_atom(x)
        if at is not None and at.op == 'table':
            cols += list(at.args)
        elif x.ty == 'arr':
            cols.append(x)
        else:
            return I.opaque('column_stack', n)
    return mk('table', tuple(cols), 'table')


@lib('numpy.vstack')
def _vstack(I, a, k, n):
    items = cat_items(I, a[0])
    if items is None:
        v = toarray(I, a[0])
        return v
    return Tup(items, 'array')


@lib('numpy.stack')
def _stack(I, a, k, n):
    ax = axis_of(I, a, k)
    items = cat_items(I, a[0])
    if ax in (1, -1) and items is not None:
        return mk('table', tuple(items), 'table')
    if ax in (None, 0):
        return Tup(items, 'array') if items is not None else toarray(I, a[0])
    return I.opaque('stack', n)


@lib('numpy.flip', 'numpy.fliplr')
def _flip(I, a, k, n):
    v = toarray(I, a[0])
    if isinstance(v, Tup):
        return Tup(v.items[::-1], v.kind)
    return f_rev(v)


@lib('numpy.pad')
def _pad(I, a, k, n):
    return I.lib_atom('numpy.pad', a, k, 'arr', True)


@lib('numpy.size', 'builtins.len')
def _len(I, a, k, n):
    v = a[0]
    if isinstance(v, Ref):
        o = I.heap.get(v.id)
        if isinstance(o, HArr) and o.shape is not None:
            return o.shape[0]
        if I.unordered(o):
            return f_len(mk('uset', (I.segs_val(o.segs),), 'list'))
        if isinstance(o, HList):
            return len_segs(I, o.segs)
        if isinstance(o, HDict) and not o.unknown:
            return num(len(o.d))
    fv = I.fz(v)
    return f_len(fv)


def len_segs(I, segs):
    r = num(0)
    for s in segs:
        if s[0] == 'item':
            r = add(r, num(1))
        elif s[0] == 'comp':
            r = add(r, mul(prod(s[2]), len_segs(I, s[3])) if not (free_binders(len_segs(I, s[3])))
                    else f_sum(f_comp(list(s[1]), list(s[2]), len_segs(I, s[3]))))
        elif s[0] == 'if':
            r = add(r, f_ite(s[1], len_segs(I, s[2]), num(0)))
        elif s[0] == 'splat':
            r = add(r, f_len(s[1]))
        else:
            r = add(r, mk('len', (mk('phiseg', (s[1],), 'list', opaque=True),), 'num', opaque=True))
    return r


@lib('numpy.shape')
def _shape(I, a, k, n):
    return I.load_attr(a[0], 'shape', n)


@lib('numpy.ndim')
def _ndim(I, a, k, n):
    v = toarray(I, a[0])
    if isinstance(v, Tup):
        return num(2 if v.items and isinstance(v.items[0], Tup) else 1)
    return num(1 if v.ty == 'arr' else 2) if v.ty in ARR else num(0)


# ---------------------------------------------------------------- signal
@lib('numpy.fft.fft')
def _fft(I, a, k, n):
    m = g(a, k, 1, 'n', NONE)
    v = toarray(I, a[0])
    m = I.fz(m)
    if not isinstance(v, N):
        return I.lib_atom('fft', a, k, 'arr', True)
    if m is NONE or isinstance(m, N) and equal(m, f_len(v)):
        return f_linop('fft', v)
    return f_linop('fft', v, m)


@lib('numpy.fft.ifft')
def _ifft(I, a, k, n):
    m = I.fz(g(a, k, 1, 'n', NONE))
    v = toarray(I, a[0])
    if not isinstance(v, N):
        return I.lib_atom('ifft', a, k, 'arr', True)
    if m is NONE or isinstance(m, N) and equal(m, f_len(v)):
        return f_linop('ifft', v)
    return f_linop('ifft', v, m)


@lib('numpy.correlate')
def _correlate(I, a, k, n):
    m = I.fz(g(a, k, 2, 'mode', Kst('valid')))
    x, y = toarray(I, a[0]), toarray(I, a[1])
    c = num(1)
    if isinstance(x, N) and isinstance(y, N):
        def split(v):
            if len(v.t) == 1:
                (mono, q), = v.t.items()
                sc = tuple((i, e) for i, e in mono if _ATOMS[i].ty in ('num', 'time'))
                vc = tuple((i, e) for i, e in mono if _ATOMS[i].ty not in ('num', 'time'))
                if vc:
                    return N({sc: q}), N({vc: num(1).t[()]})
            return num(1), v
        c1, x = split(x)
        c2, y = split(y)
        c = mul(c1, c2)
        if x.key() != y.key() and _k(y) < _k(x) and isinstance(m, Kst) and m.v == 'full':
            # real sequences: correlate(x, y) is correlate(y, x) reversed
            return mul(c, f_rev(mk('correlate', (y, x, m), 'arr')))
        r = mk('correlate', (x, y, m), 'arr')
        return mul(c, r)
    return mk('correlate', (x, y, m), 'arr')


def _k(v):
    return sorted((m, c) for m, c in v.t.items())


@lib('scipy.signal.detrend')
def _detrend(I, a, k, n):
    v = toarray(I, a[0])
    t = I.fz(g(a, k, 2, 'type', Kst('linear')))
    if isinstance(t, Kst) and t.v in ('constant', 'c') and isinstance(v, N):
        r = sub(v, f_mean(v))
    else:
        r = f_linop('detrend', v)
    ow = I.fz(g(a, k, 4, 'overwrite_data', NONE))
    if ow is not NONE and truth(ow) is TRUE:
        I.note_mut(a[0], 'detrend(overwrite_data=True)', n)
        I.store_index(a[0], [FULL], r, n)
    return r


@lib('numpy.float32', 'numpy.float16')
def _single(I, a, k, n):
    return I.map1(lambda x: cast_to('single', I.tonum(x) if not isinstance(x, N) else x), a[0])


@lib('scipy.signal.find_peaks')
def _fpk(I, a, k, n):
    v = toarray(I, a[0])
    kk = Dct({x: I.fz(y) for x, y in k.items()})
    if isinstance(v, N) and not kk.d:
        # location of peaks is invariant under positive scaling and offset
        t = {m: c for m, c in v.t.items() if any(_ATOMS[i].ty in ARR for i, _ in m)}
        if t and v.ty in ARR:
            v = N(t)
            if len(t) == 1:
                (m, c), = t.items()
                v = N({m: c / abs(c)})
    at = mk('find_peaks', (v,) + ((kk,) if kk.d else ()) + tuple(I.fz(x) for x in a[1:]), 'arr')
    return Tup([at, mk('peakprops', (at,), 'dict')], 'tuple')


def f_corr(x, y):
    p, q = sorted((x, y), key=lambda v: repr(v.key()) if not isinstance(v, N) else repr(_k(v)))
    return mk('corrcoef', (p, q), 'num')


REBUILD['corrcoef'] = f_corr


@lib('numpy.corrcoef')
def _corrcoef(I, a, k, n):
    if len(a) == 1:
        v = I.concrete(a[0])
        if v is None or len(v) != 2:
            return I.opaque('corrcoef', n)
        x, y = v
    else:
        x, y = a[:2]
    x, y = toarray(I, x), toarray(I, y)
    c = f_corr(x, y)
    return Tup([Tup([num(1), c], 'array'), Tup([c, num(1)], 'array')], 'array')


@lib('scipy.stats.pearsonr')
def _pearson(I, a, k, n):
    r = _corrcoef(I, a[:2], {}, n)
    return Tup([r.items[0].items[1], I.opaque('p value', n)]) if isinstance(r, Tup) else r


@lib('sklearn.metrics.mean_squared_error')
def _mse(I, a, k, n):
    x, y = I.tonum(toarray(I, g(a, k, 0, 'y_true'))), I.tonum(toarray(I, g(a, k, 1, 'y_pred')))
    d = sub(x, y)
    r = f_mean(mul(d, d))
    if k.get('squared') is FALSE:
        return f_sqrt(r)
    return r


@lib('sklearn.metrics.root_mean_squared_error')
def _rmse(I, a, k, n):
    return f_sqrt(_mse(I, a, k, n))


PG = ['st1', 'st2', 'dt', 'fmin', 'fmax', 'nf', 'w0', 'norm', 'st2_isref', 'a', 'k']
PGD = dict(dt=num(0.01), fmin=num(1), fmax=num(10), nf=num(100), w0=num(6), norm=Kst('global'), st2_isref=TRUE,
           a=num(10), k=num(1))


@lib('obspy.signal.tf_misfit.pg')
def _pg(I, a, k, n):
    d = dict(PGD)
    d.update(dict(zip(PG, [I.fz(x) for x in a])))
    d.update({x: I.fz(y) for x, y in k.items()})
    return mk('pg', (Dct({x: d.get(x, NONE) for x in PG}),), 'num')


@lib('obspy.signal.util.next_pow_2')
def _np2(I, a, k, n):
    return mk('nextpow2', (I.fz(a[0]),), 'num')


# ---------------------------------------------------------------- obspy
KM2DEG = mk('km2deg', (), 'num')


@lib('obspy.geodetics.kilometer2degrees')
def _k2d(I, a, k, n):
    v = I.tonum(I.fz(g(a, k, 0, 'kilometer')))
    r = g(a, k, 1, 'radius', NONE)
    if r is not NONE:
        return I.lib_atom('kilometer2degrees', a, k, 'num')
    return mul(KM2DEG, v)


@lib('obspy.geodetics.degrees2kilometers')
def _d2k(I, a, k, n):
    v = I.tonum(I.fz(g(a, k, 0, 'degrees')))
    r = g(a, k, 1, 'radius', NONE)
    if r is not NONE:
        return I.lib_atom('degrees2kilometers', a, k, 'num')
    return mul(inv(KM2DEG), v)


@lib('obspy.geodetics.gps2dist_azimuth')
def _gps(I, a, k, n):
    v = [I.fz(x) for x in a] + [I.fz(k[x]) for x in ('lat1', 'lon1', 'lat2', 'lon2') if x in k]
    return Tup([mk('gps2dist', tuple(v) + (Kst(i),), 'num') for i in ('dist', 'az', 'baz')], 'tuple')


@lib('obspy.geodetics.locations2degrees')
def _l2d(I, a, k, n):
    v = [I.fz(x) for x in a] + [I.fz(k[x]) for x in ('lat1', 'long1', 'lat2', 'long2') if x in k]
    return f_l2d(*v)


def f_l2d(*v):
    if len(v) == 4 and all(isinstance(x, N) for x in v):
        # great-circle distance is symmetric in its end points
        p, q = sorted(((v[0], v[1]), (v[2], v[3])), key=lambda t: (_skey(t[0]), _skey(t[1])))
        v = p + q
    return mk('locations2degrees', tuple(v), 'num')


REBUILD['locations2degrees'] = f_l2d


@lib('obspy.taup.TauPyModel')
def _taup(I, a, k, n):
    m = I.fz(g(a, k, 0, 'model', Kst('iasp91')))
    return mk('taup', (m,), 'TauP')


@lib('obspy.UTCDateTime')
def _utc(I, a, k, n):
    if not a:
        I.event('impure', 'UTCDateTime()', node=n)
        return I.opaque('current time', n)
    v = I.fz(a[0])
    if v.ty in ('time', 'num', 'unk') and isinstance(v, N):
        return v
    return mk('utc', (v,), 'time')


@lib('obspy.read')
def _read(I, a, k, n):
    kk = {x: I.fz(y) for x, y in k.items()}
    I.event('fsread', 'read', a, k, n)
    return mk('read', (I.fz(a[0]) if a else kk.pop('pathname_or_url', NONE), Dct(kk)), 'Stream')


@lib('obspy.read_events')
def _readev(I, a, k, n):
    return mk('read_events', (I.fz(a[0]),), 'Catalog')


@lib('obspy.read_inventory')
def _readinv(I, a, k, n):
    return I.lib_atom('read_inventory', a, k)


@lib('rf.read_rf')
def _readrf(I, a, k, n):
    kk = {x: I.fz(y) for x, y in k.items()}
    return mk('read_rf', tuple(I.fz(x) for x in a) + (Dct(kk),), 'RFStream')


@lib('obspy.Stream')
def _stream(I, a, k, n):
    v = g(a, k, 0, 'traces', NONE)
    if v is NONE:
        return I.alloc(HList((), 'Stream'))
    return I.alloc(HList(I.as_segs(v), 'Stream'))


@lib('rf.RFStream')
def _rfstream(I, a, k, n):
    v = g(a, k, 0, 'traces', NONE)
    if v is NONE:
        return I.alloc(HList((), 'Stream'))
    if isinstance(v, N):
        return v
    return I.alloc(HList(I.as_segs(v), 'Stream'))


@lib('obspy.Trace')
def _trace(I, a, k, n):
    d = g(a, k, 0, 'data', NONE)
    h = g(a, k, 1, 'header', NONE)
    v = I.fz(d)
    if isinstance(d, Ref) and isinstance(I.heap.get(d.id), HArr):
        I.heap[d.id] = I.heap[d.id]
    return I.alloc(HInst('obspy.Trace', trace_fields(I, d, h)))


def trace_fields(I, d, h):
    f = {}
    o = I.heap.get(h.id) if isinstance(h, Ref) else None
    if isinstance(o, HDict):
        f = {k: I.fz(v) for k, v in o.d.items()}
    elif isinstance(h, Dct):
        f = dict(h.d)
    elif h is not NONE:
        f = {'**': I.fz(h)}
    f = {k[1] if isinstance(k, tuple) else k: v for k, v in f.items()}
    return {'data': d, 'stats': I.alloc(HInst('Stats', f))}


@lib('obspy.io.sac.SACTrace')
def _sac(I, a, k, n):
    return I.lib_atom('SACTrace', a, k)


# ---------------------------------------------------------------- builtins
@lib('builtins.range')
def _range(I, a, k, n):
    v = [I.tonum(I.rv(x)) for x in a]
    st = num(1)
    if len(v) == 1:
        lo, hi = num(0), v[0]
    elif len(v) == 2:
        lo, hi = v
    else:
        lo, hi, st = v
    cl, ch, cs = intconst(lo), intconst(hi), intconst(st)
    if cl is not None and ch is not None and cs:
        r = range(cl, ch, cs)
        if len(r) <= 4096 and len(r) <= UNROLL * 8:
            return Tup([num(x) for x in r], 'range')
    b = fresh_binder()
    if cs == 1:
        return It([b], [sub(hi, lo)], add(lo, b))
    if cs == -1:
        return It([b], [sub(lo, hi)], sub(lo, b))
    m = mk('rangelen', (lo, hi, st), 'num')
    return It([b], [m], add(lo, mul(st, b)))


@lib('builtins.enumerate')
def _enum(I, a, k, n):
    start = I.tonum(I.rv(g(a, k, 1, 'start', num(0))))
    items = I.concrete(a[0])
    if items is not None:
        return Tup([Tup([add(start, num(i)), x]) for i, x in enumerate(items)], 'list')
    bs, ns, e, c = I.domain(a[0])
    if c is not TRUE:
        return I.opaque('enumerate of filtered', n)
    return It(bs, ns, Tup([add(start, lin_index(bs, ns)), e]), c)


@lib('builtins.zip')
def _zip(I, a, k, n):
    its = [I.concrete(x) for x in a]
    if all(x is not None for x in its):
        return Tup([Tup(list(t)) for t in zip(*its)], 'list')
    ds = []
    for x, it in zip(a, its):
        if it is not None:
            return I.opaque('zip of mixed lengths', n)
        ds.append(I.domain(x))
    if any(len(d[0]) != len(ds[0][0]) or d[3] is not TRUE for d in ds):
        # fall back to positions in the frozen sequences
        b = fresh_binder()
        vals = [I.fz(x) for x in a]
        return It([b], [f_len(vals[0])], Tup([f_at(v, b) for v in vals]))
    bs, ns = ds[0][0], ds[0][1]
    elems = [ds[0][2]]
    for d in ds[1:]:
        if not all(equal(p, q) for p, q in zip(ns, d[1])):
            # unequal symbolic lengths: the shortest governs
            L0, L1 = prod(ns), prod(d[1])
            if len(bs) != 1:
                return I.opaque('zip lengths', n)
            ns = [f_min2(L0, L1)]
        elems.append(subst(d[2], {bid(q): p for p, q in zip(bs, d[0])}))
    return It(bs, ns, Tup(elems))


@lib('itertools.product')
def _product(I, a, k, n):
    its = [I.concrete(x) for x in a]
    if 'repeat' in k:
        return I.opaque('product repeat', n)
    if all(x is not None for x in its):
        import itertools
        m = 1
        for x in its:
            m *= len(x)
        if m <= UNROLL * 4:
            return Tup([Tup(list(t)) for t in itertools.product(*its)], 'list')
    bs, ns, es = [], [], []
    cond = TRUE
    for x, it in zip(a, its):
        if it is not None:
            if len(it) == 1:
                es.append(I.fz(it[0]))
                continue
            return I.opaque('product of mixed', n)
        d = I.domain(x)
        bs += d[0]
        ns += d[1]
        es.append(d[2])
        cond = f_and(cond, d[3])
    return It(bs, ns, Tup(es), cond)


@lib('itertools.chain')
def _chain(I, a, k, n):
    segs = ()
    for x in a:
        segs += tuple(I.as_segs(x))
    return I.alloc(HList(segs))


@lib('itertools.chain.from_iterable')
def _chainfi(I, a, k, n):
    return flatten_segs(I, a[0], n)


def flatten_segs(I, v, n):
    lo = I.listobj(v)
    segs = lo.segs if lo is not None else I.as_segs(v)

    def fl(ss):
        out = []
        for s in ss:
            if s[0] == 'item':
                out.extend(I.as_segs(s[1]))
            elif s[0] == 'comp':
                out.append(('comp', s[1], s[2], tuple(fl(s[3]))))
            elif s[0] == 'if':
                out.append(('if', s[1], tuple(fl(s[2]))))
            else:
                out.append(('splat', I.opaque('flatten', n)))
        return out
    return I.alloc(HList(fl(segs)))


@lib('itertools.repeat')
def _repeat(I, a, k, n):
    if len(a) == 2:
        m = I.fz(a[1])
        return It([fresh_binder()], [m], I.fz(a[0]))
    return mk('repeat', (I.fz(a[0]),), 'repeat')


@lib('itertools.starmap')
def _starmap(I, a, k, n):
    return I.star_over(a[0], a[1], n)


@lib('builtins.map')
def _map(I, a, k, n):
    return I.map_over(a[0], a[1:], n)


@lib('builtins.filter')
def _filter(I, a, k, n):
    items = I.concrete(a[1])
    if items is not None and len(items) <= UNROLL:
        out = []
        for x in items:
            c = truth(I.fz(I.call(a[0], [x], {}, n))) if a[0] is not NONE else truth(I.fz(x))
            if c is TRUE:
                out.append(('item', x))
            elif c is not FALSE:
                out.append(('if', c, (('item', x),)))
        return I.alloc(HList(out))
    bs, ns, e, c = I.domain(a[1])
    cc = truth(I.fz(I.call(a[0], [e], {}, n))) if a[0] is not NONE else truth(e)
    return It(bs, ns, e, f_and(c, cc))


@lib('builtins.list', 'builtins.tuple')
def _list(I, a, k, n):
    if not a:
        return I.alloc(HList(()))
    items = I.concrete(a[0])
    if items is not None:
        return I.alloc(HList([('item', x) for x in items]))
    return I.alloc(HList(I.as_segs(a[0])))


LIB['builtins.tuple'] = lambda I, a, k, n: (Tup(I.concrete(a[0]), 'tuple') if a and I.concrete(a[0]) is not None
                                           else _list(I, a, k, n) if a else Tup([], 'tuple'))


@lib('builtins.set', 'builtins.frozenset')
def _set(I, a, k, n):
    if not a:
        return I.alloc(HList((), 'set'))
    lo = I.listobj(a[0])
    return I.alloc(HList(lo.segs if lo is not None else I.as_segs(a[0]), 'set'))


@lib('builtins.iter')
def _iter(I, a, k, n):
    return a[0]


@lib('builtins.next')
def _next(I, a, k, n):
    items = I.concrete(a[0])
    lo = I.listobj(a[0])
    if lo is not None and lo.kind == 'gen' and lo.segs and lo.segs[0][0] == 'item':
        I.heap[a[0].id] = HList(lo.segs[1:], 'gen')
        return lo.segs[0][1]
    v = I.fz(a[0])
    aa = as_atom(v)
    if aa is not None and aa.op == 'when':
        return I.opaque('next of filtered', n)
    return I.opaque('next', n)


@lib('builtins.reversed')
def _reversed(I, a, k, n):
    items = I.concrete(a[0])
    if items is not None:
        return Tup(items[::-1], 'list')
    v = I.fz(a[0])
    if isinstance(v, N):
        b = fresh_binder()
        L = f_len(v)
        return It([b], [L], f_at(v, sub(sub(L, num(1)), b)))
    return I.opaque('reversed', n)


@lib('builtins.sorted')
def _sorted(I, a, k, n):
    kk = {x: I.fz(y) for x, y in k.items() if not (x == 'key' and y is NONE)}
    v = I.fz(a[0])
    op = bool(kk)
    ty = v.ty if isinstance(v, N) else 'list'
    return mk('sorted', (v,) + ((Dct(kk),) if kk else ()), ty, opaque=op)


@lib('builtins.dict')
def _dict(I, a, k, n):
    ref = I.alloc(HDict({}))
    if a:
        items = I.concrete(a[0]) if not (isinstance(a[0], Dct) or isinstance(a[0], Ref) and
                                         isinstance(I.heap.get(a[0].id), HDict)) else None
        if items is not None:
            d = {}
            for x in items:
                p = I.concrete(x)
                kx = I.dkey(I.fz(p[0])) if p and len(p) == 2 else None
                if kx is None:
                    return I.alloc(HDict({}, True))
                d[kx] = p[1]
            I.heap[ref.id] = HDict(d)
        else:
            av = a[0]
            if isinstance(av, N):
                fv = I.fz(av)
                sch = getattr(I, 'schemas', {}).get(fv.ty)
                if sch:
                    I.heap[ref.id] = HDict({x: I.get_item(fv, x) for x in sch if not x.startswith('*')})
                else:
                    I.heap[ref.id] = HDict({}, True)
            else:
                I.dict_method(ref, I.heap[ref.id], 'update', [av], {}, n)
    o = I.heap[ref.id]
    d = dict(o.d)
    d.update(k)
    I.heap[ref.id] = HDict(d, o.unknown)
    return ref


@lib('builtins.int')
def _int(I, a, k, n):
    if not a:
        return num(0)
    v = I.fz(a[0])
    if isinstance(v, Kst) and isinstance(v.v, str):
        try:
            return num(int(v.v))
        except ValueError:
            return I.opaque('int of string', n)
    if v.ty == 'str':
        return I.lib_atom('int', a, k, 'num')
    return I.map1(f_trunc, v)


@lib('builtins.float')
def _float(I, a, k, n):
    if not a:
        return num(0)
    v = I.fz(a[0])
    if isinstance(v, Kst) and isinstance(v.v, str):
        if v.v.strip('+').lower() in ('inf', 'infinity'):
            return INF
        if v.v.lower() in ('-inf', '-infinity'):
            return neg(INF)
        if v.v.lower() == 'nan':
            return mk('nan', (), 'num')
    if v.ty == 'str':
        return I.lib_atom('float', a, k, 'num')
    return v


@lib('builtins.complex')
def _complex(I, a, k, n):
    r = I.tonum(I.fz(a[0])) if a else num(0)
    if len(a) > 1:
        r = add(r, mul(IMAG, I.tonum(I.fz(a[1]))))
    return r


@lib('builtins.str', 'os.fspath', 'builtins.repr')
def _str(I, a, k, n):
    if not a:
        return Kst('')
    return mkstr([('', I.fz(a[0]))])


@lib('builtins.format')
def _format(I, a, k, n):
    sp = a[1].v if len(a) > 1 and isinstance(a[1], Kst) else ''
    return mkstr([(sp, I.fz(a[0]))])


@lib('builtins.bool')
def _bool(I, a, k, n):
    return truth(I.fz(a[0])) if a else FALSE


TYPES = {'list': ('list',), 'float': ('num',), 'int': ('num',), 'str': ('str',)}


@lib('builtins.isinstance')
def _isinst(I, a, k, n):
    v = a[0]
    ts = I.concrete(a[1]) if isinstance(a[1], (Tup, Ref)) else [a[1]]
    rs = []
    for t in ts or [a[1]]:
        rs.append(isinst1(I, v, t))
    if any(r is None for r in rs):
        if any(r is True for r in rs):
            return TRUE
        return mk('isinst', (I.fz(v), I.fz(a[1])), 'num')
    return TRUE if any(rs) else FALSE


def isinst1(I, v, t):
    nm = t.name if isinstance(t, Mod) else t.qual if isinstance(t, Cls) else ''
    s = nm.split('.')[-1]
    if isinstance(v, Kst):
        if v is NONE:
            return s == 'NoneType'
        return {bool: 'bool', str: 'str', bytes: 'bytes'}.get(type(v.v)) == s or (isinstance(v.v, bool) and s == 'int')
    if isinstance(v, StrV):
        return s == 'str'
    if isinstance(v, Ref):
        o = I.heap.get(v.id)
        if isinstance(o, HList):
            return (s == 'list' and o.kind == 'list') or (s == 'set' and o.kind == 'set') or (s == 'Stream' and o.kind == 'Stream')
        if isinstance(o, HDict):
            return s in ('dict', 'Mapping')
        if isinstance(o, HArr):
            return s == 'ndarray'
        if isinstance(o, HInst):
            return None
    if isinstance(v, Tup):
        return s == {'tuple': 'tuple', 'list': 'list', 'array': 'ndarray', 'row': 'ndarray'}.get(v.kind)
    if isinstance(v, Dct):
        return s == 'dict'
    ty = v.ty
    if ty == 'str':
        return s == 'str'
    if ty in ARR:
        return s == 'ndarray'
    if ty == 'numlist' or ty == 'list':
        return s == 'list'
    if ty in ('Stream', 'RFStream', 'Trace', 'Catalog'):
        return s == ty or (ty == 'RFStream' and s == 'Stream')
    if ty in ('float', 'num'):
        if s in ('ndarray', 'list', 'tuple', 'str', 'dict', 'Stream', 'RFStream'):
            return False
        if s in ('float', 'Number', 'Real'):
            return True if s != 'float' or ty == 'float' else None
        if s == 'int':
            return False if ty == 'float' else None
    return None


@lib('builtins.type')
def _type(I, a, k, n):
    v = a[0]
    if isinstance(v, N) and v.ty == 'float':
        return Mod('builtins.float')
    if isinstance(v, N) and v.ty in ARR or isinstance(v, Ref) and isinstance(I.heap.get(v.id), HArr):
        return Mod('numpy.ndarray')
    if isinstance(v, N) and v.ty == 'numlist' or I.listobj(v) is not None:
        return Mod('builtins.list')
    if isinstance(v, Kst) and isinstance(v.v, str):
        return Mod('builtins.str')
    if isinstance(v, Ref) and isinstance(I.heap.get(v.id), HInst):
        o = I.heap[v.id]
        if isinstance(o.cls, Cls):
            return o.cls
    return mk('typeof', (I.fz(v),), 'unk')


@lib('builtins.hasattr')
def _hasattr(I, a, k, n):
    v, nm = I.fz(a[0]), a[1].v if isinstance(a[1], Kst) else None
    if nm in ('__len__', '__iter__', '__getitem__'):
        if isinstance(v, Tup) or isinstance(v, Kst) and isinstance(v.v, str) or isinstance(v, N) and (
                v.ty in ARR or v.ty in ('numlist', 'str', 'list')):
            return TRUE
        if v is NONE or isinstance(v, N) and (v.ty in ('num', 'float', 'int', 'time', 'bool') or const(v) is not None):
            return FALSE if not (isinstance(v, N) and v.ty == 'num' and const(v) is None) else mk(
                'lib', ('hasattr', v, a[1]), 'num', opaque=True)
    return mk('lib', ('hasattr', I.fz(a[0]), I.fz(a[1])), 'num', opaque=True)


@lib('builtins.callable')
def _callable(I, a, k, n):
    return TRUE if isinstance(a[0], (Fn, Cls, Mod, BM)) else FALSE


@lib('builtins.getattr')
def _getattr(I, a, k, n):
    nm = I.fz(a[1])
    if isinstance(nm, Kst) and isinstance(nm.v, str):
        return I.load_attr(a[0], nm.v, n, a[2] if len(a) > 2 else None)
    return I.opaque('getattr', n)


@lib('builtins.setattr')
def _setattr(I, a, k, n):
    nm = I.fz(a[1])
    if isinstance(nm, Kst):
        I.store_attr(a[0], nm.v, a[2], n)
        return NONE
    return I.opaque('setattr', n)


@lib('builtins.print')
def _print(I, a, k, n):
    I.event('print', '', a, k, n)
    return NONE


@lib('builtins.slice')
def _slice(I, a, k, n):
    v = [I.fz(x) for x in a]
    if len(v) == 1:
        return Slc(NONE, v[0], NONE)
    return Slc(v[0], v[1], v[2] if len(v) > 2 else NONE)


@lib('builtins.id', 'builtins.hash')
def _id(I, a, k, n):
    I.event('impure', 'id', a, k, n)
    return I.opaque('identity', n)


@lib('builtins.divmod')
def _divmod(I, a, k, n):
    return Tup([I.binop('//', a[0], a[1], n), I.binop('%', a[0], a[1], n)])


@lib('builtins.open')
def _open_(I, a, k, n):
    m = I.fz(g(a, k, 1, 'mode', Kst('r')))
    if isinstance(m, Kst) and isinstance(m.v, str) and not any(c in m.v for c in 'wax+'):
        I.event('fsread', 'open', a, k, n)
    else:
        I.event('write', 'open', a, k, n)
    return mk('file', (I.fz(a[0]),), 'file')


@lib('builtins.super')
def _super(I, a, k, n):
    fr = I.frames[-1]
    ps = fr.fn.node.args.posonlyargs + fr.fn.node.args.args if fr.fn.node is not None else []
    me = a[1] if len(a) > 1 else (I.env.get(ps[0].arg) if ps else None)
    return mk('super', (fr.fn.qual, I.fz(me) if me is not None else NONE, me.id if isinstance(me, Ref) else -1), 'super')


@lib('builtins.vars', 'builtins.locals', 'builtins.globals')
def _vars(I, a, k, n):
    return I.opaque('vars', n)


# ---------------------------------------------------------------- misc
@lib('functools.partial')
def _partial(I, a, k, n):
    return Partial(a[0], list(a[1:]), dict(k))


@lib('functools.reduce')
def _reduce(I, a, k, n):
    items = I.concrete(a[1])
    if items is None:
        return I.opaque('reduce', n)
    if len(a) > 2:
        items = [a[2]] + items
    r = items[0]
    for x in items[1:]:
        r = I.call(a[0], [r, x], {}, n)
    return r


@lib('functools.wraps', 'functools.lru_cache')
def _wraps(I, a, k, n):
    return I.opaque('decorator', n)


@lib('copy.deepcopy')
def _deepcopy(I, a, k, n):
    return deep(I, a[0])


def deep(I, v):
    if isinstance(v, Ref):
        o = I.heap[v.id]
        if isinstance(o, HDict):
            return I.alloc(HDict({x: deep(I, y) for x, y in o.d.items()}, o.unknown))
        if isinstance(o, HList):
            return I.alloc(HList([('item', deep(I, s[1])) if s[0] == 'item' else s for s in o.segs], o.kind))
        if isinstance(o, HInst):
            return I.alloc(HInst(o.cls, {x: deep(I, y) for x, y in o.fields.items()}, o.hist))
        return I.fresh_array(v)
    fv = I.fz(v)
    if isinstance(fv, N) and as_atom(fv) is not None and as_atom(fv).op == 'table':
        return I.fresh_array(fv)
    if isinstance(fv, N) and root_of(fv) is not None:
        if fv.ty == 'arr':
            return I.fresh_array(fv)
        if fv.ty not in ('num', 'time', 'str'):
            return I.copied(fv, fv.ty)
    return fv


@lib('copy.copy')
def _copycopy(I, a, k, n):
    v = a[0]
    if isinstance(v, Ref):
        o = I.heap[v.id]
        if isinstance(o, HDict):
            return I.alloc(HDict(o.d, o.unknown))
        if isinstance(o, HList):
            return I.alloc(HList(o.segs, o.kind))
        return I.fresh_array(v)
    fv = I.fz(v)
    if isinstance(fv, N) and fv.ty == 'arr':
        return I.fresh_array(fv)
    return fv


@lib('os.path.join', 'posixpath.join')
def _pjoin(I, a, k, n):
    return I.path_join(a)


# ---- places inside the installed package
def _pkgname(v):
    if isinstance(v, Kst) and isinstance(v.v, str):
        return v.v
    if isinstance(v, Mod):
        return v.name
    return None


@lib('pkg_resources.resource_filename')
def _resource(I, a, k, n):
    a = list(a) + [k[x] for x in ('package_or_requirement', 'resource_name') if x in k]
    p = _pkgname(a[0]) if a else None
    if p is None or len(a) < 2:
        return I.lib_atom('pkg_resources.resource_filename', a, k, 'str')
    return I.path_join([pkgdir(p), a[1]])


def pkgdir(p):
    q = p.split('.')
    r = mk('pkgdir', (q[0],), 'str')
    return mkstr([('', r)] + ['/' + '/'.join(q[1:])]) if len(q) > 1 else r


@lib('importlib.resources.files', 'importlib_resources.files')
def _files(I, a, k, n):
    p = _pkgname(a[0]) if a else None
    return pkgdir(p) if p else I.lib_atom('importlib.resources.files', a, k, 'str')


@lib('os.path.dirname')
def _dirname(I, a, k, n):
    ps = strparts(I.fz(a[0]))
    if ps and isinstance(ps[-1], str) and '/' in ps[-1]:
        h = ps[-1].rsplit('/', 1)[0]
        return mkstr(ps[:-1] + ([h] if h else [])) if len(ps) > 1 or h else I.lib_atom('os.path.dirname', a, k, 'str')
    return I.lib_atom('os.path.dirname', a, k, 'str')


@lib('os.path.abspath', 'os.path.realpath', 'os.path.normpath')
def _abspath(I, a, k, n):
    v = I.fz(a[0])
    ps = strparts(v)
    if ps and not isinstance(ps[0], str):
        at = as_atom(ps[0][1]) if isinstance(ps[0][1], N) else None
        if at is not None and at.op == 'pkgdir' and all(isinstance(p, str) for p in ps[1:]):
            t = ''.join(ps[1:])
            if '..' not in t and './' not in t:
                return mkstr([ps[0]] + ([t.rstrip('/')] if t.rstrip('/') else []))
    return I.lib_atom('os.path.abspath', a, k, 'str')


@lib('pathlib.Path', 'pathlib.PurePath')
def _path(I, a, k, n):
    return pathval(I.path_join(a))


def pathval(v):
    return v


@lib('builtins.staticmethod', 'builtins.classmethod', 'builtins.property')
def _deco(I, a, k, n):
    return a[0]


@lib('numpy.errstate', 'warnings.catch_warnings', 'contextlib.nullcontext', 'contextlib.suppress',
     'warnings.simplefilter', 'warnings.filterwarnings', 'numpy.set_printoptions')
def _ctx(I, a, k, n):
    return mk('ctx', (), 'ctx')


@lib('numpy.seterr', 'os.chdir', 'os.putenv', 'os.umask', 'os.unsetenv', 'locale.setlocale', 'multiprocessing.set_start_method',
     'matplotlib.rc', 'matplotlib.pyplot.rc', 'matplotlib.rcdefaults', 'matplotlib.pyplot.rcdefaults',
     'matplotlib.rcParams.update', 'matplotlib.pyplot.rcParams.update', 'numpy.random.seed', 'random.seed')
def _config(I, a, k, n):
    nm = 'process configuration'
    I.event('mutate', 'global:' + nm, extra='call', node=n)
    return mk('ctx', (), 'ctx')


@lib('os.getenv', 'os.environ.get', 'os.environ.keys', 'os.environ.items', 'os.environ.copy', 'os.getpid', 'os.getcwd',
     'os.path.expanduser', 'os.path.expandvars', 'os.uname', 'platform.node', 'getpass.getuser', 'socket.gethostname')
def _environ(I, a, k, n):
    I.event('impure', 'environment', a, k, n)
    f = getattr(n, 'func', None)
    if not a and getattr(f, 'attr', getattr(f, 'id', '')) == 'getcwd':
        return mk('lib', ('os.getcwd',), 'str')
    return I.opaque('environment', n)


@lib('contextlib.closing')
def _closing(I, a, k, n):
    v = I.fz(a[0])
    at = as_atom(v)
    return mk('ctxgen', (v,), at.ty if at is not None else 'unk')


@lib('warnings.warn', 'logging.info', 'logging.warning', 'logging.debug')
def _warn(I, a, k, n):
    return NONE


@lib('logging.getLogger')
def _logger(I, a, k, n):
    return mk('logger', (), 'logger')


@lib('multiprocessing.Pool')
def _pool(I, a, k, n):
    I.poolseq = getattr(I, 'poolseq', 0) + 1
    p = mk('pool', (I.poolseq,), 'pool')
    I.event('pool_open', 'Pool', [p] + list(a), k, n)
    return p


@lib('concurrent.futures.ProcessPoolExecutor', 'concurrent.futures.ThreadPoolExecutor',
     'multiprocessing.pool.ThreadPool', 'multiprocessing.dummy.Pool')
def _exec(I, a, k, n):
    I.poolseq = getattr(I, 'poolseq', 0) + 1
    p = mk('pool', (I.poolseq,), 'executor')
    I.event('pool_open', 'Executor', [p] + list(a), k, n)
    return p


@lib('multiprocessing.get_context')
def _getctx(I, a, k, n):
    return mk('mpctx', (), 'mpctx')


@lib('multiprocessing.cpu_count', 'os.cpu_count')
def _cpu(I, a, k, n):
    return mk('lib', ('cpu_count',), 'num')


@lib('builtins.exit', 'builtins.quit', 'sys.exit', 'os._exit')
def _exit(I, a, k, n):
    I.event('raise', 'SystemExit', a, node=n)
    return NONE


@lib('numpy.polyval')
def _polyval(I, a, k, n):
    p = I.concrete(a[0])
    x = I.fz(a[1])
    if p is None or not isinstance(x, N):
        return I.opaque('polyval', n)
    r = num(0)
    for c in p:
        r = add(mul(r, x), I.tonum(I.fz(c)))
    return r


@lib('numpy.polynomial.polynomial.polyval')
def _polyval2(I, a, k, n):
    p = I.concrete(a[1])
    x = I.fz(a[0])
    if p is None or not isinstance(x, N):
        return I.opaque('polyval', n)
    r = num(0)
    for c in reversed(p):
        r = add(mul(r, x), I.tonum(I.fz(c)))
    return r


@lib('numpy.finfo')
def _finfo(I, a, k, n):
    return mk('finfo', (), 'unk')


@lib('rf.rfstream.rfstats', 'rf.rfstats')
def _rfstats(I, a, k, n):
    return I.opaque('rfstats', n)


@lib('numpy.var')
def _var(I, a, k, n):
    if set(k) - {'axis'}:
        return I.opaque('numpy.var options', n)
    return reduce_(I, a, k, n, f_var, 'var')


@lib('numpy.std')
def _std(I, a, k, n):
    if set(k) - {'axis'}:
        return I.opaque('numpy.std options', n)
    return reduce_(I, a, k, n, lambda v: f_sqrt(f_var(v)), 'std')


def f_var(v):
    m = f_mean(v)
    return add(f_mean(power_int(v, 2) if isinstance(v, N) else Tup([power_int(x, 2) for x in v.items], v.kind)),
               neg(power_int(m, 2)))


def vec1(v):
    return isinstance(v, N) and v.ty == 'arr' or isinstance(v, Tup)


def parts(I, vs, n):
    return concat(I, [Tup([v], 'array') if isinstance(v, N) and v.ty not in ARR else v for v in vs], n)


@lib('numpy.diff')
def _diff(I, a, k, n):
    v = toarray(I, a[0])
    order = g(a, k, 1, 'n', num(1))
    if not vec1(v) or intconst(order) != 1 or set(k) - {'n', 'prepend', 'append'} or len(a) > 2:
        return I.lib_atom('numpy.diff', a, k, 'arr', True)
    if isinstance(v, Tup) and all(isinstance(x, N) and x.ty not in ARR for x in v.items) and not k:
        return Tup([sub(y, x) for x, y in zip(v.items, v.items[1:])], 'array')
    vs = [v]
    if 'prepend' in k:
        vs.insert(0, toarray(I, k['prepend']))
    if 'append' in k:
        vs.append(toarray(I, k['append']))
    w = parts(I, vs, n) if len(vs) > 1 else v
    L = f_len(w)
    if isinstance(w, Tup):
        return Tup([sub(y, x) for x, y in zip(w.items, w.items[1:])], 'array')
    if not isinstance(w, N):
        return I.lib_atom('numpy.diff', a, k, 'arr', True)
    return sub(f_slice(w, num(1), L), f_slice(w, num(0), sub(L, num(1))))


@lib('numpy.ptp')
def _ptp(I, a, k, n):
    v = toarray(I, a[0])
    if not vec1(v) or k or len(a) > 1:
        return I.lib_atom('numpy.ptp', a, k, 'num', True)
    return sub(f_maxv(v), f_minv(v))


@lib('numpy.tan', 'math.tan')
def _tan(I, a, k, n):
    return I.map1(lambda x: div(f_sin(x), f_cos(x)), a[0])


@lib('numpy.hypot', 'math.hypot')
def _hypot(I, a, k, n):
    x, y = I.tonum(I.fz(a[0])), I.tonum(I.fz(a[1]))
    return f_sqrt(add(power_int(x, 2), power_int(y, 2)))


@lib('numpy.deg2rad', 'numpy.radians', 'math.radians')
def _rad(I, a, k, n):
    return I.map1(lambda x: mul(x, div(PI, num(180))), a[0])


@lib('numpy.rad2deg', 'numpy.degrees', 'math.degrees')
def _deg(I, a, k, n):
    return I.map1(lambda x: mul(x, div(num(180), PI)), a[0])


@lib('numpy.cbrt')
def _cbrt(I, a, k, n):
    return I.lib_atom('numpy.cbrt', a, k, 'num', True)


@lib('numpy.roll')
def _roll(I, a, k, n):
    v, s = toarray(I, a[0]), g(a, k, 1, 'shift')
    c = intconst(s) if isinstance(s, N) else None
    if not (isinstance(v, N) and v.ty == 'arr') or c is None or c == 0 or set(k) - {'shift'}:
        return I.lib_atom('numpy.roll', a, k, 'arr', True)
    L = f_len(v)
    cut = sub(L, num(c)) if c > 0 else num(-c)
    return concat(I, [f_slice(v, cut, L), f_slice(v, num(0), cut)], n)


@lib('numpy.fft.fftfreq', 'scipy.fft.fftfreq')
def _fftfreq(I, a, k, n):
    m, d = g(a, k, 0, 'n'), g(a, k, 1, 'd', num(1))
    m, d = I.fz(m), I.fz(d)
    half = f_floor(div(add(m, num(1)), num(2)))
    lo = f_iota(half)
    hi = sub(f_iota(sub(m, half)), f_floor(div(m, num(2))))
    return mul(concat(I, [lo, hi], n), inv(mul(m, d)))


@lib('numpy.fft.rfftfreq', 'scipy.fft.rfftfreq')
def _rfftfreq(I, a, k, n):
    m, d = I.fz(g(a, k, 0, 'n')), I.fz(g(a, k, 1, 'd', num(1)))
    return mul(f_iota(add(f_floor(div(m, num(2))), num(1))), inv(mul(m, d)))


@lib('numpy.convolve')
def _convolve(I, a, k, n):
    y = toarray(I, a[1])
    if not vec1(y) or isinstance(y, Tup):
        return I.lib_atom('numpy.convolve', a, k, 'arr', True)
    m = g(a, k, 2, 'mode', Kst('full'))
    return _correlate(I, [a[0], f_rev(f_conj(y))], {'mode': m}, n)
