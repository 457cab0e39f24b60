"""Array / sequence / boolean operators over value-number terms."""
import itertools
from .terms import *
from .terms import _ATOMS, _signed
from . import terms as T

_fresh = itertools.count(1)


def fresh_binder(hint='i'):
    return mk('bind', ('%s#%d' % (hint, next(_fresh)), 'free'), 'num')


def bid(b):
    return as_atom(b).id


# ------------------------------------------------------------ substitution
def subst(v, m, memo=None):
    """Replace atoms by values; m: {atomid: Val}."""
    if not m:
        return v
    if memo is None:
        memo = {}
    ks = m.keys()
    if isinstance(v, N):
        if not v.t:
            return v
        # quick exit
        need = False
        for mono in v.t:
            for i, _ in mono:
                if _touch(i, m):
                    need = True
        if not need:
            return v
        a = as_atom(v)
        if a is not None:
            return _subst_atom(a, m, memo)
        out = N({})
        for mono, c in v.t.items():
            r = num(c)
            for i, e in mono:
                x = _subst_atom(_ATOMS[i], m, memo)
                if not isinstance(x, N):
                    return mk('badsubst', (x,), 'unk', opaque=True)
                r = mul(r, power_int(x, e) if e >= 0 or len(x.t) <= 1 else power_int(inv(x), -e))
            out = add(out, r)
        return out
    if isinstance(v, Tup):
        return Tup([subst(i, m, memo) for i in v.items], v.kind)
    if isinstance(v, Dct):
        return Dct({k: subst(x, m, memo) for k, x in v.d.items()})
    if isinstance(v, StrV):
        return mkstr([p if isinstance(p, str) else (p[0], subst(p[1], m, memo)) for p in v.parts])
    if isinstance(v, View):
        return View(subst(v.base, m, memo), [subst(i, m, memo) for i in v.idx])
    if isinstance(v, Slc):
        return Slc(subst(v.lo, m, memo), subst(v.hi, m, memo), subst(v.step, m, memo))
    if isinstance(v, BM):
        return BM(subst(v.obj, m, memo), v.name)
    return v


_touch_cache = {}


def _touch(i, m):
    a = _ATOMS[i]
    if i in m:
        return True
    for k in m:
        ak = _ATOMS[k]
        if ak.op == 'bind':
            if k in a.binders:
                return True
        else:
            if k in _sub_atoms(i):
                return True
    return False


def _sub_atoms(i):
    s = _touch_cache.get(i)
    if s is None:
        s = frozenset(atoms_in(from_atom(_ATOMS[i])))
        _touch_cache[i] = s
    return s


def _subst_atom(a, m, memo):
    if a.id in m:
        return m[a.id]
    if not _touch(a.id, m):
        return from_atom(a)
    if a.id in memo:
        return memo[a.id]
    if a.op in ('comp', 'flat'):
        bs, ns, body = a.args
        fr = [fresh_binder() for _ in bs]
        ren = {b: f for b, f in zip(bs, fr)}
        body2 = subst(subst(body, ren), m)
        ns2 = [subst(n, m) for n in ns]
        r = (f_comp if a.op == 'comp' else f_flat)(fr, ns2, body2)
    else:
        args = []
        for x in a.args:
            if isinstance(x, Val):
                args.append(subst(x, m, memo))
            elif isinstance(x, tuple) and any(isinstance(y, Val) for y in x):
                args.append(tuple(subst(y, m, memo) if isinstance(y, Val) else y for y in x))
            else:
                args.append(x)
        r = rebuild(a.op, args, a.ty, a.opaque)
    memo[a.id] = r
    return r


def rebuild(op, args, ty, opaque=False):
    f = _REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, args, ty, opaque)


# ------------------------------------------------------------ strings
def mkstr(parts):
    out = []
    for p in parts:
        if not isinstance(p, str):
            spec, v = p
            if isinstance(v, Kst) and isinstance(v.v, str) and v is not FULL and spec in ('', 's'):
                p = v.v
            elif isinstance(v, StrV) and spec in ('', 's'):
                for q in v.parts:
                    _pushpart(out, q)
                continue
            elif isinstance(v, N) and intconst(v) is not None and spec in ('', 's', 'd'):
                p = str(intconst(v))
            else:
                if spec == 's':
                    p = ('', v)
        _pushpart(out, p)
    if not out:
        return Kst('')
    if len(out) == 1 and isinstance(out[0], str):
        return Kst(out[0])
    if len(out) == 1 and out[0][0] == '' and out[0][1].ty == 'str':
        return out[0][1]
    return StrV(out)


def _pushpart(out, p):
    if p == '':
        return
    if out and isinstance(out[-1], str) and isinstance(p, str):
        out[-1] += p
    else:
        out.append(p)


def strparts(v):
    if isinstance(v, Kst) and isinstance(v.v, str):
        return [v.v]
    if isinstance(v, StrV):
        return list(v.parts)
    return [('', v)]


# ------------------------------------------------------------ booleans
def f_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    at = as_atom(a)
    if at is not None:
        if at.op == 'not':
            return at.args[0]
        if at.op == 'lt':                      # not x<0  ->  -x<=0
            return mk('le', (neg(at.args[0]),), at.ty)
        if at.op == 'le':
            return mk('lt', (neg(at.args[0]),), at.ty)
    return mk('not', (a,), a.ty if isinstance(a, N) else 'num')


def f_and(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        at = as_atom(x)
        if at is not None and at.op == 'and':
            out.extend(at.args)
        else:
            out.append(x)
    seen = {}
    for x in out:
        seen[repr(x.key()) if not isinstance(x, N) else x.key()] = x
    xs = list(seen.values())
    ks = set(seen)
    for x in xs:
        n = f_not(x)
        if isinstance(n, N) and n.key() in ks:
            return FALSE
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    xs.sort(key=_okey)
    return mk('and', tuple(xs), join_ty([x.ty for x in xs]))


def f_or(*xs):
    return f_not(f_and(*[f_not(x) for x in xs]))


def _okey(v):
    if isinstance(v, N):
        return (0, sorted((m, c) for m, c in v.t.items()))
    return (1, [repr(v.key())])


def f_lt0(x, strict=True):
    """x < 0 or x <= 0; positive scaling is normalised away."""
    c = const(x)
    if c is not None:
        return TRUE if (c < 0 or (c == 0 and not strict)) else FALSE
    # infinities
    inf = T.as_atom(INF).id
    for m, k in x.t.items():
        if m == ((inf, 1),):
            return TRUE if k < 0 else FALSE
    cc, m, p = content(x)
    if abs(cc) != 1:
        x = scale(x, 1 / abs(cc))
    # a count is a non-negative integer
    k = x.t.get((), 0)
    if len(x.t) == (2 if k else 1):
        (mono, c), = [(m, c) for m, c in x.t.items() if m != ()]
        if len(mono) == 1 and mono[0][1] == 1 and abs(c) == 1 and k.__class__ in (int, T.Fraction) and _ATOMS[mono[0][0]].op == 'len':
            L = from_atom(_ATOMS[mono[0][0]])
            zero = lambda: mk('eq', (L,), join_ty([L.ty]))
            if strict:                       # c*L + k < 0
                if c == 1 and k >= 0:
                    return FALSE
                if c == 1 and -1 <= k < 0:
                    return zero()
                if c == -1 and k < 0:
                    return TRUE
                if c == -1 and 0 <= k < 1:
                    return f_not(zero())
            else:                            # c*L + k <= 0
                if c == 1 and k > 0:
                    return FALSE
                if c == 1 and -1 < k <= 0:
                    return zero()
                if c == -1 and k <= 0:
                    return TRUE
                if c == -1 and 0 < k <= 1:
                    return f_not(zero())
    return mk('lt' if strict else 'le', (x,), join_ty([x.ty]))


def cmp(op, a, b):
    """Comparison of two values; returns TRUE/FALSE or a condition term."""
    if isinstance(a, N) and isinstance(b, N):
        if op == '<':
            return f_lt0(sub(a, b))
        if op == '<=':
            return f_lt0(sub(a, b), False)
        if op == '>':
            return f_lt0(sub(b, a))
        if op == '>=':
            return f_lt0(sub(b, a), False)
        if op in ('==', '!='):
            d = sub(a, b)
            c = const(d)
            if c is not None:
                r = TRUE if c == 0 else FALSE
                return r if op == '==' else f_not(r)
            s, d = _signed(d)
            cc, m, p = content(d)
            if not m:
                d = p
            r = mk('eq', (d,), join_ty([d.ty]))
            return r if op == '==' else f_not(r)
    if op in ('==', '!='):
        r = None
        if a.key() == b.key():
            r = TRUE
        elif isinstance(a, Kst) and isinstance(b, Kst):
            r = TRUE if (a.v == b.v) else FALSE
        elif isinstance(a, (Kst, Tup, Dct, Fn, Cls, StrV)) and isinstance(b, (Kst, Tup, Dct, Fn, Cls, StrV)) \
                and type(a) is not type(b) and not (isinstance(a, StrV) or isinstance(b, StrV)):
            r = FALSE
        elif a is NONE or b is NONE:
            o = b if a is NONE else a
            at = as_atom(o)
            if at is not None and at.op == 'ite':
                r = mk('same', tuple(sorted((a, b), key=_skey)), 'num')
            else:
                r = FALSE
        elif (isinstance(a, Kst) and isinstance(a.v, bool) and isinstance(b, N)) or \
                (isinstance(b, Kst) and isinstance(b.v, bool) and isinstance(a, N)):
            k, o = (a, b) if isinstance(a, Kst) else (b, a)
            oa = as_atom(o)
            c = const(o)
            if c is not None:
                r = TRUE if c == int(k.v) else FALSE
            elif oa is not None and oa.op in BOOLOPS:
                r = o if k.v else f_not(o)
            else:
                r = mk('istrue', (o,), 'num')
                if not k.v:
                    r = f_not(r)
        else:
            x, y = sorted((a, b), key=_skey)
            r = mk('same', (x, y), 'num')
        return r if op == '==' else f_not(r)
    return mk('cmp', (op, a, b), 'num', opaque=True)


def _skey(v):
    return repr(v.key()) if not isinstance(v, N) else repr(sorted((m, c) for m, c in v.t.items()))


BOOLOPS = ('lt', 'le', 'eq', 'not', 'and', 'same', 'istrue', 'truth', 'isinst', 'in', 'exists')


def truth(v):
    if isinstance(v, Kst):
        return TRUE if v.v else FALSE
    if isinstance(v, N):
        c = const(v)
        if c is not None:
            return TRUE if c != 0 else FALSE
        a = as_atom(v)
        if a is not None and a.op in BOOLOPS:
            return v
        if a is not None and a.op == 'len':
            return f_lt0(neg(v))
        if a is not None and a.op == 'par' and a.ty == 'bool':
            return mk('istrue', (v,), 'num')
        return mk('truth', (v,), 'num')
    if isinstance(v, (Tup,)):
        return TRUE if v.items else FALSE
    if isinstance(v, Dct):
        return TRUE if v.d else FALSE
    if isinstance(v, (Fn, Cls, Mod, BM)):
        return TRUE
    if isinstance(v, StrV):
        return TRUE
    return mk('truth', (v,), 'num')


def f_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b or a.key() == b.key():
        return a
    ca = as_atom(c)
    if ca is not None and ca.op == 'not':
        return f_ite(ca.args[0], b, a)
    if isinstance(a, Kst) and isinstance(a.v, bool) and isinstance(b, Kst) and isinstance(b.v, bool):
        return c if a.v else f_not(c)
    if isinstance(a, Kst) and isinstance(a.v, bool) and not isinstance(b, N):
        pass
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([f_ite(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
    if isinstance(a, N) and isinstance(b, N):
        if ca is not None and ca.op in ('lt', 'le'):
            y = ca.args[0]
            d = sub(a, b)
            cc, m, p = content(d)
            # positive rescaling of the condition argument
            if not sub(d, neg(y)).t or (_posmult(d, neg(y))):
                return f_max2(a, b)
            if not sub(d, y).t or _posmult(d, y):
                return f_min2(a, b)
        if ca is not None and ca.op == 'eq':
            # x==0 ? f(x) : g   with f(0) constant
            z = as_atom(ca.args[0])
            if z is not None:
                a = subst(a, {z.id: num(0)})
                if equal(a, b) or z.id in atoms_in(b) and equal(a, subst(b, {z.id: num(0)})):
                    return b
        if ca is not None and ca.op == 'truth' and isinstance(ca.args[0], N) and ca.args[0].ty not in ARR:
            # x != 0 ? f(x) : f(0)
            z = as_atom(ca.args[0])
            if z is not None and z.ty not in ('bool', 'str') and equal(subst(a, {z.id: num(0)}), subst(b, {z.id: num(0)})):
                return a
        if ca is not None and ca.op == 'le':
            # canonical: strict form
            return f_ite(f_not(c), b, a)
    # nested ite on the same condition
    aa, ba = as_atom(a), as_atom(b)
    if aa is not None and aa.op == 'ite' and aa.args[0].key() == c.key():
        return f_ite(c, aa.args[1], b)
    if ba is not None and ba.op == 'ite' and ba.args[0].key() == c.key():
        return f_ite(c, a, ba.args[2])
    ty = 'obj'
    if isinstance(a, N) and isinstance(b, N):
        ty = a.ty if a.ty == b.ty else join_ty([a.ty, b.ty, c.ty if isinstance(c, N) and c.ty in ARR else 'num'])
    elif isinstance(a, (N,)) and b in (NONE, UNBOUND):
        ty = a.ty
    elif isinstance(b, (N,)) and a in (NONE, UNBOUND):
        ty = b.ty
    elif a.ty == b.ty:
        ty = a.ty
    return mk('ite', (c, a, b), ty)


def _posmult(x, y):
    """x == k*y for a positive rational k."""
    if len(x.t) != len(y.t) or not x.t:
        return False
    m = next(iter(x.t))
    if m not in y.t:
        return False
    k = x.t[m] / y.t[m]
    return k > 0 and not sub(x, scale(y, k)).t


def _flat2(op, xs):
    out = []
    for x in xs:
        a = as_atom(x)
        if a is not None and a.op == op:
            out.extend(a.args)
        else:
            out.append(x)
    d = {x.key(): x for x in out}
    return sorted(d.values(), key=_okey)


def f_max2(*xs):
    inf = as_atom(INF).id
    xs = [x for x in xs if not (len(x.t) == 1 and ((inf, 1),) in x.t and x.t[((inf, 1),)] < 0)]
    cs = [const(x) for x in xs]
    if xs and all(c is not None for c in cs):
        return num(max(cs))
    xs = _flat2('max2', xs)
    if len(xs) == 1:
        return xs[0]
    return mk('max2', tuple(xs), join_ty([x.ty for x in xs]))


def f_min2(*xs):
    inf = as_atom(INF).id
    xs = [x for x in xs if not (len(x.t) == 1 and ((inf, 1),) in x.t and x.t[((inf, 1),)] > 0)]
    cs = [const(x) for x in xs]
    if xs and all(c is not None for c in cs):
        return num(min(cs))
    xs = _flat2('min2', xs)
    if len(xs) == 1:
        return xs[0]
    return mk('min2', tuple(xs), join_ty([x.ty for x in xs]))


# ------------------------------------------------------------ vectors
# elementwise operators: op(args...) where indexing distributes to the args
EW = ('abs', 'sqrt', 'exp', 'cos', 'sin', 'inv', 'pow', 'max2', 'min2', 'lt', 'le',
      'eq', 'not', 'and', 'ite', 'floor', 'real', 'conj', 'trunc', 'round', 'log', 'sign',
      'mod', 'floordiv', 'isnan', 'single')
# atoms that are whole 1-D vectors
VECOPS = ('iota', 'comp', 'slice', 'rev', 'zpad', 'concatv', 'fft', 'ifft', 'correlate',
          'detrend', 'find_peaks', 'lib_arr', 'col', 'row', 'put')


def isvec(v):
    return isinstance(v, N) and v.ty in ('arr', 'arr2')


def f_at(v, i):
    """v[i] for an integer-valued index term i."""
    if isinstance(v, Tup):
        k = intconst(i)
        if k is not None and -len(v.items) <= k < len(v.items):
            return v.items[k]
        return mk('at', (v, i), 'unk', opaque=True)
    if not isinstance(v, N):
        return mk('at', (v, i), 'unk', opaque=True)
    a = as_atom(v)
    if a is None:
        tys = [_ATOMS[j].ty for m in v.t for j, _ in m]
        if any(t not in ('arr', 'num', 'time', 'arr2', 'const') for t in tys) or v.ty not in ARR:
            return mk('at', (v, i), 'unk')
        mp = {}
        for m in v.t:
            for j, _ in m:
                if _ATOMS[j].ty in ARR:
                    mp[j] = f_at(from_atom(_ATOMS[j]), i)
        return _toplevel_subst(v, mp)
    op = a.op
    if op == 'iota':
        k = intconst(i)
        if k is not None and k < 0:
            return add(a.args[0], i)
        return i
    if op == 'comp' and len(a.args[0]) == 1:
        k = intconst(i)
        if k is not None and k < 0:
            i = add(a.args[1][0], i)
        return subst(a.args[2], {a.args[0][0]: i})
    if op == 'comp':
        bs, ns, body = a.args
        d = mixed_radix_split(i, ns)
        if d is not None:
            return subst(body, {b: x for b, x in zip(bs, d)})
    if op == 'slice':
        k = intconst(i)
        if k is not None and k < 0:
            return f_at(a.args[0], add(a.args[2], i))
        return f_at(a.args[0], add(a.args[1], i))
    if op == 'row':
        k = intconst(i)
        if k is not None:
            return f_at(f_col(a.args[0], k), a.args[1])
    if op == 'fillv':
        return a.args[0]
    if op == 'rev':
        return f_at(a.args[0], sub(sub(f_len(a.args[0]), num(1)), i))
    if op == 'ite' and not isvec(a.args[0]) and a.ty in ARR:
        return f_ite(a.args[0], f_at(a.args[1], i), f_at(a.args[2], i))
    if op in EW and a.ty in ARR:
        args = []
        for x in a.args:
            if isinstance(x, N) and x.ty in ARR:
                args.append(f_at(x, i))
            else:
                args.append(x)
        return rebuild(op, args, 'num')
    if op == 'table':
        return Tup([f_at(c, i) for c in a.args], 'row')
    if op in ('sum0',):
        b = as_atom(a.args[0])
        if b is not None and b.op == 'comp':
            fr = [fresh_binder() for _ in b.args[0]]
            body = subst(b.args[2], dict(zip(b.args[0], fr)))
            return f_sum(f_comp(fr, b.args[1], f_at(body, i)))
    k = intconst(i)
    if op == 'T' and k is not None:
        return f_col(a.args[0], k)
    if op == 'par' and a.ty in SEQ_OF:
        return mk('at', (v, i), SEQ_OF[a.ty])
    if a.ty in SEQ_OF:
        return mk('at', (v, i), SEQ_OF[a.ty])
    return mk('at', (v, i), 'unk' if a.ty != 'arr' else 'num')


SEQ_OF = {'arr': 'num', 'arr2': 'arr', 'RFStream': 'Trace', 'Stream': 'Trace', 'Catalog': 'Event',
          'files': 'str', 'windows': 'winlist', 'winlist': 'win', 'OriginL': 'Origin',
          'MagL': 'Magnitude', 'Arrivals': 'Arrival', 'numlist': 'num', 'fillist': 'str',
          'mpl': 'mpl', 'params': 'dict', 'carr2': 'arr', 'rows': 'arr'}


def _toplevel_subst(v, mp):
    out = N({})
    for mono, c in v.t.items():
        r = num(c)
        for i, e in mono:
            if i in mp:
                x = mp[i]
                r = mul(r, power_int(x, e))
            else:
                r = mul(r, N({((i, e),): T.Fraction(1)}))
        out = add(out, r)
    return out


def mixed_radix_split(i, ns):
    """Digits of a loop index in the bases ns (row-major)."""
    a = as_atom(i)
    if a is None or a.op != 'bind' or len(ns) != 2 or any(free_binders(n) for n in ns):
        return None
    if const(ns[1]) is not None or len(ns[1].t) != 1:
        return None
    return [f_floor(div(i, ns[1])), mk('mod', (i, ns[1]), 'num')]


def pointwise(v):
    """A combination of vectors given element by element over one domain, as one such vector."""
    if not isinstance(v, N) or v.ty not in ARR or as_atom(v) is not None:
        return v
    ns, mp = None, {}
    for m in v.t:
        k = 0
        for j, e in m:
            x = _ATOMS[j]
            if x.op in ('phi', 'loopout'):
                return v
            if x.ty not in ARR:
                continue
            k += 1
            if x.op != 'comp' or len(x.args[0]) < 2:
                return v
            if ns is None:
                ns = x.args[1]
                bs = [fresh_binder() for _ in ns]
            if len(ns) != len(x.args[1]) or not all(equal(p, q) for p, q in zip(ns, x.args[1])):
                return v
            if not isinstance(x.args[2], N) or x.args[2].ty in ARR:
                return v
            mp[j] = subst(x.args[2], dict(zip(x.args[0], bs)))
    if not mp:
        return v
    return f_comp(bs, ns, _toplevel_subst(v, mp))


def lin_index(bs, ns):
    r = num(0)
    for b, n in zip(bs, ns):
        r = add(mul(r, n), b)
    return r


def prod(ns):
    r = num(1)
    for n in ns:
        r = mul(r, n)
    return r


def _comp_height(v):
    h = 0
    for a in atoms_in(v).values():
        if a.op in ('comp', 'flat'):
            for b in a.args[0]:
                h = max(h, _ATOMS[b].args[1])
    return h


def split_radix(bs, ns, body):
    """One loop over n1*n2 that takes its index apart with // and % is the loop over n1 and n2."""
    for k, b in enumerate(bs):
        if len(ns[k].t) != 1 or const(ns[k]) is not None:
            continue
        for a in atoms_in(body).values():
            if a.op == 'mod' and a.args[0].key() == b.key():
                m = a.args[1]
            elif a.op == 'floor':
                m = inv(div(a.args[0], b))
            else:
                continue
            if bid(b) in free_binders(m) or const(m) is not None or len(m.t) != 1:
                continue
            q = div(ns[k], m)
            if const(q) is not None or len(q.t) != 1 or any(e < 0 for mono in q.t for _, e in mono) or any(
                    c.denominator != 1 for c in q.t.values()):
                continue
            hi, lo = fresh_binder(), fresh_binder()
            mp = {bid(b): add(mul(hi, m), lo)}
            for x in atoms_in(body).values():
                if x.op == 'mod' and x.args[0].key() == b.key() and equal(x.args[1], m):
                    mp[x.id] = lo
                elif x.op == 'floor' and equal(x.args[0], div(b, m)):
                    mp[x.id] = hi
            if len(mp) < 2:
                continue
            return (bs[:k] + [hi, lo] + bs[k + 1:], ns[:k] + [q, m] + ns[k + 1:], subst(body, mp))
    return None


def f_comp(bs, ns, body):
    """Vector/sequence [body for b1<n1 for b2<n2 ...] (row-major order)."""
    bs = list(bs)
    ns = [n if isinstance(n, N) else num(0) for n in ns]
    s = split_radix(bs, ns, body)
    if s is not None:
        return f_comp(*s)
    # flatten nested comps lazily: body being a comp stays a list of lists
    if len(bs) == 1:
        a = as_atom(body) if isinstance(body, N) else None
        if a is not None and a.op == 'at' and a.args[1].key() == bs[0].key() and isinstance(a.args[0], N) \
                and bid(bs[0]) not in free_binders(a.args[0]) and a.args[0].ty in SEQ_OF \
                and a.args[0].ty != 'arr' and equal(f_len(a.args[0]), ns[0]):
            return a.args[0]
        u = unindex(bs[0], ns[0], body)
        if u is not None:
            return u
    # an inner bound that depends on an outer index: a concatenation
    seen = set()
    for k, n in enumerate(ns):
        if free_binders(n) & seen:
            return f_flat(bs[:k], ns[:k], f_comp(bs[k:], ns[k:], body))
        seen.add(bid(bs[k]))
    a = as_atom(body) if isinstance(body, N) else None
    if a is not None and a.op == 'chunk':
        return f_flat(bs, ns, a.args[0])
    h = max([_comp_height(body)] + [_comp_height(n) for n in ns])
    cb = [mk('bind', ('b%d' % (h + k + 1), h + k + 1), 'num') for k in range(len(bs))]
    body = subst(body, {bid(b): c for b, c in zip(bs, cb)})
    ty = 'arr'
    bt = body.ty
    if isinstance(body, Tup):
        ty = 'rows'
    elif bt in ('arr', 'arr2'):
        ty = 'arr2'
    elif bt in ('num', 'time'):
        ty = 'arr'
    else:
        ty = 'list'
    return mk('comp', (tuple(bid(c) for c in cb), tuple(ns), body), ty)


def f_flat(bs, ns, inner):
    """Concatenation of the lists `inner` for b1<n1 for b2<n2 ... ."""
    bs, ns = list(bs), list(ns)
    if isinstance(inner, Tup) and len(inner.items) == 1:
        return f_comp(bs, ns, inner.items[0])
    a = as_atom(inner) if isinstance(inner, N) else None
    if a is not None and a.op == 'one':
        return f_comp(bs, ns, a.args[0])
    if a is not None and a.op in ('comp', 'flat'):
        mine = {bid(b) for b in bs}
        if not any(free_binders(n) & mine for n in a.args[1]):
            fr = [fresh_binder() for _ in a.args[0]]
            body = subst(a.args[2], dict(zip(a.args[0], fr)))
            return (f_comp if a.op == 'comp' else f_flat)(bs + fr, ns + list(a.args[1]), body)
    seen = set()
    for k, n in enumerate(ns):
        if free_binders(n) & seen:
            return f_flat(bs[:k], ns[:k], f_flat(bs[k:], ns[k:], inner))
        seen.add(bid(bs[k]))
    h = max([_comp_height(inner)] + [_comp_height(n) for n in ns])
    cb = [mk('bind', ('b%d' % (h + k + 1), h + k + 1), 'num') for k in range(len(bs))]
    inner = subst(inner, {bid(b): c for b, c in zip(bs, cb)})
    return mk('flat', (tuple(bid(c) for c in cb), tuple(ns), inner), 'list')


def unindex(b, n, body):
    """[f(x[b]) for b < len(x)]  ->  f(x) as an elementwise vector."""
    if not isinstance(body, N):
        return None
    i = bid(b)
    if i not in free_binders(body):
        return None
    ok = [True]
    hit = [False]

    def go(v):
        if not isinstance(v, N):
            if i in free_binders(v):
                ok[0] = False
            return v
        if i not in free_binders(v):
            # a loop-invariant scalar is fine; an invariant array is not
            if v.ty in ARR:
                ok[0] = False
            return v
        out = N({})
        for mono, c in v.t.items():
            r = num(c)
            for j, e in mono:
                a = _ATOMS[j]
                if i not in a.binders:
                    if a.ty in ARR:
                        ok[0] = False
                    x = from_atom(a)
                elif a.op == 'bind' and a.id == i:
                    hit[0] = True
                    x = f_iota(n)
                elif a.op == 'at' and a.args[1].key() == b.key() and isinstance(a.args[0], N) \
                        and i not in free_binders(a.args[0]) and a.args[0].ty == 'arr':
                    L = f_len(a.args[0])
                    if not equal(L, n):
                        ok[0] = False
                    hit[0] = True
                    x = a.args[0]
                elif a.op == 'at' and isinstance(a.args[0], N) and i not in free_binders(a.args[0]) \
                        and a.args[0].ty == 'arr':
                    lo = sub(a.args[1], b)
                    if i in free_binders(lo):
                        ok[0] = False
                        return v
                    hit[0] = True
                    x = f_slice(a.args[0], lo, add(lo, n))
                elif a.op in EW and a.op != 'comp':
                    x = rebuild(a.op, [go(y) if isinstance(y, N) else y for y in a.args], 'arr')
                else:
                    ok[0] = False
                    return v
                if not ok[0]:
                    return v
                if not isinstance(x, N):
                    ok[0] = False
                    return v
                r = mul(r, power_int(x, e))
            out = add(out, r)
        return out
    r = go(body)
    if ok[0] and hit[0]:
        return r
    return None


def f_iota(n):
    return mk('iota', (n,), 'arr')


# stream methods that change the traces, never how many there are
SAME_COUNT = ('filter', 'detrend', 'taper', 'normalize', 'differentiate', 'integrate', 'resample', 'decimate',
              'interpolate', 'moveout', 'reverse', 'sort', 'remove_response', 'simulate')


def f_len(v):
    if isinstance(v, Tup):
        return num(len(v.items))
    if isinstance(v, Kst) and isinstance(v.v, str):
        return num(len(v.v))
    if isinstance(v, Dct):
        return num(len(v.d))
    if not isinstance(v, N):
        return mk('len', (v,), 'num', opaque=not isinstance(v, N))
    a = as_atom(v)
    if a is None:
        for m in v.t:
            for j, _ in m:
                if _ATOMS[j].ty in ARR:
                    return f_len(from_atom(_ATOMS[j]))
        return mk('len', (v,), 'num')
    op = a.op
    if op == 'iota':
        return a.args[0]
    if op == 'comp':
        return prod(a.args[1])
    if op == 'slice':
        return sub(a.args[2], a.args[1])
    if op == 'streamof' or op == 'processed' and a.args[1] in SAME_COUNT:
        return f_len(a.args[0])
    if op in ('rev', 'fft', 'ifft', 'detrend'):
        if len(a.args) > 1 and isinstance(a.args[1], N):
            return a.args[1]
        return f_len(a.args[0])
    if op == 'correlate' and len(a.args) > 2 and isinstance(a.args[2], Kst):
        x, y = f_len(a.args[0]), f_len(a.args[1])
        if a.args[2].v == 'full':
            return sub(add(x, y), num(1))
        if equal(x, y):
            return x if a.args[2].v == 'same' else num(1)
    if op in ('zpad', 'fillv'):
        return a.args[1]
    if op == 'partial':
        return a.args[2]
    if op in ('scatter', 'put1'):
        return f_len(a.args[0])
    if op == 'put':
        return f_len(a.args[0])
    if op == 'zerosv':
        return a.args[0]
    if op in ('table', 'colvec'):
        return f_len(a.args[0])
    if op == 'concatv':
        r = num(0)
        for x in a.args:
            r = add(r, f_len(x))
        return r
    if op == 'ite' and a.ty not in ARR:
        return f_ite(a.args[0], f_len(a.args[1]), f_len(a.args[2]))
    if op == 'sum0':
        b = as_atom(a.args[0])
        if b is not None and b.op == 'comp':
            body = b.args[2]
            first = subst(body, {x: num(0) for x in b.args[0]})
            return f_len(first)
    if op in EW:
        for x in a.args:
            if isinstance(x, N) and x.ty in ARR:
                return f_len(x)
    if op == 'col':
        return mk('len', (a.args[0],), 'num')
    return mk('len', (v,), 'num')


def f_slice(v, lo, hi):
    if isinstance(v, Tup):
        l, h = intconst(lo), intconst(hi)
        if l is not None and h is not None:
            return Tup(v.items[l:h], v.kind)
        return mk('slice', (v, lo, hi), 'unk', opaque=True)
    if not isinstance(v, N):
        return mk('slice', (v, lo, hi), 'unk', opaque=True)
    L = f_len(v)
    if intconst(lo) == 0 and equal(hi, L):
        return v
    a = as_atom(v)
    if a is None:
        tys = [_ATOMS[j].ty for m in v.t for j, _ in m]
        if any(t not in ('arr', 'num', 'time', 'arr2', 'const') for t in tys):
            return mk('slice', (v, lo, hi), v.ty)
        mp = {}
        for m in v.t:
            for j, _ in m:
                if _ATOMS[j].ty in ARR:
                    mp[j] = f_slice(from_atom(_ATOMS[j]), lo, hi)
        return _toplevel_subst(v, mp)
    if a.op == 'iota':
        return add(lo, f_iota(sub(hi, lo)))
    if a.op == 'slice':
        return f_slice(a.args[0], add(a.args[1], lo), add(a.args[1], hi))
    if a.op in EW and a.ty in ARR:
        return rebuild(a.op, [f_slice(x, lo, hi) if isinstance(x, N) and x.ty in ARR else x
                              for x in a.args], 'arr')
    return mk('slice', (v, lo, hi), a.ty)


def f_colvec(v):
    """A vector as an n-by-1 matrix."""
    return mk('colvec', (v,), 'arr2')


def f_rev(v):
    a = as_atom(v)
    if a is not None and a.op == 'colvec':
        return f_colvec(f_rev(a.args[0]))
    if a is None and isinstance(v, N):
        mp = {}
        for m in v.t:
            for j, _ in m:
                if _ATOMS[j].ty in ARR:
                    mp[j] = f_rev(from_atom(_ATOMS[j]))
                elif _ATOMS[j].ty not in ('num', 'time', 'const'):
                    return mk('rev', (v,), v.ty)
        return _toplevel_subst(v, mp)
    if a is not None and a.op == 'rev':
        return a.args[0]
    if a is not None and a.op in EW and a.ty in ARR:
        return rebuild(a.op, [f_rev(x) if isinstance(x, N) and x.ty in ARR else x
                              for x in a.args], 'arr')
    return mk('rev', (v,), v.ty if isinstance(v, N) else 'unk')


def _open(v):
    """comp atom -> (fresh binders, ns, body)"""
    a = as_atom(v)
    if a is None or a.op != 'comp':
        return None
    fr = [fresh_binder() for _ in a.args[0]]
    return fr, list(a.args[1]), subst(a.args[2], dict(zip(a.args[0], fr)))


def f_sum(v, axis0=False):
    """Sum over a vector; linear parts not depending on the index come out."""
    if isinstance(v, Tup):
        r = num(0)
        for x in v.items:
            if not isinstance(x, N):
                return mk('sum', (v,), 'num', opaque=True)
            r = add(r, x)
        return r
    if not isinstance(v, N):
        return mk('sum', (v,), 'num', opaque=True)
    o = _open(v)
    if o is not None:
        bs, ns, body = o
        if isinstance(body, N):
            ids = {bid(b) for b in bs}
            res = num(0)
            rest = {}
            for m, c in body.t.items():
                dep = tuple((i, e) for i, e in m if _ATOMS[i].binders & ids)
                ind = tuple((i, e) for i, e in m if not (_ATOMS[i].binders & ids))
                rest.setdefault(dep, N({}))
                rest[dep] = add(rest[dep], N({ind: c}))
            for dep, k in rest.items():
                if not dep:
                    res = add(res, mul(k, prod(ns)))
                else:
                    d = N({dep: T.Fraction(1)})
                    isarr = d.ty in ARR
                    # nested sum of a sum over the same kind of domain: flatten
                    da = as_atom(d)
                    if da is not None and da.op == 'sum' and not isarr:
                        oo = _open(da.args[0])
                        if oo is not None and not (set().union(*[free_binders(n) for n in oo[1]]) & ids):
                            dd = f_comp(bs + oo[0], ns + oo[1], oo[2])
                            res = add(res, mul(k, mk('sum', (dd,), 'num')))
                            continue
                    oo = _open(d) if isarr else None
                    if oo is not None and not (set().union(*[free_binders(n) for n in oo[1]]) & ids):
                        # adding vectors that are given element by element: the vector of the sums
                        res = add(res, mul(k, f_comp(oo[0], oo[1], f_sum(f_comp(bs, ns, oo[2])))))
                        continue
                    comp = f_comp_raw(bs, ns, d)
                    if isarr:
                        res = add(res, mul(k, mk('sum0', (comp,), 'arr')))
                    else:
                        res = add(res, mul(k, mk('sum', (comp,), 'num')))
            return pointwise(res)
        return mk('sum', (v,), 'num', opaque=True)
    a = as_atom(v)
    if a is not None and a.op == 'iota':
        n = a.args[0]
        return scale(mul(n, sub(n, num(1))), T.Fraction(1, 2))
    if v.ty in ARR:
        # linear split of an elementwise vector
        L = f_len(v)
        res = num(0)
        for m, c in v.t.items():
            dep = tuple((i, e) for i, e in m if _ATOMS[i].ty in ARR)
            ind = tuple((i, e) for i, e in m if _ATOMS[i].ty not in ARR)
            k = N({ind: c})
            if not dep:
                res = add(res, mul(k, L))
            else:
                d = N({dep: T.Fraction(1)})
                o = _open(d)
                if o is not None and len(v.t) > 1:
                    res = add(res, mul(k, f_sum(d)))
                else:
                    res = add(res, mul(k, mk('sum', (d,), 'num')))
        return res
    return mk('sum', (v,), 'num')


def f_comp_raw(bs, ns, body):
    return f_comp(bs, ns, body)


def f_mean(v):
    return mul(f_sum(v), inv(f_len(v)))


def _fold(op, v):
    if isinstance(v, Tup):
        if all(isinstance(x, N) for x in v.items) and v.items:
            return (f_max2 if op == 'max' else f_min2)(*v.items)
        return mk(op, (v,), 'num', opaque=True)
    if not isinstance(v, N):
        return mk(op, (v,), 'num', opaque=True)
    a = as_atom(v)
    if a is not None and a.op == 'comp':
        o = _open(v)
        inner = as_atom(o[2]) if isinstance(o[2], N) else None
        if inner is not None and inner.op == op:
            oo = _open(inner.args[0])
            if oo is not None:
                return mk(op, (f_comp(o[0] + oo[0], o[1] + oo[1], oo[2]),), 'num')
    # pull positive rational scale, flip on negative
    if a is None and v.t:
        if len(v.t) == 1:
            (m, c), = v.t.items()
            if c < 0:
                return neg(_fold('min' if op == 'max' else 'max', N({m: -c})))
            if c != 1:
                return scale(_fold(op, N({m: T.Fraction(1)})), c)
    return mk(op, (v,), 'num')


def f_maxv(v):
    return _fold('max', v)


def f_minv(v):
    return _fold('min', v)


def f_argext(op, v):
    """argmax/argmin with monotone normalisation."""
    if not isinstance(v, N):
        return mk(op, (v,), 'num', opaque=True)
    if v.ty in ARR and len(v.t) > 1:
        # the square of a sum is ordered as its absolute value
        for s, o in ((1, op), (-1, 'argmin' if op == 'argmax' else 'argmax')):
            r = poly_root(scale(v, s))
            if r is not None:
                return f_argext(o, f_abs(r))
    # drop additive scalar parts
    t = {}
    for m, c in v.t.items():
        if any(_ATOMS[i].ty in ARR for i, _ in m):
            t[m] = c
    if not t:
        return mk(op, (v,), 'num', opaque=v.ty not in ARR)
    w = N(t) if v.ty in ARR else v
    c, m, p = content(w)
    lead = max(w.t)
    k = w.t[lead]
    w = scale(w, 1 / abs(k))
    if k < 0:
        w = neg(w)
        op = 'argmin' if op == 'argmax' else 'argmax'
    # argmin(x^2) == argmin|x|
    a = as_atom(w)
    return mk(op, (w,), 'num')


def poly_root(v):
    """The polynomial whose square is v, or None."""
    ids = sorted({i for m in v.t for i, _ in m})
    if len(ids) > 8 or any(e < 0 for m in v.t for _, e in m) or any(complex_atom(i) for i in ids):
        return None

    def key(m):
        d = dict(m)
        return (sum(d.values()), tuple(d.get(i, 0) for i in ids))

    def root(q):
        n, d = (int(round(x ** .5)) for x in (q.numerator, q.denominator))
        return T.Fraction(n, d) if n * n == q.numerator and d * d == q.denominator else None
    lead = max(v.t, key=key)
    c = v.t[lead]
    if c <= 0 or any(e % 2 for _, e in lead) or max(abs(c.numerator), c.denominator) > 10 ** 24:
        return None
    c = root(c)
    if c is None:
        return None
    half = {i: e // 2 for i, e in lead}
    r = N({tuple(sorted(half.items())): c})
    for _ in range(len(v.t)):
        rem = sub(v, mul(r, r))
        if not rem.t:
            return r
        m = max(rem.t, key=key)
        d = dict(m)
        for i, e in half.items():
            d[i] = d.get(i, 0) - e
        if any(e < 0 for e in d.values()):
            return None
        t = N({tuple(sorted((i, e) for i, e in d.items() if e)): rem.t[m] / (2 * c)})
        if key(next(iter(t.t))) >= key(next(iter(r.t))) and len(r.t) > 8:
            return None
        r = add(r, t)
    return None


def f_argabs(op, x):
    return mk(op, (f_abs(x),), 'num')


def complex_atom(i):
    a = _ATOMS[i]
    if a.op in ('I', 'fft', 'ifft', 'conj'):
        return True
    if a.op in ('real', 'imag', 'abs', 'len', 'max', 'min', 'argmax', 'argmin', 'comp'):
        return False
    if a.op in ('lib', 'lib_arr', 'call', 'phi', 'loopout'):
        return True
    if a.op == 'item' and a.args[1] in ('resonancefilter',):
        return True
    for x in a.args:
        if isinstance(x, N):
            for m in x.t:
                for j, _ in m:
                    if complex_atom(j):
                        return True
    return False


def f_real(v):
    if not isinstance(v, N):
        return mk('real', (v,), 'unk', opaque=True)
    I = as_atom(IMAG).id
    res = num(0)
    rest = N({})
    for m, c in v.t.items():
        cx = [i for i, _ in m if complex_atom(i)]
        if not cx:
            res = add(res, N({m: c}))
        elif cx == [I]:
            pass
        else:
            rest = add(rest, N({m: c}))
    if rest.t:
        # pull real scalar factors out of a single product
        if len(rest.t) == 1:
            (m, c), = rest.t.items()
            cxm = tuple((i, e) for i, e in m if complex_atom(i))
            rm = tuple((i, e) for i, e in m if not complex_atom(i))
            res = add(res, mul(N({rm: c}), mk('real', (N({cxm: T.Fraction(1)}),), rest.ty)))
        else:
            c, m, p = content(rest)
            rm = tuple((i, e) for i, e in m if not complex_atom(i))
            rmn = N({rm: c})
            q = mul(rest, inv(rmn))
            res = add(res, mul(rmn, mk('real', (q,), rest.ty)))
    return res


def f_conj(v):
    I = as_atom(IMAG).id
    out = N({})
    for m, c in v.t.items():
        r = num(c)
        for i, e in m:
            if i == I:
                x = neg(IMAG)
            elif complex_atom(i):
                a = _ATOMS[i]
                x = a.args[0] if a.op == 'conj' else mk('conj', (from_atom(a),), a.ty)
            else:
                x = from_atom(_ATOMS[i])
            r = mul(r, power_int(x, e))
        out = add(out, r)
    return out


def f_linop(op, v, *rest):
    """fft/ifft/detrend: pull scalar factors, split sums for fft."""
    if not isinstance(v, N):
        return mk(op, (v,) + rest, 'arr', opaque=True)
    if op == 'detrend':
        t = {m: c for m, c in v.t.items() if any(_ATOMS[i].ty in ARR for i, _ in m)}
        if t and v.ty in ARR:
            v = N(t)
    if len(v.t) == 1:
        (m, c), = v.t.items()
        sc = tuple((i, e) for i, e in m if _ATOMS[i].ty in ('num', 'time'))
        vc = tuple((i, e) for i, e in m if _ATOMS[i].ty not in ('num', 'time'))
        if vc:
            w = N({vc: T.Fraction(1)})
            if op == 'fft':
                wa = as_atom(w)
            return mul(N({sc: c}), mk(op, (w,) + rest, 'arr'))
    return mk(op, (v,) + rest, 'arr')


def f_item(o, k):
    return mk('item', (o, k), 'unk')


def f_floor(v):
    c = const(v)
    if c is not None:
        return num(c.numerator // c.denominator)
    # floor(a + integer const) = floor(a) + const
    k = v.t.get((), 0)
    if k and k.denominator == 1:
        return add(f_floor(sub(v, num(k))), num(k))
    a = as_atom(v)
    if a is not None and isint(v):
        return v
    if isint(v):
        return v
    return mk('floor', (v,), join_ty([v.ty]))


def isint(v):
    """Provably integer valued."""
    for m, c in v.t.items():
        if c.denominator != 1:
            return False
        for i, e in m:
            a = _ATOMS[i]
            if e < 0 or a.op not in ('len', 'bind', 'floor', 'trunc', 'argmax', 'argmin', 'round', 'iota', 'nextpow2', 'bitlen'):
                return False
    return True


def f_trunc(v):
    """int(x)"""
    c = const(v)
    if c is not None:
        return num(int(c))
    if isint(v):
        return v
    k = v.t.get((), 0)
    # lengths and the like are nonnegative: int(n/2) == n//2
    if nonneg(v):
        return f_floor(v)
    return mk('trunc', (v,), join_ty([v.ty]))


def dtype_kind(name):
    """'int', 'single' or None (double precision, or not a number type)"""
    name = str(name).split('.')[-1]
    if 'int' in name or name in ('i', 'i4', 'i8', 'u4', 'u8', '<i4', '<i8'):
        return 'int'
    if name in ('float32', 'float16', 'single', 'half', 'f', 'e', 'f4', 'f2', '<f4', '<f2', 'complex64', 'csingle', 'F', 'c8'):
        return 'single'
    return None


def cast_to(kind, v):
    """Value stored in an array of that number type."""
    if kind is None:
        return v
    if isinstance(v, Tup):
        return Tup([cast_to(kind, x) for x in v.items], v.kind)
    if not isinstance(v, N):
        return v
    if kind == 'int':
        return f_trunc(v)
    c = const(v)
    if c is not None and c == int(c) and abs(c) < 2048 or isint(v):
        return v
    return mk('single', (v,), join_ty([v.ty]))


def nonneg(v):
    for m, c in v.t.items():
        if c < 0:
            return False
        for i, e in m:
            a = _ATOMS[i]
            if a.op in ('len', 'floor', 'abs', 'bind', 'sqrt', 'iota', 'nextpow2', 'pi'):
                continue
            if e % 2 == 0:
                continue
            if a.ty == 'pos' or a.op == 'attr' and a.args[1] in ('delta', 'sampling_rate'):
                continue
            return False
    return True


_REBUILD = {
    'at': f_at, 'len': f_len, 'slice': f_slice, 'rev': f_rev, 'sqrt': f_sqrt, 'exp': f_exp,
    'cos': f_cos, 'sin': f_sin, 'abs': f_abs, 'inv': inv, 'pow': power, 'ite': f_ite,
    'not': f_not, 'and': f_and, 'max2': f_max2, 'min2': f_min2, 'iota': f_iota,
    'lt': lambda x: f_lt0(x, True), 'le': lambda x: f_lt0(x, False),
    'eq': lambda x: cmp('==', x, num(0)), 'sum': lambda v: f_sum(v),
    'sum0': lambda v: f_sum(v), 'max': f_maxv, 'min': f_minv,
    'argmax': lambda v: f_argext('argmax', v), 'argmin': lambda v: f_argext('argmin', v),
    'real': f_real, 'conj': f_conj, 'floor': f_floor, 'trunc': f_trunc,
    'fft': lambda v, *r: f_linop('fft', v, *r), 'ifft': lambda v, *r: f_linop('ifft', v, *r),
    'detrend': lambda v, *r: f_linop('detrend', v, *r),
}


def f_col(b, k):
    if isinstance(b, Tup):
        return Tup([f_at(r, num(k)) for r in b.items], 'array')
    a = as_atom(b)
    if a is not None:
        if a.op == 'colvec' and k in (0, -1):
            return a.args[0]
        if a.op == 'table':
            if -len(a.args) <= k < len(a.args):
                return a.args[k]
            return mk('badcol', (b, k), 'arr')
        if a.op == 'comp' and isinstance(a.args[2], Tup):
            fr = [fresh_binder() for _ in a.args[0]]
            body = subst(a.args[2], dict(zip(a.args[0], fr)))
            if -len(body.items) <= k < len(body.items):
                return f_comp(fr, a.args[1], body.items[k])
        if a.op == 'patched':
            for j in range(1, len(a.args), 2):
                if a.args[j] == k:
                    return a.args[j + 1]
            return f_col(a.args[0], k)
        if a.op == 'ite' and not (isinstance(a.args[0], N) and a.args[0].ty in ARR):
            return f_ite(a.args[0], f_col(a.args[1], k), f_col(a.args[2], k))
    return mk('col', (b, num(k)), 'arr')


def f_row(v, i):
    a = as_atom(v)
    if a is not None:
        if a.op == 'table':
            return Tup([f_at(c, i) for c in a.args], 'row')
        if a.op == 'comp':
            if isinstance(a.args[2], Tup):
                return Tup([f_at(f_col(v, k), i) for k in range(len(a.args[2].items))], 'row')
            return f_at(v, i)
        if a.op == 'T' and isinstance(i, N) and intconst(i) is not None:
            return f_col(a.args[0], intconst(i))
    return mk('row', (v, i), 'arr')


def f_col_r(b, k):
    return f_col(b, intconst(k) if isinstance(k, N) else k)


def f_fillv(c, n):
    return mk('fillv', (c, n), 'arr')


_REBUILD.update({'col': f_col_r, 'row': f_row})
_REBUILD['same'] = lambda a, b: mk('same', tuple(sorted((a, b), key=_skey)), 'num')
REBUILD = _REBUILD


def nonempty_of(c):
    """n, when the condition says that the length n is not zero."""
    a = as_atom(c) if isinstance(c, N) else None
    if a is None:
        return None
    d = None
    if a.op == 'not':
        b = as_atom(a.args[0])
        if b is not None and b.op == 'eq' and len(b.args) == 1:
            d = b.args[0]                   # not n == 0
        elif b is not None and b.op == 'le' and len(b.args) == 1:
            d = b.args[0]                   # not n <= 0
    elif a.op == 'lt' and len(a.args) == 1:
        d = neg(a.args[0])                  # 0 < n
    elif a.op == 'le' and len(a.args) == 1:
        d = sub(num(1), a.args[0])          # 1 <= n
    elif a.op == 'truth' and isinstance(a.args[0], N):
        d = a.args[0] if a.args[0].ty not in ARR + ('Stream', 'RFStream', 'list', 'files') else f_len(a.args[0])
    if d is None:
        return None
    for d in (d, neg(d)):
        x = as_atom(d)
        if x is not None and x.op == 'len':
            return d
    return None


def needless(c, segs):
    """Does the condition only say that there is something in the segments it guards?"""
    n = nonempty_of(c)
    if n is None:
        return False
    for s in segs:
        if s[0] == 'splat' and isinstance(s[1], N) and equal(f_len(s[1]), n):
            continue
        if s[0] == 'comp' and any(equal(k, n) for k in s[2]):
            continue
        return False
    return True


def seg_if(c, segs):
    return list(segs) if c is TRUE or needless(c, segs) else [('if', c, tuple(segs))]
