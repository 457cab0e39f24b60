"""Value-number terms.

Every value the analysis tracks is kept in a normal form so that two program
expressions that compute the same thing get the same value number, however they
were written.  Numeric (and otherwise opaque) values are Laurent polynomials
with rational coefficients over interned atoms; an atom is an uninterpreted or
semi-interpreted application whose arguments are themselves normal forms.
No solver is involved: equality is comparison of normal forms after clearing
denominators.
"""
from fractions import Fraction
import math


class Atom:
    __slots__ = ('id', 'op', 'args', 'ty', 'opaque', 'binders')

    def __repr__(self):
        return show_atom(self)


_ATOMS = []
_INTERN = {}
_FRACBUCKET = {}


class Val:
    __slots__ = ()
    ty = 'obj'

    def key(self):
        raise NotImplementedError

    def __repr__(self):
        return show(self)


class Kst(Val):
    """None / True / False / Ellipsis / UNBOUND / FULL slice."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    @property
    def ty(self):
        if isinstance(self.v, str):
            return 'str'
        return 'const'

    def key(self):
        return ('K', type(self.v).__name__, self.v)


class _Unb:
    def __repr__(self):
        return 'UNBOUND'


NONE = Kst(None)
TRUE = Kst(True)
FALSE = Kst(False)
UNBOUND = Kst('\0unbound')
FULL = Kst('\0full')
NEWAXIS = NONE


class StrV(Val):
    """Formatted string: tuple of literal str and (spec, Val) parts."""
    __slots__ = ('parts',)
    ty = 'str'

    def __init__(self, parts):
        self.parts = tuple(parts)

    def key(self):
        return ('S',) + tuple(p if isinstance(p, str) else ('F', p[0], p[1].key())
                              for p in self.parts)


class Tup(Val):
    __slots__ = ('items', 'kind')
    ty = 'seq'

    def __init__(self, items, kind='tuple'):
        self.items = tuple(items)
        self.kind = kind

    def key(self):
        return ('T',) + tuple(i.key() for i in self.items)


class Dct(Val):
    """Immutable snapshot of a dict with constant keys."""
    __slots__ = ('d',)
    ty = 'dict'

    def __init__(self, d):
        self.d = dict(d)

    def key(self):
        return ('D',) + tuple(sorted(((repr(k), v.key()) for k, v in self.d.items()),
                                     key=lambda x: x[0]))


class Ref(Val):
    __slots__ = ('id',)
    ty = 'ref'

    def __init__(self, i):
        self.id = i

    def key(self):
        return ('R', self.id)


class View(Val):
    """A basic-indexing view into a heap array or a path array."""
    __slots__ = ('base', 'idx')
    ty = 'arr'

    def __init__(self, base, idx):
        self.base = base
        self.idx = tuple(idx)

    def key(self):
        return ('V', self.base.key()) + tuple(i.key() for i in self.idx)


class Slc(Val):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def key(self):
        return ('SL', self.lo.key(), self.hi.key(), self.step.key())


class Fn(Val):
    __slots__ = ('node', 'module', 'qual', 'closure', 'defaults', 'selfv')
    ty = 'fn'

    def __init__(self, node, module, qual, closure=None, defaults=None, selfv=None):
        self.node, self.module, self.qual = node, module, qual
        self.closure, self.defaults, self.selfv = closure, defaults, selfv

    def key(self):
        return ('FN', self.qual, id(self.node), self.selfv.key() if self.selfv else None)


class Cls(Val):
    __slots__ = ('node', 'module', 'qual', 'members', 'bases')
    ty = 'cls'

    def __init__(self, node, module, qual, members, bases):
        self.node, self.module, self.qual = node, module, qual
        self.members, self.bases = members, bases

    def key(self):
        return ('CLS', self.qual)


class Mod(Val):
    """A resolved dotted name of something outside the analysed function."""
    __slots__ = ('name',)
    ty = 'mod'

    def __init__(self, name):
        self.name = name

    def key(self):
        return ('M', self.name)


class BM(Val):
    """Bound method of a non-inlined value."""
    __slots__ = ('obj', 'name')
    ty = 'fn'

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def key(self):
        return ('BM', self.obj.key(), self.name)


class Partial(Val):
    __slots__ = ('fn', 'args', 'kw')
    ty = 'fn'

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, tuple(args), dict(kw)

    def key(self):
        return ('P', self.fn.key()) + tuple(a.key() for a in self.args) + \
            tuple((k, v.key()) for k, v in sorted(self.kw.items()))


# ------------------------------------------------------------------ numerics
ARR = ('arr', 'arr2')


def join_ty(tys):
    r = 'num'
    for t in tys:
        if t == 'arr2':
            return 'arr2'
        if t == 'arr':
            r = 'arr'
        elif t in ('num', 'time', 'const'):
            pass
        else:
            if r == 'num':
                r = 'unk'
    return r


class N(Val):
    """Laurent polynomial: {mono: Fraction}; mono = ((atomid, exp), ...)"""
    __slots__ = ('t', '_k', '_ty')

    def __init__(self, t):
        self.t = t
        self._k = None
        self._ty = None

    def key(self):
        if self._k is None:
            self._k = ('N', frozenset(self.t.items()))
        return self._k

    @property
    def ty(self):
        if self._ty is None:
            a = as_atom(self)
            if a is not None:
                self._ty = a.ty
            else:
                self._ty = join_ty(_ATOMS[i].ty for m in self.t for i, _ in m)
        return self._ty


def atom_of(i):
    return _ATOMS[i]


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        f = Fraction(x)
    elif isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            a = mk('inf' if math.isinf(x) else 'nan', (), 'num')
            return a if x > 0 or math.isnan(x) else neg(a)
        f = Fraction(repr(x))
    elif isinstance(x, complex):
        return add(num(x.real), mul(num(x.imag), IMAG))
    else:
        f = Fraction(x)
    return N({(): f}) if f else N({})


def is_num(v):
    return isinstance(v, N)


def const(v):
    """Rational constant or None."""
    if isinstance(v, N):
        if not v.t:
            return Fraction(0)
        if len(v.t) == 1 and () in v.t:
            return v.t[()]
    if isinstance(v, Kst) and isinstance(v.v, bool):
        return Fraction(int(v.v))
    return None


def intconst(v):
    c = const(v)
    if c is not None and c.denominator == 1:
        return int(c)
    return None


def as_atom(v):
    if isinstance(v, N) and len(v.t) == 1:
        (m, c), = v.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _ATOMS[m[0][0]]
    return None


def from_atom(a):
    return N({((a.id, 1),): Fraction(1)})


def _argkey(a):
    if isinstance(a, Val):
        return a.key()
    if isinstance(a, tuple):
        return tuple([_argkey(x) for x in a])
    return a


def mk(op, args=(), ty='unk', opaque=False):
    """Intern an atom and return it as a value."""
    args = tuple(args)
    key = (op, tuple(_argkey(a) for a in args), ty) if op == "par" else (op, tuple(_argkey(a) for a in args))
    a = _INTERN.get(key)
    if a is None:
        if _has_inv(args):
            b = _FRACBUCKET.setdefault((op, len(args)), [])
            for cand in b:
                if all(_argeq(x, y) for x, y in zip(cand.args, args)):
                    _INTERN[key] = cand
                    return from_atom(cand)
        a = Atom()
        a.id = len(_ATOMS)
        a.op, a.args, a.ty = op, args, ty
        a.opaque = opaque
        bs = set()
        for x in args:
            if isinstance(x, Val):
                bs |= free_binders(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Val):
                        bs |= free_binders(y)
        if op == 'bind':
            bs.add(a.id)
        if op in ('comp', 'flat'):
            bs -= set(b for b in args[0])
        a.binders = frozenset(bs)
        _ATOMS.append(a)
        _INTERN[key] = a
        if _has_inv(args):
            _FRACBUCKET.setdefault((op, len(args)), []).append(a)
    return from_atom(a)


def _has_inv(args):
    for a in args:
        if isinstance(a, N):
            for m in a.t:
                for i, e in m:
                    if _ATOMS[i].op == 'inv':
                        return True
        elif isinstance(a, tuple) and _has_inv(a):
            return True
    return False


def _argeq(x, y):
    if isinstance(x, Val) and isinstance(y, Val):
        return equal(x, y)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_argeq(p, q) for p, q in zip(x, y))
    return x == y


def free_binders(v):
    if isinstance(v, N):
        s = set()
        for m in v.t:
            for i, _ in m:
                s |= _ATOMS[i].binders
        return s
    if isinstance(v, Tup):
        s = set()
        for i in v.items:
            s |= free_binders(i)
        return s
    if isinstance(v, Dct):
        s = set()
        for i in v.d.values():
            s |= free_binders(i)
        return s
    if isinstance(v, StrV):
        s = set()
        for p in v.parts:
            if not isinstance(p, str):
                s |= free_binders(p[1])
        return s
    if isinstance(v, View):
        s = free_binders(v.base)
        for i in v.idx:
            s |= free_binders(i)
        return s
    if isinstance(v, Slc):
        return free_binders(v.lo) | free_binders(v.hi) | free_binders(v.step)
    if isinstance(v, BM):
        return free_binders(v.obj)
    if isinstance(v, Partial):
        s = set()
        for i in list(v.args) + list(v.kw.values()):
            s |= free_binders(i)
        return s
    return set()


def add(a, b):
    t = dict(a.t)
    for m, c in b.t.items():
        r = t.get(m, 0) + c
        if r:
            t[m] = r
        else:
            t.pop(m, None)
    return N(t)


def scale(a, c):
    c = Fraction(c)
    if not c:
        return N({})
    return N({m: k * c for m, k in a.t.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if len(a.t) > len(b.t):
        a, b = b, a
    out = {}
    extra = None
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            p = _mmul(m1, m2)
            c = c1 * c2
            if isinstance(p, N):
                s = scale(p, c)
                extra = s if extra is None else add(extra, s)
            else:
                r = out.get(p, 0) + c
                if r:
                    out[p] = r
                else:
                    out.pop(p, None)
    r = N(out)
    if extra is not None:
        r = add(r, extra)
    return r


def _mmul(m1, m2):
    """Product of monomials: a monomial, or an N when a rewrite applies."""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for i, e in m2:
        r = d.get(i, 0) + e
        if r:
            d[i] = r
        else:
            d.pop(i)
    special = None
    exps = None
    for i, e in d.items():
        op = _ATOMS[i].op
        if op == 'I' and (e > 1 or e < 0):
            special = special or []
            special.append(i)
        elif op == 'sqrt' and (e > 1 or e < 0):
            special = special or []
            special.append(i)
        elif op == 'exp':
            exps = exps or []
            exps.append(i)
    if exps is not None and (len(exps) > 1 or d[exps[0]] != 1):
        pass
    else:
        exps = None
    if special is None and exps is None:
        return tuple(sorted(d.items()))
    res = None
    fac = []
    for i in special or ():
        e = d.pop(i)
        at = _ATOMS[i]
        if at.op == 'I':
            k = e % 4
            fac.append([num(1), IMAG, num(-1), neg(IMAG)][k])
        else:
            x = at.args[0]
            q, r = divmod(e, 2)
            fac.append(power_int(x, q))
            if r:
                fac.append(from_atom(at))
    if exps is not None:
        tot = num(0)
        for i in exps:
            e = d.pop(i)
            tot = add(tot, scale(_ATOMS[i].args[0], e))
        fac.append(f_exp(tot))
    res = N({tuple(sorted(d.items())): Fraction(1)})
    for f in fac:
        res = mul(res, f)
    return res


def content(a):
    """(rational c, monomial m, primitive p) with a = c*m*p, p having
    nonneg exponents, integer coprime coefficients and positive lead."""
    if not a.t:
        return Fraction(0), (), N({})
    mins = None
    for m in a.t:
        d = dict(m)
        if mins is None:
            mins = dict(d)
        else:
            for i in list(mins):
                mins[i] = min(mins[i], d.get(i, 0))
            for i in d:
                if i not in mins:
                    mins[i] = min(0, d[i])
    mins = {i: e for i, e in mins.items() if e}
    g = 0
    l = 1
    for c in a.t.values():
        g = math.gcd(g, abs(c.numerator))
        l = l * c.denominator // math.gcd(l, c.denominator)
    c = Fraction(g, 1)
    for k in a.t.values():
        pass
    # content = gcd(num)/lcm(den)
    gg = 0
    for k in a.t.values():
        gg = math.gcd(gg, abs((k * l).numerator))
    c = Fraction(gg, l)
    p = {}
    for m, k in a.t.items():
        d = dict(m)
        for i, e in mins.items():
            r = d.get(i, 0) - e
            if r:
                d[i] = r
            else:
                d.pop(i, None)
        p[tuple(sorted(d.items()))] = k / c
    lead = max(p)
    if p[lead] < 0:
        c = -c
        p = {m: -k for m, k in p.items()}
    return c, tuple(sorted(mins.items())), N(p)


def inv(a):
    if not a.t:
        return mk('divzero', (), 'num', opaque=True)
    c, m, p = content(a)
    mi = N({(): Fraction(1)})
    for i, e in m:
        at = _ATOMS[i]
        if at.op == 'inv' and e > 0:
            mi = mul(mi, power_int(at.args[0], e))
        elif at.op in ('sqrt', 'I', 'exp'):
            mi = mul(mi, _pow_special(at, -e))
        else:
            mi = mul(mi, N({((i, -e),): Fraction(1)}))
    r = scale(mi, 1 / c)
    if const(p) == 1:
        return r
    return mul(r, mk('inv', (p,), join_ty([p.ty])))


def _pow_special(at, e):
    if at.op == 'exp':
        return f_exp(scale(at.args[0], e))
    if at.op == 'I':
        return [num(1), IMAG, num(-1), neg(IMAG)][e % 4]
    q, r = divmod(e, 2)
    x = power_int(at.args[0], q)
    return mul(x, from_atom(at)) if r else x


def div(a, b):
    if equal_key(a, b):
        return num(1)
    # exact polynomial quotient when b divides a is not needed: equal() clears
    return mul(a, inv(b))


def power_int(a, n):
    if n < 0:
        return power_int(inv(a), -n)
    r = num(1)
    base = a
    while n:
        if n & 1:
            r = mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return r


def equal_key(a, b):
    return a.key() == b.key()


def _sqsplit(n):
    """n = s*s*f, f squarefree (n positive int)."""
    s = 1
    f = 1
    p = 2
    while p * p <= n and p < 2000:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        s *= p ** (k // 2)
        if k % 2:
            f *= p
        p += 1
    r = math.isqrt(n)
    if r * r == n:
        s *= r
    else:
        f *= n
    return s, f


def f_sqrt(a):
    if not a.t:
        return a
    c, m, p = content(a)
    sgn = 1
    if c < 0:
        c = -c
        p = neg(p)
    nd = c.numerator * c.denominator
    s, f = _sqsplit(nd)
    out = num(Fraction(s, c.denominator))
    inside = scale(p, f)
    for i, e in m:
        at = _ATOMS[i]
        q, r = divmod(e, 2)
        x = from_atom(at)
        out = mul(out, power_int(x, q))
        if r:
            inside = mul(inside, x)
    if const(inside) == 1:
        return out
    return mul(out, mk('sqrt', (inside,), join_ty([inside.ty])))


def f_exp(a):
    c = const(a)
    if c == 0:
        return num(1)
    # exp(i x) -> cos x + i sin x
    if a.t and all(any(_ATOMS[i].op == 'I' for i, e in m) for m in a.t):
        x = mul(a, neg(IMAG))
        return add(f_cos(x), mul(IMAG, f_sin(x)))
    return mk('exp', (a,), join_ty([a.ty]))


def _signed(a):
    if not a.t:
        return 1, a
    lead = max(a.t)
    if a.t[lead] < 0:
        return -1, neg(a)
    return 1, a


def f_cos(a):
    if not a.t:
        return num(1)
    s, a = _signed(a)
    return mk('cos', (a,), join_ty([a.ty]))


def f_sin(a):
    if not a.t:
        return num(0)
    s, a = _signed(a)
    return scale(mk('sin', (a,), join_ty([a.ty])), s)


NONNEG = ('len', 'abs', 'sqrt', 'pi', 'exp')


def f_abs(a):
    c = const(a)
    if c is not None:
        return num(abs(c))
    s, a = _signed(a)
    if len(a.t) == 1:
        (m, c), = a.t.items()
        if len(m) and all(_ATOMS[i].op in NONNEG for i, _ in m):
            return N({m: abs(c)})
        r = mk('abs', (N({m: Fraction(1)}),), join_ty([a.ty]))
        return scale(r, abs(c))
    return mk('abs', (a,), join_ty([a.ty]))


def power(a, b):
    c = const(b)
    if c is not None:
        if c.denominator == 1:
            return power_int(a, int(c))
        if c.denominator == 2:
            return power_int(f_sqrt(a), int(c.numerator))
    if const(a) == 2:
        # the next power of two
        x = as_atom(neg(b))
        if x is not None and x.op == 'floor':
            up = neg(x.args[0])
            for i in {i for m in up.t for i, _ in m}:
                l = _ATOMS[i]
                if l.op == 'log' and const(l.args[0]) is None and equal(up, mul(from_atom(l), inv(mk('log', (num(2),), 'num')))):
                    return mk('nextpow2', (l.args[0],), 'num')
        x = as_atom(b)
        if x is not None and x.op == 'bitlen':
            return mk('nextpow2', (add(x.args[0], num(1)),), 'num')
    return mk('pow', (a, b), join_ty([a.ty, b.ty]))


IMAG = None
IMAG = mk('I', (), 'num')
PI = mk('pi', (), 'num')
INF = mk('inf', (), 'num')


# ------------------------------------------------------------------ equality
def clear_inv(a, limit=40):
    """Multiply away every inverse atom of a polynomial (zero-preserving)."""
    for _ in range(limit):
        pick = None
        for m in a.t:
            for i, e in m:
                if _ATOMS[i].op == 'inv':
                    pick = i
                    break
            if pick is not None:
                break
        if pick is None:
            return a
        d = _ATOMS[pick].args[0]
        emax = 0
        for m in a.t:
            emax = max(emax, dict(m).get(pick, 0))
        out = N({})
        pw = {}
        for m, c in a.t.items():
            dd = dict(m)
            e = dd.pop(pick, 0)
            k = emax - e
            if k not in pw:
                pw[k] = power_int(d, k)
            out = add(out, mul(N({tuple(sorted(dd.items())): c}), pw[k]))
        a = out
    return a


def _trig(a):
    """Rewrite sin^2 -> 1 - cos^2 so that Pythagorean identities vanish."""
    for _ in range(30):
        hit = None
        for m in a.t:
            for i, e in m:
                if _ATOMS[i].op == 'sin' and e >= 2:
                    hit = (m, i, e)
                    break
            if hit:
                break
        if not hit:
            return a
        m, i, e = hit
        c = a.t[m]
        t = dict(a.t)
        del t[m]
        d = dict(m)
        d[i] -= 2
        if not d[i]:
            d.pop(i)
        base = N({tuple(sorted(d.items())): c})
        cs = f_cos(_ATOMS[i].args[0])
        a = add(N(t), mul(base, sub(num(1), mul(cs, cs))))
    return a


def equal(a, b):
    if a is b:
        return True
    if a.key() == b.key():
        return True
    if isinstance(a, N) and isinstance(b, N):
        d = sub(a, b)
        if not d.t:
            return True
        d = clear_inv(d)
        if not d.t:
            return True
        d = _trig(d)
        return not d.t
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(
            equal(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Dct) and isinstance(b, Dct):
        return set(a.d) == set(b.d) and all(equal(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, StrV) and isinstance(b, StrV):
        return len(a.parts) == len(b.parts) and all(
            (x == y) if isinstance(x, str) or isinstance(y, str)
            else (x[0] == y[0] and equal(x[1], y[1]))
            for x, y in zip(a.parts, b.parts))
    return False


# ------------------------------------------------------------------ printing
def show_atom(a, depth=0):
    if depth > 7:
        return '..'
    if a.op == 'par':
        return a.args[0]
    if a.op == 'bind':
        return '%s' % a.args[0]
    if a.op == 'at':
        return '%s[%s]' % (show(a.args[0], depth + 1), show(a.args[1], depth + 1))
    if a.op == 'attr':
        return '%s.%s' % (show(a.args[0], depth + 1), a.args[1])
    if a.op in ('comp', 'flat'):
        return ('[%s for %s]' if a.op == 'comp' else '[*%s for %s]') % (show(a.args[2], depth + 1), ', '.join(
            '%s<%s' % (show_atom(atom_of(b)), show(n, depth + 1))
            for b, n in zip(a.args[0], a.args[1])))
    if a.op == 'pi':
        return 'pi'
    if a.op == 'I':
        return 'i'
    return '%s(%s)' % (a.op, ', '.join(
        show(x, depth + 1) if isinstance(x, Val) else str(x) for x in a.args))


def _par(s):
    return s


def show(v, depth=0):
    if depth > 9:
        return '..'
    if isinstance(v, N):
        if not v.t:
            return '0'
        out = []
        for m, c in sorted(v.t.items(), key=lambda x: x[0]):
            f = []
            if c != 1 or not m:
                f.append(str(c) if c.denominator == 1 else '%g' % float(c))
            for i, e in m:
                s = show_atom(_ATOMS[i], depth)
                f.append(s if e == 1 else '%s^%d' % (s, e))
            out.append('*'.join(f))
        s = ' + '.join(out)
        if len(out) > 1:
            s = '(' + s + ')'
        return s.replace('+ -', '- ')
    if isinstance(v, Kst):
        if v is FULL:
            return ':'
        return repr(v.v)
    if isinstance(v, StrV):
        return 'f"%s"' % ''.join(p if isinstance(p, str) else '{%s%s}' % (
            show(p[1], depth + 1), (':' + p[0]) if p[0] else '') for p in v.parts)
    if isinstance(v, Tup):
        return '(%s)' % ', '.join(show(i, depth + 1) for i in v.items)
    if isinstance(v, Dct):
        return '{%s}' % ', '.join('%r: %s' % (k, show(x, depth + 1)) for k, x in v.d.items())
    if isinstance(v, Ref):
        return '<ref %d>' % v.id
    if isinstance(v, View):
        return '%s[%s]' % (show(v.base, depth + 1), ','.join(show(i, depth + 1) for i in v.idx))
    if isinstance(v, Slc):
        return '%s:%s' % (show(v.lo, depth + 1), show(v.hi, depth + 1))
    if isinstance(v, (Fn, Cls)):
        return '<%s>' % v.qual
    if isinstance(v, Mod):
        return v.name
    if isinstance(v, BM):
        return '%s.%s' % (show(v.obj, depth + 1), v.name)
    return object.__repr__(v)


# --------------------------------------------------------------- walk/collect
def atoms_in(v, seen=None):
    """All atoms occurring (transitively) in a value."""
    if seen is None:
        seen = {}
    if isinstance(v, N):
        for m in v.t:
            for i, _ in m:
                if i not in seen:
                    a = _ATOMS[i]
                    seen[i] = a
                    for x in a.args:
                        if isinstance(x, Val):
                            atoms_in(x, seen)
                        elif isinstance(x, tuple):
                            for y in x:
                                if isinstance(y, Val):
                                    atoms_in(y, seen)
    elif isinstance(v, Tup):
        for i in v.items:
            atoms_in(i, seen)
    elif isinstance(v, Dct):
        for i in v.d.values():
            atoms_in(i, seen)
    elif isinstance(v, StrV):
        for p in v.parts:
            if not isinstance(p, str):
                atoms_in(p[1], seen)
    elif isinstance(v, View):
        atoms_in(v.base, seen)
        for i in v.idx:
            atoms_in(i, seen)
    elif isinstance(v, Slc):
        for i in (v.lo, v.hi, v.step):
            atoms_in(i, seen)
    elif isinstance(v, BM):
        atoms_in(v.obj, seen)
    elif isinstance(v, Partial):
        for i in list(v.args) + list(v.kw.values()):
            atoms_in(i, seen)
    return seen


def opaque_in(v):
    """Atoms the analysis could not model, occurring in v."""
    if isinstance(v, (Ref,)):
        return ['heap object']
    return [a for a in atoms_in(v).values() if a.opaque]
