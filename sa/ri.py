"""Random interpretation of value numbers.

The normal forms of terms.py are complete for the algebra they know, not for
every way a loop or a vector expression can be written.  When two normal forms
differ, the two *terms* are interpreted in a random model: every parameter,
attribute and uninterpreted operation gets a random value (a function of the
values of its arguments), the operations whose meaning the analysis knows
(arithmetic, comparison, indexing, sums, extrema, ...) get that meaning.  Terms
that denote the same function agree in every model.  Terms that agree in all
models drawn - continuous, tie-producing and positive ones - and whose every
condition took both outcomes are taken as equal (random interpretation in the
sense of Gulwani and Necula).  No code of the package is run: only terms are
interpreted, and the answer is only ever used to withdraw a difference the
normal forms could not resolve.
"""
import bisect
import cmath
import math
import random
import zlib
from fractions import Fraction
from . import terms as T
from . import ops as O
from .terms import N, Tup, Dct, Kst, StrV, Slc, View, Ref, Fn, Cls, Mod, BM, Partial, _ATOMS

OFF = False
BUDGET = 60000
TRIALS = (0, 1, 2, 1, 0, 1, 2, 1, 0, 1, 1, 2, 1, 0, 1)
NUMTY = ('num', 'time', 'const', 'pos', 'bool', 'unk', 'int')
SEQ = {k: v for k, v in O.SEQ_OF.items() if k not in ('mpl', 'params')}
HOPELESS = ('phi', 'loopout', 'whilen', 'phiseg', 'badarr', 'unboundvar')
COND = ('lt', 'le', 'eq', 'same', 'in', 'truth', 'istrue', 'isnan', 'exists')


class GiveUp(Exception):
    pass


class Discard(Exception):
    pass


class Shape(Discard):
    """An operation that would fail: lengths that do not fit."""


class Tok:
    """An object of which only the identity matters."""
    __slots__ = ('h', 'ty')

    def __init__(self, h, ty):
        self.h, self.ty = h, ty

    def __eq__(self, o):
        return isinstance(o, Tok) and self.h == o.h

    def __hash__(self):
        return self.h


def canon(v):
    """A text that two approximately equal values share."""
    if isinstance(v, (int, float)):
        if v != v or v in (float('inf'), float('-inf')):
            return repr(v)
        if v == 0:
            return '0'
        return '%.6e' % (v + 0.0)
    if isinstance(v, complex):
        if abs(v.imag) < 1e-9 * (1 + abs(v.real)):
            return canon(v.real)
        return '(%s,%s)' % (canon(v.real), canon(v.imag))
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(canon(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ','.join('%r:%s' % (k, canon(v[k])) for k in sorted(v, key=repr)) + '}'
    if isinstance(v, Tok):
        return '#%d' % v.h
    return repr(v)


def close(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        if a == b:
            return True
        return abs(a - b) <= 1e-7 * max(1e-3, abs(a), abs(b))
    return type(a) is type(b) and a == b


def isz(x, scale=1.0):
    return abs(x) <= 1e-9 * max(1.0, scale)


class Model:
    base, span = 2, 3            # how long the vectors are

    def __init__(self, seed, mode, ints, shared, square=False):
        self.square = square         # all vectors of the caller equally long
        self.seed, self.mode, self.ints, self.shared = seed, mode, ints, shared
        self.memo = {}
        self.steps = 0
        self.seen = {}
        self.acc = None          # running value of the fold being evaluated
        self.accver = 0

    # ------------------------------------------------------------ generation
    def h(self, tag):
        return zlib.crc32(('%d|%d|%s' % (self.seed, self.mode, tag)).encode())

    def number(self, tag):
        r = random.Random(self.h('n' + tag))
        if self.mode == 1:
            return float(r.choice((-1, 0, 1, 1, 2, 2, 3)))
        if self.mode == 2:
            return r.uniform(0.5, 3.0)
        return r.uniform(-3.0, 3.0)

    def length(self, tag):
        return self.base + (self.h('square') if self.square else self.h('l' + tag)) % self.span

    def gen(self, ty, tag, n=None, depth=0):
        if ty in NUMTY:
            return self.number(tag)
        if ty in SEQ and depth < 4:
            if n is None:
                n = self.length(tag)
            return [self.gen(SEQ[ty], '%s/%d' % (tag, k), depth=depth + 1) for k in range(n)]
        return Tok(self.h('o' + tag), ty)

    # ------------------------------------------------------------ evaluation
    def note(self, aid, what):
        self.seen.setdefault(aid, set()).add(what)

    def ev(self, v, env):
        if isinstance(v, N):
            return self.poly(v, env)
        if isinstance(v, Kst):
            return v.v if not isinstance(v.v, bool) else float(v.v)
        if isinstance(v, Tup):
            return [self.ev(x, env) for x in v.items]
        if isinstance(v, Dct):
            return {k: self.ev(x, env) for k, x in v.d.items()}
        if isinstance(v, StrV):
            out = []
            for p in v.parts:
                if isinstance(p, str):
                    out.append(p)
                else:
                    out.append((str(p[0]), self.ev(p[1], env)))
            return out
        if isinstance(v, Slc):
            return {'lo': self.ev(v.lo, env), 'hi': self.ev(v.hi, env), 'step': self.ev(v.step, env)}
        if isinstance(v, (Fn, Cls, Mod)):
            return Tok(self.h('f%r' % (v.key(),)), 'fn')
        if isinstance(v, BM):
            return ['method', v.name, self.ev(v.obj, env)]
        if isinstance(v, Partial):
            return ['partial', self.ev(v.fn, env), [self.ev(x, env) for x in v.args],
                    {k: self.ev(x, env) for k, x in v.kw.items()}]
        raise GiveUp(type(v).__name__)

    def poly(self, v, env):
        self.steps += 1
        if self.steps > BUDGET:
            raise GiveUp('budget')
        if not v.t:
            return 0.0
        if len(v.t) == 1:
            (m, c), = v.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return self.atom(_ATOMS[m[0][0]], env)
        tot = None
        for m, c in v.t.items():
            x = float(c)
            for i, e in m:
                y = self.atom(_ATOMS[i], env)
                x = self.times(x, y if e == 1 else self.power(y, e))
            tot = x if tot is None else self.plus(tot, x)
        return tot

    def lift(self, f, tag, a, b):
        la, lb = isinstance(a, list), isinstance(b, list)
        if la and lb:
            if len(a) != len(b):
                return self.gen('arr', '%s:%s:%s' % (tag, canon(a), canon(b)), max(len(a), len(b)))
            return [self.lift(f, tag, x, y) for x, y in zip(a, b)]
        if la:
            return [self.lift(f, tag, x, b) for x in a]
        if lb:
            return [self.lift(f, tag, a, y) for y in b]
        if not isinstance(a, (int, float, complex)) or not isinstance(b, (int, float, complex)):
            return self.gen('num', '%s:%s:%s' % (tag, canon(a), canon(b)))
        try:
            r = f(a, b)
        except (OverflowError, ValueError):
            raise Discard
        if isinstance(r, complex):
            if abs(r) > 1e12:
                raise Discard
        elif r != r or abs(r) > 1e12:
            raise Discard
        return r

    def times(self, a, b):
        return self.lift(lambda p, q: p * q, '*', a, b)

    def plus(self, a, b):
        return self.lift(lambda p, q: p + q, '+', a, b)

    def power(self, a, e):
        if isinstance(a, list):
            return [self.power(x, e) for x in a]
        if not isinstance(a, (int, float, complex)):
            return self.gen('num', '^%d:%s' % (e, canon(a)))
        if e < 0 and isz(abs(a)):
            raise Discard
        try:
            return a ** e
        except (OverflowError, ZeroDivisionError):
            raise Discard

    def each(self, f, x):
        if isinstance(x, list):
            return [self.each(f, y) for y in x]
        if isinstance(x, Tok) or isinstance(x, (str, dict)) or x is None:
            return self.gen('num', 'each:%s' % canon(x))
        try:
            return f(x)
        except (OverflowError, ValueError, ZeroDivisionError):
            raise Discard

    def int_(self, x):
        if isinstance(x, complex) and isz(x.imag):
            x = x.real
        if not isinstance(x, (int, float)):
            raise Discard
        k = round(x)
        if abs(x - k) > 1e-6:
            raise Discard
        return int(k)

    def real(self, x):
        if isinstance(x, complex):
            if abs(x.imag) > 1e-9 * max(1.0, abs(x)):
                raise Discard
            return x.real
        return x

    def item(self, v, i, ty, tag):
        if isinstance(v, list):
            if isinstance(i, list):
                return [self.item(v, k, ty, tag) for k in i]
            if isinstance(i, (int, float, complex)) and abs(self.real(i) - round(self.real(i))) < 1e-6:
                k = int(round(self.real(i)))
                if -len(v) <= k < len(v):
                    return v[k]
        return self.gen(ty, 'at:%s:%s' % (canon(v), canon(i)))

    def atom(self, a, env):
        if a.op == 'bind':
            if a.id not in env:
                raise GiveUp('free index')
            return env[a.id]
        key = a.id, tuple((b, env.get(b)) for b in sorted(a.binders)), self.accver if uses_acc(a) else 0
        if key in self.memo:
            return self.memo[key]
        self.steps += 1
        if self.steps > BUDGET:
            raise GiveUp('budget')
        r = self.atom_(a, env)
        self.memo[key] = r
        return r

    def comp(self, bs, ns, f, env, k=0):
        out = []
        if k == len(bs):
            return [f(env)]
        n = self.int_(self.ev(ns[k], env))
        if n > 60:
            raise Discard
        for j in range(max(n, 0)):
            e = dict(env)
            e[bs[k]] = float(j)
            out += self.comp(bs, ns, f, e, k + 1)
        return out

    def truth(self, c):
        if isinstance(c, (list, dict)):
            return None
        if isinstance(c, Tok):
            return bool(c.h & 1)
        if c is None:
            return False
        return bool(c)

    def atom_(self, a, env):
        op, A = a.op, a.args
        if op in HOPELESS:
            if a.id in self.shared and not a.binders:
                if a.id in self.ints:
                    return float(1 + self.h('i%d' % a.id) % 3)
                return self.gen(a.ty, 'shared%d' % a.id)
            raise GiveUp(op)
        f = getattr(self, 'op_' + op, None)
        if op == 'ite':
            c = self.ev(A[0], env)
            if isinstance(c, list):
                x, y = self.ev(A[1], env), self.ev(A[2], env)
                out = []
                for k, q in enumerate(c):
                    t = self.truth(q)
                    if t is None:
                        raise Discard
                    self.note(a.id, t)
                    s = x if t else y
                    if isinstance(s, list):
                        if len(s) != len(c):
                            raise Discard
                        s = s[k]
                    out.append(s)
                return out
            t = self.truth(c)
            if t is None:
                raise Discard
            self.note(a.id, t)
            return self.ev(A[1] if t else A[2], env)
        if op == 'acc':
            if self.acc is None:
                raise GiveUp('acc')
            return self.acc[0]
        if op == 'fold':
            c = T.as_atom(A[1])
            if self.acc is not None or c is None or c.op != 'comp':
                raise GiveUp('fold')
            pre = self.ev(A[0], env)

            def step(e):
                self.accver += 1
                b = T.as_atom(c.args[2])
                v = self.ev(b.args[0] if b is not None and b.op == 'box' else c.args[2], e)
                self.acc = (v,)
                return None
            self.acc = (pre,)
            try:
                self.comp(c.args[0], c.args[1], step, env)
                return self.acc[0]
            finally:
                self.acc = None
                self.accver += 1
        if op in ('comp', 'flat'):
            out = self.comp(A[0], A[1], lambda e: self.ev(A[2], e), env)
            if op == 'flat':
                flat = []
                for x in out:
                    if not isinstance(x, list):
                        raise Discard
                    flat += x
                return flat
            return out
        args = []
        for x in A:
            if isinstance(x, T.Val):
                args.append(self.ev(x, env))
            elif isinstance(x, tuple):
                args.append([self.ev(y, env) if isinstance(y, T.Val) else y for y in x])
            else:
                args.append(x)
        if f is not None:
            r = f(a, *args)
            if r is not NotImplemented:
                return r
        tag = '%s(%s)%s' % (op, ';'.join(canon(x) if not isinstance(x, str) else x for x in args),
                            a.ty if op == 'par' else '')
        if a.id in self.ints:
            return float(2 + self.h('i' + tag) % 3)
        n = None
        if a.ty in SEQ and op not in ('par', 'attr', 'at', 'item'):
            L = O.f_len(T.from_atom(a))
            la = T.as_atom(L)
            if not (la is not None and la.op == 'len' and la.args[0].key() == T.from_atom(a).key()):
                n = max(0, self.int_(self.ev(L, env)))
                if n > 60:
                    raise Discard
        return self.gen(a.ty, tag, n)

    # ------------------------------------------------------------ operations
    def op_I(self, a):
        return 1j

    def op_pi(self, a):
        return math.pi

    def op_inf(self, a):
        raise GiveUp('inf')

    op_nan = op_inf

    def op_inv(self, a, x):
        return self.power(x, -1)

    def op_sqrt(self, a, x):
        return self.each(lambda y: cmath.sqrt(y) if isinstance(y, complex) else math.sqrt(abs(y)), x)

    def op_exp(self, a, x):
        return self.each(lambda y: cmath.exp(y) if isinstance(y, complex) else math.exp(y), x)

    def op_pow(self, a, x, y):
        if not isinstance(x, (int, float)) or not isinstance(y, (int, float)):
            return NotImplemented
        if x <= 0 or abs(y) > 60:
            raise Discard()
        return float(x) ** y

    def op_bitlen(self, a, x):
        return float(int(self.real(x)).bit_length())

    def op_log(self, a, x):
        def f(y):
            y = self.real(y)
            if y <= 0:
                raise Discard()
            return math.log(y)
        return self.each(f, x)

    def op_cos(self, a, x):
        return self.each(lambda y: math.cos(self.real(y)), x)

    def op_sin(self, a, x):
        return self.each(lambda y: math.sin(self.real(y)), x)

    def op_abs(self, a, x):
        def f(y):
            if not isinstance(y, complex):
                self.note(a.id, y > 0 if not isz(y) else None)
            else:
                self.note(a.id, True)
                self.note(a.id, False)
            return abs(y)
        return self.each(f, x)

    def op_floor(self, a, x):
        return self.each(lambda y: float(math.floor(round(self.real(y), 8))), x)

    def op_single(self, a, x):
        # coarser than any of the reduced precisions, so that the loss is
        # visible above the tolerance of the comparison
        def f(y):
            if isz(y):
                return y
            if isinstance(y, complex):
                return complex(f(y.real), f(y.imag))
            return float('%.4g' % y) if math.isfinite(y) else y
        return self.each(f, x)

    def op_trunc(self, a, x):
        return self.each(lambda y: float(int(round(self.real(y), 8))), x)

    def op_mod(self, a, x, y):
        def f(p, q):
            if isz(q):
                raise Discard
            return p - q * math.floor(round(p / q, 8))
        return self.lift(f, 'mod', x, y)

    def rel(self, a, x, f):
        def g(y):
            y = self.real(y)
            if isz(y):
                y = 0.0
                self.note(a.id, 'zero')
            r = f(y)
            self.note(a.id, r)
            return float(r)
        return self.each(g, x)

    def op_lt(self, a, x):
        return self.rel(a, x, lambda y: y < 0)

    def op_le(self, a, x):
        return self.rel(a, x, lambda y: y <= 0)

    def op_eq(self, a, x):
        return self.rel(a, x, lambda y: y == 0)

    def op_same(self, a, x, y):
        r = close(x, y)
        self.note(a.id, r)
        return float(r)

    def op_not(self, a, x):
        def f(y):
            t = self.truth(y)
            if t is None:
                raise Discard
            return float(not t)
        return [f(y) for y in x] if isinstance(x, list) else f(x)

    def op_and(self, a, *xs):
        r = xs[0]
        for y in xs[1:]:
            r = self.lift(lambda p, q: float(bool(p) and bool(q)), 'and', r, y)
        return r

    def pick(self, a, better, xs):
        if not any(isinstance(x, list) for x in xs):
            if not all(isinstance(x, (int, float, complex)) for x in xs):
                return NotImplemented
            xs = [self.real(x) for x in xs]
            b = better(xs)
            for k, x in enumerate(xs):
                if x == b and sum(close(x, y) for y in xs) == 1:
                    self.note(a.id, k)
            return b
        n = {len(x) for x in xs if isinstance(x, list)}
        if len(n) > 1:
            raise Discard
        return [self.pick(a, better, [x[k] if isinstance(x, list) else x for x in xs]) for k in range(n.pop())]

    def op_max2(self, a, *xs):
        return self.pick(a, max, xs)

    def op_min2(self, a, *xs):
        return self.pick(a, min, xs)

    def op_iota(self, a, n):
        return [float(k) for k in range(max(0, self.int_(n)))]

    def op_fillv(self, a, c, n):
        return [c] * max(0, self.int_(n))

    def op_len(self, a, v):
        if isinstance(v, (list, dict)):
            return float(len(v))
        return float(self.length('len' + canon(v)))

    def op_at(self, a, v, i):
        if a.id in self.ints and not isinstance(v, list):
            return NotImplemented
        return self.item(v, i, a.ty, '')

    def op_slice(self, a, v, lo, hi):
        if not isinstance(v, list):
            return NotImplemented
        lo, hi = self.int_(lo), self.int_(hi)
        if hi - lo > 60:
            raise Discard
        # entries outside the vector are unknown values
        return [v[k] if 0 <= k < len(v) else self.gen(SEQ.get(a.ty, 'num'), 'out:%s:%d' % (canon(v), k))
                for k in range(lo, hi)]

    def op_arange(self, a, lo, hi, step):
        lo, hi, step = self.real(lo), self.real(hi), self.real(step)
        if not all(isinstance(x, (int, float)) for x in (lo, hi, step)):
            return NotImplemented
        if isz(step):
            raise Discard
        n = math.ceil(round((hi - lo) / step, 8))
        if n > 60:
            raise Discard
        return [lo + k * step for k in range(max(0, n))]

    def op_rev(self, a, v):
        return v[::-1] if isinstance(v, list) else NotImplemented

    def op_concatv(self, a, *xs):
        out = []
        for x in xs:
            out += x if isinstance(x, list) else [x]
        return out

    op_concat = op_concatv

    def op_one(self, a, x):
        return [x]

    def op_streamof(self, a, v):
        return v if isinstance(v, list) else NotImplemented

    def op_box(self, a, x):
        return x

    def op_when(self, a, c, x):
        t = self.truth(c)
        if t is None or not isinstance(x, list):
            return NotImplemented
        self.note(a.id, t)
        return x if t else []

    def op_scatter(self, a, v, idx, vals):
        if not isinstance(v, list) or not isinstance(idx, list) or not isinstance(vals, list) or len(idx) != len(vals):
            return NotImplemented
        w = list(v)
        for i, x in zip(idx, vals):
            k = self.int_(i)
            if not 0 <= k < len(w):
                return NotImplemented
            w[k] = x
        return w

    def op_matmul(self, a, x, y):
        if not self.rect(x) or not isinstance(y, list) or not y:
            return NotImplemented
        if self.rect(y):
            if len(x[0]) != len(y):
                return NotImplemented
            cols = list(zip(*y))
            return [[self.total([self.times(p, q) for p, q in zip(r, c)]) for c in cols] for r in x]
        return NotImplemented

    def op_nextpow2(self, a, x):
        x = self.real(x) if isinstance(x, (int, float, complex)) else None
        if x is None or x <= 0:
            return NotImplemented
        return float(2 ** math.ceil(math.log2(x) - 1e-9))

    def op_table(self, a, *cols):
        if all(isinstance(c, list) for c in cols) and len({len(c) for c in cols}) == 1:
            return [list(r) for r in zip(*cols)]
        return NotImplemented

    def op_colvec(self, a, v):
        return [[x] for x in v] if isinstance(v, list) else NotImplemented

    def rect(self, b):
        return isinstance(b, list) and b and all(isinstance(r, list) for r in b) and len({len(r) for r in b}) == 1

    def op_col(self, a, b, k):
        if not self.rect(b):
            return NotImplemented
        k = self.int_(k)
        if not -len(b[0]) <= k < len(b[0]):
            return NotImplemented
        return [r[k] for r in b]

    def op_row(self, a, b, i):
        return self.item(b, i, a.ty, '')

    def op_T(self, a, b):
        return [list(c) for c in zip(*b)] if self.rect(b) else NotImplemented

    def op_shape1(self, a, b):
        return float(len(b[0])) if self.rect(b) else NotImplemented

    def op_put(self, a, v, lo, hi, x):
        if not isinstance(v, list):
            return NotImplemented
        lo, hi = self.int_(lo), self.int_(hi)
        if not 0 <= lo <= hi <= len(v):
            return self.gen(a.ty, 'put:%s:%d:%d:%s' % (canon(v), lo, hi, canon(x)), len(v))
        if isinstance(x, list):
            if len(x) != hi - lo:
                raise Shape
            return v[:lo] + x + v[hi:]
        return v[:lo] + [x] * (hi - lo) + v[hi:]

    def op_put1(self, a, v, i, x):
        if not isinstance(v, list):
            return NotImplemented
        k = self.int_(i)
        if not -len(v) <= k < len(v):
            return NotImplemented
        w = list(v)
        w[k] = x
        return w

    def total(self, v):
        r = None
        for x in v:
            r = x if r is None else self.plus(r, x)
        return 0.0 if r is None else r

    def op_sum(self, a, v):
        if not isinstance(v, list):
            return NotImplemented
        flat = []
        for x in v:
            flat += x if isinstance(x, list) and a.ty not in T.ARR else [x]
        return self.total(flat)

    def op_sum0(self, a, v):
        return self.total(v) if isinstance(v, list) else NotImplemented

    def reals(self, v):
        if not isinstance(v, list):
            return None
        out = []
        for x in v:
            if isinstance(x, list):
                y = self.reals(x)
                if y is None:
                    return None
                out += y
            elif isinstance(x, (int, float, complex)):
                out.append(self.real(x))
            else:
                return None
        return out

    def op_max(self, a, v):
        w = self.reals(v)
        if w is None:
            return NotImplemented
        if not w:
            raise Discard
        return max(w)

    def op_min(self, a, v):
        w = self.reals(v)
        if w is None:
            return NotImplemented
        if not w:
            raise Discard
        return min(w)

    def arg(self, v, s):
        w = self.reals(v)
        if w is None:
            return NotImplemented
        if not w:
            raise Discard
        m = max(s * x for x in w)
        return float(next(k for k, x in enumerate(w) if close(s * x, m)))

    def op_argmax(self, a, v):
        return self.arg(v, 1)

    def op_argmin(self, a, v):
        return self.arg(v, -1)

    def op_find_peaks(self, a, v, *rest):
        if not isinstance(v, list) or len(v) < 3:
            return NotImplemented
        h = self.h('peaks' + canon(v) + canon(list(rest)))
        return sorted({float(1 + (h >> 4 * k) % (len(v) - 2)) for k in range(1, 1 + h % 3)})

    def op_correlate(self, a, x, y, *mode):
        if not (isinstance(x, list) and isinstance(y, list) and x and y) or list(mode) != ['full'] or \
                any(isinstance(u, (list, Tok)) for u in x + y):
            return NotImplemented
        n, m = len(x), len(y)
        out = [0.0] * (n + m - 1)
        for i, u in enumerate(x):
            for j, w in enumerate(y):
                out[i - j + m - 1] += u * (w.conjugate() if isinstance(w, complex) else w)
        return out

    def op_real(self, a, x):
        return self.each(lambda y: y.real if isinstance(y, complex) else y, x)

    def op_conj(self, a, x):
        return self.each(lambda y: y.conjugate() if isinstance(y, complex) else y, x)

    def op_lib(self, a, name, *args):
        f = LIBFN.get(name)
        if name == 'numpy.searchsorted' and len(args) in (2, 3) and isinstance(args[0], list):
            kw = args[2] if len(args) == 3 and isinstance(args[2], dict) else {'side': args[2]} if len(args) == 3 else {}
            side = kw.pop('side', 'left')
            if kw or side not in ('left', 'right'):
                return NotImplemented
            w = self.reals(args[0])
            if w is None:
                return NotImplemented
            fn = bisect.bisect_left if side == 'left' else bisect.bisect_right
            return self.each(lambda x: float(fn(w, self.real(x))), args[1])
        if f is None or any(isinstance(x, dict) for x in args):
            return NotImplemented
        kind, fn = f
        if kind == 'each':
            if len(args) == 1:
                return self.each(lambda y: float(fn(self.real(y))), args[0])
            return self.lift(lambda p, q: float(fn(self.real(p), self.real(q))), name, *args) if len(args) == 2 else NotImplemented
        if len(args) != 1 or not isinstance(args[0], list) or any(isinstance(x, list) for x in args[0]):
            return NotImplemented
        w = self.reals(args[0])
        if not w:
            return NotImplemented
        return fn(w)

    def op_round(self, a, x, d=None):
        return NotImplemented

    def dft(self, v, n, s):
        if not isinstance(v, list) or any(not isinstance(x, (int, float, complex)) for x in v):
            return NotImplemented
        n = len(v) if n is None else self.int_(n)
        if not 0 < n <= 24:
            raise Discard
        v = (v + [0.0] * n)[:n]
        r = [sum(x * cmath.exp(s * 2j * math.pi * k * j / n) for j, x in enumerate(v)) for k in range(n)]
        return r if s < 0 else [x / n for x in r]

    def op_fft(self, a, v, n=None):
        return self.dft(v, n, -1)

    def op_ifft(self, a, v, n=None):
        return self.dft(v, n, 1)


def _median(w):
    w = sorted(w)
    h = len(w) // 2
    return w[h] if len(w) % 2 else (w[h - 1] + w[h]) / 2


def _cum(w):
    out, t = [], 0.0
    for x in w:
        t += x
        out.append(t)
    return out


def _uniq(w):
    out = []
    for x in sorted(w):
        if not out or not close(out[-1], x):
            out.append(x)
    return out


LIBFN = {
    'numpy.searchsorted': None,
    'numpy.median': ('vec', _median), 'numpy.sort': ('vec', sorted), 'sorted': ('vec', sorted),
    'numpy.argsort': ('vec', lambda w: [float(i) for i in sorted(range(len(w)), key=lambda i: w[i])]),
    'numpy.cumsum': ('vec', _cum), 'numpy.unique': ('vec', _uniq),
    'numpy.nanmax': ('vec', max), 'numpy.nanmin': ('vec', min),
    'numpy.nanargmax': ('vec', lambda w: float(w.index(max(w)))), 'numpy.nanargmin': ('vec', lambda w: float(w.index(min(w)))),
    'numpy.nanmean': ('vec', lambda w: sum(w) / len(w)),
    'numpy.linalg.norm': ('vec', lambda w: math.sqrt(sum(x * x for x in w))),
    'numpy.sign': ('each', lambda x: (x > 0) - (x < 0)),
    'numpy.log': ('each', math.log), 'numpy.log10': ('each', math.log10), 'numpy.log2': ('each', math.log2),
    'numpy.arctan': ('each', math.atan), 'numpy.arctan2': ('each', math.atan2), 'numpy.arcsin': ('each', math.asin),
    'numpy.arccos': ('each', math.acos), 'numpy.sinh': ('each', math.sinh), 'numpy.cosh': ('each', math.cosh),
    'numpy.tanh': ('each', math.tanh),
}


def index_atoms(vals):
    """Numbers used as counts, indices or bounds: these are integers."""
    out = set()

    def leaf(v):
        if isinstance(v, N):
            for m in v.t:
                for i, _ in m:
                    if _ATOMS[i].ty not in SEQ and _ATOMS[i].op not in ('bind', 'len', 'floor', 'trunc', 'argmax', 'argmin'):
                        out.add(i)
    for a in vals:
        if a.op in ('comp', 'flat'):
            for n in a.args[1]:
                leaf(n)
        elif a.op in ('iota', 'fft', 'ifft', 'nextpow2'):
            for x in a.args[:1] if a.op in ('iota', 'nextpow2') else a.args[1:]:
                leaf(x)
        elif a.op in ('slice', 'put', 'arange'):
            for x in a.args[1:3] if a.op != 'arange' else a.args:
                leaf(x)
        elif a.op in ('at', 'fillv', 'put1', 'row'):
            leaf(a.args[1])
    return out


class Physical(Model):
    """Models in which every quantity is positive, time axes increase evenly and nothing is out of range."""

    def number(self, tag):
        u = random.Random(self.h('n' + tag)).random()
        low = tag.lower()
        if 'rayp' in low or 'slow' in low:
            return 0.01 + 0.04 * u
        return 0.5 + 2.5 * u

    def length(self, tag):
        return 4 + self.h('square') % 3

    def gen(self, ty, tag, n=None, depth=0):
        low = tag.lower()
        if depth == 0 and ty in SEQ and SEQ[ty] in NUMTY and ('time' in low or 'tarray' in low) and tag[:3] != 'at:':
            n = self.length(tag) if n is None else n
            a, d = -1 - self.number(tag + '0') / 3, self.number(tag + '1')
            return [a + d * k for k in range(n)]
        return Model.gen(self, ty, tag, n, depth)

    def lift(self, f, tag, a, b):
        if isinstance(a, list) and isinstance(b, list) and len(a) != len(b):
            raise Discard
        return Model.lift(self, f, tag, a, b)

    def item(self, v, i, ty, tag):
        if isinstance(v, list) and isinstance(i, (int, float)) and not -len(v) <= round(i) < len(v):
            raise Discard
        return Model.item(self, v, i, ty, tag)

    def op_sqrt(self, a, x):
        def f(y):
            if not isinstance(y, complex) and y < 0:
                raise Discard
            return cmath.sqrt(y) if isinstance(y, complex) else math.sqrt(y)
        return self.each(f, x)


def opname(a):
    return (a.op, a.args[0]) if a.op in ('lib', 'par', 'inst', 'mret') and a.args and isinstance(a.args[0], str) else a.op


def refuted(x, y):
    """Do two terms differ in physically sensible models?  Only asked of terms the normal
    forms leave open because x uses a library function with several equivalent spellings."""
    if OFF:
        return False
    try:
        ax, ay = T.atoms_in(x), T.atoms_in(y)
        shared = set(ax) & set(ay)
        known = {opname(a) for a in ay.values()}
        for i, a in ax.items():
            if i in shared or opname(a) in known and not a.opaque:
                continue
            if not (a.op == 'lib' and a.args[0] in LIBFN or hasattr(Model, 'op_' + a.op) and a.op != 'lib'
                    or a.op in ('ite', 'comp', 'flat', 'bind')):
                return False
        ints = index_atoms(list(ax.values()) + list(ay.values()))
        valid = differ = 0
        for k in range(40):
            m = Physical(5000 + k, 2, ints, shared, True)
            try:
                p, q = m.ev(x, {}), m.ev(y, {})
            except Discard:
                continue
            valid += 1
            differ += not close(p, q)
            if valid >= 6 and differ >= 3:
                return True
            if valid >= 12:
                break
        return False
    except (GiveUp, RecursionError):
        return False


_MEMO = {}
_ACC = {}


def uses_acc(a):
    if a.id not in _ACC:
        _ACC[a.id] = any(x.op == 'acc' for x in T.atoms_in(T.from_atom(a)).values())
    return _ACC[a.id]


def agree(x, y):
    """Do two terms denote the same value, as far as random models can tell?"""
    if OFF:
        return False
    try:
        key = x.key(), y.key()
    except Exception:
        return False
    if key not in _MEMO:
        try:
            _MEMO[key] = _agree(x, y)
        except (GiveUp, RecursionError):
            _MEMO[key] = False
        except Exception:
            _MEMO[key] = False
    return _MEMO[key]


def _agree(x, y):
    ax, ay = T.atoms_in(x), T.atoms_in(y)
    allv = dict(ax)
    allv.update(ay)
    shared = set(ax) & set(ay)
    if any(a.opaque and i not in shared and not (a.op == 'lib' and a.args[0] in LIBFN) for i, a in allv.items()):
        return False
    ints = index_atoms(allv.values())
    seen = {}
    done = {0: 0, 1: 0, 2: 0}
    # padded transforms: long enough that half of the padded and of the given length select different samples
    padded = any(a.op == 'nextpow2' for i, a in allv.items())
    for k, mode in enumerate(TRIALS):
        for attempt in range(12 if sum(done.values()) or k < 2 else 4):
            m = Model(1000 * k + attempt, mode, ints, shared, attempt > 1)
            if padded and k % 2:
                m.base, m.span = 9, 5
            elif k % 4 == 3:
                m.base, m.span = 6, 3
            try:
                q = m.ev(y, {})
                try:
                    p = m.ev(x, {})
                except Shape:
                    return False
            except Discard:
                continue
            if not close(p, q):
                return False
            done[mode] += 1
            for i, s in m.seen.items():
                seen.setdefault(i, set()).update(s)
            break
    ties = any(a.op in COND or a.op in ('ite', 'when', 'abs', 'max2', 'min2', 'max', 'min', 'argmax', 'argmin', 'lib')
               for i, a in allv.items() if i not in shared)
    if done[0] + done[2] < 4 or done[1] < 4 and (ties or done[0] < 2 or done[2] < 2):
        return False
    for i, a in allv.items():
        if i in shared:
            continue
        s = seen.get(i, set())
        if a.op in ('lt', 'le'):
            if not {True, False} <= s:
                return False
            # a tie never drawn can only matter where the other term draws the line too
            other = ay if i in ax else ax
            if 'zero' not in s and any(b.op in ('lt', 'le') and j not in shared for j, b in other.items()):
                return False
        elif a.op in COND or a.op in ('ite', 'when'):
            if not {True, False} <= s:
                return False
        elif a.op == 'abs':
            if not {True, False} <= s:
                return False
        elif a.op in ('max2', 'min2'):
            if not set(range(len(a.args))) <= s:
                return False
    return True
