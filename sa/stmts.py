"""Statement execution: joins, loops as recurrences, calls by inlining."""
import ast
import itertools
from .terms import *
from .terms import _ATOMS
from .ops import *
from .heap import *
from .evalx import target_names

UNROLL = 24
MAXDEPTH = 14
_lid = itertools.count(1)


def assigned_names(body):
    out = set()
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != '*':
                    out.add(a.asname or a.name.split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return out


def stored_names(body):
    return sorted({n.value.id for b in body for n in ast.walk(b)
                   if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)})


def stores_through(st):
    """Does the loop body store into an element of (or update in place) a loop variable?"""
    names = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
    for b in st.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                    isinstance(n.value, ast.Name) and n.value.id in names:
                return True
    return False


def inplace_only(body):
    """Names bound in the body only by `name += value` statements."""
    aug, other = set(), set()
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            (aug if isinstance(n.op, ast.Add) else other).add(n.target.id)
            stack.append(n.value)
            continue
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            other.add(n.name)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            other.add(n.id)
        stack.extend(ast.iter_child_nodes(n))
    return aug - other


def has_yield(node):
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


def strip_guard(g, cond):
    """Conjuncts of g beyond the loop condition."""
    a, c = as_atom(g), as_atom(cond) if isinstance(cond, N) else None
    gs = list(a.args) if a is not None and a.op == 'and' else [g]
    cs = (list(c.args) if c.op == 'and' else [cond]) if c is not None else []
    keep = [x for x in gs if not any(equal(x, y) for y in cs)]
    return f_and(*keep) if keep else TRUE


def exposed_names(body, names):
    """Names an iteration may read before it gives them a value."""
    out = set()
    for nm in names:
        for st in body:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in st.targets):
                if any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(st.value)):
                    out.add(nm)
                break
            if any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(st)):
                out.add(nm)
                break
    return out


class StmtMixin:

    # ------------------------------------------------------------ blocks
    def block(self, body):
        """Execute statements; returns True if control cannot fall through."""
        for i, st in enumerate(body):
            if self.stmt(st):
                return True
        return False

    def stmt(self, st):
        self.cur = st
        f = getattr(self, 'st_' + type(st).__name__, None)
        if f is None:
            self.opaque('statement %s' % type(st).__name__, st)
            return False
        return bool(f(st))

    def st_Expr(self, st):
        self.ev(st.value)

    def st_Pass(self, st):
        pass

    def st_Import(self, st):
        self.do_import(st, self.env, self.frames[-1].module)

    st_ImportFrom = st_Import

    def st_FunctionDef(self, st):
        fr = self.frames[-1]
        q = (fr.fn.qual if fr.fn else fr.module.name) + '.' + st.name
        self.env[st.name] = Fn(st, fr.module, q, (self.env, fr.fn.closure if fr.fn else None, fr),
                               self.eval_defaults(st.args))

    def st_ClassDef(self, st):
        self.env[st.name] = self.make_class(self.frames[-1].module, st)

    def st_Global(self, st):
        self.frames[-1].globals |= set(st.names)

    def st_Nonlocal(self, st):
        self.opaque('nonlocal', st)

    def st_Assert(self, st):
        c = truth(self.rv(self.ev(st.test)))
        if c is not TRUE:
            self.event('assert', '', [c], node=st)
        return c is FALSE

    def st_Raise(self, st):
        nm = ''
        args = []
        if st.exc is not None:
            e = st.exc
            if isinstance(e, ast.Call):
                f = self.ev(e.func)
                args = [self.ev(a) for a in e.args]
            else:
                f = self.ev(e)
            nm = self.exc_name(f)
        self.event('raise', nm, args, node=st)
        return True

    def exc_name(self, f):
        if isinstance(f, Mod):
            return f.name
        if isinstance(f, Cls):
            return f.qual
        if isinstance(f, Ref):
            o = self.heap.get(f.id)
            if isinstance(o, HInst):
                return o.cls.qual if isinstance(o.cls, Cls) else str(o.cls)
        a = as_atom(f)
        if a is not None and a.op == 'inst':
            return str(a.args[0])
        return '?'

    def st_Return(self, st):
        v = self.ev(st.value) if st.value is not None else NONE
        fr = self.frames[-1]
        g = f_and(*self.guards[fr.base:]) if len(self.guards) > fr.base else TRUE
        fr.returns.append((g, v, self.fz(v), len(self.loops) > fr.lbase, st.lineno))
        if self.rec and len(self.frames) == 2:
            self.event('return', fr.fn.qual, [v], node=st)
        return True

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.env[t.id] = UNBOUND
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                ix = self.eval_index(t.slice)
                self.note_mut(b, 'del', st)
                if isinstance(b, Ref):
                    o = self.heap[b.id]
                    if isinstance(o, HDict):
                        k = self.dkey(ix[0])
                        d = dict(o.d)
                        d.pop(k, None)
                        self.heap[b.id] = HDict(d, o.unknown)
                    else:
                        self.heap[b.id] = HList([('splat', self.opaque('del item', st))])
            elif isinstance(t, ast.Attribute):
                self.note_mut(self.ev(t.value), 'del', st)

    # ------------------------------------------------------------ assignment
    def st_Assign(self, st):
        v = self.ev(st.value)
        if isinstance(v, N) and v.ty in ARR and len(st.targets) > 1:
            v = N(v.t)
        for t in st.targets:
            self.assign(t, v)
            if self.frames and isinstance(t, ast.Name):
                self.note_iterator(t.id, st.value, v)

    def note_iterator(self, name, expr, v):
        """A name bound to an iterator: it can be run through only once."""
        once = self.frames[-1].once
        once.pop(name, None)
        if isinstance(expr, ast.GeneratorExp) or isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and \
                expr.func.id in ('zip', 'map', 'filter', 'enumerate', 'reversed', 'iter') and expr.args and \
                expr.func.id not in self.env and expr.func.id not in self.frames[-1].module.env:
            once[name] = (self.env.get(name), [bid(b) for b, _ in self.loops])

    def run_through(self, expr, itv):
        """Value iterated over by a loop header: an iterator made before a
        loop is exhausted in every iteration of that loop but the first, and
        after a first loop over it."""
        if not isinstance(expr, ast.Name) or not self.frames or expr.id not in self.frames[-1].once:
            return itv
        v, born = self.frames[-1].once[expr.id]
        if v is not self.env.get(expr.id):
            return itv
        if len(self.loops) > len(born) and [bid(b) for b, _ in self.loops[:len(born)]] == born:
            return Tup([], 'list')
        self.env[expr.id] = Tup([], 'list')
        return itv

    def st_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))

    def assign(self, t, v, quiet=False):
        if isinstance(t, ast.Name):
            if self.frames and t.id in self.frames[-1].globals:
                m = self.frames[-1].module
                self.event('mutate', 'global:%s.%s' % (m.name, t.id), extra='rebind', node=t)
                m.env[t.id] = v
                return
            self.env[t.id] = v
            if self.rec and not quiet:
                self.assigns.append((self.frames[-1].fn.qual if self.frames and self.frames[-1].fn else '', t.id,
                                     self.file(), t.lineno, v if not isinstance(v, Ref) else None))
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.destructure(t, v, quiet)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, quiet)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            if t.attr == 'shape' and isinstance(t.value, ast.Name) and isinstance(o, N) and root_of(o) is None:
                r = self.call_lib('numpy.reshape', [o, v], {}, t)
                for k, x in list(self.env.items()):
                    if x is o:
                        self.env[k] = r
                return
            self.store_attr(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            ix = self.eval_index(t.slice)
            self.store_index(b, ix, v, t)

    def destructure(self, t, v, quiet):
        items = self.concrete(v)
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if items is not None:
            if star:
                i = star[0]
                rest = n - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, quiet)
                mid = items[i:len(items) - rest]
                self.assign(t.elts[i].value, self.alloc(HList([('item', x) for x in mid])), quiet)
                for e, x in zip(t.elts[i + 1:], items[len(items) - rest:]):
                    self.assign(e, x, quiet)
                return
            if len(items) == n:
                for e, x in zip(t.elts, items):
                    self.assign(e, x, quiet)
                return
            for e in t.elts:
                self.assign(e, self.opaque('unpack arity', t), quiet)
            return
        fv = self.rv(v)
        for i, e in enumerate(t.elts):
            if star:
                self.assign(e, self.opaque('starred unpack', t), quiet)
                continue
            self.assign(e, self.load_index(fv, [num(i)], t), quiet)

    def tag_of(self, v):
        if isinstance(v, View):
            v = v.base
        if isinstance(v, Ref):
            return self.tags.get(v.id)
        return None

    def note_mut(self, obj, how, node=None):
        """Record a write through an object the analysed entry did not create."""
        tg = self.tag_of(obj)
        if tg:
            self.event('mutate', tg, extra=how, node=node)
            return
        o = obj.base if isinstance(obj, View) else obj
        if isinstance(o, Mod):
            self.event('mutate', 'global:' + o.name, extra=how, node=node)
            return
        if isinstance(o, N):
            for x in self.alts(o):
                self.changed(x)
                r = root_of(x)
                if r is not None:
                    self.event('mutate', path_str(x), [x], extra=how, node=node)

    def alts(self, v):
        a = as_atom(v)
        if a is not None and a.op == 'ite':
            out = []
            for x in a.args[1:]:
                if isinstance(x, N):
                    out.extend(self.alts(x))
            return out
        return [v]

    def store_attr(self, o, name, v, node=None):
        if isinstance(o, Ref):
            ho = self.heap.get(o.id)
            if isinstance(ho, HInst):
                f = dict(ho.fields)
                f[name] = v
                self.note_mut(o, '.' + name, node)
                self.heap[o.id] = HInst(ho.cls, f, ho.hist)
                return
            self.note_mut(o, '.' + name, node)
            return
        if isinstance(o, (Mod, Cls, Fn)):
            nm = o.name if isinstance(o, Mod) else o.qual
            self.event('mutate', 'global:%s.%s' % (nm, name), extra='setattr', node=node)
            return
        self.note_mut_path('attr', o, name, node)
        self.path_store('attr', o, name, v, node)

    def note_mut_path(self, kind, o, name, node):
        if isinstance(o, N):
            for x in self.alts(o):
                self.changed(x)
                r = root_of(x)
                if r is not None:
                    self.event('mutate', path_str(x) + ('.%s' % name if kind == 'attr' else '[%r]' % name),
                               [x], extra='store', node=node)

    def store_index(self, b, ix, v, node=None):
        loc = (self.file(), getattr(node or self.cur, 'lineno', 0))
        if isinstance(b, View):
            full = compose(b.idx, ix)
            self.note_mut(b, 'item', node)
            if full is None:
                self.spoil(b.base, 'view store', node)
                return
            return self.store_index(b.base, full, v, node) if not isinstance(b.base, N) or root_of(b.base) is None \
                else self.store_path_idx(b.base, full, v, loc)
        if isinstance(b, Ref):
            o = self.heap.get(b.id)
            self.note_mut(b, 'item', node)
            if isinstance(o, HDict):
                k = self.dkey(ix[0])
                if k is None or len(ix) > 1:
                    if self.memo_open(o):
                        self.memo_store(b, o, ix[0] if len(ix) == 1 else Tup(list(ix)), v)
                    else:
                        self.heap[b.id] = HDict(o.d, True)
                else:
                    d = dict(o.d)
                    d[k] = v
                    self.heap[b.id] = HDict(d, o.unknown)
                return
            if isinstance(o, HList):
                k = intconst(ix[0]) if isinstance(ix[0], N) else None
                if k is not None and all(s[0] == 'item' for s in o.segs) and -len(o.segs) <= k < len(o.segs):
                    s = list(o.segs)
                    s[k] = ('item', v)
                    self.heap[b.id] = HList(s, o.kind)
                elif ix[0] is FULL and self.listobj(v) is not None:
                    self.heap[b.id] = HList(self.listobj(v).segs, o.kind)
                elif isinstance(ix[0], N):
                    # a list filled by position behaves like an array
                    n = f_len(self.fz(b))
                    base = self.fz(b)
                    bi = o.segs[0] if len(o.segs) == 1 else None
                    if bi is not None and bi[0] == 'comp' and len(bi[1]) == 1 and len(bi[3]) == 1 and bi[3][0][0] == 'item':
                        base, n = bi[3][0][1], bi[2][0]
                        if isinstance(base, Kst):
                            base = num(0)
                    self.heap[b.id] = HArr((n,), base, [Store((), (), (), ix, self.fz(v), loc)])
                else:
                    self.heap[b.id] = HList([('splat', self.opaque('list item store', node))], o.kind)
                return
            if isinstance(o, HArr):
                self.log_arr('store', b, ix)
                self.heap[b.id] = o.with_store(Store((), (), (), ix, self.fz(v), loc))
                return
            if isinstance(o, HInst):
                if isinstance(ix[0], Kst) and ix[0] is not FULL:
                    f = dict(o.fields)
                    f[ix[0].v] = v
                    self.heap[b.id] = HInst(o.cls, f, o.hist)
                return
            return
        if isinstance(b, N):
            a = as_atom(b)
            if isinstance(ix[0], Kst) and ix[0] is not FULL and isinstance(ix[0].v, str) and a is not None:
                kind = 'attr' if a.ty == 'Stats' else 'item'
                self.note_mut_path('item', b, ix[0].v, node)
                self.path_store(kind, b, ix[0].v, v, node)
                return
            if a is not None and root_of(b) is not None:
                self.note_mut(b, 'item', node)
                self.store_path_idx(b, ix, v, loc)
                return
            if a is not None and a.op == 'ite':
                self.note_mut(b, 'item', node)
            # a local array value: give it identity
            if b.ty in ARR or b.ty in ('unk', 'table', 'rows'):
                ref = self.materialise(b)
                self.log_arr('store', ref, ix)
                o = self.heap[ref.id]
                self.heap[ref.id] = o.with_store(Store((), (), (), ix, self.fz(v), loc))
                return
        if isinstance(b, Tup) and b.kind == 'array':
            ref = self.materialise(b)
            o = self.heap[ref.id]
            self.heap[ref.id] = o.with_store(Store((), (), (), ix, self.fz(v), loc))
            return
        if isinstance(b, Mod):
            self.event('mutate', 'global:' + b.name, extra='item', node=node)
        self.opaque('store into %s' % show(b)[:40], node)

    def materialise(self, v):
        if isinstance(v, Tup):
            if v.items and isinstance(v.items[0], Tup):
                r, c = len(v.items), len(v.items[0].items)
                st = [Store((), (), (), (num(i), num(j)), v.items[i].items[j], ('', 0))
                      for i in range(r) for j in range(c)]
                o = HArr((num(r), num(c)), num(0), st)
            else:
                o = HArr((num(len(v.items)),), v)
        elif v.ty == 'arr':
            o = HArr((f_len(v),), v)
        else:
            o = HArr(None, v)
        ref = self.alloc(o)
        for k, x in list(self.env.items()):
            if x is v:
                self.env[k] = ref
        return ref

    def store_path_idx(self, b, ix, v, loc):
        key = ('path', as_atom(b).id)
        o = self.heap.get(key)
        if o is None:
            o = HArr(None, b)
        self.log_arr('store', b, ix)
        self.heap[key] = o.with_store(Store((), (), (), ix, self.fz(v), loc))

    def spoil(self, base, why, node):
        if isinstance(base, Ref) and isinstance(self.heap.get(base.id), HArr):
            o = self.heap[base.id]
            self.heap[base.id] = HArr(o.shape, o.base, o.stores, why, o.dtype)
        self.opaque(why, node)

    def st_AugAssign(self, st):
        op = self.OPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            if t.id in self.frames[-1].globals:
                cur = self.lookup(t.id, t)
                v = self.binop(op, cur, self.ev(st.value), st)
                self.assign(t, v)
                return
            cur = self.lookup(t.id, t)
            val = self.ev(st.value)
            self.aug_into(cur, op, val, lambda v: self.assign(t, v), st)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            ix = self.eval_index(t.slice)
            cur = self.load_index(b, ix, t)
            val = self.ev(st.value)
            if isinstance(cur, Ref) and self.listobj(cur) is not None and op == '+':
                self.aug_into(cur, op, val, lambda v: self.store_index(b, ix, v, t), st)
                return
            v = self.binop(op, cur, val, st)
            self.store_index(b, ix, v, t)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.load_attr(o, t.attr, t)
            val = self.ev(st.value)
            self.aug_into(cur, op, val, lambda v: self.store_attr(o, t.attr, v, t), st)

    def aug_into(self, cur, op, val, setter, st):
        if isinstance(cur, Ref):
            o = self.heap.get(cur.id)
            if isinstance(o, HList) and op == '+':
                self.extend_list(cur, val, st)
                return
            if isinstance(o, HArr):
                self.note_mut(cur, 'augmented', st)
                v = self.binop(op, cur, val, st)
                self.log_arr('load', cur, (FULL,))
                self.log_arr('store', cur, (FULL,))
                self.heap[cur.id] = HArr(o.shape, o.base, o.stores + (
                    Store((), (), (), (FULL,), cast_to(o.dtype, self.fz(v)), (self.file(), st.lineno)),), o.bad, o.dtype) \
                    if o.shape is None or len(o.shape) != 1 else HArr(o.shape, self.fz(v))
                return
        if isinstance(cur, View):
            v = self.binop(op, cur, val, st)
            self.store_index(cur.base, list(cur.idx), v, st)
            return
        if isinstance(cur, N):
            a = as_atom(cur)
            if a is not None and a.ty == 'par_ns':
                pass
            if a is not None and root_of(cur) is not None and (a.ty in ARR):
                v = self.binop(op, cur, val, st)
                self.note_mut(cur, 'augmented', st)
                self.store_path_idx(cur, [FULL], v, (self.file(), st.lineno))
                return
            if a is not None and a.ty in ('RFStream', 'Stream', 'Catalog', 'files', 'fillist', 'list') and op == '+':
                self.note_mut(cur, 'extended', st)
            v = self.binop(op, cur, val, st)
            if isinstance(v, N) and cur.ty in ARR:
                for k, x in list(self.env.items()):
                    if x is cur:
                        self.env[k] = v
            setter(v)
            return
        setter(self.binop(op, cur, val, st))

    def extend_list(self, ref, val, node=None):
        o = self.heap[ref.id]
        self.note_mut(ref, 'extend', node)
        self.heap[ref.id] = HList(o.segs + self.as_segs(val), o.kind)

    def as_segs(self, val):
        lo = self.listobj(val)
        if self.unordered(lo):
            return (('splat', mk('uset', (self.segs_val(lo.segs),), 'list')),)
        if lo is not None:
            return lo.segs
        items = self.concrete(val)
        if items is not None:
            return tuple(('item', x) for x in items)
        if isinstance(val, It):
            bs, ns, e, c = self.domain(val)
            seg = ('item', e)
            if c is not TRUE:
                seg = ('if', c, (seg,))
            return (('comp', tuple(bs), tuple(ns), (seg,)),)
        return (('splat', self.fz(val)),)

    # ------------------------------------------------------------ branching
    def decided(self, c):
        """Is the condition settled by an enclosing guard?"""
        if c is TRUE or c is FALSE or not isinstance(c, N):
            return c
        k = c.key()
        nk = f_not(c)
        nk = nk.key() if isinstance(nk, N) else None
        for g in self.guards:
            if not isinstance(g, N):
                continue
            gs = [g]
            ga = as_atom(g)
            if ga is not None and ga.op == 'and':
                gs = list(ga.args)
            for x in gs:
                if x.key() == k:
                    return TRUE
                if nk is not None and x.key() == nk:
                    return FALSE
        return c

    def st_If(self, st):
        c = self.decided(truth(self.rv(self.ev(st.test))))
        self.event('branch', '', [c], node=st)
        if c is TRUE:
            return self.block(st.body)
        if c is FALSE:
            return self.block(st.orelse)
        s0 = self.snap()
        ng = len(self.guards)
        nr = len(self.frames[-1].returns)
        ne = len(self.loopctx[-1]['exits']) if self.loopctx else 0
        self.guards.append(c)
        da = self.block(st.body)
        ra = (len(self.frames[-1].returns) > nr) or (self.loopctx and len(self.loopctx[-1]['exits']) > ne)
        del self.guards[ng:]
        sa = self.snap()
        self.restore(s0)
        self.guards.append(f_not(c))
        nr = len(self.frames[-1].returns)
        ne = len(self.loopctx[-1]['exits']) if self.loopctx else 0
        db = self.block(st.orelse)
        rb = (len(self.frames[-1].returns) > nr) or (self.loopctx and len(self.loopctx[-1]['exits']) > ne)
        del self.guards[ng:]
        if da and db:
            return True
        if da:
            if ra:                       # rest of the scope runs only otherwise
                self.guards.append(f_not(c))
            return False
        if db:
            self.env, self.heap, self.pstores = sa
            if rb:
                self.guards.append(c)
            return False
        sb = self.snap()
        self.merge(c, sa, sb, s0)
        return False

    def merge(self, c, sa, sb, s0):
        ea, ha, pa = sa
        eb, hb, pb = sb
        heap = {}
        for i in set(ha) | set(hb):
            x, y = ha.get(i), hb.get(i)
            if isinstance(i, tuple) and i[0] == 'path':
                # an input array nobody stored into on this side
                x = x or HArr(None, from_atom(_ATOMS[i[1]]))
                y = y or HArr(None, from_atom(_ATOMS[i[1]]))
            if x is None:
                heap[i] = y
            elif y is None or x is y:
                heap[i] = x
            else:
                heap[i] = self.merge_obj(c, x, y, ha, hb)
        env = {}
        for k in list(ea) + [k for k in eb if k not in ea]:
            x, y = ea.get(k, UNBOUND), eb.get(k, UNBOUND)
            env[k] = x if x is y else self.merge_val(c, x, y, ha, hb, heap)
        self.env, self.heap = env, heap
        n = 0
        while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
            n += 1
        ps = list(pa[:n])
        for rest, g in ((pa[n:], c), (pb[n:], f_not(c))):
            for p in rest:
                q = dict(p)
                q['guard'] = f_and(q['guard'], g)
                ps.append(q)
        self.pstores = ps

    def with_heap(self, heap, f):
        sv = self.heap
        self.heap = heap
        try:
            return f()
        finally:
            self.heap = sv

    def merge_val(self, c, x, y, ha, hb, heap=None):
        if x.key() == y.key():
            return x
        if x is UNBOUND or y is UNBOUND:
            o = y if x is UNBOUND else x
            if isinstance(o, (Ref, View)):
                # keep the live object: reading it is flagged separately
                return mk('ite', (c, x, y), 'obj')
            return f_ite(c, x, y)
        if isinstance(x, Ref) and isinstance(y, Ref) and heap is not None:
            ox, oy = ha.get(x.id), hb.get(y.id)
            if type(ox) is type(oy) and not self.tags.get(x.id) and not self.tags.get(y.id):
                m = self.merge_obj(c, ox, oy, ha, hb, strict=True)
                if m is not None:
                    i = next(self.nid)
                    heap[i] = m
                    return Ref(i)
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items) and x.kind == y.kind:
            return Tup([self.merge_val(c, p, q, ha, hb, heap) for p, q in zip(x.items, y.items)], x.kind)
        fx = self.with_heap(ha, lambda: self.fz(x))
        fy = self.with_heap(hb, lambda: self.fz(y))
        return f_ite(c, fx, fy)

    def merge_obj(self, c, x, y, ha, hb, strict=False):
        if type(x) is not type(y):
            return None if strict else HDict({}, True)
        if isinstance(x, HDict):
            d = {}
            if strict and list(x.d) != list(y.d):
                return None
            for k in list(x.d) + [k for k in y.d if k not in x.d]:
                p, q = x.d.get(k, UNBOUND), y.d.get(k, UNBOUND)
                d[k] = p if p is q else self.merge_val(c, p, q, ha, hb)
            return HDict(d, x.unknown or y.unknown)
        if isinstance(x, HList):
            n = 0
            while n < len(x.segs) and n < len(y.segs) and x.segs[n] is y.segs[n]:
                n += 1
            ra, rb = x.segs[n:], y.segs[n:]
            if len(ra) == len(rb) and all(s[0] == 'item' for s in ra + rb):
                return HList(x.segs[:n] + tuple(('item', self.merge_val(c, p[1], q[1], ha, hb))
                                                for p, q in zip(ra, rb)), x.kind)
            if strict:
                return None
            out = list(x.segs[:n])
            if ra:
                out += seg_if(c, tuple(self.fzs(s, ha) for s in ra))
            if rb:
                out += seg_if(f_not(c), tuple(self.fzs(s, hb) for s in rb))
            return HList(out, x.kind)
        if isinstance(x, HArr):
            n = 0
            while n < len(x.stores) and n < len(y.stores) and x.stores[n] is y.stores[n]:
                n += 1
            ra, rb = x.stores[n:], y.stores[n:]
            same_shape = (x.shape is None) == (y.shape is None) and \
                (x.shape is None or len(x.shape) == len(y.shape) and
                 all(equal(p, q) for p, q in zip(x.shape, y.shape)))
            if x.base is not y.base and x.base.key() != y.base.key():
                if not same_shape:
                    return None if strict else HArr(x.shape, x.base, (), 'merge of different arrays')
                if not x.stores and not y.stores:
                    return HArr(x.shape, f_ite(c, self.lift(x.base, x), self.lift(y.base, y)))
                vx = self.with_heap(ha, lambda: self.arr_val(x))
                vy = self.with_heap(hb, lambda: self.arr_val(y))
                return HArr(x.shape, f_ite(c, vx, vy))
            if strict and not same_shape:
                return None
            bad = x.bad or y.bad
            if len(ra) == len(rb) and all(self.same_site(p, q) for p, q in zip(ra, rb)):
                st = tuple(Store(p.bs, p.ns, p.guards, p.idx,
                                 f_ite(c, p.val, subst(q.val, {bid(u): w for u, w in zip(q.bs, p.bs)})), p.loc)
                           for p, q in zip(ra, rb))
                return HArr(x.shape, x.base, x.stores[:n] + st, bad, x.dtype)
            st = tuple(Store(s.bs, s.ns, (c,) + s.guards, s.idx, s.val, s.loc) for s in ra) + \
                tuple(Store(s.bs, s.ns, (f_not(c),) + s.guards, s.idx, s.val, s.loc) for s in rb)
            return HArr(x.shape, x.base, x.stores[:n] + st, bad, x.dtype)
        if isinstance(x, HInst):
            if x.cls is not y.cls and x.cls != y.cls:
                return None if strict else x
            f = {}
            for k in list(x.fields) + [k for k in y.fields if k not in x.fields]:
                p, q = x.fields.get(k, UNBOUND), y.fields.get(k, UNBOUND)
                f[k] = p if p is q else self.merge_val(c, p, q, ha, hb)
            n = 0
            while n < len(x.hist) and n < len(y.hist) and x.hist[n] is y.hist[n]:
                n += 1
            h = list(x.hist[:n])
            for rest, g in ((x.hist[n:], c), (y.hist[n:], f_not(c))):
                for r in rest:
                    h.append((r[0] + '?', (g,) + tuple(r[1]), r[2]))
            return HInst(x.cls, f, h)
        return x

    def lift(self, base, o):
        if isinstance(base, N) and base.ty not in ARR + ('table', 'rows') and o.shape is not None and len(o.shape) == 1:
            return mk('fillv', (base, o.shape[0]), 'arr')
        return base

    def same_site(self, p, q):
        if len(p.bs) != len(q.bs) or len(p.idx) != len(q.idx) or p.guards or q.guards:
            return False
        ren = {bid(u): w for u, w in zip(q.bs, p.bs)}
        return all(a.key() == subst(b, ren).key() for a, b in zip(p.idx, q.idx)) and \
            all(equal(a, b) for a, b in zip(p.ns, q.ns))

    def fzs(self, s, heap):
        if s[0] == 'item':
            return ('item', self.with_heap(heap, lambda: self.fz(s[1])))
        return s

    def st_Match(self, st):
        self.opaque('match statement', st)

    # ------------------------------------------------------------ try / with
    def st_Try(self, st):
        s0 = self.snap()
        ng = len(self.guards)
        db = self.block(st.body)
        if not db and st.orelse:
            db = self.block(st.orelse)
        state = None if db else self.snap()
        for h in st.handlers:
            nm = ''
            if h.type is not None:
                nm = ast.unparse(h.type)
            del self.guards[ng:]
            sb = self.snap()
            self.restore(s0)
            c = mk('exc', (nm, self.frames[-1].fn.qual, h.lineno), 'num')
            self.guards.append(c)
            if h.name:
                self.env[h.name] = mk('excval', (nm,), 'exc')
            self.event('handler', nm, node=h, extra=(self.swallows(st, h),))
            dh = self.block(h.body)
            del self.guards[ng:]
            if not dh:
                sh = self.snap()
                if state is None:
                    state = sh
                else:
                    self.merge(c, sh, state, s0)
                    state = self.snap()
        del self.guards[ng:]
        if state is not None:
            self.restore(state)
        df = self.block(st.finalbody) if st.finalbody else False
        return state is None or df

    def swallows(self, st, h):
        """Does this handler let a failed read of data go by as if there were none?"""
        def call(x):
            return getattr(x.func, 'id', getattr(x.func, 'attr', ''))
        reads = any(isinstance(x, ast.Call) and call(x) in ('read', 'read_rf', 'read_events', 'get_travel_times')
                    for b in st.body for x in ast.walk(b))
        if not reads:
            return False
        for b in h.body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Raise, ast.Return)):
                    return False
                if isinstance(x, ast.Call) and call(x) not in ('print', 'warn', 'warning', 'info', 'debug', 'error', 'format',
                                                               'Stream', 'str'):
                    return False
        return True

    def st_With(self, st):
        opened = []
        for it in st.items:
            v = self.ev(it.context_expr)
            opened.append(v)
            r = self.enter_ctx(v, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r)
        d = self.block(st.body)
        for v in reversed(opened):
            self.exit_ctx(v, st)
        return d

    def enter_ctx(self, v, node):
        if isinstance(v, Ref):
            o = self.heap.get(v.id)
            if isinstance(o, HInst) and isinstance(o.cls, Cls):
                m = self.find_member(o.cls, '__enter__')
                if isinstance(m, Fn):
                    return self.call_fn(Fn(m.node, m.module, m.qual, m.closure, None, v), [], {}, node)
        a = as_atom(v)
        if a is not None and a.op == 'ctxgen':
            return a.args[0]
        self.event('enter', '', [v], node=node)
        return v

    def exit_ctx(self, v, node):
        if isinstance(v, Ref):
            o = self.heap.get(v.id)
            if isinstance(o, HInst) and isinstance(o.cls, Cls):
                m = self.find_member(o.cls, '__exit__')
                if isinstance(m, Fn):
                    self.call_fn(Fn(m.node, m.module, m.qual, m.closure, None, v), [NONE, NONE, NONE], {}, node)
                    return
        self.event('exit', '', [v], node=node)
        self.ctx_exit(v, node)

    # ------------------------------------------------------------ loops
    def st_Break(self, st):
        self.loop_exit('break', st)
        return True

    def st_Continue(self, st):
        self.loop_exit('continue', st)
        return True

    def loop_exit(self, kind, st):
        if not self.loopctx:
            return
        lc = self.loopctx[-1]
        g = f_and(*self.guards[lc['base']:]) if len(self.guards) > lc['base'] else TRUE
        lc['exits'].append((kind, g, self.snap()))

    def run_body(self, body):
        """One iteration: returns (fallthrough dead, break conditions)."""
        lc = {'base': len(self.guards), 'exits': []}
        self.loopctx.append(lc)
        s0 = self.snap()
        dead = self.block(body)
        del self.guards[lc['base']:]
        self.loopctx.pop()
        brk = [(g, s) for k, g, s in lc['exits'] if k == 'break']
        for k, g, s in reversed(lc['exits']):
            if k == 'continue':
                if dead:
                    self.restore(s)
                    dead = False
                else:
                    self.merge(g, s, self.snap(), s0)
        return dead, brk

    def st_For(self, st):
        # rows of a 2-D array are views when the body stores through them
        old, self.want_views = self.want_views, stores_through(st)
        itv = self.run_through(st.iter, self.ev(st.iter))
        items = self.concrete(itv)
        if items is not None and len(items) <= UNROLL:
            self.want_views = old
            return self.unrolled(st, items)
        bs, ns, elem, cond = self.domain(itv)
        self.want_views = old
        self.loop(st, bs, ns, elem, cond)
        if st.orelse:
            return self.block(st.orelse)
        return False

    def unrolled(self, st, items):
        ng = len(self.guards)
        broke = []
        for x in items:
            self.assign(st.target, x, quiet=True)
            dead, brk = self.run_body(st.body)
            if dead and not brk:
                del self.guards[ng:]
                return True
            stop = False
            for g, s in brk:
                if g is TRUE or dead:
                    if dead:
                        self.restore(s)
                    stop = True
                else:
                    broke.append((g, s))
                    self.guards.append(f_not(g))
            if stop:
                break
        for g, s in reversed(broke):
            self.merge(g, s, self.snap(), s)
        del self.guards[ng:]
        if st.orelse:
            return self.block(st.orelse)
        return False

    st_AsyncFor = st_For

    def loop_header(self, lid, names, s0, changed, closed):
        """Install the loop-header state."""
        for nm in names:
            pre = s0[0].get(nm)
            if pre is None or pre is UNBOUND:
                continue
            if nm in closed:
                self.env[nm] = closed[nm]
            else:
                ty = self.phi_ty(pre)
                self.env[nm] = mk('phi', (lid, nm), ty, opaque=True)
        for i, kind in changed.items():
            o = s0[1].get(i)
            if o is None:
                continue
            if isinstance(o, HList):
                self.heap[i] = HList(o.segs + (('phi', (lid, i)),), o.kind)
            elif isinstance(o, HDict):
                d = dict(o.d)
                for k in kind or ():
                    if k in d:
                        c = closed.get(('d', i, k))
                        d[k] = c if c is not None else mk('phi', (lid, ('d', i, k)), self.phi_ty(d[k]), opaque=True)
                self.heap[i] = HDict(d, o.unknown)
            elif isinstance(o, HArr):
                if kind == 'whole':
                    self.heap[i] = HArr(o.shape, mk('phi', (lid, ('a', i)), 'arr', opaque=True))
                elif kind and kind[0] == 'cell':
                    self.heap[i] = o.with_store(Store((), (), (), kind[1], mk('phi', (lid, ('c', i)), self.cell_ty(kind[1]), opaque=True), ('', 0)))
                elif kind and kind[0] == 'bad':
                    self.heap[i] = HArr(o.shape, o.base, o.stores, 'array read across iterations')
            elif isinstance(o, HInst):
                f = dict(o.fields)
                for k in kind or ():
                    if k in f:
                        c = closed.get(('f', i, k))
                        f[k] = c if c is not None else mk('phi', (lid, ('f', i, k)), self.phi_ty(f[k]), opaque=True)
                self.heap[i] = HInst(o.cls, f, o.hist)

    def cell_ty(self, idx):
        return 'arr' if any(x is FULL for x in idx) else 'num'

    def phi_ty(self, pre):
        if isinstance(pre, Ref):
            o = self.heap.get(pre.id)
            if isinstance(o, HList):
                return 'list'
            if isinstance(o, HArr):
                return 'arr'
            return 'unk'
        if isinstance(pre, N):
            return pre.ty if pre.ty in ('num', 'time', 'arr', 'arr2', 'str', 'list', 'Stream', 'RFStream') else 'unk'
        if isinstance(pre, Kst) and isinstance(pre.v, str):
            return 'str'
        if isinstance(pre, StrV):
            return 'str'
        if isinstance(pre, Kst) and isinstance(pre.v, bool):
            return 'bool'
        return 'unk'

    def classify(self, s0, bids, arrlog):
        """Which pre-existing objects did one iteration change, and how."""
        ch = {}
        for i, o in s0[1].items():
            n = self.heap.get(i)
            if n is o or n is None:
                continue
            if isinstance(o, HDict):
                ks = [k for k in n.d if k not in o.d or n.d[k] is not o.d[k]] if isinstance(n, HDict) else []
                ch[i] = tuple(ks)
            elif isinstance(o, HInst):
                ch[i] = tuple(k for k in n.fields if k not in o.fields or n.fields[k] is not o.fields[k])
            elif isinstance(o, HArr):
                ch[i] = self.arr_kind(i, o, n, bids, arrlog)
            else:
                ch[i] = True
        # arrays reached only through a path (created by the first store)
        for i in self.heap:
            if i not in s0[1] and isinstance(i, tuple) and i[0] == 'path':
                o = self.heap[i]
                at = _ATOMS[i[1]]
                if not (at.binders & bids):
                    ch[i] = self.arr_kind(i, HArr(None, o.base), o, bids, arrlog)
        return ch

    def arr_kind(self, i, o, n, bids, arrlog):
        if not isinstance(n, HArr):
            return ('bad',)
        if n.base is not o.base and len(n.stores) < len(o.stores) + 1:
            return 'whole'
        new = n.stores[len(o.stores):]
        if not new:
            return 'whole' if n.base is not o.base else ('bad',)
        def masky(s):
            i0 = s.idx[0]
            return isinstance(i0, N) and i0.ty in ARR
        if any(s.idx[0] is FULL and (len(s.idx) == 1 or s.idx[1] is FULL) or masky(s) for s in new):
            return 'whole'
        def binders(s):
            r = set()
            for x in s.idx:
                if isinstance(x, N):
                    r |= free_binders(x)
                elif isinstance(x, Slc):
                    for y in (x.lo, x.hi):
                        if isinstance(y, N):
                            r |= free_binders(y)
            return r
        phis = any(isinstance(x, N) and any(a.op == 'phi' for a in atoms_in(x).values()) for s in new for x in s.idx)
        if phis:
            dep = [True]
        else:
            dep = [bool(binders(s) & bids) for s in new]
        loads = [ix for k, key, ix in arrlog if k == 'load' and key == i]
        if not any(dep):
            key0 = [x.key() for x in new[0].idx]
            if all([x.key() for x in s.idx] == key0 for s in new) and (
                    all(isinstance(x, N) for x in new[0].idx) or
                    len(key0) == 2 and new[0].idx[0] is FULL and isinstance(new[0].idx[1], N) and
                    intconst(new[0].idx[1]) is not None):
                return ('cell', new[0].idx)         # one number, or one whole column
            if not loads:
                return ('fill',)
            return ('fill',) if not any(self.may_alias(ix, s.idx) for ix in loads for s in new) else ('bad',)
        for ix in loads:
            ok = False
            for s in new:
                if len(ix) == len(s.idx) and all(x.key() == y.key() for x, y in zip(ix, s.idx)):
                    ok = True
            if not ok and any(self.may_alias(ix, s.idx) for s in new):
                return ('bad',)
        return ('fill',)

    def may_alias(self, a, b):
        if len(a) == len(b):
            for x, y in zip(a, b):
                if isinstance(x, N) and isinstance(y, N):
                    c = const(sub(x, y))
                    if c is not None and c != 0 and not (free_binders(x) or free_binders(y)):
                        return False
        return True

    def loop(self, st, bs, ns, elem, cond, whilectr=None):
        lid = next(_lid)
        body = st.body
        # arrays the body stores into get an identity before the loop
        for nm in stored_names(body):
            v = self.env.get(nm)
            if isinstance(v, N) and (v.ty in ARR or v.ty in ('table', 'rows')) and root_of(v) is None or \
                    isinstance(v, Tup) and v.kind == 'array':
                self.env[nm] = self.materialise(v)
        names = assigned_names(body)
        if not whilectr:
            names |= set(target_names(st.target))
        s0 = self.snap()
        for nm in inplace_only(body) & names:
            pre = s0[0].get(nm)
            if isinstance(pre, Ref) and isinstance(self.heap.get(pre.id), HList):
                names.discard(nm)          # `list += x` keeps the same object
        bids = {bid(b) for b in bs}
        closed = dict(whilectr or {})
        tn = set() if whilectr else set(target_names(st.target))
        exposed = exposed_names(body, names - tn)
        changed = {}
        base_loops = len(self.loops)
        fr = self.frames[-1]

        def once(rec):
            self.restore(s0)
            sr, ng, nret, al = self.rec, len(self.guards), len(fr.returns), self.arrlog
            self.rec = rec and sr
            # inside a loop over n things, n is known not to be zero
            idle = [(i, g) for i, g in enumerate(self.guards) for n in (nonempty_of(g),)
                    if n is not None and any(equal(n, k) for k in ns)]
            for i, _ in idle:
                self.guards[i] = TRUE
            self.loops.extend(zip(bs, ns))
            self.loop_header(lid, names - tn, s0, changed, closed)
            hdr = self.snap()
            self.arrlog = []
            if cond is not TRUE:
                self.guards.append(cond)
            if not whilectr:
                self.assign(st.target, elem, quiet=True)
            dead, brk = self.run_body(body)
            log = self.arrlog
            self.arrlog = (al if al is not None else []) + log
            del self.guards[ng:]
            for i, g in idle:
                self.guards[i] = g
            del self.loops[base_loops:]
            if not self.rec or not rec:
                del fr.returns[nret:]
            if cond is not TRUE:
                self.merge(cond, self.snap(), hdr, s0)
            self.rec = sr
            return dead, brk, hdr, log

        prefix = {}
        for rnd in range(5):
            dead, brk, hdr, log = once(False)
            ch = self.classify((hdr[0], hdr[1]) if rnd == 0 else self.pre_like(hdr, s0), bids, log)
            nxt = self.nexts(names - tn, s0, ch, hdr)
            new_closed = self.solve_counters(lid, nxt, s0, bs, ns, closed, changed, exposed)
            grown = {k: v for k, v in ch.items() if k not in changed or changed[k] != v and not self.kind_le(v, changed[k])}
            progress = bool(new_closed) or bool(grown)
            closed.update(new_closed)
            for k, v in grown.items():
                changed[k] = self.kind_join(changed.get(k), v)
            if not progress:
                if whilectr or brk or dead or cond is not TRUE or prefix:
                    break
                prefix = self.prefix_sums(lid, nxt, s0, hdr, bs, closed)
                if not prefix:
                    break
                closed.update((nm, x[0]) for nm, x in prefix.items())
        self.prefixes[lid] = prefix
        ncap = len(fr.returns)
        dead, brk, hdr, log = once(True)
        if len(fr.returns) > ncap:
            pass
        sN = self.snap()
        li = self.make_loopinfo(st, lid, bs, ns, cond, s0, hdr, sN, names, brk)
        self.finish_loop(st, lid, bs, ns, s0, hdr, sN, names, changed, closed, brk, bids, li, tn)

    def pre_like(self, hdr, s0):
        return (hdr[0], hdr[1])

    def kind_le(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and not (a and a[0] in ('cell', 'bad', 'fill')) \
                and not (b and b[0] in ('cell', 'bad', 'fill')):
            return set(a) <= set(b)
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == 'cell' and b[0] == 'cell':
            return [x.key() for x in a[1]] == [x.key() for x in b[1]]
        if b and isinstance(b, tuple) and b[0] == 'bad':
            return True
        return a == b

    def kind_join(self, a, b):
        if a is None:
            return b
        if isinstance(a, tuple) and isinstance(b, tuple) and not (a and a[0] in ('cell', 'bad', 'fill')):
            return tuple(sorted(set(a) | set(b), key=repr))
        if a == b:
            return a
        if isinstance(a, tuple) and a and a[0] == 'cell' and isinstance(b, tuple) and b and b[0] == 'cell' and \
                [x.key() for x in a[1]] == [x.key() for x in b[1]]:
            return a
        if isinstance(a, tuple) and a and a[0] == 'cell' and isinstance(b, tuple) and b and b[0] == 'fill':
            return b
        return ('bad',)

    def nexts(self, names, s0, ch, hdr):
        out = {}
        for nm in names:
            if nm in s0[0] and s0[0][nm] is not UNBOUND:
                out[nm] = self.env.get(nm, UNBOUND)
        for i, k in ch.items():
            o, n = s0[1].get(i), self.heap.get(i)
            if isinstance(o, HDict) and isinstance(n, HDict):
                for x in k:
                    if x in o.d:
                        out[('d', i, x)] = n.d.get(x, UNBOUND)
            elif isinstance(o, HInst) and isinstance(n, HInst):
                for x in k:
                    if x in o.fields:
                        out[('f', i, x)] = n.fields.get(x, UNBOUND)
        return out

    def prev_of(self, key, s0):
        if isinstance(key, tuple):
            o = s0[1].get(key[1])
            return o.d[key[2]] if key[0] == 'd' else o.fields[key[2]]
        return s0[0][key]

    def solve_counters(self, lid, nxt, s0, bs, ns, closed, changed, exposed=()):
        out = {}
        bids = {bid(b) for b in bs}
        for nm, v in nxt.items():
            if nm in closed:
                continue
            pre = self.prev_of(nm, s0)
            if not isinstance(v, N) or not isinstance(pre, N):
                if v is pre:
                    out[nm] = pre
                continue
            ph = mk('phi', (lid, nm), self.phi_ty(pre), opaque=True)
            d = sub(v, ph)
            if isinstance(nm, str) and nm in exposed and len(bs) == 1 and pre.ty not in ARR and \
                    not any(a.op in ('phi', 'loopout') for a in atoms_in(v).values()) and v.key() != pre.key():
                # the value the previous iteration left behind
                one = num(1)
                out[nm] = f_ite(cmp('==', bs[0], num(0)), pre, subst(v, {bid(bs[0]): sub(bs[0], one)}))
                continue
            if any(a.op == 'phi' and a.args[0] == lid for a in atoms_in(d).values()):
                continue
            if free_binders(d) & bids:
                continue
            if not d.t:
                out[nm] = pre
                continue
            if pre.ty in ARR:
                continue
            out[nm] = add(pre, mul(lin_index(bs, ns), d))
        return out

    def prefix_sums(self, lid, nxt, s0, hdr, bs, closed):
        """Accumulators other values read while they grow: the sum of what was added before."""
        if len(bs) != 1:
            return {}
        seen = set()

        def note(v):
            if isinstance(v, N):
                seen.update(a.args[1] for a in atoms_in(v).values() if a.op == 'phi' and a.args[0] == lid)

        def notes(segs):
            for s in segs:
                if s[0] in ('item', 'splat'):
                    note(s[1])
                elif s[0] == 'comp':
                    notes(s[3])
                elif s[0] == 'if':
                    note(s[1])
                    notes(s[2])
        for i, n in self.heap.items():
            o = hdr[1].get(i)
            if n is o:
                continue
            if isinstance(n, HArr):
                for s in n.stores[len(o.stores) if isinstance(o, HArr) else 0:]:
                    note(s.val)
            elif isinstance(n, HList):
                notes(n.segs)
        for k, v in nxt.items():
            if k not in closed and isinstance(v, N):
                note(sub(v, mk('phi', (lid, k), self.phi_ty(self.prev_of(k, s0)), opaque=True)))
        out = {}
        for nm in seen:
            if nm not in nxt or nm in closed or not isinstance(nxt[nm], N):
                continue
            pre, v = self.prev_of(nm, s0), nxt[nm]
            if not isinstance(pre, N) or pre.ty in ARR or v.ty in ARR or not (pre.ty in ('num', 'time') or const(pre) is not None):
                continue
            d = sub(v, mk('phi', (lid, nm), self.phi_ty(pre), opaque=True))
            if d.ty in ARR or any(a.op in ('phi', 'loopout') for a in atoms_in(d).values()):
                continue
            f = fresh_binder()
            out[nm] = (add(pre, f_sum(f_comp([f], [bs[0]], subst(d, {bid(bs[0]): f})))), d)
        return out

    # ---- closing a loop
    def finish_loop(self, st, lid, bs, ns, s0, hdr, sN, names, changed, closed, brk, bids, li, tn):
        env0, heap0 = s0[0], s0[1]
        envN, heapN = sN[0], sN[1]
        last = {bid(b): sub(n, num(1)) for b, n in zip(bs, ns)}
        total = prod(ns)
        broken = bool(brk) or any(r[3] for r in self.frames[-1].returns)
        phis = {}

        def fzN(v):
            return self.with_heap(heapN, lambda: self.fz(v))

        def fz0(v):
            return self.with_heap(heap0, lambda: self.fz(v))
        sysn, cells = {}, {}
        for nm in names:
            if nm in tn:
                continue
            if nm in env0 and env0[nm] is not UNBOUND:
                sysn[nm] = (env0[nm], envN.get(nm, UNBOUND))
        for i, k in changed.items():
            o, n = heap0.get(i), heapN.get(i)
            if isinstance(o, HDict) and isinstance(n, HDict):
                for x in k:
                    if x in o.d:
                        sysn[('d', i, x)] = (o.d[x], n.d.get(x, UNBOUND))
            elif isinstance(o, HInst) and isinstance(n, HInst):
                for x in k:
                    if x in o.fields:
                        sysn[('f', i, x)] = (o.fields[x], n.fields.get(x, UNBOUND))
            elif isinstance(n, HArr) and k == 'whole':
                base = HArr(None, from_atom(_ATOMS[i[1]])) if o is None else o
                sysn[('a', i)] = (self.with_heap(heap0, lambda: self.arr_val(base)),
                                  self.with_heap(heapN, lambda: self.arr_val(n)))
            elif isinstance(n, HArr) and k and k[0] == 'cell':
                base = HArr(None, from_atom(_ATOMS[i[1]])) if o is None else o
                cells[('c', i)] = self.cell_ty(k[1])
                sysn[('c', i)] = (self.with_heap(heap0, lambda: self.arr_index(base, k[1])), n.stores[-1].val)
        final = self.solve(lid, sysn, closed, bs, ns, bids, fz0, fzN, broken, st, cells)
        li.final = final
        # environment
        env = dict(env0)
        for nm in envN:
            if nm in sysn:
                env[nm] = final[nm]
                continue
            v = envN[nm]
            if nm in env0 and env0[nm] is v:
                continue
            if nm not in names:
                # rebinding performed by the engine (materialised array)
                if isinstance(v, Ref) and v.id in heapN and nm in env0:
                    env[nm] = v
                    if v.id not in changed:
                        changed[v.id] = ('bad',)
                continue
            if v is UNBOUND:
                env[nm] = v
                continue
            env[nm] = self.last_value(v, bids, last, fzN, broken, st)
        # heap
        heap = dict(heap0)
        for i, n in heapN.items():
            if i in heap0 and heap0[i] is n:
                continue
            if i in changed:
                heap[i] = self.close_obj(i, heap0.get(i), n, hdr[1].get(i), changed[i], lid, bs, ns, bids, last,
                                         final, fzN, broken, st)
            elif i not in heap0:
                heap[i] = n          # allocated inside the loop
            else:
                heap[i] = n
        ps = list(s0[2])
        for p in sN[2][len(hdr[2]):]:
            q = dict(p)
            q['bids'] = set(q['bids']) | bids
            ps.append(q)
        if len(sN[2]) < len(hdr[2]):
            ps = list(sN[2])
        self.env, self.heap, self.pstores = env, heap, ps

    def last_value(self, v, bids, last, fzN, broken, st):
        if isinstance(v, Ref) and not broken:
            fv = fzN(v)
            if not (free_binders(fv) & bids):
                return v
        if isinstance(v, (Fn, Cls, Mod)):
            return v
        fv = fzN(v)
        if not (free_binders(fv) & bids):
            return fv
        if broken:
            return self.opaque('value after an early-exit loop', st)
        return subst(fv, last)

    def solve(self, lid, sysn, closed, bs, ns, bids, fz0, fzN, broken, st, cells=()):
        final = {}
        last = {bid(b): sub(n, num(1)) for b, n in zip(bs, ns)}
        total = prod(ns)
        items = {}
        for nm, (pre, nv) in sysn.items():
            if nm in closed:
                c = closed[nm]
                pre_n = fz0(pre)
                if not isinstance(nv, N) and nv is pre:
                    final[nm] = pre
                elif nm in self.prefixes.get(lid, ()) and isinstance(pre_n, N):
                    final[nm] = add(pre_n, f_sum(f_comp(bs, ns, self.prefixes[lid][nm][1]))) if not broken \
                        else self.opaque('value after an early-exit loop', st)
                elif isinstance(c, N) and isinstance(pre_n, N):
                    final[nm] = pre if c.key() == pre_n.key() else \
                        (subst(fzN(nv), last) if not broken else self.opaque('counter after early exit', st))
                else:
                    final[nm] = pre
                continue
            if nv is UNBOUND:
                final[nm] = UNBOUND
                continue
            items[nm] = (fz0(pre), fzN(nv), pre, nv)
        phi = {}
        for nm, (pre, nv, p0, n0) in items.items():
            ty = self.phi_ty(p0)
            if isinstance(nm, tuple) and nm[0] == 'a':
                ty = 'arr'
            if isinstance(nm, tuple) and nm[0] == 'c':
                ty = cells[nm] if nm in cells else 'num'
            phi[nm] = mk('phi', (lid, nm), ty, opaque=True)
        pid = {as_atom(p).id: nm for nm, p in phi.items()}

        def used(v):
            return {pid[i] for i in atoms_in(v) if i in pid}
        # running extrema first
        ext = {}
        for nm, (pre, nv, p0, n0) in items.items():
            e = self.extremum(nm, pre, nv, phi[nm], used)
            if e is not None:
                ext[nm] = e
        for nm, (pre, nv, p0, n0) in items.items():
            u = used(nv)
            p = phi[nm]
            if isinstance(nv, N) and nv.key() == p.key():
                final[nm] = p0
                continue
            if not u:
                if not (free_binders(nv) & bids):
                    final[nm] = n0 if isinstance(n0, Ref) else nv
                elif broken:
                    final[nm] = self.opaque('value after an early-exit loop', st)
                else:
                    final[nm] = subst(nv, last)
                continue
            if broken:
                final[nm] = self.fold_atom(nm, pre, nv, lid, bs, ns, st, 'early exit')
                continue
            if nm in ext:
                op, e = ext[nm]
                m = self.ext_all(op, e, bs, ns)
                if isinstance(pre, N) and pre is not NONE:
                    final[nm] = (f_max2 if op == 'max' else f_min2)(pre, m)
                else:
                    final[nm] = m
                continue
            if isinstance(nv, N) and isinstance(pre, N):
                d = sub(nv, p)
                if not used(d):
                    pv = pre
                    if d.ty in ARR and const(pre) is not None and const(pre) == 0:
                        pv = num(0)
                    t = f_sum(f_comp(bs, ns, d)) if free_binders(d) & bids else mul(total, d)
                    r = add(pv, t)
                    final[nm] = drop0(r)
                    continue
                # product / factor accumulation is kept symbolic
            tr = self.tracked(nm, pre, nv, p, ext, items, phi, used)
            if tr is not None:
                bn, a = tr
                op, e = ext[bn]
                arg = self.arg_all(op, e, a, bs, ns)
                bpre = items[bn][0]
                m = self.ext_all(op, e, bs, ns)
                if isinstance(bpre, N) and const_inf(bpre) is None:
                    c = cmp('<' if op == 'max' else '>', bpre, m)
                    final[nm] = f_ite(c, arg, pre)
                else:
                    final[nm] = arg
                continue
            ls = self.list_rec(nv, p, n0)
            if ls is not None:
                segs = self.as_segs(p0) if not isinstance(p0, N) else (('splat', p0),)
                final[nm] = self.alloc(HList(tuple(segs) + (('comp', tuple(bs), tuple(ns), tuple(
                    self.fz_seg(s) for s in ls)),)))
                continue
            fl = self.flag_rec(nv, p, pre)
            if fl is not None:
                final[nm] = fl if not isinstance(fl, tuple) else \
                    f_or(truth(pre), mk('exists', (f_comp(bs, ns, fl[0]),), 'num'))
                continue
            final[nm] = self.fold_atom(nm, pre, nv, lid, bs, ns, st, 'recurrence')
        return final

    def fold_atom(self, nm, pre, nv, lid, bs, ns, st, why):
        # canonical form: the accumulator and index appear as reserved atoms
        ac = mk('acc', (), nv.ty if isinstance(nv, N) else 'unk')
        ph = None
        others = False
        for i, a in atoms_in(nv).items():
            if a.op == 'phi' and a.args[0] == lid:
                if a.args[1] == nm:
                    ph = i
                else:
                    others = True
        if why == 'recurrence' and ph is not None and not others and isinstance(nv, N):
            body = subst(nv, {ph: ac})
            return mk('fold', (pre, f_comp(bs, ns, mk('box', (body,), 'box'))), nv.ty)
        if self.rec:
            self.notes.append('%s:%s: %s of %s in loop' % (self.file(), st.lineno, why, nm))
        return mk('loopout', (lid, str(nm)), nv.ty if isinstance(nv, N) else 'unk', opaque=True)

    def extremum(self, nm, pre, nv, p, used):
        a = as_atom(nv)
        if a is None:
            return None
        if pre is NONE and a.op == 'ite':
            c = a.args[0]
            sm = [x for x in atoms_in(nv).values() if x.op == 'same' and any(
                isinstance(y, N) and y.key() == p.key() for y in x.args) and NONE in x.args]
            if sm:
                f = subst(nv, {sm[0].id: FALSE}) if False else self.sub_bool(nv, sm[0], FALSE)
                t = self.sub_bool(nv, sm[0], TRUE)
                e = self.extremum(nm, num(0), f, p, used)
                if e is not None and isinstance(t, N) and t.key() == e[1].key():
                    return e
            return None
        if a.op in ('max2', 'min2'):
            rest = [x for x in a.args if x.key() != p.key()]
            if len(rest) == len(a.args) - 1:
                r = (f_max2 if a.op == 'max2' else f_min2)(*rest)
                if not used(r):
                    return a.op[:3], r
        return None

    def sub_bool(self, v, atom, val):
        """Replace a boolean atom inside conditions."""
        a = as_atom(v)
        if a is not None and a.id == atom.id:
            return val
        if a is not None:
            if a.op == 'ite':
                return f_ite(self.sub_bool(a.args[0], atom, val), self.sub_bool(a.args[1], atom, val),
                             self.sub_bool(a.args[2], atom, val))
            if a.op == 'not':
                return f_not(self.sub_bool(a.args[0], atom, val))
            if a.op == 'and':
                return f_and(*[self.sub_bool(x, atom, val) for x in a.args])
        return v

    def tracked(self, nm, pre, nv, p, ext, items, phi, used):
        """nv == ite(best < e, a, p) for a running extremum `best`."""
        if isinstance(nv, Tup):
            r = [self.tracked(nm, pre, f_at(nv, num(i)), None, ext, items, phi, used) for i in range(len(nv.items))]
            return None
        a = as_atom(nv)
        if a is None or a.op != 'ite':
            return None
        c, x, y = a.args
        if isinstance(y, N) and y.key() == p.key():
            val, flip = x, False
        elif isinstance(x, N) and x.key() == p.key():
            val, flip = y, True
        else:
            return None
        if used(val):
            return None
        cc = f_not(c) if flip else c
        for bn, (op, e) in ext.items():
            pb = phi[bn]
            want = [cmp('<', pb, e), cmp('<=', pb, e)] if op == 'max' else [cmp('>', pb, e), cmp('>=', pb, e)]
            bpre = items[bn][0]
            c2 = cc
            if bpre is NONE:
                sm = [z for z in atoms_in(cc).values() if z.op == 'same' and NONE in z.args]
                if sm:
                    c2 = self.sub_bool(cc, sm[0], FALSE)
            for w in want:
                if isinstance(w, N) and isinstance(c2, N) and w.key() == c2.key():
                    return bn, val
        return None

    def ext_all(self, op, e, bs, ns):
        return (f_maxv if op == 'max' else f_minv)(f_comp(bs, ns, e))

    def arg_all(self, op, e, a, bs, ns):
        # flatten a nested search
        ea, aa = as_atom(e), as_atom(a)
        if ea is not None and ea.op == op and aa is not None and aa.op == 'at':
            ce = as_atom(ea.args[0])
            ix = as_atom(aa.args[1])
            if ix is not None and ix.op == 'arg' + op and ix.args[0].key() == ea.args[0].key():
                ca = as_atom(aa.args[0])
                if ce is not None and ca is not None and ce.op == 'comp' and ca.op == 'comp' and len(ce.args[0]) == len(ca.args[0]):
                    fr = [fresh_binder() for _ in ce.args[0]]
                    e2 = subst(ce.args[2], dict(zip(ce.args[0], fr)))
                    a2 = subst(ca.args[2], dict(zip(ca.args[0], fr)))
                    return self.arg_all(op, e2, a2, list(bs) + fr, list(ns) + list(ce.args[1]))
                if ce is None or ce.op != 'comp':
                    # elementwise vector
                    L = f_len(ea.args[0])
                    b = fresh_binder()
                    return self.arg_all(op, f_at(ea.args[0], b), f_at(aa.args[0], b), list(bs) + [b], list(ns) + [L])
        if ea is not None and ea.op == op:
            ce = ea.args[0]
            # the tracked value is invariant over, or an elementwise image of, the inner search
            inner = find_arg(a, op, ce)
            if inner is not None:
                L = f_len(ce)
                o = as_atom(ce)
                if o is not None and o.op == 'comp':
                    fr = [fresh_binder() for _ in o.args[0]]
                    e2 = subst(o.args[2], dict(zip(o.args[0], fr)))
                    if len(fr) == 1:
                        a2 = subst(a, {inner: fr[0]})
                        return self.arg_all(op, e2, a2, list(bs) + fr, list(ns) + list(o.args[1]))
                else:
                    b = fresh_binder()
                    a2 = subst(a, {inner: b})
                    return self.arg_all(op, f_at(ce, b), a2, list(bs) + [b], list(ns) + [L])
            else:
                o = as_atom(ce)
                if o is not None and o.op == 'comp':
                    fr = [fresh_binder() for _ in o.args[0]]
                    e2 = subst(o.args[2], dict(zip(o.args[0], fr)))
                    return self.arg_all(op, e2, a, list(bs) + fr, list(ns) + list(o.args[1]))
                if isinstance(ce, N) and ce.ty in ARR:
                    b = fresh_binder()
                    return self.arg_all(op, f_at(ce, b), a, list(bs) + [b], list(ns) + [f_len(ce)])
        ev = f_comp(bs, ns, e)
        if isinstance(a, Tup):
            return Tup([self.arg_all(op, e, x, bs, ns) for x in a.items], a.kind)
        if isinstance(a, N) and not (free_binders(a) & {bid(b) for b in bs}):
            return a
        return f_at(f_comp(bs, ns, a), f_argext('arg' + op, ev))

    def list_rec(self, nv, p, n0):
        lo = self.listobj(n0)
        if lo is not None and lo.segs and lo.segs[0][0] == 'splat' and isinstance(lo.segs[0][1], N) \
                and lo.segs[0][1].key() == p.key():
            rest = lo.segs[1:]
            return rest
        return None

    def flag_rec(self, nv, p, pre):
        a = as_atom(nv)
        if a is None or a.op != 'ite':
            return None
        c, x, y = a.args
        if x is TRUE and isinstance(y, N) and y.key() == p.key():
            return (c,)
        if y is TRUE and isinstance(x, N) and x.key() == p.key():
            return (f_not(c),)
        return None

    def close_obj(self, i, o, n, h, kind, lid, bs, ns, bids, last, final, fzN, broken, st):
        if isinstance(n, HList):
            if not isinstance(o, HList) or not isinstance(h, HList):
                return HList([('splat', self.opaque('list rebuilt in loop', st))], n.kind)
            k = len(h.segs)
            if len(n.segs) >= k and all(x is y for x, y in zip(n.segs[:k], h.segs)):
                new = tuple(self.close_seg(s, fzN) for s in n.segs[k:])
                if not new:
                    return o
                if broken:
                    return HList(o.segs + (('splat', self.opaque('list built with early exit', st)),), n.kind)
                return HList(o.segs + (('comp', tuple(bs), tuple(ns), new),), n.kind)
            return HList([('splat', self.opaque('list changed in loop', st))], n.kind)
        if isinstance(n, HDict):
            if not isinstance(o, HDict):
                return HDict({}, True)
            d = dict(o.d)
            for k in n.d:
                if ('d', i, k) in final:
                    d[k] = final[('d', i, k)]
                elif k not in o.d:
                    d[k] = self.last_value(n.d[k], bids, last, fzN, broken, st)
            return HDict(d, o.unknown or n.unknown)
        if isinstance(n, HInst):
            f = dict(o.fields)
            for k in n.fields:
                if ('f', i, k) in final:
                    f[k] = final[('f', i, k)]
                elif k not in o.fields:
                    f[k] = self.last_value(n.fields[k], bids, last, fzN, broken, st)
            hist = o.hist
            if len(n.hist) > len(o.hist):
                hist = o.hist + (('loop', tuple(bs) + (self.hist_comp(n.hist[len(o.hist):], bs, ns, fzN),), {}),)
            return HInst(n.cls, f, hist)
        if isinstance(n, HArr):
            if o is None:
                o = HArr(None, from_atom(_ATOMS[i[1]]))
            if ('a', i) in final:
                v = final[('a', i)]
                return HArr(o.shape, v)
            if ('c', i) in final:
                s = n.stores[-1]
                return o.with_store(Store((), (), (), s.idx, final[('c', i)], s.loc))
            if not (kind and kind[0] == 'fill') or broken:
                return HArr(o.shape, o.base, o.stores, 'array filled across iterations' if not broken
                            else 'array filled with early exit')
            new = n.stores[len(o.stores):]
            st2 = tuple(Store(tuple(bs) + s.bs, tuple(ns) + s.ns, s.guards, s.idx, s.val, s.loc) for s in new)
            return HArr(o.shape, o.base, o.stores + st2, n.bad, o.dtype)
        return n

    def hist_comp(self, hist, bs, ns, fzN):
        items = []
        for h in hist:
            items.append(Tup([Kst(str(h[0])), fzN(Tup(list(h[1]))), fzN(Dct(h[2]))]))
        return f_comp(list(bs), list(ns), mk('box', (Tup(items),), 'box'))

    def close_seg(self, s, fzN):
        if s[0] in ('item', 'splat'):
            return (s[0], fzN(s[1]))
        if s[0] == 'if':
            return ('if', s[1], tuple(self.close_seg(x, fzN) for x in s[2]))
        return s

    def make_loopinfo(self, st, lid, bs, ns, cond, s0, hdr, sN, names, brk):
        from .interp import LoopInfo
        li = LoopInfo()
        li.node, li.cond, li.bs, li.ns, li.lid = st, cond, bs, ns, lid
        li.brk = [g for g, _ in brk]
        li.func = self.frames[-1].fn.qual if self.frames[-1].fn else ''
        li.fnnode = self.frames[-1].fn.node if self.frames[-1].fn else None
        li.file = self.file()
        if self.rec:
            for nm in names:
                if nm in s0[0]:
                    li.pre[nm] = self.with_heap(s0[1], lambda: self.fz(s0[0][nm]))
                if nm in hdr[0]:
                    li.header[nm] = self.with_heap(hdr[1], lambda: self.fz(hdr[0][nm]))
                if nm in sN[0]:
                    li.next[nm] = self.with_heap(sN[1], lambda: self.fz(sN[0][nm]))
            self.loopinfos.append(li)
        return li

    # ---- while
    def st_While(self, st):
        names = assigned_names(st.body)
        # probe one iteration
        s0 = self.snap()
        lid = next(_lid)
        fr = self.frames[-1]
        sr, ng, nret, al = self.rec, len(self.guards), len(fr.returns), self.arrlog
        self.rec = False
        self.arrlog = []
        hdrs = {}
        for nm in names:
            pre = s0[0].get(nm)
            if pre is not None and pre is not UNBOUND:
                hdrs[nm] = self.env[nm] = mk('phi', (lid, nm), self.phi_ty(pre), opaque=True)
        c = truth(self.rv(self.ev(st.test)))
        dead, brk = self.run_body(st.body)
        nxt = {nm: self.env.get(nm, UNBOUND) for nm in hdrs}
        del self.guards[ng:]
        del fr.returns[nret:]
        self.rec, self.arrlog = sr, al
        self.restore(s0)
        ctr = None
        if not dead and not brk:
            for nm, p in hdrs.items():
                pre, nv = s0[0][nm], nxt[nm]
                if not (isinstance(pre, N) and isinstance(nv, N)):
                    continue
                d = sub(nv, p)
                if intconst(d) != 1:
                    continue
                ca = as_atom(c)
                if ca is None or ca.op not in ('lt', 'le'):
                    continue
                lim = sub(p, ca.args[0])        # p - lim < 0
                if any(a.op == 'phi' and a.args[0] == lid for a in atoms_in(lim).values()):
                    continue
                n = sub(lim, pre)
                if ca.op == 'le':
                    n = add(n, num(1))
                ctr = (nm, pre, n)
                break
        if c is FALSE:
            return False
        if ctr is not None:
            nm, pre, n = ctr
            k = intconst(n)
            if k is not None and k <= UNROLL:
                for _ in range(max(k, 0)):
                    self.ev(st.test)
                    dead, _b = self.run_body(st.body)
                    if dead:
                        return True
                return False
            b = fresh_binder()
            self.loop(st, [b], [n], None, TRUE, whilectr={nm: add(pre, b)})
            return False
        # general loop: an uninterpreted recurrence (initial value, step, condition), recorded for the rules
        b = fresh_binder()
        state = set()
        for rnd in range(4):
            self.restore(s0)
            sr, ng, nret, al = self.rec, len(self.guards), len(fr.returns), self.arrlog
            last = rnd == 3
            self.rec = sr and last
            self.arrlog = []
            self.loops.append((b, mk('whilen', (lid,), 'num', opaque=True)))
            self.while_header(lid, names, s0, state)
            hdr = self.snap()
            cond = truth(self.rv(self.ev(st.test)))
            if isinstance(cond, N) and cond is not TRUE:
                self.guards.append(cond)
            dead, brk = self.run_body(st.body)
            log = self.arrlog
            self.arrlog = (al if al is not None else []) + log
            del self.guards[ng:]
            self.loops.pop()
            sN = self.snap()
            self.rec = sr
            if not last:
                del fr.returns[nret:]
                new = {i for i, n in sN[1].items() if i in s0[1] and hdr[1].get(i) is not n}
                for _, bs_ in brk:
                    new |= {i for i, n in bs_[1].items() if i in s0[1] and hdr[1].get(i) is not n}
                state |= new
        late = []
        for g, bs_ in brk:
            same = all(bs_[0].get(nm) is hdr[0].get(nm) for nm in names if nm in hdr[0]) and \
                all(bs_[1].get(i) is hdr[1].get(i) for i in s0[1])
            if same and isinstance(g, N):
                cond = f_and(cond, f_not(strip_guard(g, cond)))
            else:
                late.append((g, bs_))
        li = self.make_loopinfo(st, lid, [b], [], cond, s0, hdr, sN, names, late)
        li.stores = {}
        li.late = bool(late) or dead or len(fr.returns) > nret
        for i in state:
            r = Ref(i)
            li.pre[('heap', i)] = self.with_heap(s0[1], lambda: self.fz(r))
            li.header[('heap', i)] = self.with_heap(hdr[1], lambda: self.fz(r))
            li.next[('heap', i)] = self.with_heap(sN[1], lambda: self.fz(r))
        env = dict(s0[0])
        for nm in sN[0]:
            if nm in names:
                if nm in s0[0] and s0[0][nm] is not UNBOUND:
                    h = hdr[0].get(nm)
                    if sN[0][nm] is h and not late:
                        env[nm] = s0[0][nm]
                        continue
                    env[nm] = mk('loopout', (lid, nm), self.phi_ty(s0[0][nm]), opaque=True)
                else:
                    env[nm] = mk('loopout', (lid, nm), sN[0][nm].ty if isinstance(sN[0][nm], N) else 'unk', opaque=True)
        heap = dict(s0[1])
        for i, n in sN[1].items():
            if i in state:
                heap[i] = self.while_obj(n, lid, i, 'loopout')
            elif i not in s0[1]:
                heap[i] = n
        self.env, self.heap = env, heap
        self.pstores = sN[2]
        return False

    def while_obj(self, n, lid, i, op):
        v = lambda k, ty: mk(op, (lid, k), ty, opaque=True)
        if isinstance(n, HArr):
            return HArr(n.shape, v(('heap', i), 'arr'))
        if isinstance(n, HList):
            return HList([('splat', v(('heap', i), 'list'))], n.kind)
        if isinstance(n, HDict):
            return HDict({}, True)
        if isinstance(n, HInst):
            return HInst(n.cls, {k: v(('f', i, k), self.phi_ty(x)) for k, x in n.fields.items()}, n.hist)
        return n

    def while_header(self, lid, names, s0, state):
        for nm in names:
            pre = s0[0].get(nm)
            if pre is None or pre is UNBOUND:
                continue
            if isinstance(pre, Ref) and pre.id in state:
                continue                     # mutated in place
            self.env[nm] = mk('phi', (lid, nm), self.phi_ty(pre), opaque=True)
        for i in state:
            self.heap[i] = self.while_obj(s0[1][i], lid, i, 'phi')

    # ------------------------------------------------------------ calls
    def eval_defaults(self, args):
        pos = [self.ev(d) for d in args.defaults]
        kwd = [self.ev(d) if d is not None else None for d in args.kw_defaults]
        return (pos, kwd)

    def fn_defaults(self, fn):
        if fn.defaults is not None:
            return fn.defaults
        key = id(fn.node)
        c = self.defcache.get(key)
        if c is None:
            sv = (self.env, self.frames, self.rec, self.guards, self.loops)
            from .interp import Frame
            self.env, self.rec = fn.module.env, False
            self.frames = [Frame(Fn(None, fn.module, fn.module.name + '.<module>'), fn.module)]
            try:
                c = self.eval_defaults(fn.node.args)
            finally:
                self.env, self.frames, self.rec, self.guards, self.loops = sv
            a = fn.node.args
            names = [x.arg for x in (a.posonlyargs + a.args)][-len(c[0]):] if c[0] else []
            for nm, v in list(zip(names, c[0])) + [(x.arg, v) for x, v in zip(a.kwonlyargs, c[1])]:
                if isinstance(v, Ref):
                    self.tags[v.id] = 'default:%s(%s)' % (fn.qual, nm)
                    self.defobjs[v.id] = self.heap[v.id]
            self.defcache[key] = c
        for v in list(c[0]) + list(c[1]):
            if isinstance(v, Ref) and v.id not in self.heap:
                self.heap[v.id] = self.defobjs[v.id]
        return c

    def bind(self, fn, args, kw, node):
        a = fn.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if fn.selfv is not None:
            args = [fn.selfv] + args
        kw = dict(kw)
        for p, v in zip(params, args):
            env[p] = v
        if len(args) > len(params):
            if a.vararg:
                env[a.vararg.arg] = Tup(args[len(params):], 'tuple')
            else:
                self.event('callerror', fn.qual, extra='too many arguments', node=node)
        elif a.vararg:
            env[a.vararg.arg] = Tup([], 'tuple')
        names = params + [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names:
                if k in env:
                    self.event('callerror', fn.qual, extra='duplicate %s' % k, node=node)
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(HDict(extra))
        elif extra:
            self.event('callerror', fn.qual, extra='unexpected %s' % sorted(extra), node=node)
        dpos, dkw = self.fn_defaults(fn)
        for p, v in zip(params[len(params) - len(dpos):], dpos):
            env.setdefault(p, v)
        for p, v in zip(a.kwonlyargs, dkw):
            if v is not None:
                env.setdefault(p.arg, v)
        for p in names:
            if p not in env:
                if not ('**' in kw):
                    self.event('callerror', fn.qual, extra='missing %s' % p, node=node)
                env[p] = self.opaque('missing argument %s' % p, node)
        return env

    def call_fn(self, fn, args, kw, node=None):
        from .interp import Frame
        if fn.qual in self.opaque_fns:
            self.event('call', fn.qual, args, kw, node)
            return mk('call', (fn.qual,) + tuple(self.fz(a) for a in args) +
                      (Dct({k: self.fz(v) for k, v in kw.items()}),), 'unk')
        if len(self.frames) > MAXDEPTH or any(f.fn is not None and f.fn.node is fn.node for f in self.frames):
            return self.opaque('recursion into %s' % fn.qual, node)
        env = self.bind(fn, args, kw, node)
        sm = self.summaries.get(fn.qual)
        if sm is not None:
            # stands for the value of the routine, decided elsewhere; parameters by name
            self.event('call', fn.qual, args, kw, node)
            d = {k: self.fz(v) for k, v in env.items()}
            key = Dct({k: v for k, v in d.items() if v is not NONE})
            return Tup([mk('summary', (sm[0], i, key), t) for i, t in enumerate(sm[1])], 'tuple')
        return self.run_fn(fn, env, node)

    def run_fn(self, fn, env, node=None, skip=0):
        from .interp import Frame
        self.event('call', fn.qual, [], node=node)
        clo = fn.closure
        if clo is not None and len(clo) > 2 and clo[2] in self.frames:
            # the defining frame is still active: see its current bindings
            k = self.frames.index(clo[2])
            live = self.env if k == len(self.frames) - 1 else clo[2].env
            clo = (live, clo[1], clo[2])
        f2 = Fn(fn.node, fn.module, fn.qual, clo, fn.defaults, fn.selfv)
        fr = Frame(f2, fn.module)
        fr.globals = set()
        fr.base = len(self.guards)
        fr.lbase = len(self.loops)
        fr.skip = skip
        fr.gen = None
        caller = self.env
        if self.frames:
            self.frames[-1].env = caller
        lctx = self.loopctx
        self.loopctx = []
        self.frames.append(fr)
        self.module(fn.module.name)
        self.env = env
        saved_cur = self.cur
        try:
            if isinstance(fn.node, ast.Lambda):
                fr.locals = set(env)
                r = self.ev(fn.node.body)
                return r
            fr.locals = assigned_names(fn.node.body) | set(env)
            for n in ast.walk(fn.node):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    fr.locals -= set(n.names)
            if has_yield(fn.node):
                fr.gen = self.alloc(HList((), 'gen'))
            dead = self.block(fn.node.body)
            if fr.gen is not None:
                return fr.gen
            return self.fold_returns(fr, dead, fn)
        finally:
            del self.guards[fr.base:]
            self.frames.pop()
            self.env = caller
            self.loopctx = lctx
            self.cur = saved_cur

    def fold_returns(self, fr, dead, fn):
        rs = list(fr.returns)
        if not rs:
            return NONE
        if any(r[3] for r in rs):
            return self.opaque('return from inside a loop of unknown length', fn.node)
        if not dead:
            rs.append((TRUE, NONE, NONE, False, 0))
        if len(rs) == 1:
            return rs[0][1]
        out = rs[-1][2]
        for g, v, fv, _l, _n in reversed(rs[:-1]):
            out = f_ite(g, fv, out)
        return out

    def ev_Yield(self, n):
        fr = self.frames[-1]
        v = self.ev(n.value) if n.value is not None else NONE
        if getattr(fr, 'gen', None) is None:
            return self.opaque('yield', n)
        o = self.heap[fr.gen.id]
        self.heap[fr.gen.id] = HList(o.segs + (('item', v),), o.kind)
        return NONE

    def ev_YieldFrom(self, n):
        fr = self.frames[-1]
        v = self.ev(n.value)
        if getattr(fr, 'gen', None) is None:
            return self.opaque('yield', n)
        o = self.heap[fr.gen.id]
        self.heap[fr.gen.id] = HList(o.segs + self.as_segs(v), o.kind)
        return NONE

    def instantiate(self, cls, args, kw, node=None):
        exc = any(isinstance(b, Mod) and b.name.startswith('builtins.') and
                  b.name.endswith(('Exception', 'Error')) for b in cls.bases)
        if exc or cls.qual not in self.inline_classes and self.class_opaque(cls):
            if not exc:
                self.event('new', cls.qual, args, kw, node)
                a = dict(enumerate(args))
                init = self.find_member(cls, '__init__')
                f = {}
                if isinstance(init, Fn):
                    env = self.bind(Fn(init.node, init.module, init.qual, init.closure, None, NONE), args, kw, node)
                    f = {k: self.fz(v) for k, v in env.items() if v is not NONE or k != 'self'}
                    f.pop('self', None)
                return self.alloc(HInst(cls.qual, {}, [('__init__', (), f)]))
            return mk('inst', (cls.qual,), 'inst')
        ref = self.alloc(HInst(cls, {}))
        init = self.find_member(cls, '__init__')
        if isinstance(init, Fn):
            self.call_fn(Fn(init.node, init.module, init.qual, init.closure, None, ref), args, kw, node)
        return ref

    def class_opaque(self, cls):
        return cls.qual in self.opaque_classes


def find_arg(a, op, ce):
    for i, at in atoms_in(a).items():
        if at.op == 'arg' + op and at.args[0].key() == ce.key():
            return i
    return None


def const_inf(v):
    """+1/-1 if v is (a multiple of) an infinity."""
    i = as_atom(INF).id
    if isinstance(v, N) and len(v.t) == 1 and ((i, 1),) in v.t:
        return 1 if v.t[((i, 1),)] > 0 else -1
    return None


def drop0(r):
    from .evalx import drop_zero_fill
    if isinstance(r, N) and len(r.t) > 1 and r.ty in ARR:
        return drop_zero_fill(r)
    return r


def compose(outer, inner):
    from .evalx import compose_idx
    return compose_idx(outer, inner)
