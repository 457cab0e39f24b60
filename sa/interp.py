"""Abstract interpreter: flow-sensitive, context-sensitive value numbering.

One abstract pass per entry point and configuration.  Branches are joined with
gated merges, loops are summarised by recognising their recurrences (counters,
sums, running extrema, list building, array filling); nothing is executed and
no path is enumerated or handed to a solver.
"""
import ast
import os
import itertools
from .terms import *
from .terms import _ATOMS
from .ops import *
from .heap import *
from .evalx import EvalMixin
from .stmts import StmtMixin
from .lib import LibMixin

UNROLL = 24
MAXDEPTH = 14


class Event:
    __slots__ = ('kind', 'name', 'args', 'kw', 'guards', 'loops', 'file', 'line', 'func', 'extra', 'seq')

    def __repr__(self):
        return '%s:%s %s %s%r %r' % (self.file, self.line, self.kind, self.name, self.args, self.kw)


class AnalysisError(Exception):
    pass


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.env = {}
        self.ready = False


class LoopInfo:
    def __init__(self):
        self.node = None
        self.cond = None
        self.header = {}
        self.next = {}
        self.final = {}
        self.pre = {}
        self.bs = ()
        self.ns = ()


ATTR_TY = {
    ('Trace', 'data'): 'arr', ('Trace', 'stats'): 'Stats', ('Trace', 'id'): 'str',
    ('Stats', 'station'): 'str', ('Stats', 'channel'): 'str', ('Stats', 'network'): 'str',
    ('Stats', 'location'): 'str', ('Stats', 'component'): 'str',
    ('Event', 'origins'): 'OriginL', ('Event', 'magnitudes'): 'MagL',
    ('Mod', 'pi'): 'num',
}


def attr_ty(base, name):
    if base == 'unk' and name in ('data', 'stats'):
        return {'data': 'arr', 'stats': 'Stats'}[name]
    if base in ('RFTrace',):
        base = 'Trace'
    if base == 'synrf' and name in ('rf', 'seis'):
        return 'Stream'
    r = ATTR_TY.get((base, name))
    if r:
        return r
    if base == 'mpl':
        return 'mpl'
    if base in ('Stats', 'Origin', 'Magnitude', 'Arrival', 'Event'):
        return 'num'
    return 'unk'


class Frame:
    def __init__(self, fn, module):
        self.fn, self.module = fn, module
        self.returns = []
        self.locals = set()
        self.globals = set()
        self.base = self.lbase = self.skip = 0
        self.gen = None
        self.env = {}
        self.once = {}


class Interp(EvalMixin, StmtMixin, LibMixin):
    def __init__(self, srcdir, package='rfsed', files=None):
        self.srcdir, self.package = srcdir, package
        self.modules = {}
        self.parse_errors = {}
        for f in sorted(os.listdir(srcdir)):
            if f.endswith('.py'):
                p = os.path.join(srcdir, f)
                try:
                    with open(p, encoding='utf-8') as fh:
                        tree = ast.parse(fh.read(), p)
                except SyntaxError as e:
                    self.parse_errors[f] = str(e)
                    continue
                nm = package if f == '__init__.py' else package + '.' + f[:-3]
                self.modules[nm] = Module(nm, p, tree)
        self.reset()
        self.inline_classes = set()     # qualified names of classes to inline
        self.opaque_fns = set()
        self.summaries = {}
        self.opaque_classes = set()
        self.schemas = {}

    # ------------------------------------------------------------ state
    def copied(self, v, ty):
        """A copy: another object with the same content (the same term where neither is changed afterwards)."""
        k = path_str(v)
        if k in self.plain_copies:
            return v
        self.copies[k] = v
        return mk('copyof', (v,), ty)

    def changed(self, v):
        ch = chain_of(v)
        self.changed_at.add(ch[0])
        self.changed_in.update(ch)

    def unchanged_copies(self):
        out = set()
        for k, v in self.copies.items():
            if k in self.changed_in or 'copyof(%s)' % k in self.changed_in or any(c in self.changed_at for c in chain_of(v)):
                continue
            out.add(k)
        return out

    def reset(self):
        self.copies = {}
        self.changed_at = set()
        self.changed_in = set()
        self.heap = {}
        self.nid = itertools.count(1)
        self.tags = {}
        self.want_views = False
        self.pstores = []
        self.events = []
        self.guards = []
        self.loops = []
        self.rec = True
        self.frames = []
        self.env = {}
        self.notes = []
        self.prefixes = {}
        self.assigns = []
        self.loopinfos = []
        self.loopctx = []
        self.arrlog = []
        self.seq = 0
        self.cur = None
        self.defcache = {}
        self.want_views = False
        self.defobjs = {}
        self.clsvals = {}
        self.figseq = 0
        self.born = {}
        self.poolseq = 0
        self.depth = 0
        for m in self.modules.values():
            m.ready = False
            m.env = {}

    def alloc(self, obj, tag=None):
        i = next(self.nid)
        self.heap[i] = obj
        if type(obj).__name__ == 'HDict':
            self.born[i] = len(self.loops)
        if tag:
            self.tags[i] = tag
        return Ref(i)

    def opaque(self, why, node=None, ty='unk'):
        node = node or self.cur
        loc = '%s:%s' % (self.file(), getattr(node, 'lineno', '?'))
        if self.rec:
            self.notes.append('%s: %s' % (loc, why))
        return mk('opaque', (why, loc, len(self.notes)), ty, opaque=True)

    def file(self):
        return os.path.basename(self.frames[-1].module.path) if self.frames else '?'

    def event(self, kind, name, args=(), kw=None, node=None, extra=None):
        if not self.rec:
            return None
        e = Event()
        e.kind, e.name = kind, name
        e.args = [self.fz(a) for a in args]
        e.kw = {k: self.fz(v) for k, v in (kw or {}).items()}
        e.guards = tuple(self.guards)
        e.loops = tuple(self.loops)
        e.file = self.file()
        e.line = getattr(node or self.cur, 'lineno', 0)
        e.func = self.frames[-1].fn.qual if self.frames and self.frames[-1].fn else '<module>'
        e.extra = extra
        e.seq = self.seq
        self.seq += 1
        self.events.append(e)
        return e

    def snap(self):
        return (dict(self.env), dict(self.heap), list(self.pstores))

    def restore(self, s):
        self.env, self.heap, self.pstores = dict(s[0]), dict(s[1]), list(s[2])

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            return None
        if not m.ready:
            m.ready = True
            saved = (self.env, self.guards, self.loops, self.rec, self.frames)
            self.env, self.guards, self.loops, self.rec = {}, [], [], False
            f = Fn(None, m, m.name + '.<module>')
            self.frames = [Frame(f, m)]
            try:
                for st in m.tree.body:
                    self.module_stmt(m, st)
            finally:
                self.env, self.guards, self.loops, self.rec, self.frames = saved
        return m

    def module_stmt(self, m, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            m.env[st.name] = Fn(st, m, m.name + '.' + st.name)
        elif isinstance(st, ast.ClassDef):
            m.env[st.name] = self.make_class(m, st)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            self.do_import(st, m.env, m)
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            self.env = m.env
            try:
                v = self.ev(st.value)
            except AnalysisError:
                v = self.opaque('module constant', st)
            if isinstance(v, Ref):
                self.tags[v.id] = 'global:%s.%s' % (m.name, st.targets[0].id)
            m.env[st.targets[0].id] = v
        elif isinstance(st, ast.Assign) and len(st.targets) == 1:
            self.env = m.env
            self.assign(st.targets[0], self.ev(st.value))
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body:
                self.module_stmt(m, s)

    def make_class(self, m, st):
        members = {}
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                members[s.name] = Fn(s, m, m.name + '.' + st.name + '.' + s.name)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                members[s.targets[0].id] = s.value
                try:
                    self.env = dict(m.env)
                    x = self.ev(s.value)
                except AnalysisError:
                    x = self.opaque('class attribute', s)
                if isinstance(x, Ref):
                    self.tags[x.id] = 'global:%s.%s.%s' % (m.name, st.name, s.targets[0].id)
                    self.defobjs[x.id] = self.heap[x.id]
                self.clsvals[id(s.value)] = x
        bases = []
        for b in st.bases:
            sv = self.env
            self.env = m.env
            bases.append(self.ev(b))
            self.env = sv
        return Cls(st, m, m.name + '.' + st.name, members, bases)

    def do_import(self, st, env, m):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    env[a.asname] = Mod(a.name)
                else:
                    env[a.name.split('.')[0]] = Mod(a.name.split('.')[0])
        else:
            base = st.module or ''
            if st.level:
                pk = self.package if m.name == self.package else m.name.rsplit('.', 1)[0]
                base = pk + ('.' + base if base else '')
            for a in st.names:
                if a.name == '*':
                    mm = self.module(base)
                    if mm:
                        env.update(mm.env)
                    continue
                env[a.asname or a.name] = self.resolve_dotted(base, a.name)

    def resolve_dotted(self, base, name):
        full = base + '.' + name
        if full in self.modules:
            return Mod(full)
        if base in self.modules:
            mm = self.module(base)
            if name in mm.env:
                return mm.env[name]
        return self.lib_const(full) or Mod(full)

    # ------------------------------------------------------------ freeze
    def fz(self, v):
        """Immutable snapshot of a value (heap references resolved)."""
        if isinstance(v, Ref):
            o = self.heap.get(v.id)
            if o is None:
                return mk('dangling', (v.id,), 'unk', opaque=True)
            return self.fz_obj(o)
        if isinstance(v, View):
            return self.fz_view(v)
        if isinstance(v, Tup):
            if any(not isinstance(i, (N, Kst)) for i in v.items):
                return Tup([self.fz(i) for i in v.items], v.kind)
            return v
        if isinstance(v, It):
            return self.segs_val([self.it_seg(v)])
        if isinstance(v, Dct):
            return Dct({k: self.fz(x) for k, x in v.d.items()})
        if isinstance(v, StrV):
            return mkstr([p if isinstance(p, str) else (p[0], self.fz(p[1])) for p in v.parts])
        if isinstance(v, BM):
            return BM(self.fz(v.obj), v.name)
        return v

    def it_seg(self, it):
        fr = [fresh_binder() for _ in it.bs]
        ren = dict(zip([bid(b) for b in it.bs], fr))
        seg = ('item', subst(it.elem, ren))
        if it.cond is not TRUE:
            seg = ('if', subst(it.cond, ren), (seg,))
        if not fr:
            return seg
        return ('comp', tuple(fr), tuple(it.ns), (seg,))

    def fz_obj(self, o):
        if isinstance(o, HList):
            return self.segs_val(o.segs, o.kind)
        if isinstance(o, HDict):
            if o.unknown:
                return mk('dictobj', tuple(x for k, v in sorted(o.d.items(), key=repr)
                                           for x in (repr(k), self.fz(v)))
                          + (('entries',) + tuple(self.fz(x) for kv in o.memo for x in kv) if o.memo else ()), 'dict', opaque=True)
            return Dct({k: self.fz(v) for k, v in o.d.items()})
        if isinstance(o, HArr):
            return self.arr_val(o)
        if isinstance(o, HInst):
            nm = o.cls.qual if isinstance(o.cls, Cls) else o.cls
            args = [nm]
            for h in o.hist:
                args.append(h[0])
                args.append(Tup([self.fz(x) for x in h[1]]))
                args.append(Dct({k: self.fz(x) for k, x in h[2].items()}))
            args.append(Dct({k: self.fz(x) for k, x in o.fields.items()}))
            return mk('inst', tuple(args), 'inst')
        return mk('obj', (id(o),), 'unk', opaque=True)

    def segs_val(self, segs, kind='list'):
        if kind == 'set':
            return mk('setof', (self.segs_val(segs),), 'set')
        if all(s[0] == 'item' for s in segs):
            return Tup([self.fz(s[1]) for s in segs], 'list')
        if len(segs) == 1 and segs[0][0] == 'comp':
            bs, ns = list(segs[0][1]), list(segs[0][2])
            inner = segs[0][3]
            while len(inner) == 1 and inner[0][0] == 'comp':
                bs += list(inner[0][1])
                ns += list(inner[0][2])
                inner = inner[0][3]
            if len(inner) == 1 and inner[0][0] == 'item':
                return f_comp(bs, ns, self.fz(inner[0][1]))
            return f_flat(bs, ns, self.segs_val(inner))
        if len(segs) == 1 and segs[0][0] == 'splat':
            return segs[0][1]
        parts = []
        for s in segs:
            if s[0] == 'item':
                parts.append(mk('one', (self.fz(s[1]),), 'list'))
            elif s[0] == 'comp':
                parts.append(self.segs_val([s]))
            elif s[0] == 'if':
                parts.append(mk('when', (s[1], self.segs_val(s[2])), 'list'))
            elif s[0] == 'splat':
                parts.append(s[1])
            else:
                parts.append(mk('phiseg', (s[1],), 'list', opaque=True))
        if len(parts) == 1:
            return parts[0]
        return mk('concat', tuple(parts), 'list')

    # ---- arrays
    def arr_val(self, o):
        if o.bad:
            return mk('badarr', (o.bad,), 'arr', opaque=True)
        rank = len(o.shape) if o.shape is not None else None
        if not o.stores:
            if o.shape is None:
                return o.base
            c = o.base
            if rank == 1:
                if isinstance(c, N) and c.ty in ARR:
                    return c
                return mk('fillv', (c, o.shape[0]), 'arr')
            if isinstance(c, N) and c.ty in ('arr2', 'table'):
                return c
            k = intconst(o.shape[1]) if rank == 2 else None
            n0 = intconst(o.shape[0])
            if rank == 2 and k is not None and k <= 16 and n0 is None:
                return mk('table', tuple(mk('fillv', (c, o.shape[0]), 'arr') for _ in range(k)), 'table')
            if rank == 2 and k is not None and n0 is not None and k * n0 <= 64:
                return Tup([Tup([c] * k, 'array') for _ in range(n0)], 'array')
            return mk('fillm', (c,) + tuple(o.shape), 'arr2')
        if rank == 2:
            k, n0 = intconst(o.shape[1]), intconst(o.shape[0])
            if k is not None and n0 is not None and k * n0 <= 64:
                m = self.const_matrix(o, n0, k)
                if m is not None:
                    return m
            if k is not None and k <= 16:
                return mk('table', tuple(self.col_val(o, j) for j in range(k)), 'table')
            return mk('badarr', ('array fill pattern',), 'arr2', opaque=True)
        if rank == 1:
            n0 = intconst(o.shape[0])
            if n0 is not None and n0 <= 64:
                v = self.const_vector(o, n0)
                if v is not None:
                    return v
            return self.col_val(o, None)
        # path base of unknown shape
        b = o.base
        if isinstance(b, N) and b.ty in ('arr2', 'table', 'rows') or any(len(s.idx) == 2 for s in o.stores):
            if any(len(s.idx) != 2 or not isinstance(s.idx[1], N) or intconst(s.idx[1]) is None for s in o.stores):
                return mk('badarr', ('array store pattern',), 'arr2', opaque=True)
            ks = sorted({intconst(s.idx[1]) for s in o.stores if len(s.idx) == 2 and isinstance(s.idx[1], N)
                         and intconst(s.idx[1]) is not None})
            return mk('patched', (b,) + tuple(x for k in ks for x in (k, self.col_val(o, k))), 'arr2')
        return self.col_val(o, None)

    def const_matrix(self, o, n0, k):
        m = [[o.base] * k for _ in range(n0)]
        for s in o.stores:
            if s.bs or len(s.idx) != 2:
                return None
            i, j = s.idx
            iv = range(n0) if i is FULL else ([intconst(i)] if isinstance(i, N) else [None])
            jv = range(k) if j is FULL else ([intconst(j)] if isinstance(j, N) else [None])
            if None in iv or None in jv:
                return None
            for a in iv:
                for b in jv:
                    v = s.val
                    if i is FULL or j is FULL:
                        ix = b if j is FULL and i is not FULL else a
                        if isinstance(v, Tup):
                            v = v.items[ix]
                        elif isinstance(v, N) and v.ty in ARR:
                            v = f_at(v, num(ix))
                    for g in s.guards:
                        v = f_ite(g, v, m[a][b])
                    m[a][b] = v
        return Tup([Tup(r, 'array') for r in m], 'array')

    def const_vector(self, o, n0):
        base = o.base
        if isinstance(base, N) and base.ty in ARR:
            m = [f_at(base, num(i)) for i in range(n0)]
        elif isinstance(base, Tup):
            m = list(base.items)
        else:
            m = [base] * n0
        for s in o.stores:
            if s.bs or len(s.idx) != 1 or not isinstance(s.idx[0], N) or intconst(s.idx[0]) is None:
                return None
            v = s.val
            i = intconst(s.idx[0])
            if not -n0 <= i < n0:
                return None
            for g in s.guards:
                v = f_ite(g, v, m[i])
            m[i] = v
        return Tup(m, 'array')

    def base_col(self, o, k):
        b = o.base
        if k is None:
            if isinstance(b, N) and b.ty in ARR:
                return b
            if o.shape is not None:
                return mk('fillv', (b, o.shape[0]), 'arr')
            return b
        if o.shape is not None and not (isinstance(b, N) and b.ty in ('arr2', 'table', 'rows')):
            return mk('fillv', (b, o.shape[0]), 'arr')
        return f_col(b, k)

    def col_val(self, o, k):
        """Column k of a 2-D array (or the 1-D array itself, k=None)."""
        col = self.base_col(o, k)
        if o.bad:
            return mk('badarr', (o.bad,), 'arr', opaque=True)
        nrows = o.shape[0] if o.shape is not None else f_len(o.base)
        for s in o.stores:
            i0 = s.idx[0]
            val = s.val
            if k is not None:
                if len(s.idx) == 1:
                    i1 = FULL
                else:
                    i1 = s.idx[1]
                if i1 is FULL:
                    if isinstance(val, Tup):
                        if k >= len(val.items):
                            return mk('badarr', ('row width',), 'arr', opaque=True)
                        val = val.items[k]
                    elif isinstance(val, N) and val.ty in ('num', 'time'):
                        pass
                    elif isinstance(val, N) and val.ty in ('arr2', 'table', 'rows'):
                        val = f_col(val, k)
                    elif isinstance(val, N) and i0 is not FULL:
                        val = f_at(val, num(k))
                    elif isinstance(val, N) and i0 is FULL:
                        val = f_col(val, k)
                elif isinstance(i1, N):
                    j = intconst(i1)
                    if j is None:
                        return mk('badarr', ('column index',), 'arr', opaque=True)
                    if j < 0 and o.shape is not None and len(o.shape) > 1:
                        w = intconst(o.shape[1])
                        j = w + j if w else j
                    if j != k:
                        continue
                elif isinstance(i1, Slc):
                    lo = 0 if i1.lo is NONE else intconst(i1.lo)
                    hi = 10 ** 9 if i1.hi is NONE else intconst(i1.hi)
                    if lo is None or hi is None:
                        return mk('badarr', ('column slice',), 'arr', opaque=True)
                    if not lo <= k < hi:
                        continue
                    if isinstance(val, Tup):
                        val = val.items[k - lo]
                    elif isinstance(val, N) and val.ty in ARR:
                        val = f_at(val, num(k - lo))
                else:
                    return mk('badarr', ('column index',), 'arr', opaque=True)
            if not isinstance(val, N):
                return mk('badarr', ('stored value',), 'arr', opaque=True)
            g = f_and(*s.guards)
            if i0 is FULL:
                if g is not TRUE:
                    val = f_ite(g, val, col)
                if s.bs:
                    val = subst(val, {bid(b): sub(n, num(1)) for b, n in zip(s.bs, s.ns)})
                if val.ty not in ARR:
                    val = mk('fillv', (val, nrows), 'arr')
                col = val
                continue
            if isinstance(i0, Slc):
                lo = num(0) if i0.lo is NONE else i0.lo
                hi = nrows if i0.hi is NONE else i0.hi
                lo, hi = _neg(lo, nrows), _neg(hi, nrows)
                if s.bs or i0.step is not NONE and intconst(i0.step) != 1:
                    return mk('badarr', ('slice store in loop',), 'arr', opaque=True)
                if g is not TRUE:
                    return mk('badarr', ('guarded slice store',), 'arr', opaque=True)
                if intconst(lo) == 0 and equal(hi, nrows):
                    col = val if val.ty in ARR else mk('fillv', (val, nrows), 'arr')
                else:
                    col = mk('put', (col, lo, hi, val), 'arr')
                continue
            if not isinstance(i0, N):
                return mk('badarr', ('row index',), 'arr', opaque=True)
            a0 = as_atom(i0)
            if a0 is not None and a0.ty in ARR and a0.op in ('lt', 'le', 'eq', 'not', 'and', 'isnan'):
                if s.bs:
                    return mk('badarr', ('mask store in loop',), 'arr', opaque=True)
                if g is not TRUE:
                    i0 = f_and(g, i0)
                col = f_ite(i0, val, col)
                continue
            if i0.ty in ARR:
                # fancy index: whereidx(mask)
                if a0 is not None and a0.op == 'whereidx' and not s.bs:
                    col = f_ite(a0.args[0], val, col)
                    continue
                return mk('badarr', ('fancy store',), 'arr', opaque=True)
            bs, ns = list(s.bs), list(s.ns)
            if not bs:
                col = mk('put1', (col, i0, f_ite(g, val, f_at(col, i0))), 'arr')
                continue
            perm = None
            use = [(b, n) for b, n in zip(bs, ns)]
            for p in itertools.permutations(use):
                li = lin_index([x[0] for x in p], [x[1] for x in p])
                if equal(li, i0):
                    perm = p
                    break
            if perm is None:
                ib = free_binders(i0)
                cv = f_comp(bs, ns, val)
                col = mk('scatter', (col, f_comp(bs, ns, i0), cv), 'arr',
                         opaque=bool(opaque_in(i0)))
                continue
            pb, pn = [x[0] for x in perm], [x[1] for x in perm]
            if g is not TRUE:
                val = f_ite(g, val, f_at(col, i0))
            c = f_comp(pb, pn, val)
            if equal(prod(pn), nrows):
                col = c
            else:
                col = mk('partial', (c, col, nrows), 'arr')
        return col

    def fz_view(self, v):
        b = v.base
        if isinstance(b, Ref):
            o = self.heap[b.id]
            if isinstance(o, HArr):
                return self.arr_index(o, v.idx)
        if isinstance(b, N):
            o = self.path_arr(b)
            if o is not None:
                return self.arr_index(o, v.idx)
            return self.val_index(b, v.idx)
        return self.val_index(self.fz(b), v.idx)

    def path_arr(self, b):
        a = as_atom(b)
        if a is None:
            return None
        r = self.heap.get(('path', a.id))
        return r

    def arr_index(self, o, idx):
        if o.bad:
            return mk('badarr', (o.bad,), 'unk', opaque=True)
        rank2 = (o.shape is not None and len(o.shape) == 2) or \
            (o.shape is None and (len(idx) == 2 or isinstance(o.base, N) and o.base.ty in ('arr2', 'table', 'rows')))
        if rank2 and (o.stores or o.shape is not None):
            av = None
            if o.shape is not None and intconst(o.shape[0]) is not None:
                av = self.arr_val(o)
                if isinstance(av, Tup):
                    return self.val_index(av, idx)
            if len(idx) == 1:
                idx = (idx[0], FULL)
            i0, i1 = idx[0], idx[1]
            if isinstance(i1, N) and intconst(i1) is not None:
                k = intconst(i1)
                if k < 0 and o.shape is not None:
                    w = intconst(o.shape[1])
                    k = k + w if w else k
                return self.val_index(self.col_val(o, k), (i0,))
            if i1 is FULL and isinstance(i0, N) and o.shape is not None and intconst(o.shape[1]) is not None:
                cols = [self.col_val(o, j) for j in range(intconst(o.shape[1]))]
                if i0.ty in ARR:
                    return mk('fancy', (mk('table', tuple(cols), 'table'), i0), 'arr2')
                return Tup([f_at(c, i0) for c in cols], 'row')
            if i0 is FULL and i1 is FULL:
                return self.arr_val(o)
            if isinstance(i0, Slc) and i1 is FULL and o.shape is not None and intconst(o.shape[1]) == 1:
                return f_colvec(self.slice_val(self.col_val(o, 0), i0))
        return self.val_index(self.arr_val(o), idx)

    def val_index(self, v, idx):
        """Index an immutable value."""
        idx = list(idx)
        v = self.fz(v)
        while idx:
            i = idx[0]
            if isinstance(v, N) and v.ty in ('arr2', 'table', 'rows', 'carr2') and len(idx) >= 2:
                i1 = idx[1]
                if isinstance(i1, N) and intconst(i1) is not None and i1.ty not in ARR:
                    v = f_col(v, intconst(i1))
                    idx = [i] + idx[2:]
                    continue
                if i1 is FULL and isinstance(i, N):
                    v = f_row(v, i)
                    idx = idx[2:]
                    continue
                if i is FULL and i1 is FULL:
                    idx = idx[2:]
                    continue
                if isinstance(i1, Slc):
                    if isinstance(i, N) and i.ty not in ARR:
                        v = f_row(v, i)
                        idx = [i1] + idx[2:]
                        continue
                    a = as_atom(v)
                    lo = 0 if i1.lo is NONE else intconst(i1.lo)
                    hi = None if i1.hi is NONE else intconst(i1.hi)
                    st = 1 if i1.step is NONE else intconst(i1.step)
                    if a is not None and a.op == 'table' and lo is not None and st is not None and \
                            (i1.hi is NONE or hi is not None):
                        v = mk('table', tuple(a.args[lo:hi:st]), 'table')
                        idx = [i] + idx[2:]
                        if not idx[1:] and i is FULL:
                            idx = []
                        continue
                    v = mk('colslice', (v, self.fz(i1.lo), self.fz(i1.hi)), 'arr2', opaque=True)
                    idx = idx[2:]
                    continue
            if i is FULL and not (len(idx) == 2 and idx[1] is NONE):
                if isinstance(v, Tup) and len(idx) > 1:
                    return Tup([self.val_index(x, idx[1:]) for x in v.items], 'array')
                idx.pop(0)
                continue
            if i is FULL and len(idx) == 2 and idx[1] is NONE and isinstance(v, N) and v.ty == 'arr':
                v = f_colvec(v)
                idx = idx[2:]
                continue
            if i is NONE:
                v = mk('newaxis', (v,), 'arr2', opaque=True)
                idx.pop(0)
                continue
            if isinstance(i, Slc):
                a = as_atom(v) if isinstance(v, N) else None
                if a is not None and a.op == 'colvec':
                    v = f_colvec(self.slice_val(a.args[0], i))
                else:
                    v = self.slice_val(v, i)
                idx.pop(0)
                continue
            if isinstance(i, Tup):
                if all(intconst(x) is not None for x in i.items) and isinstance(v, Tup):
                    v = Tup([v.items[intconst(x)] for x in i.items], v.kind)
                else:
                    v = mk('fancy', (v, i), 'arr', opaque=True)
                idx.pop(0)
                continue
            if isinstance(i, Kst) and isinstance(i.v, str):
                v = self.get_item(v, i.v)
                idx.pop(0)
                continue
            if isinstance(i, N):
                if i.ty in ARR:
                    v = mk('fancy', (v, i), v.ty if isinstance(v, N) else 'unk')
                elif isinstance(v, N) and v.ty in ('table', 'rows', 'arr2'):
                    v = f_row(v, i)
                else:
                    v = f_at(v, i)
                idx.pop(0)
                continue
            v = mk('idx', (v, i), 'unk', opaque=True)
            idx.pop(0)
        return v

    def slice_val(self, v, s):
        n = f_len(v)
        st = 1 if s.step is NONE else intconst(s.step)
        if st == -1 and s.lo is NONE and s.hi is NONE:
            if isinstance(v, Tup):
                return Tup(v.items[::-1], v.kind)
            return f_rev(v)
        if isinstance(v, Tup):
            f = lambda x: None if x is NONE else intconst(x)
            ok = all(x is NONE or intconst(x) is not None for x in (s.lo, s.hi, s.step))
            if ok:
                return Tup(v.items[slice(f(s.lo), f(s.hi), f(s.step))], v.kind)
        if isinstance(v, Kst) and isinstance(v.v, str):
            f = lambda x: None if x is NONE else intconst(x)
            return Kst(v.v[slice(f(s.lo), f(s.hi), f(s.step))])
        if st != 1:
            return mk('stepslice', (v, s.lo, s.hi, s.step), v.ty if isinstance(v, N) else 'unk')
        if v.ty == 'str' or not isinstance(v, N):
            return mk('strslice', (v, s.lo, s.hi), 'str')
        lo = num(0) if s.lo is NONE else s.lo
        hi = n if s.hi is NONE else s.hi
        if not isinstance(lo, N) or not isinstance(hi, N):
            return mk('slice', (v, lo, hi), 'arr', opaque=True)
        return f_slice(v, _neg(lo, n), _neg(hi, n))

    def get_item(self, v, k):
        if isinstance(v, Dct):
            if k in v.d:
                return v.d[k]
            self.event('keyerror', repr(k), extra=sorted(map(str, v.d)))
            return mk('missingkey', (k,), 'unk', opaque=True)
        a = as_atom(v)
        if a is not None:
            if a.ty == 'Stats':
                return self.get_attr(v, k)
            if a.op == 'ite':
                return f_ite(a.args[0], self.get_item(a.args[1], k), self.get_item(a.args[2], k))
            ty = 'unk'
            sch = self.schemas.get(a.ty) if hasattr(self, 'schemas') else None
            if sch:
                ty = sch.get(k, 'unk')
            r = self.path_load('item', v, k)
            if r is not None:
                return r
            if a.ty in getattr(self, 'schemas', {}):
                self.event('item_read', str(k), [v])
                if isinstance(sch, dict) and k not in sch and sch.get('*closed'):
                    self.event('keyerror', repr(k), extra=sorted(sch))
            return mk('item', (v, k), ty)
        return mk('item', (v, k), 'unk', opaque=True)

    # ------------------------------------------------------------ paths
    def path_load(self, kind, obj, name):
        """Value last stored at obj.name / obj[name], or None."""
        res = []
        for st in reversed(self.pstores):
            if st['kind'] != kind or st['name'] != name:
                continue
            m = {}
            if unify(st['obj'], obj, st['bids'], m):
                v = subst(st['val'], m)
                g = subst(st['guard'], m) if isinstance(st['guard'], N) else st['guard']
                if g is TRUE:
                    for gg, vv in reversed(res):
                        v = f_ite(gg, vv, v)
                    return v
                res.append((g, v))
        if res:
            a = as_atom(obj)
            v = mk('attr' if kind == 'attr' else 'item', (obj, name), attr_ty(a.ty if a else 'unk', name))
            for gg, vv in reversed(res):
                v = f_ite(gg, vv, v)
            return v
        return None

    def path_store(self, kind, obj, name, val, node=None):
        self.pstores.append(dict(kind=kind, obj=obj, name=name, val=self.fz(val),
                                 guard=TRUE, bids=set(), loops=(), seq=len(self.pstores),
                                 loc=(self.file(), getattr(node or self.cur, 'lineno', 0))))

    def open_stores(self, n0, bs, c=None):
        """Stores made since n0 happened for every value of the binders bs (where c holds)."""
        ids = {bid(b) for b in bs}
        for i in range(n0, len(self.pstores)):
            q = dict(self.pstores[i])
            q['bids'] = set(q['bids']) | ids
            if c is not None and c is not TRUE:
                q['guard'] = f_and(q['guard'], c)
            self.pstores[i] = q

    def get_attr(self, v, name):
        """Attribute of a frozen non-heap value."""
        if isinstance(v, Mod):
            return self.mod_attr(v, name)
        if isinstance(v, Cls):
            m = v.members.get(name)
            if isinstance(m, Fn):
                if any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in m.node.decorator_list):
                    return Fn(m.node, m.module, m.qual, m.closure, None, v)
                return m
            if m is not None:
                return self.class_value(m)
            if name == '__name__':
                return Kst(v.node.name)
            return BM(v, name)
        if isinstance(v, Tup) and v.kind == 'array':
            from .libtab import transpose
            deep = [f_len(x) for x in v.items if isinstance(x, Tup) or isinstance(x, N) and x.ty in ARR]
            sh = [num(len(v.items))] + deep[:1]
            if name == 'T':
                return transpose(v)
            if name == 'shape':
                return Tup(sh)
            if name == 'size':
                return prod(sh)
            if name == 'ndim':
                return num(len(sh))
            return BM(v, name)
        if isinstance(v, N):
            a = as_atom(v)
            if name == 'real':
                return f_real(v)
            if name == 'T':
                from .libtab import transpose
                return transpose(v) if a is not None else mk('T', (v,), v.ty)
            if name == 'size' and v.ty in ARR:
                return f_len(v)
            if name == 'shape':
                if v.ty == 'arr':
                    return Tup([f_len(v)])
                if a is not None and a.op == 'table':
                    return Tup([f_len(v), num(len(a.args))])
                return Tup([f_len(v), mk('shape1', (v,), 'num')])
            if a is None:
                return BM(v, name)
            if a.op == 'ite':
                return f_ite(a.args[0], self.get_attr(a.args[1], name), self.get_attr(a.args[2], name))
            r = self.path_load('attr', v, name)
            if r is not None:
                return r
            if a.op == 'inst' and len(a.args) >= 2 and isinstance(a.args[-1], Dct):
                if name in a.args[-1].d and len(a.args) == 2:
                    return a.args[-1].d[name]
                if '**' in a.args[-1].d and a.args[0] == 'Stats':
                    return self.get_attr(a.args[-1].d['**'], name)
            if a.ty == 'Stats':
                tr = as_atom(v).args[0] if a.op == 'attr' else None
                if name == 'npts' and tr is not None:
                    return f_len(self.get_attr(tr, 'data'))
                if name == 'sampling_rate':
                    return inv(self.get_attr(v, 'delta'))
            if a.ty == 'Trace' and name in ('slowness',):
                pass
            if name in OBJ_METHODS:
                return BM(v, name)
            if a.op == 'lib' and a.ty == 'unk':
                return mk('attr', (v, name), 'unk')
            return mk('attr', (v, name), attr_ty(a.ty, name))
        return BM(v, name)

    def class_value(self, expr):
        v = self.clsvals.get(id(expr))
        if v is None:
            return self.ev(expr)
        if isinstance(v, Ref) and v.id not in self.heap:
            self.heap[v.id] = self.defobjs[v.id]
        return v

    def mod_attr(self, v, name):
        full = v.name + '.' + name
        if full == 'os.environ':
            self.event('impure', 'os.environ')
        if v.name in self.modules:
            mm = self.module(v.name)
            if name in mm.env:
                return mm.env[name]
            if full in self.modules:
                return Mod(full)
            return Mod(full)
        if v.name == self.package and full in self.modules:
            return Mod(full)
        return self.lib_const(full) or Mod(full)

    def lib_const(self, full):
        if full in ('numpy.pi', 'math.pi', 'scipy.pi'):
            return PI
        if full in ('numpy.inf', 'math.inf', 'numpy.Inf', 'numpy.infty'):
            return INF
        if full in ('numpy.nan', 'math.nan', 'numpy.NaN'):
            return mk('nan', (), 'num')
        if full in ('numpy.newaxis',):
            return NONE
        return None


def _neg(x, n):
    k = intconst(x)
    if k is not None and k < 0:
        return add(n, x)
    # -1 - something: symbolic negatives with negative leading constant only
    return x


def unify(p, t, bids, m):
    """Match pattern p (free in bids) with t; bindings go to m."""
    late = []
    if not _unify(p, t, bids, m, late):
        return False
    # sums and products: equal once the rest of the pattern has fixed the binders
    for x, y in late:
        if equal(subst(x, m), y):
            continue
        if not any(i in bids and i not in m for i in atoms_in(x)) or not _unify_sum(x, y, bids, m):
            return False
    return True


def _unify_sum(x, y, bids, m):
    tops = {i for mono in y.t for i, _ in mono}
    for i in sorted({i for mono in x.t for i, _ in mono}):
        if not any(j in bids and j not in m for j in atoms_in(from_atom(atom_of(i)))):
            continue
        for k in sorted(tops):
            m2 = dict(m)
            if atom_of(k).op == atom_of(i).op and unify(from_atom(atom_of(i)), from_atom(atom_of(k)), bids, m2) \
                    and equal(subst(x, m2), y):
                m.update(m2)
                return True
    return False


def _unify(p, t, bids, m, late):
    if isinstance(p, N) and isinstance(t, N):
        pa = as_atom(p)
        if pa is not None and pa.id in bids:
            if pa.id in m:
                return equal(m[pa.id], t)
            m[pa.id] = t
            return True
        if p.key() == t.key():
            return True
        ta = as_atom(t)
        if pa is None:
            if not any(i in bids for i in atoms_in(p)):
                return False
            late.append((p, t))
            return True
        if ta is None or pa.op != ta.op or len(pa.args) != len(ta.args):
            return False
        for x, y in zip(pa.args, ta.args):
            if isinstance(x, Val) and isinstance(y, Val):
                if not _unify(x, y, bids, m, late):
                    return False
            elif x != y:
                return False
        return True
    if isinstance(p, Dct) and isinstance(t, Dct):
        return p.d.keys() == t.d.keys() and all(_unify(p.d[k], t.d[k], bids, m, late) for k in p.d)
    if isinstance(p, Tup) and isinstance(t, Tup):
        return p.kind == t.kind and len(p.items) == len(t.items) and \
            all(_unify(x, y, bids, m, late) for x, y in zip(p.items, t.items))
    return p.key() == t.key()


OBJ_METHODS = set('''copy stack select filter trim sort detrend normalize taper decimate resample
 rotate times slice append extend pop remove insert write merge attach_response interpolate
 integrate differentiate deconvolve rf moveout plot plot_rf mean max min sum std var argmax argmin
 astype reshape ravel flatten tolist conjugate conj clip dot round cumsum any all fill
 get keys values items update setdefault format join split lower upper strip replace startswith endswith
 map imap starmap apply apply_async map_async close terminate join imap_unordered starmap_async
 get_travel_times get_ray_paths run_fwd run_deconvolution set_xlabel set_ylabel
 read index count put repeat searchsorted nonzero transpose squeeze item'''.split())
