"""Expression evaluation."""
import ast
import builtins
from .terms import *
from .terms import _ATOMS
from .ops import *
from .heap import *


def attr_ty(b, n):
    from .interp import attr_ty as f
    return f(b, n)

BUILTINS = set(dir(builtins))


class EvalMixin:

    def ev(self, node):
        saved = self.cur
        self.cur = node
        try:
            f = getattr(self, 'ev_' + type(node).__name__, None)
            if f is None:
                return self.opaque('expression %s' % type(node).__name__, node)
            return f(node)
        finally:
            self.cur = saved

    def rv(self, v):
        """Resolve to a value usable in arithmetic."""
        if isinstance(v, (Ref, View, It)):
            return self.fz(v)
        return v

    # ---- leaves
    def ev_Constant(self, n):
        v = n.value
        if v is None or isinstance(v, (bool, str, bytes)):
            if v is True:
                return TRUE
            if v is False:
                return FALSE
            if v is None:
                return NONE
            return Kst(v)
        if v is Ellipsis:
            return FULL
        return num(v)

    def ev_Name(self, n):
        name = n.id
        v = self.lookup(name, n)
        return v

    def lookup(self, name, node=None):
        fr = self.frames[-1] if self.frames else None
        if name in self.env:
            v = self.env[name]
            if v is UNBOUND:
                self.event('unbound', name, node=node, extra='definite')
                return mk('unboundvar', (name,), 'unk', opaque=True)
            a = as_atom(v)
            if a is not None and a.op == 'ite' and UNBOUND in (a.args[1], a.args[2]):
                self.event('unbound', name, [v], node=node, extra='maybe')
                return a.args[1] if a.args[2] is UNBOUND else a.args[2]
            return v
        if fr is not None and name in fr.locals:
            self.event('unbound', name, node=node, extra='definite')
            return mk('unboundvar', (name,), 'unk', opaque=True)
        f = fr.fn if fr else None
        c = f.closure if f else None
        while c is not None:
            if name in c[0]:
                return c[0][name]
            c = c[1]
        m = fr.module if fr else None
        if m is not None and name in m.env:
            return m.env[name]
        if name in BUILTINS:
            return Mod('builtins.' + name)
        if name == '__file__' and m is not None:
            pk, _, base = m.name.rpartition('.')
            return mkstr([('', mk('pkgdir', (pk or m.name,), 'str')), '/' + (base or '__init__') + '.py'])
        if name == '__name__':
            return Kst(m.name if m is not None else name)
        self.event('unbound', name, node=node, extra='undefined')
        return mk('undefined', (name,), 'unk', opaque=True)

    def ev_JoinedStr(self, n):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                spec = ''
                if p.format_spec is not None:
                    s = self.ev(p.format_spec)
                    spec = s.v if isinstance(s, Kst) else show(s)
                parts.append((spec, self.fz(self.ev(p.value))))
        return mkstr(parts)

    def ev_FormattedValue(self, n):
        return mkstr([('', self.fz(self.ev(n.value)))])

    def ev_Tuple(self, n):
        return Tup(self.ev_items(n.elts), 'tuple')

    def ev_items(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.concrete(self.ev(e.value))
                if v is None:
                    out.append(self.opaque('starred of unknown length', e))
                else:
                    out.extend(v)
            else:
                out.append(self.ev(e))
        return out

    def ev_List(self, n):
        return self.alloc(HList([('item', v) for v in self.ev_items(n.elts)]))

    def ev_Set(self, n):
        return self.alloc(HList([('item', v) for v in self.ev_items(n.elts)], 'set'))

    def ev_Dict(self, n):
        d = {}
        unknown, other = False, []
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v)
                oo = self.heap.get(o.id) if isinstance(o, Ref) else None
                if isinstance(oo, HDict):
                    d.update(oo.d)
                    unknown |= oo.unknown
                elif isinstance(o, Dct):
                    d.update(o.d)
                else:
                    unknown = True
                continue
            kv = self.fz(self.ev(k))
            vv = self.ev(v)
            kk = self.dkey(kv)
            if kk is None:
                other.append((kv, vv))
            else:
                d[kk] = vv
        return self.alloc(HDict(d, unknown or bool(other), () if unknown else tuple(other)))

    def dkey(self, kv):
        if isinstance(kv, Kst):
            return kv.v
        c = const(kv)
        if c is not None:
            return ('#', c)
        return None

    # ---- dictionaries that remember values computed for a key (memo tables)
    def memo_load(self, ref, o, key):
        """What a memo table holds under a key: the value of the first round with that key."""
        k = self.fz(key)
        for kk, v in o.memo:
            if not equal(kk, k):
                continue
            mine = atoms_in(k)
            live = self.loops[self.born.get(ref.id, 0):]
            fz = self.fz(v)
            gone = {bid(b): num(0) for b, _ in live if bid(b) not in mine and bid(b) in atoms_in(fz)}
            return subst(fz, gone) if gone else v
        return None

    def memo_store(self, ref, o, key, v):
        k = self.fz(key)
        rest = tuple(x for x in o.memo if not equal(x[0], k))
        self.heap[ref.id] = HDict(o.d, True, rest + ((k, v),))

    def memo_open(self, o):
        return not o.d and (not o.unknown or bool(o.memo))

    def memo_test(self, n, ref, o, key):
        """`key in table` where the table is filled when the key is missing: as on the first round."""
        if not self.memo_open(o):
            return None
        if any(equal(k, self.fz(key)) for k, _ in o.memo):
            return TRUE
        fn = self.frames[-1].fn.node if self.frames and self.frames[-1].fn else None
        t = ast.unparse(n.comparators[0])

        def stores(b):
            return any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and ast.unparse(x.value) == t
                       for s in b for x in ast.walk(s))

        def loads(b):
            return any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and ast.unparse(x.value) == t
                       for s in b for x in ast.walk(s))
        for x in ast.walk(fn) if fn is not None else ():
            if isinstance(x, ast.If) and x.test is n:
                miss, hit = (x.body, x.orelse) if isinstance(n.ops[0], ast.NotIn) else (x.orelse, x.body)
                if stores(miss) or hit and loads(hit) and stores(getattr(fn, 'body', [])):
                    return FALSE
        return None

    def ev_Starred(self, n):
        return self.opaque('starred', n)

    def ev_Lambda(self, n):
        m = self.frames[-1].module
        return Fn(n, m, '%s.<lambda>' % m.name, (self.env, self.frames[-1].fn.closure if self.frames[-1].fn else None),
                  self.eval_defaults(n.args))

    def ev_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def ev_Await(self, n):
        return self.opaque('await', n)

    # ---- operators
    def ev_UnaryOp(self, n):
        v = self.rv(self.ev(n.operand))
        if isinstance(n.op, ast.Not):
            return f_not(truth(v))
        if isinstance(n.op, ast.Invert):
            if isinstance(v, Kst) and isinstance(v.v, bool):
                return FALSE if v.v else TRUE
            return f_not(v)
        if isinstance(v, Tup):
            return Tup([self.uminus(x) if isinstance(n.op, ast.USub) else x for x in v.items], v.kind)
        v = self.tonum(v)
        if isinstance(n.op, ast.USub):
            return neg(v)
        return v

    def uminus(self, x):
        return neg(self.tonum(self.rv(x)))

    def tonum(self, v):
        if isinstance(v, N):
            return v
        if isinstance(v, Kst) and isinstance(v.v, bool):
            return num(int(v.v))
        if isinstance(v, (Ref, View, It)):
            return self.tonum(self.fz(v))
        return mk('nonnum', (v,), 'unk', opaque=True)

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
           ast.Mod: '%', ast.Pow: '**', ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|',
           ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}

    def ev_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(self.OPS[type(n.op)], a, b, n)

    def listobj(self, v):
        if isinstance(v, Ref) and isinstance(self.heap.get(v.id), HList):
            return self.heap[v.id]
        return None

    def binop(self, op, a, b, node=None):
        # strings
        if op == '%' and (isinstance(a, StrV) or isinstance(a, Kst) and isinstance(a.v, str)):
            return self.str_mod(a, b, node)
        if op == '+' and (a.ty == 'str' or b.ty == 'str'):
            return mkstr(strparts(self.fz(a)) + strparts(self.fz(b)))
        if op == '/' and (a.ty == 'path'):
            return self.path_join([a, b])
        la, lb = self.listobj(a), self.listobj(b)
        if op == '+' and (la is not None or lb is not None):
            if la is not None and (lb is not None or not (isinstance(b, N) and (b.ty in ARR or b.ty == 'num'))) \
                    and not isinstance(b, Tup):
                segs = la.segs + (lb.segs if lb is not None else (('splat', self.fz(b)),))
                return self.alloc(HList(segs, la.kind))
            if lb is not None and isinstance(a, N) and a.ty in ('Stream', 'RFStream', 'list'):
                return self.alloc(HList((('splat', a),) + lb.segs, lb.kind))
        if op == '*' and la is not None and isinstance(b, N):
            k = intconst(b)
            if k is not None and k <= 64:
                return self.alloc(HList(la.segs * k, la.kind))
            if len(la.segs) == 1 and la.segs[0][0] == 'item':
                fb = fresh_binder()
                return self.alloc(HList([('comp', (fb,), (b,), la.segs)]))
            return self.opaque('list repetition', node)
        a, b = self.rv(a), self.rv(b)
        if a is NONE or b is NONE:
            self.event('typeerror', 'None used as a number', [a, b], node=node)
            return mk('none_operand', (op, a, b), 'num', opaque=True)
        if isinstance(a, Tup) or isinstance(b, Tup):
            return self.tup_op(op, a, b, node)
        if op in '&|' and not (const(a) is not None and const(b) is not None):
            return f_and(truthy(a), truthy(b)) if op == '&' else f_or(truthy(a), truthy(b))
        x, y = self.tonum(a), self.tonum(b)
        r = self.arith(op, x, y, node)
        if isinstance(r, N) and r.ty not in ('num', 'time', 'int', 'float', 'bool', 'str') and root_of(r) is not None:
            return self.fresh_array(r)       # x * 1.0 has the values of x, in a new array
        return r

    def arith(self, op, x, y, node=None):
        if op == '+':
            r = add(x, y)
        elif op == '-':
            r = sub(x, y)
        elif op == '*':
            r = mul(x, y)
        elif op == '/':
            if isinstance(y, N) and not y.t:
                return self.opaque('division by zero', node)
            r = div(x, y)
        elif op == '**':
            r = power(x, y)
        elif op == '<<':
            r = mul(x, power(num(2), y))
        elif op in ('//', '>>'):
            r = f_floor(div(x, y if op == '//' else power(num(2), y)))
        elif op == '%':
            r = mk('mod', (x, y), join_ty([x.ty, y.ty]))
            cx, cy = const(x), const(y)
            if cx is not None and cy:
                r = num(cx - cy * (cx // cy))
        elif op == '@':
            return self.matmul(x, y)
        else:
            return self.opaque('operator %s' % op, node)
        if op in '+-' and len(r.t) > 1 and r.ty in ARR:
            r = drop_zero_fill(r)
        if r.ty in ARR:
            r = pointwise(r)
        # a fresh object per operation: object identity tracks aliasing
        return N(r.t)

    def matmul(self, x, y):
        if isinstance(x, Tup) and isinstance(y, Tup):
            try:
                rows = []
                for r in x.items:
                    row = []
                    for j in range(len(y.items[0].items)):
                        s = num(0)
                        for k in range(len(r.items)):
                            s = add(s, mul(r.items[k], y.items[k].items[j]))
                        row.append(s)
                    rows.append(Tup(row, 'array'))
                return Tup(rows, 'array')
            except (AttributeError, IndexError, TypeError):
                pass
        return mk('matmul', (x, y), 'arr2')

    def tup_op(self, op, a, b, node):
        if op == '@':
            return self.matmul(a, b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if op == '+' and a.kind in ('tuple', 'list') and b.kind in ('tuple', 'list'):
                return Tup(a.items + b.items, a.kind)
            if len(a.items) == len(b.items):
                return Tup([self.binop(op, x, y, node) for x, y in zip(a.items, b.items)], 'array')
        if isinstance(a, Tup) and isinstance(b, N):
            k = intconst(b)
            if op == '*' and a.kind in ('tuple', 'list') and k is not None:
                return Tup(a.items * k, a.kind)
            if b.ty not in ARR or a.kind == 'array':
                return Tup([self.binop(op, x, b, node) for x in a.items], 'array')
        if isinstance(b, Tup) and isinstance(a, N):
            if a.ty not in ARR:
                return Tup([self.binop(op, a, x, node) for x in b.items], 'array')
        return self.opaque('tuple arithmetic', node)

    def str_mod(self, a, b, node):
        if isinstance(a, StrV):
            return self.opaque('dynamic format string', node, 'str')
        fmt = a.v
        vals = list(b.items) if isinstance(b, Tup) and b.kind in ('tuple', 'row') else [b]
        parts = []
        i = 0
        k = 0
        import re
        pos = 0
        for m in re.finditer(r'%(\(\w+\))?([#0\- +]*\d*(?:\.\d+)?)([a-zA-Z%])', fmt):
            parts.append(fmt[pos:m.start()])
            pos = m.end()
            if m.group(3) == '%':
                parts.append('%')
                continue
            if m.group(1):
                src = self.get_item(self.fz(b), m.group(1)[1:-1])
            else:
                if k >= len(vals):
                    self.event('formaterror', fmt, node=node)
                    return self.opaque('format arity', node, 'str')
                src = vals[k]
                k += 1
            spec = m.group(2) + ('' if m.group(3) in 'sr' and not m.group(2) else m.group(3))
            parts.append((spec, self.fz(src)))
        parts.append(fmt[pos:])
        if k < len(vals) and not isinstance(b, Dct):
            if isinstance(b, Tup):
                self.event('formaterror', fmt, node=node)
        return mkstr(parts)

    def path_join(self, vs):
        parts = []
        for i, v in enumerate(vs):
            p = strparts(self.fz(v))
            if p and isinstance(p[0], str) and p[0].startswith('/'):
                parts = list(p)          # an absolute component discards what stands before it
                continue
            if i:
                if parts and isinstance(parts[-1], str) and parts[-1].endswith('/'):
                    pass
                else:
                    parts.append('/')
            parts.extend(p)
        return mkstr(parts)

    def ev_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        vals = []
        for i, e in enumerate(n.values):
            v = self.rv(self.ev(e)) if i < len(n.values) - 1 or vals else self.ev(e)
            t = truth(v)
            if isand:
                if t is FALSE:
                    vals.append((FALSE, v))
                    break
                if t is TRUE and i < len(n.values) - 1:
                    continue
            else:
                if t is TRUE:
                    vals.append((TRUE, v))
                    break
                if t is FALSE and i < len(n.values) - 1:
                    continue
            vals.append((t, v))
        if len(vals) == 1:
            return vals[0][1]
        if all(self.isbool(v) for _, v in vals):
            ts = [t for t, _ in vals]
            return f_and(*ts) if isand else f_or(*ts)
        r = vals[-1][1]
        for t, v in reversed(vals[:-1]):
            r = f_ite(t, r, v) if isand else f_ite(t, v, r)
        return r

    def isbool(self, v):
        if isinstance(v, Kst) and isinstance(v.v, bool):
            return True
        a = as_atom(v)
        return a is not None and a.op in BOOLOPS

    def ev_IfExp(self, n):
        c = truth(self.rv(self.ev(n.test)))
        if c is TRUE:
            return self.ev(n.body)
        if c is FALSE:
            return self.ev(n.orelse)
        self.guards.append(c)
        a = self.ev(n.body)
        self.guards[-1] = f_not(c)
        b = self.ev(n.orelse)
        self.guards.pop()
        return f_ite(c, self.fz(a), self.fz(b))

    CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=',
           ast.Is: '==', ast.IsNot: '!='}

    def ev_Compare(self, n):
        left = self.ev(n.left)
        conds = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            conds.append(self.compare(op, left, right, n))
            left = right
        return f_and(*conds) if len(conds) > 1 else conds[0]

    def compare(self, op, a, b, node):
        if isinstance(op, (ast.In, ast.NotIn)):
            r = None
            if isinstance(b, Ref) and isinstance(self.heap.get(b.id), HDict) and isinstance(node, ast.Compare) and len(node.ops) == 1:
                if self.dkey(self.rv(a)) is None:
                    r = self.memo_test(node, b, self.heap[b.id], a)
            r = self.contains(b, a) if r is None else r
            return r if isinstance(op, ast.In) else f_not(r)
        o = self.CMP[type(op)]
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is NONE or b is NONE:
                return self.is_none(b if a is NONE else a, o)
        a, b = self.rv(a), self.rv(b)
        if a is NONE or b is NONE:
            if o in ('==', '!='):
                return self.is_none(b if a is NONE else a, o)
        if isinstance(a, Tup) and isinstance(b, N) or isinstance(a, N) and isinstance(b, Tup):
            return self.opaque('tuple comparison', node)
        if isinstance(a, Kst) and isinstance(a.v, bool) and isinstance(b, N) and const(b) is not None:
            a = num(int(a.v))
        return cmp(o, a, b)

    def is_none(self, v, o):
        if v is NONE:
            r = TRUE
        else:
            v = self.rv(v)
            a = as_atom(v)
            if a is not None and a.op == 'ite':
                r = self.none_of(a)
            elif a is not None and a.opaque:
                r = mk('same', (v, NONE), 'num')
            else:
                r = FALSE
        return r if o == '==' else f_not(r)

    def none_of(self, a):
        def side(x):
            if x is NONE:
                return TRUE
            y = as_atom(x)
            if y is not None and y.op == 'ite':
                return self.none_of(y)
            return FALSE
        c, x, y = a.args
        p, q = side(x), side(y)
        return f_or(f_and(c, p), f_and(f_not(c), q))

    def contains(self, cont, x):
        x = self.rv(x)
        if isinstance(cont, Ref):
            o = self.heap[cont.id]
            if isinstance(o, HDict) and not o.unknown:
                k = self.dkey(x)
                if k is not None:
                    return TRUE if k in o.d else FALSE
        c = self.rv(cont)
        if isinstance(c, Dct):
            k = self.dkey(x)
            if k is not None:
                return TRUE if k in c.d else FALSE
        if isinstance(c, Tup):
            return f_or(*[cmp('==', x, i) for i in c.items]) if c.items else FALSE
        if isinstance(c, Kst) and isinstance(c.v, str) and isinstance(x, Kst) and isinstance(x.v, str):
            return TRUE if x.v in c.v else FALSE
        a = as_atom(c)
        if a is not None and a.op == 'setof':
            return self.contains(a.args[0], x)
        return mk('in', (x, c), 'num')

    # ---- access
    def ev_Attribute(self, n):
        v = self.ev(n.value)
        return self.load_attr(v, n.attr, n)

    def own_only(self, cls):
        """All attributes of an instance come from code the analysis sees."""
        return '__getattr__' not in cls.members and '__getattribute__' not in cls.members and \
            all(isinstance(b, Cls) and self.own_only(b) or getattr(b, 'name', '') in ('object', 'builtins.object')
                for b in cls.bases)

    def load_attr(self, v, name, node=None, default=None):
        if isinstance(v, Ref):
            o = self.heap.get(v.id)
            if isinstance(o, HInst):
                if name in o.fields:
                    return o.fields[name]
                if isinstance(o.cls, Cls):
                    m = self.find_member(o.cls, name)
                    if isinstance(m, Fn):
                        decos = [d.id for d in m.node.decorator_list if isinstance(d, ast.Name)]
                        if 'property' in decos:
                            return self.call_fn(Fn(m.node, m.module, m.qual, m.closure, None, v), [], {}, node)
                        if 'staticmethod' in decos:
                            return m
                        if 'classmethod' in decos:
                            return Fn(m.node, m.module, m.qual, m.closure, None, o.cls)
                        return Fn(m.node, m.module, m.qual, m.closure, None, v)
                    if m is not None:
                        return self.class_value(m)
                    if default is not None:
                        return default
                    if not name.startswith('__') and self.own_only(o.cls) and \
                            not any(e.kind == 'raise' and not e.guards for e in self.events):
                        self.event('missingattr', name, node=node, extra=o.cls.qual)
                        return mk('missing', (o.cls.qual, name))
                    return BM(v, name)
                if o.cls == 'Stats' and '**' in o.fields and not o.hist and not name.startswith('__') and name not in ('copy', 'update', 'get', 'items', 'keys'):
                    return self.get_attr(self.fz(o.fields['**']), name)
                c = self.class_of(o.cls)
                if c is not None and not isinstance(self.find_member(c, name), Fn):
                    fv = self.fz(v)
                    r = self.path_load('attr', fv, name)
                    return r if r is not None else mk('attr', (fv, name), attr_ty(str(o.cls).split('.')[-1], name))
                return BM(v, name)
            if isinstance(o, HArr):
                if name == 'shape':
                    if o.shape is not None:
                        return Tup(list(o.shape))
                if name == 'size' and o.shape is not None:
                    return prod(list(o.shape))
                if name == 'ndim' and o.shape is not None:
                    return num(len(o.shape))
                if name in ('real',):
                    return f_real(self.fz(v)) if isinstance(self.fz(v), N) else v
                if name == 'T':
                    return self.get_attr(self.fz(v), name)
                return BM(v, name)
            if isinstance(o, HList) and name == 'traces':
                return v
            return BM(v, name)
        if isinstance(v, View):
            if name in ('shape', 'size', 'real', 'ndim', 'T'):
                return self.get_attr(self.fz(v), name)
            return BM(v, name)
        if isinstance(v, Fn):
            if name in ('__name__',):
                return Kst(v.qual.split('.')[-1])
            return mk('fnattr', (v, name), 'unk')
        if isinstance(v, It):
            return BM(v, name)
        if isinstance(v, (Mod, Cls, N)):
            return self.get_attr(v, name)
        if isinstance(v, Tup) and v.kind == 'array':
            return self.get_attr(v, name)
        return BM(v, name)

    def find_member(self, cls, name):
        if name in cls.members:
            return cls.members[name]
        for b in cls.bases:
            if isinstance(b, Cls):
                m = self.find_member(b, name)
                if m is not None:
                    return m
        return None

    def ev_Slice(self, n):
        lo = self.rv(self.ev(n.lower)) if n.lower is not None else NONE
        hi = self.rv(self.ev(n.upper)) if n.upper is not None else NONE
        st = self.rv(self.ev(n.step)) if n.step is not None else NONE
        if intconst(st) == 1:
            st = NONE
        if (lo is NONE or intconst(lo) == 0) and hi is NONE and st is NONE:
            return FULL
        return Slc(lo, hi, st)

    def eval_index(self, node):
        if isinstance(node, ast.Tuple):
            return [self.norm_idx(self.ev(e)) for e in node.elts]
        v = self.ev(node)
        if isinstance(v, Tup) and v.kind == 'tuple':
            return [self.norm_idx(x) for x in v.items]
        return [self.norm_idx(v)]

    def norm_idx(self, v):
        v = self.rv(v)
        if isinstance(v, Kst) and isinstance(v.v, bool):
            return num(int(v.v))
        if isinstance(v, Tup) and len(v.items) == 1 and as_atom(v.items[0]) is not None \
                and as_atom(v.items[0]).op == 'whereidx':
            return v.items[0]
        return v

    def ev_Subscript(self, n):
        v = self.ev(n.value)
        idx = self.eval_index(n.slice)
        return self.load_index(v, idx, n)

    def load_index(self, v, idx, node=None):
        if isinstance(v, Ref):
            o = self.heap.get(v.id)
            if isinstance(o, HDict):
                k = self.dkey(idx[0]) if len(idx) == 1 else None
                if k is not None and k in o.d:
                    return o.d[k]
                if o.memo:
                    m = self.memo_load(v, o, idx[0] if len(idx) == 1 else Tup(list(idx)))
                    if m is not None:
                        return m
                if k is not None and not o.unknown:
                    self.event('keyerror', repr(k), node=node, extra=sorted(map(str, o.d)))
                    return mk('missingkey', (str(k),), 'unk', opaque=True)
                return mk('dictget', (self.fz(v), idx[0]), 'unk', opaque=True)
            if isinstance(o, HList):
                if o.kind == 'Stats':
                    pass
                i = idx[0]
                if len(idx) == 1 and all(s[0] == 'item' for s in o.segs):
                    k = intconst(i) if isinstance(i, N) else None
                    if k is not None and -len(o.segs) <= k < len(o.segs):
                        return o.segs[k][1]
                    if isinstance(i, Slc) or i is FULL:
                        t = self.slice_val(Tup([s[1] for s in o.segs], 'list'), i) if i is not FULL else None
                        if i is FULL:
                            return self.alloc(HList(o.segs, o.kind))
                        if isinstance(t, Tup):
                            return self.alloc(HList([('item', x) for x in t.items], o.kind))
                fv = self.fz(v)
                if isinstance(i, N) and intconst(i) is not None and as_atom(fv) is not None \
                        and as_atom(fv).op == 'concat':
                    k = intconst(i)
                    segs = list(o.segs)
                    if k >= 0 and all(s[0] == 'item' for s in segs[:k + 1]) and len(segs) > k:
                        return segs[k][1]
                    if k < 0 and all(s[0] == 'item' for s in segs[k:]) and len(segs) >= -k:
                        return segs[k][1]
                return self.val_index(fv, idx)
            if isinstance(o, HArr):
                self.log_arr('load', v, idx)
                if any(not isinstance(i, N) or i.ty in ARR for i in idx) or \
                        (o.shape is not None and len(idx) < len(o.shape)):
                    return View(v, idx)
                return self.arr_index(o, idx)
            if isinstance(o, HInst):
                if isinstance(idx[0], Kst) and isinstance(idx[0].v, str) and idx[0].v in o.fields:
                    return o.fields[idx[0].v]
            return self.val_index(self.fz(v), idx)
        if isinstance(v, View):
            full = compose_idx(v.idx, idx)
            if full is not None:
                b = v.base
                self.log_arr('load', b, full)
                if any(not isinstance(i, N) or i.ty in ARR for i in full):
                    return View(b, full)
                return self.fz_view(View(b, full))
            return self.val_index(self.fz(v), idx)
        if isinstance(v, N):
            a = as_atom(v)
            if isinstance(idx[0], Kst) and isinstance(idx[0].v, str) and idx[0] is not FULL:
                return self.get_item(v, idx[0].v)
            if a is not None and root_of(v) is not None and a.ty in ('arr', 'arr2', 'unk'):
                if self.path_arr(v) is not None or any(not isinstance(i, N) or i.ty in ARR for i in idx):
                    self.log_arr('load', v, idx)
                    if any(not isinstance(i, N) or i.ty in ARR for i in idx) or (a.ty == 'arr2' and len(idx) == 1):
                        return View(v, idx)
                    return self.fz_view(View(v, idx))
                if a.ty == 'arr2' and len(idx) == 1:
                    return View(v, idx)
            return self.val_index(v, idx)
        if isinstance(v, Tup) and len(idx) == 1:
            i = idx[0]
            k = intconst(i) if isinstance(i, N) else None
            if k is not None:
                if -len(v.items) <= k < len(v.items):
                    return v.items[k]
                self.event('indexerror', str(k), node=node)
                return mk('badindex', (v, i), 'unk', opaque=True)
            if isinstance(i, Slc):
                return self.slice_val(v, i)
            if i is FULL:
                return v
        if isinstance(v, Dct):
            k = self.dkey(idx[0])
            if k is not None and k in v.d:
                return v.d[k]
            self.event('keyerror', repr(k), node=node, extra=sorted(map(str, v.d)))
            return mk('missingkey', (str(k),), 'unk', opaque=True)
        if isinstance(v, Mod) and v.name in ('numpy.r_', 'numpy.c_'):
            vs = [self.rv(i) for i in idx]
            if v.name.endswith('r_') and all(isinstance(x, N) for x in vs):
                return mk('concatv', tuple(vs), 'arr')
            if v.name.endswith('c_') and all(isinstance(x, N) for x in vs):
                return mk('table', tuple(vs), 'table')
            return self.opaque('numpy.%s' % v.name, node)
        if isinstance(v, Kst) and v is NONE:
            self.event('nonesub', '', node=node)
        return self.val_index(v, idx)

    def log_arr(self, kind, base, idx):
        if self.loops and self.arrlog is not None:
            k = base.id if isinstance(base, Ref) else ('path', as_atom(base).id) if as_atom(base) else None
            self.arrlog.append((kind, k, tuple(idx)))

    # ---- comprehensions
    def ev_ListComp(self, n):
        segs = self.comp_segs(n.generators, lambda: [('item', self.ev(n.elt))])
        return self.alloc(HList(segs))

    def ev_SetComp(self, n):
        segs = self.comp_segs(n.generators, lambda: [('item', self.ev(n.elt))])
        return self.alloc(HList(segs, 'set'))

    def ev_GeneratorExp(self, n):
        segs = self.comp_segs(n.generators, lambda: [('item', self.ev(n.elt))])
        return self.alloc(HList(segs, 'gen'))

    def ev_DictComp(self, n):
        d = {}
        unknown = [False]

        def body():
            k = self.dkey(self.fz(self.ev(n.key)))
            v = self.ev(n.value)
            if k is None:
                unknown[0] = True
            else:
                d[k] = v
            return []
        segs = self.comp_segs(n.generators, body)
        return self.alloc(HDict(d, unknown[0] or any(s[0] != 'item' for s in segs)))

    def comp_segs(self, gens, elt):
        saved = dict(self.env)
        try:
            return self._comp(list(gens), elt)
        finally:
            # comprehension variables are local
            self.env = {**self.env, **{k: v for k, v in saved.items()}}
            for g in gens:
                for nm in target_names(g.target):
                    if nm not in saved:
                        self.env.pop(nm, None)

    def _comp(self, gens, elt):
        if not gens:
            return elt()
        g = gens[0]
        itv = self.run_through(g.iter, self.ev(g.iter))
        items = self.concrete(itv)
        if items is not None and len(items) <= UNROLL:
            out = []
            for x in items:
                self.assign(g.target, x, quiet=True)
                c = TRUE
                for t in g.ifs:
                    c = f_and(c, truth(self.rv(self.ev(t))))
                if c is FALSE:
                    continue
                if c is not TRUE:
                    self.guards.append(c)
                inner = self._comp(gens[1:], elt)
                if c is not TRUE:
                    self.guards.pop()
                    inner = seg_if(c, inner)
                out.extend(inner)
            return out
        bs, ns, elem, c0 = self.domain(itv)
        self.loops.extend(zip(bs, ns))
        self.assign(g.target, elem, quiet=True)
        c = c0
        for t in g.ifs:
            c = f_and(c, truth(self.rv(self.ev(t))))
        if c is not TRUE:
            self.guards.append(c)
        n0 = len(self.pstores)
        inner = self._comp(gens[1:], elt)
        inner = [self.fz_seg(s) for s in inner]
        self.open_stores(n0, bs, c)
        if c is not TRUE:
            self.guards.pop()
            inner = seg_if(c, inner)
        for _ in bs:
            self.loops.pop()
        return [('comp', tuple(bs), tuple(ns), tuple(inner))]

    def fz_seg(self, s):
        if s[0] == 'item':
            return ('item', self.fz(s[1]))
        return s

    # ---- iteration
    def concrete(self, v):
        """Items of a value of known, small length; None otherwise."""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            o = self.heap.get(v.id)
            if isinstance(o, HList):
                if all(s[0] == 'item' for s in o.segs):
                    return [s[1] for s in o.segs]
                return None
            if isinstance(o, HDict) and not o.unknown:
                return [Kst(k) if not isinstance(k, tuple) else num(k[1]) for k in o.d]
            if isinstance(o, HArr):
                x = self.fz(v)
                if isinstance(x, Tup):
                    return list(x.items)
                return None
        if isinstance(v, Dct):
            return [Kst(k) if not isinstance(k, tuple) else num(k[1]) for k in v.d]
        if isinstance(v, It):
            if not v.bs and v.cond is TRUE:
                return [v.elem]
            return None
        if isinstance(v, N) and v.ty in ARR:
            n = intconst(f_len(v))
            if n is not None and n <= UNROLL:
                return [f_at(v, num(i)) for i in range(n)]
        if isinstance(v, View):
            return self.concrete(self.fz(v))
        if isinstance(v, Kst) and isinstance(v.v, str):
            return [Kst(c) for c in v.v]
        return None

    def unordered(self, o):
        return isinstance(o, HList) and o.kind == 'set' and not all(s[0] == 'item' for s in o.segs)

    def domain(self, v):
        """(binders, bounds, element, condition) of a symbolic iterable."""
        v0 = v
        if isinstance(v, It):
            fr = [fresh_binder() for _ in v.bs]
            ren = dict(zip([bid(b) for b in v.bs], fr))
            return fr, list(v.ns), subst(v.elem, ren), subst(v.cond, ren) if isinstance(v.cond, N) else v.cond
        if isinstance(v, Ref):
            o = self.heap.get(v.id)
            if self.unordered(o):
                v = o = mk('uset', (self.segs_val(o.segs),), 'list')
            if isinstance(o, HList) and len(o.segs) == 1 and o.segs[0][0] == 'comp':
                bs, ns, inner = [], [], o.segs
                cond = TRUE
                while len(inner) == 1 and inner[0][0] in ('comp', 'if'):
                    if inner[0][0] == 'comp':
                        bs += list(inner[0][1])
                        ns += list(inner[0][2])
                        inner = inner[0][3]
                    else:
                        cond = f_and(cond, inner[0][1])
                        inner = inner[0][2]
                if len(inner) == 1 and inner[0][0] == 'item':
                    fr = [fresh_binder() for _ in bs]
                    ren = dict(zip([bid(b) for b in bs], fr))
                    return fr, ns, subst(self.fz(inner[0][1]), ren), \
                        subst(cond, ren) if isinstance(cond, N) else cond
            if isinstance(o, HList) and len(o.segs) == 1 and o.segs[0][0] == 'splat':
                return self.domain(o.segs[0][1])
            if isinstance(o, HArr):
                n = o.shape[0] if o.shape is not None else None
                if n is not None:
                    b = fresh_binder()
                    return [b], [n], View(v, (b,)) if len(o.shape) > 1 else self.arr_index(o, (b,)), TRUE
            v = self.fz(v)
        if isinstance(v, View):
            v = self.fz(v)
        b = fresh_binder()
        if self.want_views and isinstance(v0, (Ref, N)) and isinstance(v, N):
            if isinstance(v0, Ref) and isinstance(self.heap.get(v0.id), HArr) and v.ty in ('table', 'rows', 'arr2') or \
                    isinstance(v0, N) and root_of(v) is not None and v.ty in ('table', 'rows', 'arr2', 'unk'):
                return [b], [f_len(v)], View(v0, (b,)), TRUE
        if isinstance(v, N):
            a = as_atom(v)
            if a is not None and a.op == 'comp' and len(a.args[0]) > 1:
                fr = [fresh_binder() for _ in a.args[0]]
                return fr, list(a.args[1]), subst(a.args[2], dict(zip(a.args[0], fr))), TRUE
            n = f_len(v)
            if a is not None and a.ty in ('table', 'rows', 'arr2'):
                return [b], [n], f_row(v, b), TRUE
            return [b], [n], f_at(v, b), TRUE
        return [b], [mk('iterlen', (v,), 'num', opaque=True)], \
            mk('iterelem', (v, b), 'unk', opaque=True), TRUE

    def to_it(self, v):
        bs, ns, e, c = self.domain(v)
        return It(bs, ns, e, c)

    # ---- calls
    def ev_Call(self, n):
        # method call on an object
        if isinstance(n.func, ast.Attribute):
            obj = self.ev(n.func.value)
            if isinstance(obj, Mod) and obj.name == 'builtins.super':
                pass
            f = self.load_attr(obj, n.func.attr, n.func)
        else:
            f = self.ev(n.func)
        args = self.ev_items(n.args)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                dd = self.fz(d)
                if isinstance(dd, Dct):
                    for kk in dd.d:
                        kw[kk] = dd.d[kk]
                else:
                    kw['**'] = dd
            else:
                kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw, n)

    def call(self, f, args, kw, node=None):
        saved = self.cur
        if node is not None:
            self.cur = node
        try:
            if isinstance(f, Fn):
                return self.call_fn(f, args, kw, node)
            if isinstance(f, Partial):
                k = dict(f.kw)
                k.update(kw)
                return self.call(f.fn, list(f.args) + list(args), k, node)
            if isinstance(f, Cls):
                return self.instantiate(f, args, kw, node)
            if isinstance(f, Mod):
                return self.call_lib(f.name, args, kw, node)
            if isinstance(f, BM):
                return self.call_method(f.obj, f.name, args, kw, node)
            a = as_atom(f)
            if a is not None and a.op == 'ite':
                self.guards.append(a.args[0])
                x = self.call(a.args[1], args, kw, node)
                self.guards[-1] = f_not(a.args[0])
                y = self.call(a.args[2], args, kw, node)
                self.guards.pop()
                return f_ite(a.args[0], self.fz(x), self.fz(y))
            if a is not None and a.op == 'attr':
                return self.call_method(a.args[0], a.args[1], args, kw, node)
            return self.opaque('call of unknown %s' % show(f)[:60], node)
        finally:
            self.cur = saved


UNROLL = 24


def truthy(v):
    if isinstance(v, N):
        return v
    return truth(v)


def target_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [x for e in t.elts for x in target_names(e)]
    if isinstance(t, ast.Starred):
        return target_names(t.value)
    return []


def drop_zero_fill(r):
    t = dict(r.t)
    for m in list(t):
        if len(m) == 1 and m[0][1] == 1:
            a = _ATOMS[m[0][0]]
            if a.op == 'fillv' and const(a.args[0]) is not None:
                c = t.pop(m)
                k = c * const(a.args[0])
                if k:
                    t[()] = t.get((), 0) + k
                    if not t[()]:
                        t.pop(())
    if not t or N(t).ty not in ARR:
        return r
    return N(t)


def compose_idx(outer, inner):
    """Index a basic view: returns the composed full index or None."""
    out = list(outer)
    inner = list(inner)
    pos = 0
    for j, o in enumerate(out):
        if o is FULL:
            if not inner:
                return out
            i = inner.pop(0)
            out[j] = i
        elif isinstance(o, Slc):
            if not inner:
                return out
            i = inner[0]
            if i is FULL:
                inner.pop(0)
                continue
            if isinstance(i, N) and i.ty not in ARR and o.step is NONE and \
                    (o.lo is NONE or isinstance(o.lo, N)) and (intconst(i) is None or intconst(i) >= 0):
                inner.pop(0)
                out[j] = i if o.lo is NONE else add(o.lo, i)
                continue
            return None
        elif isinstance(o, N) and o.ty in ARR:
            return None
    # (i, FULL) with trailing implicit dims
    out.extend(inner)
    return out
