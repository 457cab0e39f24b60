"""Typestate of worker pools over the exceptional control flow of the source (no execution).

Every path through a routine is followed, including the exceptional edge of every call, with
the state of each pool it creates: open -> closed (close/shutdown) | terminated (terminate or
leaving a `with`).  Package helpers (pool factories, helpers that are given a pool, context
managers) are followed into.  Reported: an exit with an open pool, a submission to a pool that
is shut down, a join of an open pool, results awaited after their pool was terminated.
"""
import ast

POOLS = {'Pool': 'pool', 'ThreadPool': 'pool', 'ProcessPoolExecutor': 'executor', 'ThreadPoolExecutor': 'executor'}
SUBMIT = {'map', 'starmap', 'apply'}
ASYNC = {'map_async', 'starmap_async', 'apply_async', 'imap', 'imap_unordered', 'submit'}
SAFE = set('''print len range isinstance issubclass str repr int float bool abs min max enumerate zip list tuple dict set
 sorted reversed type id hasattr getattr callable iter round sum any all frozenset'''.split())
MAXSTATES = 400
MAXDEPTH = 12


class State:
    __slots__ = ('env', 'pools', 'done')

    def __init__(self, env=(), pools=(), done=()):
        self.env, self.pools, self.done = dict(env), dict(pools), set(done)

    def copy(self):
        return State(self.env, self.pools, self.done)

    def key(self):
        return (tuple(sorted(self.env.items(), key=repr)), tuple(sorted(self.pools.items())), tuple(sorted(self.done)))


class Out:
    """Outcomes of a statement list: lists of states by kind."""

    def __init__(self):
        self.norm, self.exc, self.ret, self.brk, self.cont = [], [], [], [], []


def dedupe(states):
    seen, out = set(), []
    for s in states:
        x = s if isinstance(s, tuple) else (s,)
        k = (x[0].key(),) + tuple(map(repr, x[1:2]))
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out[:MAXSTATES]


class Pools:
    def __init__(self, modules):
        """modules: {qualified name: Module(tree, path)}"""
        self.mods = modules
        self.tables = {}
        self.findings = {}
        self.sites = {}          # (file, line) -> enclosing function
        self.paths = 0
        self.edges = 0
        self.releases = 0
        self.unknown = []
        for q, m in modules.items():
            self.tables[q] = self.table(q, m.tree)

    # ------------------------------------------------------------- names
    def table(self, q, tree):
        t = {}
        for st in ast.walk(tree):
            if isinstance(st, ast.ImportFrom):
                src = st.module or ''
                if st.level:
                    src = '.'.join(q.split('.')[:-st.level] + ([st.module] if st.module else []))
                for a in st.names:
                    nm = a.asname or a.name
                    if src in self.mods:
                        t[nm] = ('ref', src, a.name)
                    elif a.name in POOLS and ('multiprocessing' in src or 'concurrent' in src):
                        t[nm] = ('poolcls', POOLS[a.name])
                    else:
                        t[nm] = ('lib', src + '.' + a.name)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    t[a.asname or a.name.split('.')[0]] = ('lib', a.name if a.asname else a.name.split('.')[0])
        for st in tree.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                t[st.name] = ('fn', q, st.name)
        return t

    def fnode(self, q, name):
        m = self.mods.get(q)
        for st in m.tree.body if m else ():
            if isinstance(st, ast.FunctionDef) and st.name == name:
                return st
        return None

    def lookup(self, q, name, hops=0):
        v = self.tables.get(q, {}).get(name)
        if v and v[0] == 'ref' and hops < 5:
            return self.lookup(v[1], v[2], hops + 1)
        return v

    # ------------------------------------------------------------ driver
    def creates(self, fn, q, seen=None):
        """Does this function (or a package routine it calls) open a pool?"""
        seen = seen or set()
        if (q, fn.name) in seen:
            return False
        seen.add((q, fn.name))
        for n in ast.walk(fn):
            if isinstance(n, ast.Call):
                if self.poolkind(n.func, q):
                    return True
                if isinstance(n.func, ast.Name):
                    v = self.lookup(q, n.func.id)
                    if v and v[0] == 'fn':
                        f = self.fnode(v[1], v[2])
                        if f is not None and self.creates(f, v[1], seen):
                            return True
        return False

    def poolkind(self, f, q):
        if isinstance(f, ast.Name):
            v = self.lookup(q, f.id)
            return v[1] if v and v[0] == 'poolcls' else None
        if isinstance(f, ast.Attribute) and f.attr in POOLS:
            b = f.value
            while isinstance(b, (ast.Attribute, ast.Call)):
                b = b.value if isinstance(b, ast.Attribute) else b.func
            if isinstance(b, ast.Name):
                v = self.lookup(q, b.id)
                if v is None or v[0] == 'lib':
                    return POOLS[f.attr]
        return None

    def functions(self):
        for q, m in self.mods.items():
            for st in m.tree.body:
                if isinstance(st, ast.FunctionDef):
                    yield q, st

    def called(self):
        out = set()
        for q, f in self.functions():
            for n in ast.walk(f):
                if isinstance(n, ast.Name):
                    v = self.lookup(q, n.id)
                    if v and v[0] == 'fn' and (v[1], v[2]) != (q, f.name):
                        out.add((v[1], v[2]))
        return out

    def run(self):
        called = self.called()
        roots = []
        for q, f in self.functions():
            if self.creates(f, q) and not ((q, f.name) in called and self.helper(f)):
                roots.append((q, f))
        for q, f in roots:
            self.root = (q, f)
            s = State()
            o = self.call_fn(q, f, [], {}, s, 0, root=True)
            for st, v in o.ret:
                self.at_exit(st, 'returns', f, v)
            for st, ln in o.exc:
                self.at_exit(st, 'is left by an exception', f, None, ln)
        return roots

    @staticmethod
    def helper(f):
        """Private helper, generator or factory: judged where it is used."""
        if f.name.startswith('_') or f.decorator_list:
            return True
        return False

    def at_exit(self, st, how, f, v=None, ln=None):
        self.paths += 1
        for p, (state, line, file) in st.pools.items():
            if state == 'open' and v != ('pool', p):
                self.find(file, line, 'released-on-every-exit',
                          'the pool opened here is still running when %s %s%s' % (
                              f.name, how, ' raised at line %d' % ln if ln else ''), f.name)
            elif state == 'open':
                self.unknown.append('%s returns an open pool' % f.name)

    def find(self, file, line, rule, text, func):
        self.findings.setdefault((file, line, rule), (text, func))

    # --------------------------------------------------------- functions
    def call_fn(self, q, f, args, kw, st, depth, root=False, hook=None):
        """Outcomes with .ret = [(state, value)], .exc = [(state, line)]."""
        env0 = st.env
        a = f.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {'$q': q}
        for n, v in zip(names, args):
            if v is not None:
                env[n] = v
        for k, v in kw.items():
            if v is not None:
                env[k] = v
        s = st.copy()
        s.env = env
        o = self.block(f.body, [s], q, f, depth + 1, hook)
        r = Out()
        for x in o.norm:
            r.ret.append((x, None))
        r.ret += o.ret
        r.exc = o.exc
        out = Out()
        for x, v in r.ret:
            y = x.copy()
            y.env = dict(env0)
            out.ret.append((y, v))
        for x, ln in r.exc:
            y = x.copy()
            y.env = dict(env0)
            out.exc.append((y, ln))
        out.ret, out.exc = dedupe(out.ret), dedupe(out.exc)
        return out

    # -------------------------------------------------------- statements
    def block(self, stmts, states, q, f, depth, hook):
        o = Out()
        cur = states
        for st in stmts:
            nxt = []
            for s in dedupe(cur):
                r = self.stmt(st, s, q, f, depth, hook)
                nxt += r.norm
                o.exc += r.exc
                o.ret += r.ret
                o.brk += r.brk
                o.cont += r.cont
            cur = nxt
        o.norm = dedupe(cur)
        o.exc, o.ret = dedupe(o.exc), dedupe(o.ret)
        return o

    def stmt(self, st, s, q, f, depth, hook):
        o = Out()
        ev = lambda e, x: self.ev(e, x, q, f, depth, o, hook)
        if isinstance(st, ast.Assign):
            for s2, v in ev(st.value, s):
                s2 = s2.copy()
                for t in st.targets:
                    self.bind(t, v, s2)
                o.norm.append(s2)
        elif isinstance(st, (ast.AnnAssign, ast.AugAssign)):
            if st.value is None:
                o.norm.append(s)
            else:
                for s2, v in ev(st.value, s):
                    s2 = s2.copy()
                    if isinstance(st, ast.AnnAssign):
                        self.bind(st.target, v, s2)
                    o.norm.append(s2)
        elif isinstance(st, ast.Expr):
            o.norm += [x for x, _ in ev(st.value, s)]
        elif isinstance(st, ast.Return):
            if st.value is None:
                o.ret.append((s, None))
            else:
                o.ret += ev(st.value, s)
        elif isinstance(st, ast.Raise):
            for s2, _ in (ev(st.exc, s) if st.exc is not None else [(s, None)]):
                self.edges += 1
                o.exc.append((s2, st.lineno))
        elif isinstance(st, ast.If):
            for s2, _ in ev(st.test, s):
                t = self.test(st.test, s2)
                for val, body in ((True, st.body), (False, st.orelse)):
                    if t is None or t is val:
                        self.merge(o, self.block(body, [s2], q, f, depth, hook))
        elif isinstance(st, (ast.For, ast.While)):
            self.loop(st, s, q, f, depth, hook, o)
        elif isinstance(st, ast.With):
            self.with_(st, list(st.items), s, q, f, depth, hook, o)
        elif isinstance(st, ast.Try):
            self.try_(st, s, q, f, depth, hook, o)
        elif isinstance(st, ast.Break):
            o.brk.append(s)
        elif isinstance(st, ast.Continue):
            o.cont.append(s)
        elif isinstance(st, ast.Assert):
            for s2, _ in ev(st.test, s):
                o.norm.append(s2)
        elif isinstance(st, ast.Delete):
            o.norm.append(s)
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            s2 = s.copy()
            s2.env.pop(st.name, None)
            if isinstance(st, ast.FunctionDef):
                s2.env[st.name] = ('localfn', q, id(st))
                self.local = getattr(self, 'local', {})
                self.local[id(st)] = st
            o.norm.append(s2)
        else:
            o.norm.append(s)
        return o

    @staticmethod
    def merge(o, r):
        o.norm += r.norm
        o.exc += r.exc
        o.ret += r.ret
        o.brk += r.brk
        o.cont += r.cont

    def bind(self, t, v, s):
        if isinstance(t, ast.Name):
            s.env.pop(t.id, None)
            if v is not None:
                s.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, v if v and v[0] == 'async' else None, s)
        elif isinstance(t, (ast.Attribute, ast.Subscript)) and v and v[0] == 'pool':
            s.env[ast.unparse(t)] = v

    def test(self, e, s):
        """Value of a test that only concerns a tracked variable."""
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.test(e.operand, s)
            return None if t is None else not t
        if isinstance(e, ast.Name):
            v = s.env.get(e.id)
            if v and v[0] in ('pool', 'none'):
                return v[0] == 'pool'
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and \
                isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            v = s.env.get(e.left.id)
            if v and v[0] in ('pool', 'none'):
                isnone = v[0] == 'none'
                return isnone if isinstance(e.ops[0], (ast.Is, ast.Eq)) else not isnone
        return None

    def loop(self, st, s, q, f, depth, hook, o):
        ev = lambda e, x: self.ev(e, x, q, f, depth, o, hook)
        entry = []
        for s2, v in ev(st.iter if isinstance(st, ast.For) else st.test, s):
            if v and v[0] == 'async':
                self.consume(v[1], s2, st, f)
            entry.append((s2, v))
        zero = [x for x, _ in entry]
        cur = entry
        done = list(zero) if not (isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value) else []
        for _ in range(2):
            nxt = []
            for s2, v in cur:
                s3 = s2.copy()
                if isinstance(st, ast.For):
                    self.bind(st.target, v if v and v[0] == 'async' else None, s3)
                r = self.block(st.body, [s3], q, f, depth, hook)
                o.exc += r.exc
                o.ret += r.ret
                done += r.norm + r.cont
                o.norm += r.brk
                nxt += [(x, v) for x in r.norm + r.cont]
            cur = nxt
        for s2 in dedupe(done):
            self.merge(o, self.block(st.orelse, [s2], q, f, depth, hook))

    def with_(self, st, items, s, q, f, depth, hook, o):
        if not items:
            self.merge(o, self.block(st.body, [s], q, f, depth, hook))
            return
        it, rest = items[0], items[1:]
        e = it.context_expr
        # context-manager helper of the package
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            v = self.lookup(q, e.func.id)
            g = self.fnode(v[1], v[2]) if v and v[0] == 'fn' else None
            if g is not None and any('contextmanager' in ast.unparse(d) for d in g.decorator_list) and depth < MAXDEPTH:
                for s2, args, kw in self.args(e, s, q, f, depth, o, hook):
                    outer = dict(s2.env)

                    def inner(s3, val, _outer=outer):
                        genv = s3.env
                        s4 = s3.copy()
                        s4.env = dict(_outer)
                        if it.optional_vars is not None:
                            self.bind(it.optional_vars, val, s4)
                        r = Out()
                        self.with_(st, rest, s4, q, f, depth, hook, r)
                        for kind in ('norm', 'brk', 'cont'):
                            lst = []
                            for x in getattr(r, kind):
                                y = x.copy()
                                y.env = dict(genv)
                                y.env['$outer'] = ('env', tuple(sorted(x.env.items(), key=repr)))
                                lst.append(y)
                            setattr(r, kind, lst)
                        for kind in ('exc', 'ret'):
                            lst = []
                            for x, w in getattr(r, kind):
                                y = x.copy()
                                y.env = dict(genv)
                                y.env['$outer'] = ('env', tuple(sorted(x.env.items(), key=repr)))
                                lst.append((y, w))
                            setattr(r, kind, lst)
                        return r
                    r = self.call_fn_hook(v[1], g, args, kw, s2, depth, inner)
                    o.norm += r.norm
                    o.exc += r.exc
                    o.ret += r.ret
                return
        for s2, v in self.ev(e, s, q, f, depth, o, hook):
            s3 = s2.copy()
            wrap = None
            if isinstance(e, ast.Call) and ast.unparse(e.func).endswith('closing'):
                wrap = 'closed'
            if it.optional_vars is not None:
                self.bind(it.optional_vars, v, s3)
            stack = isinstance(e, ast.Call) and ast.unparse(e.func).endswith('ExitStack')
            before = set(s3.pools)
            r = Out()
            self.with_(st, rest, s3, q, f, depth, hook, r)

            def leave(x):
                x = x.copy()
                if v and v[0] == 'pool':
                    state, ln, file = x.pools[v[1]]
                    kind = self.kinds.get(v[1])
                    new = wrap or ('closed' if kind == 'executor' else 'terminated')
                    if state == 'open' or (state == 'closed' and new == 'terminated'):
                        x.pools[v[1]] = (new, ln, file)
                        self.releases += 1
                if stack:
                    for p, (state, ln, file) in list(x.pools.items()):
                        if p not in before and ('managed', p) in x.done and state == 'open':
                            x.pools[p] = ('terminated', ln, file)
                return x
            o.norm += [leave(x) for x in r.norm]
            o.brk += [leave(x) for x in r.brk]
            o.cont += [leave(x) for x in r.cont]
            o.exc += [(leave(x), ln) for x, ln in r.exc]
            o.ret += [(leave(x), w) for x, w in r.ret]

    def call_fn_hook(self, q, g, args, kw, s, depth, inner):
        names = [x.arg for x in g.args.posonlyargs + g.args.args]
        env = {n: v for n, v in zip(names, args) if v is not None}
        env.update({k: v for k, v in kw.items() if v is not None})
        outer = dict(s.env)
        s2 = s.copy()
        s2.env = env
        r = self.block(g.body, [s2], q, g, depth + 1, inner)
        o = Out()

        def back(x):
            y = x.copy()
            e = x.env.get('$outer')
            y.env = dict(e[1]) if e else dict(outer)
            return y
        o.norm = [back(x) for x in r.norm]
        o.exc = [(back(x), ln) for x, ln in r.exc]
        o.ret = [(back(x), v) for x, v in r.ret]
        return o

    def try_(self, st, s, q, f, depth, hook, o):
        r = self.block(st.body, [s], q, f, depth, hook)
        after = Out()
        e = self.block(st.orelse, r.norm, q, f, depth, hook) if st.orelse else None
        if e is None:
            after.norm = r.norm
        else:
            self.merge(after, e)
        after.ret += r.ret
        after.brk += r.brk
        after.cont += r.cont
        catch_all = any(h.type is None or any(n in ('Exception', 'BaseException') for n in self.names(h.type))
                        for h in st.handlers)
        for s2, ln in dedupe(r.exc):
            for h in st.handlers:
                s3 = s2.copy()
                if h.name:
                    s3.env.pop(h.name, None)
                self.merge(after, self.block(h.body, [s3], q, f, depth, hook))
            if not catch_all:
                after.exc.append((s2, ln))
        if not st.finalbody:
            self.merge(o, after)
            return
        fin = lambda x: self.block(st.finalbody, [x], q, f, depth, hook)
        for x in dedupe(after.norm):
            self.merge(o, fin(x))
        for kind in ('brk', 'cont'):
            for x in dedupe(getattr(after, kind)):
                g = fin(x)
                getattr(o, kind).extend(g.norm)
                o.exc += g.exc
                o.ret += g.ret
        for kind in ('exc', 'ret'):
            for x, w in dedupe(getattr(after, kind)):
                g = fin(x)
                getattr(o, kind).extend((y, w) for y in g.norm)
                o.exc += g.exc
                o.ret += g.ret

    @staticmethod
    def names(t):
        return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)] + \
            [n.attr for n in ast.walk(t) if isinstance(n, ast.Attribute)]

    # ------------------------------------------------------- expressions
    def args(self, e, s, q, f, depth, o, hook):
        """[(state, positional values, keyword values)]"""
        out = [(s, [], {})]
        for a in e.args:
            nxt = []
            for s2, av, kv in out:
                for s3, v in self.ev(a.value if isinstance(a, ast.Starred) else a, s2, q, f, depth, o, hook):
                    nxt.append((s3, av + [v], kv))
            out = nxt
        for k in e.keywords:
            nxt = []
            for s2, av, kv in out:
                for s3, v in self.ev(k.value, s2, q, f, depth, o, hook):
                    nxt.append((s3, av, dict(kv, **({k.arg: v} if k.arg else {}))))
            out = nxt
        return out

    def ev(self, e, s, q, f, depth, o, hook=None):
        """[(state, value)]; exceptional outcomes go to o.exc."""
        if e is None:
            return [(s, None)]
        if isinstance(e, ast.Constant):
            return [(s, ('none',) if e.value is None else None)]
        if isinstance(e, ast.Name):
            return [(s, s.env.get(e.id))]
        if isinstance(e, ast.NamedExpr):
            out = []
            for s2, v in self.ev(e.value, s, q, f, depth, o, hook):
                s3 = s2.copy()
                self.bind(e.target, v, s3)
                out.append((s3, v))
            return out
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            out = []
            for s2, v in self.ev(e.value, s, q, f, depth, o, hook) if e.value is not None else [(s, None)]:
                if hook is None:
                    out.append((s2, None))
                    continue
                r = hook(s2, v)
                out += [(x, None) for x in r.norm + r.brk + r.cont]
                o.exc += r.exc
                o.ret += r.ret
            return out
        if isinstance(e, ast.Call):
            return self.call(e, s, q, f, depth, o, hook)
        if isinstance(e, ast.Attribute):
            v = s.env.get(ast.unparse(e))
            if v is not None:
                return [(s, v)]
            return [(x, None) for x, _ in self.ev(e.value, s, q, f, depth, o, hook)]
        if isinstance(e, ast.IfExp):
            out = []
            for s2, _ in self.ev(e.test, s, q, f, depth, o, hook):
                t = self.test(e.test, s2)
                if t is not False:
                    out += self.ev(e.body, s2, q, f, depth, o, hook)
                if t is not True:
                    out += self.ev(e.orelse, s2, q, f, depth, o, hook)
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            cur = [(s, None)]
            for g in e.generators:
                nxt = []
                for s2, _ in cur:
                    for s3, v in self.ev(g.iter, s2, q, f, depth, o, hook):
                        s4 = s3.copy()
                        if v and v[0] == 'async':
                            self.consume(v[1], s4, e, f)
                        self.bind(g.target, v if v and v[0] == 'async' else None, s4)
                        nxt.append((s4, v))
                cur = nxt
            if isinstance(e, ast.GeneratorExp) and not self.mentions(e, s):
                return [(x, None) for x, _ in cur]
            out = []
            elts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            for s2, _ in cur:
                r = [(s2, None)]
                for el in elts + [c for g in e.generators for c in g.ifs]:
                    r = [(x, v if v is not None else w) for s3, v in r for x, w in self.ev(el, s3, q, f, depth, o, hook)]
                out += r
            return [(x, v if v and v[0] == 'async' else None) for x, v in out]
        if isinstance(e, ast.Lambda):
            return [(s, None)]
        if isinstance(e, ast.Subscript) or isinstance(e, ast.Starred):
            return [(x, v if v and v[0] == 'async' else None) for x, v in self.ev(e.value, s, q, f, depth, o, hook)]
        cur = [(s, None)]
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                nxt = []
                for x, v in cur:
                    for y, w in self.ev(c, x, q, f, depth, o, hook):
                        nxt.append((y, v if v is not None else w))
                cur = nxt
        return [(x, v if v and v[0] == 'async' else None) for x, v in cur]

    def mentions(self, e, s):
        return any(isinstance(n, ast.Name) and s.env.get(n.id, ('',))[0] in ('pool', 'async') for n in ast.walk(e))

    kinds = {}

    def consume(self, p, s, node, f):
        """Results of pool p are waited for."""
        state, ln, file = s.pools.get(p, ('open', 0, ''))
        if state == 'terminated' and ('got', p) not in s.done:
            self.find(file, node.lineno, 'results-awaited-before-shutdown',
                      'results of the pool opened at line %d are awaited after the pool was terminated: '
                      'they never arrive' % ln, f.name)
        s.done.add(('got', p))

    def call(self, e, s, q, f, depth, o, hook):
        fn = e.func
        out = []
        # method of a tracked object
        recv = [(s, None)]
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value, s, q, f, depth, o, hook)
        for s1, rv in recv:
            for s2, args, kw in self.args(e, s1, q, f, depth, o, hook):
                out += self.call1(e, fn, rv, s2, args, kw, q, f, depth, o)
        return out

    def call1(self, e, fn, rv, s, args, kw, q, f, depth, o):
        file = self.mods[q].path.split('/')[-1]
        if rv and rv[0] == 'pool' and isinstance(fn, ast.Attribute):
            return self.pool_op(e, fn.attr, rv[1], s, args, q, f, o, file)
        if rv and rv[0] == 'async' and isinstance(fn, ast.Attribute):
            s2 = s.copy()
            if fn.attr in ('get', 'result', 'wait', '__next__', 'next'):
                self.consume(rv[1], s2, e, f)
            self.edges += 1
            o.exc.append((s2, e.lineno))
            return [(s2, rv if fn.attr in ('append',) else None)]
        k = self.poolkind(fn, q)
        if k:
            self.sites[(file, e.lineno)] = f.name
            self.edges += 1
            o.exc.append((s, e.lineno))
            s2 = s.copy()
            p = 'pool%d_%d' % (e.lineno, len(s2.pools))
            self.kinds[p] = k
            s2.pools[p] = ('open', e.lineno, file)
            return [(s2, ('pool', p))]
        # package helper
        v = None
        if isinstance(fn, ast.Name):
            lv = s.env.get(fn.id)
            if lv and lv[0] == 'localfn':
                v = lv
            else:
                v = self.lookup(q, fn.id)
        pools = [a for a in list(args) + list(kw.values()) if a and a[0] == 'pool']
        asyncs = [a for a in list(args) + list(kw.values()) if a and a[0] == 'async']
        g, gq = None, q
        if v and v[0] == 'fn':
            g, gq = self.fnode(v[1], v[2]), v[1]
        elif v and v[0] == 'localfn':
            g = self.local[v[2]]
        if g is not None and depth < MAXDEPTH and (pools or asyncs or self.creates(g, gq) or v[0] == 'localfn'):
            r = self.call_fn(gq, g, args, kw, s, depth)
            o.exc += r.exc
            return r.ret
        if isinstance(fn, ast.Attribute) and fn.attr == 'enter_context' and pools:
            s2 = s.copy()
            for p in pools:
                s2.done.add(('managed', p[1]))
            return [(s2, pools[0])]
        if isinstance(fn, (ast.Name, ast.Attribute)) and ast.unparse(fn).split('.')[-1] == 'closing' and pools:
            return [(s, pools[0])]
        if isinstance(fn, ast.Attribute) and fn.attr == 'append' and asyncs and isinstance(fn.value, ast.Name):
            s2 = s.copy()
            s2.env[fn.value.id] = asyncs[0]
            return [(s2, None)]
        s2 = s
        if asyncs:
            s2 = s.copy()
            for a in asyncs:
                self.consume(a[1], s2, e, f)
        if pools:
            self.unknown.append('a pool is passed to %s' % ast.unparse(fn)[:40])
        nm = ast.unparse(fn).split('.')[-1] if isinstance(fn, (ast.Name, ast.Attribute)) else ''
        if not (isinstance(fn, ast.Name) and nm in SAFE):
            self.edges += 1
            o.exc.append((s2, e.lineno))
        return [(s2, None)]

    def pool_op(self, e, name, p, s, args, q, f, o, file):
        state, ln, pf = s.pools[p]
        s2 = s.copy()
        if name in ('close', 'shutdown'):
            if state == 'open':
                s2.pools[p] = ('closed', ln, pf)
                self.releases += 1
            return [(s2, None)]
        if name == 'terminate':
            s2.pools[p] = ('terminated', ln, pf)
            self.releases += 1
            return [(s2, None)]
        if name == 'join':
            if state == 'open':
                self.find(file, e.lineno, 'joined-only-after-shutdown', 'the pool opened at line %d is joined while it '
                          'is still running: the call raises and the workers stay' % ln, f.name)
                self.edges += 1
                o.exc.append((s, e.lineno))
                return []
            return [(s2, None)]
        if name in SUBMIT or name in ASYNC:
            if state != 'open':
                self.find(file, e.lineno, 'not-used-after-shutdown', 'work is submitted to the pool opened at line %d '
                          'after it was shut down' % ln, f.name)
                o.exc.append((s, e.lineno))
                return []
            self.edges += 1
            o.exc.append((s, e.lineno))
            if name in ASYNC or self.kinds.get(p) == 'executor':
                return [(s2, ('async', p))]
            return [(s2, None)]
        if name == '__enter__':
            return [(s2, ('pool', p))]
        if name == '__exit__':
            s2.pools[p] = ('terminated', ln, pf)
            return [(s2, None)]
        self.edges += 1
        o.exc.append((s, e.lineno))
        return [(s2, None)]
