"""Obligations: what a rule decides about a construct, and how it is reported."""
import json
import os
import time
import traceback
from .terms import *
from .ops import *
from .heap import *
from .interp import Interp
from .entry import run, params_of, sym
from . import configs
from . import ri
from . import terms

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('RFSED_SRC', '/repo/src/rfsed')


def equal(a, b):
    """Equal normal forms, or terms no random model tells apart."""
    return terms.equal(a, b) or ri.agree(a, b)


class Missing(Exception):
    pass


class Ob:
    __slots__ = ('rule', 'file', 'func', 'line', 'status', 'text', 'actual', 'expected', 'config', 'path')

    def ident(self):
        """Identity of a violation for the known-findings file (no line numbers)."""
        return '%s|%s|%s' % (self.file, self.func, self.rule)


class Ctx:
    def __init__(self, prop, tier, src=None):
        self.prop, self.tier = prop, tier
        self.src = src or SRC
        self.ws = configs.Workspace(self.src)
        self.S = Interp(os.path.join(HERE, 'spec', 'rfspec'), 'rfspec')
        # specifications may name classes of the package (as opaque objects)
        self.S.modules.update(Interp(self.src, 'rfsed').modules)
        self.S.opaque_classes = {configs.SYNRF}
        self.obs = []
        self.configs = set()
        self.problems = []
        self.analysed_calls = 0
        self.loops_summarised = 0
        self.spec_runs = 0
        self._seen = set()

    # ------------------------------------------------------------ inputs
    def entry(self, name, modular=None, **kw):
        r = self.ws.result(name, modular=modular, **kw)
        if r is None:
            raise Missing('entry point %s not found' % name)
        r.config = ', '.join('%s=%s' % i for i in sorted(kw.items()))
        key = (name, r.config)
        if key not in self.configs:
            self.configs.add(key)
            self.analysed_calls += sum(1 for e in r.events if e.kind == 'call')
            self.loops_summarised += len(r.loopinfos)
        return r

    def spec(self, mod, fn, vals, modular=None, **extra):
        m = self.S.module('rfspec.' + mod)
        f = m.env[fn]
        v = dict(vals)
        v.update(extra)
        self.spec_runs += 1
        need = params_of(f)
        for p in need:
            if p not in v:
                raise Missing('specification parameter %s of %s.%s' % (p, mod, fn))
        self.S.summaries = modular or {}
        try:
            r = run(self.S, f, {}, {p: v[p] for p in need})
        finally:
            self.S.summaries = {}
        if r.notes:
            raise RuntimeError('specification %s.%s not fully evaluated: %s' % (mod, fn, r.notes[:3]))
        return r

    # -------------------------------------------------------- obligations
    def ob(self, r, rule, status, text='', actual=None, expected=None, line=None, func=None, file=None, path=None):
        o = Ob()
        o.rule, o.status, o.text, o.path = rule, status, text, path
        o.file = os.path.basename(file) if file else (r.where[0] if r is not None else '?')
        o.func = func or (r.where[1] if r is not None else '?')
        o.line = line
        o.config = getattr(r, 'config', '') if r is not None else ''
        o.actual = actual
        o.expected = expected
        self.obs.append(o)
        return o

    def good(self, r, rule, text='', **kw):
        return self.ob(r, rule, 'discharged', text, **kw)

    def bad(self, r, rule, text, **kw):
        return self.ob(r, rule, 'violation', text, **kw)

    def unsure(self, r, rule, text, **kw):
        return self.ob(r, rule, 'undetermined', text, **kw)

    def same(self, r, rule, actual, expected, what, line=None):
        """The extracted value equals (one of) the specified value(s)."""
        exps = expected if isinstance(expected, list) else [expected]
        if actual is None:
            return self.unsure(r, rule, '%s: not found in the extracted result' % what)
        for e in exps:
            if equal(actual, e):
                return self.good(r, rule, what, line=line)
        ops = opaque_in(actual)
        if ops and not all(isinstance(e, Val) and ri.refuted(actual, e) for e in exps):
            return self.unsure(r, rule, '%s: contains constructs the analysis does not model (%s)' % (
                what, ', '.join(sorted({str(getattr(o, 'op', o)) for o in ops}))[:200]))
        loc = blame(r, actual, exps[0])
        d = first_diff(actual, exps[0])
        return self.bad(r, rule, '%s is not the specified value' % what,
                        actual=d[0], expected=d[1], line=line or loc)

    def holds(self, r, rule, cond, text, **kw):
        return (self.good if cond else self.bad)(r, rule, text, **kw)

    def guard(self, fn, *a, **kw):
        """Run one rule body; an analysis failure leaves it undetermined."""
        try:
            return fn(self, *a, **kw)
        except Missing as e:
            self.problems.append(str(e))
            self.ob(None, fn.__name__, 'undetermined', str(e))
        except RecursionError:
            self.problems.append('recursion limit in %s' % fn.__name__)
            self.ob(None, fn.__name__, 'undetermined', 'analysis recursion limit')
        except Exception as e:       # the analysis gives up, it does not alarm
            tb = traceback.format_exc(limit=-4)
            self.problems.append('%s: %s' % (fn.__name__, tb))
            self.ob(None, fn.__name__, 'undetermined', 'analysis error: %r' % (e,))


def full(v, limit=400):
    s = show(v) if isinstance(v, Val) else str(v)
    return s if len(s) <= limit else s[:limit] + '...'


def first_diff(a, b, depth=0):
    """Innermost differing subterms, as text."""
    if depth < 60:
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            for x, y in zip(a.items, b.items):
                if not terms.equal(x, y):
                    return first_diff(x, y, depth + 1)
        if isinstance(a, N) and isinstance(b, N):
            x, y = as_atom(a), as_atom(b)
            if x is not None and y is not None:
                if x.op == y.op and len(x.args) == len(y.args):
                    for p, q in zip(x.args, y.args):
                        if isinstance(p, Val) and isinstance(q, Val) and not terms.equal(p, q):
                            return first_diff(p, q, depth + 1)
            else:
                A, B = set(a.t.items()), set(b.t.items())
                da, db = A - B, B - A
                if da and db and len(da) == len(db) == 1 and len(A) > 1:
                    return first_diff(N(dict(da)), N(dict(db)), depth + 1)
                if len(da) == 1 and len(db) == 1:
                    (m1, c1), = da
                    (m2, c2), = db
                    s1, s2 = set(m1) - set(m2), set(m2) - set(m1)
                    if c1 == c2 and len(s1) == len(s2) == 1:
                        (i, e), = s1
                        (j, f), = s2
                        if e == f and atom_of(i).op == atom_of(j).op:
                            return first_diff(from_atom(atom_of(i)), from_atom(atom_of(j)), depth + 1)
                if da or db:
                    return full(N(dict(da))), full(N(dict(db)))
    return full(a), full(b)


def blame(r, actual, expected):
    """Source line of the assignment that introduces the deviating value."""
    try:
        exp = set()
        for e in (expected if isinstance(expected, list) else [expected]):
            exp |= set(atoms_in(e))
        new = {i: a for i, a in atoms_in(actual).items() if i not in exp and a.op != 'bind'}
        if not new:
            return ret_line(r)
        small = min(new, key=lambda i: (len(atoms_in(from_atom(new[i]))), i))
        for fn, name, file, line, v in r.assigns:
            if isinstance(v, Val) and not isinstance(v, Ref) and small in atoms_in(v):
                return line
    except Exception:
        pass
    return ret_line(r)


def ret_line(r):
    ls = [e.line for e in r.ev('return') if e.func is None or True]
    return ls[-1] if ls else r.fn.node.lineno


def rewrite(v, fn, memo=None):
    """Bottom-up rewriting of atoms: fn(atom) -> Val or None (keep)."""
    if memo is None:
        memo = {}
    if isinstance(v, N):
        out = N({})
        for mono, c in v.t.items():
            t = num(c)
            for i, e in mono:
                x = _rw_atom(atom_of(i), fn, memo)
                t = mul(t, power_int(x, e) if e >= 0 or len(x.t) <= 1 else power_int(inv(x), -e))
            out = add(out, t)
        return out
    if isinstance(v, Tup):
        return Tup([rewrite(i, fn, memo) for i in v.items], v.kind)
    if isinstance(v, Dct):
        return Dct({k: rewrite(x, fn, memo) for k, x in v.d.items()})
    if isinstance(v, StrV):
        return mkstr([p if isinstance(p, str) else (p[0], rewrite(p[1], fn, memo)) for p in v.parts])
    return v


def _rw_atom(a, fn, memo):
    if a.id in memo:
        return memo[a.id]
    x = fn(a)
    if x is None:
        if a.op in ('comp', 'flat'):
            bs, ns, body = a.args
            fr = [fresh_binder() for _ in bs]
            ren = dict(zip(bs, fr))
            x = (f_comp if a.op == 'comp' else f_flat)(
                fr, [rewrite(n, fn, memo) for n in ns], rewrite(subst(body, ren), fn, memo))
        else:
            args, ch = [], False
            for y in a.args:
                z = y
                if isinstance(y, Val):
                    z = rewrite(y, fn, memo)
                elif isinstance(y, tuple) and any(isinstance(q, Val) for q in y):
                    z = tuple(rewrite(q, fn, memo) if isinstance(q, Val) else q for q in y)
                ch = ch or z is not y
                args.append(z)
            x = from_atom(a) if not ch else rebuild(a.op, args, a.ty, a.opaque)
    if not isinstance(x, N):
        x = mk('wrapped', (x,), 'unk')
    memo[a.id] = x
    return x


def ev_value(e, n=None, kws=()):
    """Canonical value of an event's arguments, closed over its loops."""
    args = list(e.args if n is None else e.args[:n]) + [e.kw.get(k, NONE) for k in kws]
    t = Tup([x if isinstance(x, Val) else Kst(x) for x in args], 'tuple')
    lo = [(b, c) for b, c in e.loops]
    if lo:
        used = free_binders_any(t)
        lo = [(b, c) for b, c in lo if bid(b) in used]
    if lo:
        return f_comp([b for b, _ in lo], [c for _, c in lo], t)
    return t


def free_binders_any(v):
    try:
        return free_binders(v)
    except Exception:
        return set()


# ------------------------------------------------------------------ findings
def known_findings():
    p = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        with open(p) as fh:
            for ln in fh:
                ln = ln.strip()
                if ln.startswith('{'):
                    out.append(json.loads(ln))
    return out


def report(C, t0, technique, explanation, seed):
    prop = C.prop
    viol, known = [], []
    kf = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'finding']
    for o in C.obs:
        if o.status != 'violation':
            continue
        k = next((k for k in kf if k['ident'] == o.ident() and
                  all(s in (o.actual or '') + ' ' + o.text for s in k.get('match', []))), None)
        (known if k else viol).append((o, k))
    for k in kf:
        hit = [o for o, kk in known if kk is k]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for n, (o, _) in enumerate(viol[:20]):
        path = os.path.join(rdir, '%s_%d.txt' % (prop, n))
        with open(path, 'w') as fh:
            fh.write('property   %s\nrule       %s\nconstruct  %s:%s in %s\nconfig     %s\nwhat       %s\n' % (
                prop, o.rule, o.file, o.line, o.func, o.config, o.text))
            if o.actual is not None:
                fh.write('extracted  %s\n' % o.actual)
            if o.expected is not None:
                fh.write('specified  %s\n' % o.expected)
            if o.path:
                fh.write('path       %s\n' % o.path)
            fh.write('replay     python3 %s/check.py %s\n' % (HERE, prop))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s:%s %s [%s] %s: %s' % (o.file, o.line, o.func, o.config, o.rule, o.text))
        if o.actual is not None:
            print('    extracted %s' % o.actual)
        if o.expected is not None:
            print('    specified %s' % o.expected)
    und = [o for o in C.obs if o.status == 'undetermined']
    for o in und:
        print('UNDETERMINED %s %s [%s] %s: %s' % (o.file, o.func, o.config, o.rule, o.text))
    dis = [o for o in C.obs if o.status == 'discharged']
    byrule = {}
    for o in C.obs:
        b = byrule.setdefault(o.rule, {'discharged': 0, 'violation': 0, 'undetermined': 0})
        b[o.status] += 1
    ev = {
        'property': prop, 'tier': C.tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': explanation,
            'technique': technique,
            'source_analysed': C.src,
            'source_files_parsed': len(C.ws.I.modules),
            'entry_configurations': sorted('%s(%s)' % c for c in C.configs),
            'calls_resolved': C.analysed_calls,
            'loops_summarised': C.loops_summarised,
            'specification_programs_evaluated': C.spec_runs,
            'obligations': len(C.obs), 'discharged': len(dis), 'violations': len(viol),
            'known_findings': len(known), 'undetermined': len(und),
            'obligations_by_rule': byrule,
            'samples': ['%s %s [%s] %s: %s' % (o.file, o.func, o.config, o.rule, o.text) for o in dis[:12]],
            'undetermined_list': ['%s %s %s: %s' % (o.file, o.func, o.rule, o.text) for o in und[:20]],
        },
        'wall_s': round(time.time() - t0, 3),
        'violations': len(viol),
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d obligations, %d discharged, %d violations, %d known, %d undetermined, %.1fs' % (
        prop, len(C.obs), len(dis), len(viol), len(known), len(und), time.time() - t0))
    return 1 if viol else 0


# ------------------------------------------------- recurrences (while loops)
class Loop:
    """A while loop as initial values, step and condition over its state variables."""

    def __init__(self, li):
        self.lid = li.lid
        self.pre, self.next, self.cond = li.pre, li.next, li.cond
        self.late = getattr(li, 'late', None)

    def used(self, v):
        return {a.args[1] for a in atoms_in(v).values() if a.op in ('phi', 'loopout') and a.args[0] == self.lid}

    def relevant(self, *vals):
        todo = set().union(*[self.used(v) for v in vals + (self.cond,)])
        out = set()
        while todo:
            k = todo.pop()
            if k in out:
                continue
            out.add(k)
            if k in self.next:
                todo |= self.used(self.next[k])
        return out


def loops_in(r, v):
    lids = {a.args[0] for a in atoms_in(v).values() if a.op in ('phi', 'loopout')}
    return [Loop(li) for li in r.loopinfos if li.lid in lids]


def _same_binders(A, S, ka, ks):
    """Name the enclosing index of both loops alike (when each lies inside one loop)."""
    def fb(L, keys):
        s = set(free_binders_any(L.cond))
        for k in keys:
            for d in (L.pre, L.next):
                if isinstance(d.get(k), Val):
                    s |= free_binders_any(d[k])
        return s
    ba, bs = fb(A, ka), fb(S, ks)
    if len(ba) == 1 and len(bs) == 1 and ba != bs:
        m = {ba.pop(): from_atom(atom_of(bs.pop()))}
        A.pre = {k: subst(v, m) if isinstance(v, Val) else v for k, v in A.pre.items()}
        A.next = {k: subst(v, m) if isinstance(v, Val) else v for k, v in A.next.items()}
        A.cond = subst(A.cond, m)


def same_recurrence(C, r, rule, va, rs, vs, what):
    """va (of result r) and vs (of specification run rs) are equal, where both end one while loop."""
    import itertools
    if equal(va, vs):
        return C.good(r, rule, what)
    la, ls = loops_in(r, va), loops_in(rs, vs)
    if len(la) != 1 or len(ls) != 1 or la[0].late:
        return C.unsure(r, rule, '%s: loop structure not recognised' % what)
    A, S = la[0], ls[0]
    _same_binders(A, S, A.relevant(va), S.relevant(vs))
    RA, RS = sorted(A.relevant(va), key=repr), sorted(S.relevant(vs), key=repr)

    def ren(v, m):
        def f(a):
            if a.op in ('phi', 'loopout') and a.args[0] == A.lid and a.args[1] in m:
                return mk(a.op, (S.lid, m[a.args[1]]), a.ty, opaque=True)
        return rewrite(v, f)
    fixed, left = {}, []
    for k in RA:
        c = [s for s in RS if k in A.pre and equal(A.pre[k], S.pre[s])]
        if len(c) == 1 and c[0] not in fixed.values():
            fixed[k] = c[0]
        else:
            left.append(k)
    rest = [s for s in RS if s not in fixed.values()]
    if len(left) > len(rest) or len(rest) > 6:
        return C.unsure(r, rule, '%s: loop state not recognised' % what)
    best = None
    for perm in itertools.permutations(rest, len(left)):
        m = dict(fixed, **{}) if not left else {**fixed, **dict(zip(left, perm))}
        bad = []
        for k, s in m.items():
            p, n = A.pre.get(k), A.next.get(k)
            if p is None or n is None:
                bad.append(('init', k, p, S.pre[s]))
                continue
            if not equal(p, S.pre[s]):
                bad.append(('init', k, p, S.pre[s]))
            n2 = ren(n, m)
            if not equal(n2, S.next[s]):
                bad.append(('step', k, n2, S.next[s]))
        c2 = ren(A.cond, m)
        if not equal(c2, S.cond):
            bad.append(('condition', None, c2, S.cond))
        v2 = ren(va, m)
        if not equal(v2, vs):
            bad.append(('result', None, v2, vs))
        if best is None or len(bad) < len(best[1]):
            best = (m, bad)
        if not bad:
            break
    m, bad = best
    if not bad:
        return C.good(r, rule, '%s (recurrence over %d state variables)' % (what, len(m)))
    kinds = {}
    for t, k, _, _ in bad:
        kinds.setdefault(k, set()).add(t)
    allv = [x for _, _, x, _ in bad]
    ops = {a.op for v in allv if isinstance(v, Val) for a in opaque_in(v)} - {'phi', 'loopout', 'whilen'}
    if ops:
        return C.unsure(r, rule, '%s: unmodelled construct %s' % (what, sorted(ops)))
    reform = any({'init', 'step'} <= s for s in kinds.values()) or any(x is None for x in allv)
    if reform or (len(m) < len(RS) and any(t in ('init', 'step') for t, _, _, _ in bad)):
        return C.unsure(r, rule, '%s: loop uses another formulation' % what)
    t, k, x, y = bad[0]
    d = first_diff(x, y)
    return C.bad(r, rule, '%s: the %s of the iteration%s differs' % (what, t, ' (%s)' % (k,) if isinstance(k, str) else ''),
                 actual=d[0], expected=d[1], line=blame(r, x, y))
