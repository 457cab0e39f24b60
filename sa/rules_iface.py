"""Arguments of the public routines: accepted as documented, and all of them act."""
import json
import os
from .core import *
from . import configs
from .entry import find
from .rules_sys import every_run, _effect

SPEC = os.path.join(HERE, 'spec', 'interface.json')
ACTS = ('draw', 'savefig', 'figure', 'print', 'show', 'close', 'write', 'fsread', 'raise')


def modekey(kw):
    return ','.join('%s=%s' % i for i in sorted(kw.items()))


def closure(r):
    """Everything a caller can see of one run: result, effects and the conditions of both."""
    vs = [v for v in [r.value] + [_effect(e) for e in r.events if e.kind in ACTS] if isinstance(v, Val)]
    vs += [p['val'] for p in r.pstores if isinstance(p.get('val'), Val)]
    loops = {li.lid: Loop(li) for li in r.loopinfos if hasattr(li, 'pre') and hasattr(li, 'cond')}
    done, k = set(), 0
    while k < len(vs):
        for lid in {a.args[0] for a in atoms_in(vs[k]).values() if a.op in ('phi', 'loopout')} - done:
            L = loops.get(lid)
            if L is None or not isinstance(L.cond, Val):
                continue
            done.add(lid)
            vs.append(L.cond)
            for d in (L.pre, L.next):
                vs += [v for v in d.values() if isinstance(v, Val)]
        k += 1
    return vs


def acting(r):
    live, opaque = set(), False
    for v in closure(r):
        for a in atoms_in(v).values():
            if a.op == 'par':
                live.add(str(a.args[0]).split('.')[0])
            if a.opaque and a.op not in ('phi', 'loopout', 'whilen') and not (a.op == 'dictobj' and 'entries' in a.args):
                opaque = True
    return live, opaque


def entries(r):
    """argument -> the fixed entries of it that act, for the arguments used by entries only"""
    used, whole = {}, set()
    for v in closure(r):
        at = atoms_in(v).values()
        roots = [v] if isinstance(v, N) else []
        for a in at:
            for k, x in enumerate(a.args):
                y = as_atom(x) if isinstance(x, N) else None
                if y is not None and y.op == 'par':
                    i = intconst(a.args[1]) if a.op == 'at' and k == 0 and isinstance(a.args[1], N) else None
                    if i is None:
                        whole.add(str(y.args[0]))
                    else:
                        used.setdefault(str(y.args[0]), set()).add(i)
        for x in roots:
            y = as_atom(x)
            if y is not None and y.op == 'par':
                whole.add(str(y.args[0]))
    return {p: sorted(s) for p, s in used.items() if p not in whole}, whole


def public(n):
    return not n.startswith('chain.')


def arguments(C):
    spec = json.load(open(SPEC))
    runs = {}
    for n, kw, r in every_run(C):
        if n in spec:
            runs.setdefault(n, {})[modekey(kw)] = (kw, r)
    for n in sorted(spec):
        C.guard(_arguments, n, spec[n], runs.get(n, {}))
    C.guard(_methods, spec)
    for n in ('WaveformFittingMultiproc.run_waveformfitting', 'ExtractEqMultiproc.Get_Eqtimes_multiproc',
              'ExtractEqMultiproc.ExtractEq_Multiproc'):
        C.guard(_workers, n)


def _workers(C, n):
    """The number of processes asked for decides how many are started."""
    r = C.entry(n)
    for e in r.ev('pool_open'):
        k = e.args[1] if len(e.args) > 1 else e.kw.get('processes', e.kw.get('max_workers', NONE))
        what = 'argument nproc takes part in the number of workers'
        if any(a.op == 'par' and a.args[0] == 'nproc' for a in atoms_in(k).values()):
            C.good(r, 'every-argument-acts', what, line=e.line)
        elif opaque_in(k):
            C.unsure(r, 'every-argument-acts', what, line=e.line)
        else:
            C.bad(r, 'every-argument-acts', 'argument nproc has no influence on the number of workers', actual=full(k),
                  line=e.line)


def signature(C, r, want, optional):
    fn = r.fn if hasattr(r, 'fn') else None
    a = fn.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    kwo = [x.arg for x in a.kwonlyargs]
    free = len(pos) - len(a.defaults)
    must = set(pos[:free]) | {x for x, d in zip(kwo, a.kw_defaults) if d is None}
    line = fn.node.lineno
    if a.vararg is None and a.kwarg is None or not set(want) - set(pos):
        if pos[:len(want)] != want:
            return C.bad(r, 'documented-argument-order', 'positional arguments are no longer the documented ones',
                         actual=', '.join(pos), expected=', '.join(want), line=line)
    elif [p for p in pos if p in want] != want[:len([p for p in pos if p in want])]:
        return C.bad(r, 'documented-argument-order', 'positional arguments are no longer the documented ones',
                     actual=', '.join(pos), expected=', '.join(want), line=line)
    new = sorted((must - set(want)) | (must & set(optional)))
    if new:
        return C.bad(r, 'documented-argument-order', 'a documented call no longer passes %s' % ', '.join(new), line=line)
    C.good(r, 'documented-argument-order', '%d arguments' % len(want))


def _arguments(C, n, s, runs):
    if not runs:
        return
    if public(n):
        signature(C, next(iter(runs.values()))[1], s['order'], s['optional'])
    for k, (kw, r) in sorted(runs.items()):
        want = s['acts'].get(k)
        if want is None:
            continue
        live, opaque = acting(r)
        for p in want:
            what = 'argument %s takes part in the result or the output' % p
            if p in live:
                C.good(r, 'every-argument-acts', what)
            elif opaque:
                C.unsure(r, 'every-argument-acts', what)
            else:
                C.bad(r, 'every-argument-acts', 'argument %s has no influence on the result or the output' % p,
                      line=r.fn.node.lineno if hasattr(r, 'fn') else None)
        ent = s.get('entries', {}).get(k, {})
        if ent:
            have, whole = entries(r)
            for p, ks in sorted(ent.items()):
                what = 'entries %s of argument %s take part in the result or the output' % (ks, p)
                if p in whole or set(ks) <= set(have.get(p, ())):
                    C.good(r, 'every-entry-acts', what)
                elif opaque:
                    C.unsure(r, 'every-entry-acts', what)
                else:
                    C.bad(r, 'every-entry-acts', 'entry %s of argument %s has no influence on the result or the output' % (
                        sorted(set(ks) - set(have.get(p, ()))), p), line=r.fn.node.lineno if hasattr(r, 'fn') else None)
    for p in s.get('modes', ()):
        for k, (kw, r) in sorted(runs.items()):
            for k2, (kw2, r2) in sorted(runs.items()):
                if k < k2 and set(kw) == set(kw2) and p in kw and kw[p] != kw2[p] and \
                        all(kw[q] == kw2[q] for q in kw if q != p):
                    a, b = sight(r), sight(r2)
                    what = '%s=%s and %s=%s are told apart' % (p, kw[p], p, kw2[p])
                    if a != b:
                        C.good(r, 'every-mode-acts', what)
                    else:
                        C.bad(r, 'every-mode-acts', '%s=%s and %s=%s give the same result and output' % (p, kw[p], p, kw2[p]),
                              line=r.fn.node.lineno)


def sight(r):
    return [v.key() for v in closure(r)]


METHODS = ('RFTrace.__init__', 'RFTrace.deconvolve', 'synrf.__init__', 'synrf.run_fwd', 'synrf.filter', 'synrf.run_deconvolution')


def _methods(C, spec):
    for m in METHODS:
        f = find(C.ws.I, 'synrf', m)
        s = spec.get('synrf.' + m)
        if f is None or s is None:
            continue
        r = Shell(f, m)
        signature(C, r, s['order'], s['optional'])


class Shell:
    def __init__(self, fn, name):
        self.fn, self.where, self.config, self.entry = fn, ('synrf.py', name), '', 'synrf.' + name
