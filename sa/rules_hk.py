"""H-k stacking rules: stack value, arrival times, grid/best model, units, staging."""
from .core import *

W = {'w1': '3/5', 'w2': '3/10', 'w3': '1/10'}
DEF_HK = {'Vp': 6.5, 'w1': .6, 'w2': .3, 'w3': .1, 'layer': 'Moho', 'stack': False}
DEF_SEQ = {'VpSed': 3.0, 'w1Sed': .6, 'w2Sed': .3, 'w3Sed': .1, 'stack': False}
DEF_YU = {'VpMoho': 6.5, 'VpSed': 2.5, 'w1SubSed': .6, 'w2SubSed': .3, 'w3SubSed': .1}
DEF_SHK = {'Vp': 6.5, 'w1': .6, 'w2': .3, 'w3': .1, 'layer': 'Moho'}
DEF_SSEQ = {'VpSed': 3.0, 'w1Sed': .6, 'w2Sed': .3, 'w3Sed': .1, 'rmneg': False}
DEFAULTS = {'hkZhu.hk': DEF_HK, 'hkSeqYeck.hkSeq': DEF_SEQ, 'hkYu.hkYu': DEF_YU,
            'SynthAnalysis.hkSynth': DEF_SHK, 'SynthAnalysis.hkSeqSynth': DEF_SSEQ}


def pyval(v):
    return NONE if v is None else TRUE if v is True else FALSE if v is False else \
        Kst(v) if isinstance(v, str) else num(v)


def filled(r, name):
    """The arguments with None replaced by the documented default."""
    p = dict(r.params)
    for k, v in DEFAULTS[name].items():
        if k in p and p[k] is NONE:
            p[k] = pyval(v)
    return p


class Stage:
    """One H-k surface computed by an entry point."""
    def __init__(self, r, label, surface, best, weights, alts, skey, bkey):
        self.r, self.label, self.surface, self.best = r, label, surface, best
        self.weights, self.alts, self.skey, self.bkey = weights, alts, skey, bkey


ORDERS = ('KH', 'HK')


def item(v, k):
    """Element k of a row value."""
    if isinstance(v, Tup):
        return v.items[k] if k < len(v.items) else None
    if isinstance(v, N):
        return f_at(v, num(k))
    return None


def stage_hk(C, name, **kw):
    r = C.entry(name, **kw)
    d = r.value
    if not isinstance(d, Dct):
        raise Missing('%s does not return a dictionary the analysis can follow' % name)
    d = d.d
    out = []

    def stage(label, skey, bkey, ws, specs):
        out.append(Stage(r, label, d.get(skey), d.get(bkey), ws, specs, skey, bkey))
    P = filled(r, name)
    if name == 'hkZhu.hk':
        stage('', 'stackvalues', 'bestmodel', ('w1', 'w2', 'w3'),
              [C.spec('hk', 'hk', P, order=Kst(o)).value.d['surface'] for o in ORDERS])
    elif name == 'hkSeqYeck.hkSeq':
        stage('Sed', 'stackvalueSed', 'bestmodelSed', ('w1Sed', 'w2Sed', 'w3Sed'),
              [C.spec('hk', 'seq_sed', P, order=Kst(o)).value.d['surface'] for o in ORDERS])
        b = d.get('bestmodelSed')
        if b is not None and item(b, 1) is not None:
            stage('Moho', 'stackvalueMoho', 'bestmodelMoho', ('w1Moho', 'w2Moho', 'w3Moho'),
                  [C.spec('hk', 'seq_moho', P, order=Kst(o), H1=item(b, 0), K1=item(b, 1),
                          axisstream=P[a]).value.d['surface']
                   for o in ORDERS for a in ('rfstreamSed', 'rfstreamMoho')])
    elif name == 'hkYu.hkYu':
        f = flt_items(r)
        stage('SubSed', 'stackvaluesSubSed', 'bestmodelSubSed', ('w1SubSed', 'w2SubSed', 'w3SubSed'),
              [C.spec('hk', 'yu', {**P, **f}, order=Kst(o)).value.d['surface'] for o in ORDERS])
    elif name == 'SynthAnalysis.hkSynth':
        stage('', 'stackvalues', 'bestmodel', ('w1', 'w2', 'w3'),
              [C.spec('hk', 'synth_one', P, data=P['Synthrf'], order=Kst(o)).value.d['surface'] for o in ORDERS])
    elif name == 'SynthAnalysis.hkSeqSynth':
        stage('Sed', 'stackvalueSed', 'bestmodelSed', ('w1Sed', 'w2Sed', 'w3Sed'),
              [C.spec('hk', 'synth_one', dict(data=P['rfSynthSed'], time=P['time'], rayp=P['rayp'], H=P['HSed'],
                                              K=P['KSed'], Vp=P['VpSed'], w1=P['w1Sed'], w2=P['w2Sed'],
                                              w3=P['w3Sed']), order=Kst(o)).value.d['surface'] for o in ORDERS])
        b = d.get('bestmodelSed')
        if b is not None and item(b, 1) is not None:
            stage('Moho', 'stackvalueMoho', 'bestmodelMoho', ('w1Moho', 'w2Moho', 'w3Moho'),
                  [C.spec('hk', 'synth_moho', P, data=P['rfSynthMoho'], H1=item(b, 0), K1=item(b, 1),
                          order=Kst(o)).value.d['surface'] for o in ORDERS])
    return out


def flt_items(r):
    return {'data': sym('FltResult.filteredrf', 'arr'), 'time': sym('FltResult.time', 'arr'),
            'tlag': tlag_sym(r)}


def tlag_sym(r):
    for a in _find(r, 'FltResult.tlag'):
        return a
    return sym('FltResult.tlag', 'num')


def _find(r, name):
    for a in atoms_in(r.value).values():
        if a.op == 'par' and a.args[0] == name:
            yield from_atom(a)


def hk_configs(tier):
    out = [('hkZhu.hk', dict(stack=s)) for s in (False, True)]
    out += [('hkSeqYeck.hkSeq', dict(stack=s)) for s in (False, True)]
    out += [('hkYu.hkYu', {}), ('SynthAnalysis.hkSynth', {}), ('SynthAnalysis.hkSeqSynth', {})]
    out += [(n, dict(none=True)) for n in DEFAULTS]
    out += [('hkZhu.hk', dict(layer='Sed', stack=s)) for s in (False, True)]
    out += [('SynthAnalysis.hkSynth', dict(layer='Sed')), ('SynthAnalysis.hkSeqSynth', dict(rmneg=True)),
            ('SynthAnalysis.hkSeqSynth', dict(rmneg=False))]
    if tier == 'thorough':
        out += [('hkZhu.hk', dict(layer=l, stack=s, none=True)) for l in ('Moho', 'Sed') for s in (False, True)]
        out += [('hkSeqYeck.hkSeq', dict(stack=s, none=True)) for s in (False, True)]
        out += [('SynthAnalysis.hkSeqSynth', dict(rmneg=v, none=True)) for v in (False, True)]
    return out


def stages(C):
    for name, kw in hk_configs(C.tier):
        for s in C.guard(lambda C: stage_hk(C, name, **kw)) or []:
            yield s


def abstract_times(v):
    return rewrite(v, lambda a: mk('nearest', (), 'num') if a.op == 'argmin' else None)


def col(v, k):
    return f_col(v, k) if isinstance(v, N) else None


def what(s, txt):
    return '%s %s' % (s.skey, txt)


# ------------------------------------------------------------------ P01
def stack_value(C):
    for s in stages(C):
        C.guard(_stack_value, s)


def _stack_value(C, s):
    if s.surface is None:
        raise Missing('%s has no %s' % (s.r.entry, s.skey))
    v = col(s.surface, 2)
    # a sample found in another way than as the nearest one is compared together with its times
    ab = abstract_times if any(a.op == 'argmin' for a in atoms_in(v).values()) else lambda x: x
    C.same(s.r, 'stack-is-weighted-phase-sum-over-all-traces', ab(v), [ab(col(e, 2)) for e in s.alts],
           what(s, 'amplitude column = sum over traces of w1*Ps + w2*PpPs - w3*PpSs at every grid node'))
    comp_amp(C, s)


def comp_amp(C, s):
    """amplitudes are read at the sample nearest in time: |time - t|"""
    t = col(s.surface, 2)
    bad = [a for a in atoms_in(t).values() if a.op in ('argmin',) and
           (as_atom(a.args[0]) is None or as_atom(a.args[0]).op != 'abs')]
    n = sum(1 for a in atoms_in(t).values() if a.op == 'argmin')
    if bad and not opaque_in(t):
        C.bad(s.r, 'amplitude-read-at-nearest-sample', 'amplitude is not read at the sample nearest to the '
              'predicted time', actual=full(from_atom(bad[0])), line=ret_line(s.r))
    elif n:
        C.good(s.r, 'amplitude-read-at-nearest-sample', what(s, '%d nearest-sample lookups' % n))
    else:
        C.unsure(s.r, 'amplitude-read-at-nearest-sample', 'no nearest-sample lookup recognised')


# ------------------------------------------------------------------ P02
def by_weight(colv, weights, s):
    a = as_atom(colv)
    if a is None or a.op != 'comp':
        return None
    body = a.args[2]
    if not isinstance(body, N):
        return None
    out = {}
    for mono, c in body.t.items():
        w = [atom_of(i).args[0] for i, e in mono if atom_of(i).op == 'par' and atom_of(i).args[0] in weights]
        key = w[0] if w else 'const'
        for i, e in mono:
            for x in atoms_in(from_atom(atom_of(i))).values():
                if x.op == 'argmin':
                    out.setdefault(key, {})[x.id] = x
    return tuple(a.args[1]), out


def arrival_times(C):
    for s in stages(C):
        C.guard(_arrival_times, s)


def _arrival_times(C, s):
    if s.surface is None:
        raise Missing('%s has no %s' % (s.r.entry, s.skey))
    names = dict(zip(s.weights, ('Ps', 'PpPs', 'PpSs+PsPs')))
    rule = 'arrival-time-equations'
    A = by_weight(col(s.surface, 2), s.weights, s)
    if A is None or opaque_in(col(s.surface, 2)) or not A[1]:
        return C.same(s.r, rule, col(s.surface, 2), [col(e, 2) for e in s.alts], what(s, 'arrival times'))
    cands = []
    for e in s.alts:
        E = by_weight(col(e, 2), s.weights, s)
        bad = []
        for w in E[1]:
            got, exp = A[1].get(w, {}), E[1][w]
            g = [x.args[0] for x in got.values()]
            x = [y.args[0] for y in exp.values()]
            if not (len(g) == len(x) and all(any(equal(p, q) for q in x) for p in g)):
                bad.append((w, g, x))
        cands.append((len(bad), bad, E))
    n, bad, E = min(cands, key=lambda c: c[0])
    for w in E[1]:
        b = [x for x in bad if x[0] == w]
        if b:
            _, g, x = b[0]
            gb, xb = (g[0] if g else num(0)), x[0]
            C.bad(s.r, rule, what(s, 'is sampled at the wrong time for the phase weighted by %s (%s)' % (
                w, names.get(w, '?'))), actual=first_diff(gb, xb)[0], expected=first_diff(gb, xb)[1],
                line=blame(s.r, gb, xb))
        else:
            C.good(s.r, rule, what(s, 'phase %s (weight %s) sampled at its predicted arrival' % (names.get(w, '?'), w)))


# ------------------------------------------------------------------ P03
def grid_and_best(C):
    for s in stages(C):
        C.guard(_grid_and_best, s)


def _grid_and_best(C, s):
    if s.surface is None or s.best is None:
        raise Missing('%s has no %s' % (s.r.entry, s.skey))
    C.same(s.r, 'every-grid-node-once', Tup([col(s.surface, 0), col(s.surface, 1)], 'tuple'),
           [Tup([col(e, 0), col(e, 1)], 'tuple') for e in s.alts],
           what(s, 'has one row (H, k, value) for every pair of the given H and k ranges'))
    w = f_argext('argmax', col(s.surface, 2))
    exp = Tup([f_at(col(s.surface, k), w) for k in range(3)], 'row')
    act = s.best
    if isinstance(act, N) and not isinstance(act, Tup):
        act = Tup([f_at(act, num(k)) for k in range(3)], 'row')
    C.same(s.r, 'best-model-is-row-of-maximum', act, exp,
           '%s = row of %s where the stack is largest' % (s.bkey, s.skey))
    # the printed summary reports the returned best model
    prints = s.r.ev('print')
    def vals(e):
        out = []
        for x in e.args:
            for p in (x.parts if isinstance(x, StrV) else [x]):
                out.append(p[1] if isinstance(p, tuple) else p)
        return [x for x in out if isinstance(x, N)]
    best = [item(s.best, k) for k in range(3)]
    near = None
    for e in prints:
        vs = vals(e)
        hit = [any(equal(x, b) for x in vs) for b in best]
        if all(hit):
            return C.good(s.r, 'summary-reports-best-model', '%s: printed H, k and maximum are the returned ones' % s.bkey)
        if any(hit):
            near = (e, [n for n, h in zip(('H', 'k', 'stack maximum'), hit) if not h])
    if near:
        e, miss = near
        ops = [o for x in vals(e) for o in opaque_in(x)]
        f = C.unsure if ops else C.bad
        f(s.r, 'summary-reports-best-model', 'the printed summary of %s does not report its %s' % (
            s.bkey, ', '.join(miss)), line=e.line)
    else:
        C.unsure(s.r, 'summary-reports-best-model', 'no printed summary of %s found' % s.bkey)


# ------------------------------------------------------------------ P05
def sequential_stage(C):
    confs = [(n, k) for n, k in hk_configs(C.tier) if n in ('hkSeqYeck.hkSeq', 'SynthAnalysis.hkSeqSynth')]
    for n, k in confs:
        C.guard(_sequential, n, k)


def _sequential(C, n, k):
    st = stage_hk(C, n, **k)
    if len(st) < 2:
        raise Missing('%s: no sediment best model' % n)
    sed, moho = st
    b = sed.best
    H1, K1 = item(b, 0), item(b, 1)
    h, kk = mk('SedH', (), 'num'), mk('SedK', (), 'num')
    ha, ka = as_atom(H1), as_atom(K1)
    if ha is None or ka is None:
        raise Missing('sediment best model is not a lookup')

    def abs_(v):
        return rewrite(v, lambda a: h if a.id == ha.id else kk if a.id == ka.id else None)
    c2 = abs_(col(moho.surface, 2))
    exps = [abs_(col(e, 2)) for e in moho.alts]
    whole = opaque_in(c2) or not argmins(c2).items      # not sampled by a nearest-time search: compare the surfaces
    C.same(moho.r, 'moho-stage-delays-by-best-sediment-layer', c2 if whole else argmins(c2),
           exps if whole else [argmins(e) for e in exps],
           'Moho arrival times add the travel times through the best sediment layer (thickness, Vp/Vs, sediment Vp)')
    rest = [a for a in atoms_in(c2).values() if a.op == 'par' and a.args[0] in (
        'HSed', 'KSed', 'w1Sed', 'w2Sed', 'w3Sed', 'rfstreamSed', 'rfSynthSed')]
    axis_ok = {'rfstreamSed'}      # shared time axis
    rest = [a for a in rest if a.args[0] not in axis_ok]
    if opaque_in(c2):
        C.unsure(moho.r, 'moho-stage-uses-sediment-only-through-best-model', 'unmodelled construct')
    else:
        C.holds(moho.r, 'moho-stage-uses-sediment-only-through-best-model', not rest,
                'the Moho surface depends on the sediment stage only through its best model' if not rest else
                'the Moho surface also depends on %s' % ', '.join(sorted(a.args[0] for a in rest)), line=ret_line(moho.r))


def argmins(v):
    xs = {a.id: a for a in atoms_in(v).values() if a.op == 'argmin'}
    xs = sorted((a.args[0] for a in xs.values()), key=lambda x: repr(sorted(map(repr, x.key()[1]), key=str)) if isinstance(x, N) else '')
    return Bag(xs)


class Bag(Val):
    """Unordered collection of values, for comparison only."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def key(self):
        return ('BAG',) + tuple(sorted((repr(i.key()) for i in self.items)))


# ------------------------------------------------------------------ P04
SKM = ('rayp',)


def unit_audit(v, found):
    """Every use of a slowness, split into right and wrong unit conversions.

    A trace slowness (s/deg) or the average of such slownesses must be
    multiplied by exactly one km->deg factor; a ray parameter (s/km) by none.
    """
    def bearing(a):
        s = show_slow(a)
        return s
    def walk(v, seen):
        if isinstance(v, (Tup,)):
            for i in v.items:
                walk(i, seen)
            return
        if not isinstance(v, N):
            return
        for mono, c in v.t.items():
            deg = km = skm = 0
            for i, e in mono:
                a = atom_of(i)
                if a.op == 'km2deg':
                    km += e
                elif is_slow(a):
                    deg += e
                elif is_skm(a):
                    skm += e
            if deg or (km and not deg) or skm:
                found.append((mono, c, deg, km, skm))
            for i, e in mono:
                if i in seen:
                    continue
                seen.add(i)
                a = atom_of(i)
                if is_slow(a):
                    continue
                for x in a.args:
                    if isinstance(x, Val):
                        walk(x, seen)
                    elif isinstance(x, tuple):
                        for y in x:
                            if isinstance(y, Val):
                                walk(y, seen)
    walk(v, set())


def show_slow(a):
    return is_slow(a)


def is_slow(a):
    if a.op in ('item', 'attr') and len(a.args) > 1 and a.args[1] in ('slowness', Kst('slowness')):
        return True
    if a.op in ('attr', 'item', 'key') and any(getattr(x, 'v', x) == 'slowness' for x in a.args if not isinstance(x, N)):
        return True
    if a.op == 'par' and a.args[0].endswith('AvgSlow'):
        return True
    if a.op in ('sum', 'mean', 'comp'):
        for x in a.args:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, N):
                    at = as_atom(y)
                    if at is not None and is_slow(at):
                        return True
    return False


def is_skm(a):
    return a.op == 'par' and a.args[0].split('.')[-1] in ('rayp', 'RayP')


def ray_parameter_units(C):
    for name, kw in hk_configs(C.tier):
        C.guard(_units_result, name, kw)
    for name, kw in plot_configs(C.tier):
        C.guard(_units_plot, name, kw)


def plot_configs(tier):
    out = [(n, dict(stack=s)) for n in ('hkZhu.plothk', 'hkSeqYeck.plotSeqhk') for s in (False, True)]
    out += [(n, {}) for n in ('hkYu.plothkYu', 'SynthAnalysis.plothkSynth', 'SynthAnalysis.plothkSeqSynth')]
    return out


def _units_result(C, name, kw):
    for s in stage_hk(C, name, **kw):
        _units(C, s.r, [col(s.surface, 2)], what(s, ''), ret_line(s.r))
        _own_slowness(C, s)
        _as_given(C, s)


def _as_given(C, s):
    """A ray parameter given in s/km enters the equations as it is, neither scaled nor tested for its unit."""
    rule = 'given-ray-parameter-used-as-is'
    v = col(s.surface, 2)
    uses = []
    unit_audit(v, uses)
    uses = [x for x in uses if x[4]]
    if not uses or opaque_in(v):
        return
    alts = [col(e, 2) for e in s.alts]
    if any(equal(v, e) for e in alts):
        return C.good(s.r, rule, what(s, '%d uses' % len(uses)))
    spec = []
    for e in alts:
        unit_audit(e, spec)
    known = {}
    for x in spec:
        known.setdefault(x[0], set()).add(x[1])
    for mono, c, _, _, n in uses:
        alone = len(mono) == 1 and n % 2
        if mono in known and c not in known[mono] and -c not in known[mono] or mono not in known and alone:
            t = N({mono: c})
            return C.bad(s.r, rule, what(s, 'the ray parameter given in s/km is scaled or tested for its unit'), actual=full(t),
                         expected='the ray parameter as given', line=blame(s.r, t, num(0)) or ret_line(s.r))


def direct(v, out, seen):
    """Slowness atoms of a value outside inner loops (averages) and inner searches."""
    for m in v.t if isinstance(v, N) else ():
        for i, _ in m:
            if i in seen:
                continue
            seen.add(i)
            a = atom_of(i)
            if a.op in ('comp', 'sum', 'mean', 'argmax', 'argmin', 'opaque'):
                continue
            if is_slow(a):
                out.append(a)
                continue
            for x in a.args:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, N):
                        direct(y, out, seen)


def trace_of(v):
    """The trace a path such as X[i].stats.slowness or X[i].data belongs to."""
    while True:
        a = as_atom(v) if isinstance(v, N) else None
        if a is None or a.op not in ('attr', 'item', 'key'):
            return v if isinstance(v, N) else None
        v = a.args[0]


def _own_slowness(C, s):
    rule = 'each-trace-uses-its-own-slowness'
    v = col(s.surface, 2)
    if v is None or opaque_in(v):
        return
    n = 0
    for a in list(atoms_in(v).values()):
        if a.op != 'at' or len(a.args) != 2 or not all(isinstance(x, N) for x in a.args):
            continue
        ix = as_atom(a.args[1])
        src = as_atom(a.args[0])
        if ix is None or ix.op != 'argmin' or src is None or src.op != 'attr' or src.args[1] != 'data':
            continue
        tr, out = trace_of(a.args[0]), []
        direct(ix.args[0], out, set())
        for x in out:
            if x.op not in ('attr', 'item', 'key'):
                continue
            n += 1
            own = trace_of(x.args[0])
            if own is not None and not equal(own, tr):
                return C.bad(s.r, rule, what(s, 'samples one trace at times computed with the slowness of another'),
                             actual=full(own) + ' slowness', expected=full(tr) + ' slowness (or the average)',
                             line=blame(s.r, from_atom(x), num(0)) or ret_line(s.r))
    if n:
        C.good(s.r, rule, what(s, '%d samples, each at times of its own trace' % n))


def _units_plot(C, name, kw):
    r = C.entry(name, **kw)
    for e in r.ev('draw'):
        if e.name in ('plot', 'axvspan', 'axvline', 'vlines') and e.args:
            fs = []
            for x in e.args:
                if isinstance(x, Val):
                    unit_audit(x, fs)
            if fs:
                _units(C, r, [x for x in e.args if isinstance(x, Val)], 'phase time drawn by %s' % e.name, e.line)


def _units(C, r, vals, txt, line):
    fs = []
    for v in vals:
        unit_audit(v, fs)
    rule = 'slowness-converted-to-s-per-km-exactly-once'
    if any(opaque_in(v) for v in vals):
        return C.unsure(r, rule, txt + ': unmodelled construct')
    bad = [f for f in fs if not ((f[2] and f[3] == f[2] and not f[4]) or (f[4] and not f[3] and not f[2]))]
    if bad:
        m, c, deg, km, skm = bad[0]
        t = N({m: c})
        C.bad(r, rule, '%s uses the horizontal slowness in the wrong unit (slowness^%d, km-per-degree factor^%d, '
              'ray parameter^%d)' % (txt, deg, km, skm), actual=full(t), expected='each s/deg slowness times one '
              'kilometer2degrees factor; s/km ray parameters unscaled', line=blame(r, t, num(0)) if not line else line)
    elif fs:
        C.good(r, rule, '%s: %d slowness uses' % (txt, len(fs)))
    else:
        C.unsure(r, rule, '%s: no slowness use found' % txt)


# ------------------------------------------------------------------ P06
def yu_correction(C):
    for kw in ({}, dict(none=True)):
        C.guard(_yu, kw)


def _yu(C, kw):
    r = C.entry('hkYu.hkYu', **kw)
    P = filled(r, 'hkYu.hkYu')
    d = r.value.d
    e = C.spec('hk', 'yu', {**P, **flt_items(r)}, order=Kst('KH')).value.d
    C.same(r, 'p-delay', d.get('Pdelay'), e['Pdelay'], 'Pdelay = sediment S minus P one-way time')
    C.same(r, 'sediment-thickness', d.get('SedThick'), e['SedThick'],
           'sediment thickness = two-way time lag * sediment Vs / 2')
    (s,) = stage_hk(C, 'hkYu.hkYu', **kw)
    _arrival_times(C, s)
    _stack_value(C, s)
    b = s.best
    C.same(r, 'sub-sediment-thickness', d.get('SubSedThick'), item(b, 0), 'SubSedThick = best H')
    C.same(r, 'sub-sediment-vpvs', d.get('SubSedVpVs'), item(b, 1), 'SubSedVpVs = best k')
    th = [x for ev in r.ev('print') for x in ev.args if isinstance(x, N) and equal(x, e['SedThick'])]
    if th:
        C.good(r, 'printed-sediment-thickness', 'printed thickness is the one used for the delay')
