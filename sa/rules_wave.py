"""Waveform-fitting rules: earth model, fit window and measures, goodness, serial = parallel."""
from .core import *
from .rules_hk import col
from .rules_plot import DATA_ARGS, segments, dkey, framing

SER = 'WaveformFitting.WaveformFitting'
PAR = 'WaveformFittingMultiproc.'
COLS = ('Correlation', 'RMSE', 'phase goodness', 'H', 'kappa')


# ------------------------------------------------------------- extraction
def rows_of(v):
    """(columns Corr, RMSE, PG, H, K) of a table or of nested lists of rows."""
    a = as_atom(v) if isinstance(v, N) else None
    if a is not None and a.op == 'table':
        return [f_col(v, k) for k in range(len(a.args))]
    return None


def runs(C):
    """(result, solution columns, goodness column or None, orders in which the grid may be listed)."""
    out = []
    r = C.entry(SER)
    w = r.value.d.get('WaveformSolutions') if isinstance(r.value, Dct) else None
    c = rows_of(w) if w is not None else None
    if c is None or len(c) != 6:
        C.unsure(r, 'waveform-solutions', 'solution table not recognised')
    else:
        out.append((r, [c[0], c[1], c[2], c[4], c[5]], c[3]))
    return out


def spec_serial(C, r):
    """Specified columns, in the grid order the code uses (rows are a set: either loop order is fine)."""
    P = {k: r.params[k] for k in 'rfstream preonset HSed VpSed VpCrust rayp KMoho HMoho gaussian'.split()}
    return [[f_col(C.spec('waveform', f, P).value, k) for k in range(5)] for f in ('solutions_k', 'solutions_h')]


def parallel(C):
    a = C.entry(PAR + 'WaveformFit_multiproc')
    b = C.entry(PAR + 'run_waveformfitting')
    ea = C.spec('waveform', 'depth_rows', {'ModelParams': C.entry(PAR + 'WaveformPara').value,
                                           'H': sym('HMoho', 'num')})
    eb = C.spec('waveform', 'all_depths', {'ModelParams': C.entry(PAR + 'WaveformPara').value,
                                           'HMoho': b.params['HMoho']})
    return (a, a.value, ea.value), (b, b.value, eb.value)


def pick(v, k):
    """k-th entry of every row in a (possibly nested) list of rows."""
    if isinstance(v, Tup) and v.kind == 'list' and v.items and all(isinstance(i, Tup) for i in v.items):
        return Tup([pick(i, k) for i in v.items], 'list')
    if isinstance(v, Tup) and len(v.items) == 5:
        return v.items[k]
    a = as_atom(v) if isinstance(v, N) else None
    if a is not None and a.op == 'comp':
        bs, ns, body = a.args
        fr = [fresh_binder() for _ in bs]
        x = pick(subst(body, dict(zip(bs, fr))), k)
        return None if x is None else f_comp(fr, list(ns), x)
    if a is not None and a.op == 'wrapped':
        return pick(a.args[0], k)
    return None


def synthetics(vs):
    out = {}
    for v in vs:
        for i, a in atoms_in(v).items():
            if a.op == 'mret' and 'run_deconvolution' in repr(a.args[-1]) + repr(a.args):
                out[i] = a
    return out


# ------------------------------------------------------------------ P09
def earth_model(C):
    C.guard(_model_serial)
    C.guard(_model_parallel)
    C.guard(_model_dict)


def _model_serial(C):
    for r, c, _ in runs(C):
        alts = spec_serial(C, r)
        e = next((x for x in alts if equal(x[3], c[3]) and equal(x[4], c[4])), None)
        for k in (3, 4):
            C.same(r, 'one-row-per-grid-node', c[k], (e or alts[0])[k], 'label column %s' % COLS[k])
        e = e or alts[0]
        _same_synth(C, r, c[:3], e[:3])


def _same_synth(C, r, cols, exp):
    for k in range(3):
        A, E = synthetics([cols[k]]), synthetics([exp[k]])
        if set(A) == set(E):
            C.good(r, 'synthetic-of-documented-model', '%s column: synthetic receiver function of the node' % COLS[k])
            continue
        x = [a for i, a in A.items() if i not in E] or list(A.values())
        y = [a for i, a in E.items() if i not in A] or list(E.values())
        if not A or opaque_in(cols[k]) and not refuted_part(x[0], y[0]):
            C.unsure(r, 'synthetic-of-documented-model', '%s column: synthetic not recognised' % COLS[k])
            continue
        d = inst_diff(x[0], y[0])
        C.bad(r, 'synthetic-of-documented-model', '%s column compares with a different synthetic' % COLS[k],
              actual=d[0], expected=d[1], line=blame(r, cols[k], exp[k]))


def refuted_part(x, y):
    """Same calls, but one argument has a value that differs from the specified one."""
    fx, fy = flat(x), flat(y)
    if len(fx) != len(fy) or any(str(p) != str(q) for p, q in zip(fx, fy) if not (isinstance(p, Val) and isinstance(q, Val))):
        return False
    return any(not equal(p, q) and ri.refuted(p, q) for p, q in zip(fx, fy) if isinstance(p, Val) and isinstance(q, Val))


def inst_diff(x, y):
    """Readable difference of two opaque-object expressions."""
    fx, fy = flat(x), flat(y)
    if len(fx) == len(fy):
        for p, q in zip(fx, fy):
            if isinstance(p, Val) and isinstance(q, Val):
                if not equal(p, q):
                    return first_diff(p, q)
            elif p != q:
                return str(p), str(q)
    return full(from_atom(x)), full(from_atom(y))


def flat(a, depth=0):
    out = []
    for x in (a.args if hasattr(a, 'args') else a):
        if isinstance(x, tuple) and depth < 6:
            out += flat(x, depth + 1)
        elif isinstance(x, Dct):
            for k in sorted(x.d, key=str):
                out += [str(k)] + ([x.d[k]] if not isinstance(x.d[k], (Tup, Dct)) else flat((x.d[k],), depth + 1))
        elif isinstance(x, Tup) and depth < 6:
            out += flat(tuple(x.items), depth + 1)
        elif isinstance(x, N) and as_atom(x) is not None and as_atom(x).op in ('inst', 'mret') and depth < 6:
            out += flat(as_atom(x), depth + 1)
        else:
            out.append(x)
    return out


def _model_parallel(C):
    for r, v, e in parallel(C):
        if pick(v, 3) is None:
            C.unsure(r, 'one-row-per-grid-node', 'rows not recognised')
            continue
        for k in (3, 4):
            C.same(r, 'one-row-per-grid-node', pick(v, k), pick(e, k), 'label %s' % COLS[k])
        _same_synth(C, r, [pick(v, k) for k in range(3)], [pick(e, k) for k in range(3)])


def _model_dict(C):
    r = C.entry(PAR + 'WaveformPara')
    e = C.spec('waveform', 'model', r.params).value.d
    d = params_dict(r)
    if d is None:
        C.unsure(r, 'model-parameters', 'parameter dictionary not recognised')
        return
    for k in 'rayp gaussian HSed VpSed VpCrust VsSed SedDen VsCrust CrustDen HMoho KMoho delta staname rfstream preonset n'.split():
        if k in d or k in ('rfstream',):
            C.same(r, 'model-parameters', d.get(k), e[k], 'parameter %s' % k)


def params_dict(r):
    v = r.value
    if isinstance(v, Tup) and len(v.items) == 1:
        v = v.items[0]
    return v.d if isinstance(v, Dct) else None


# ------------------------------------------------------------------ P10
def fit_window(C):
    C.guard(_measures_serial)
    C.guard(_measures_parallel)
    C.guard(_window_dict)


def blind(v):
    """Forget which earth model was synthesised, keep how its trace is used."""
    return rewrite(v, lambda a: sym('synthetic stream', 'RFStream') if a.op == 'mret' else None)


def _measures_serial(C):
    for r, c, _ in runs(C):
        alts = [[blind(x) for x in e] for e in spec_serial(C, r)]
        own = [blind(x) for x in c]
        e = next((x for x in alts if equal(x[3], own[3]) and equal(x[4], own[4])), alts[0])
        for k in range(3):
            C.same(r, 'measure-over-25s-window', own[k], e[k], '%s of data and synthetic over the same samples' % COLS[k])


def _measures_parallel(C):
    for r, v, e in parallel(C):
        for k in range(3):
            x = pick(v, k)
            C.same(r, 'measure-over-25s-window', None if x is None else blind(x), blind(pick(e, k)),
                   '%s of data and synthetic over the same samples' % COLS[k])


def _window_dict(C):
    r = C.entry(PAR + 'WaveformPara')
    e = C.spec('waveform', 'model', r.params).value.d
    d = params_dict(r)
    if d is None:
        return
    for k in 'tstart tend time StackedData Stdd StddPlus StddMinus'.split():
        if k in d:
            C.same(r, 'window-parameters', d[k], e[k], 'parameter %s' % k)


# ------------------------------------------------------------------ P11
PLOTTERS = (('WaveformFitting.PlotWaveformFitting', {}), (PAR + 'plotbestmodel', {}))


def goodness(C):
    C.guard(_gof_serial)
    C.guard(_gof_prints)
    criterion_figures(C)


def criterion_figures(C):
    for n, kw in PLOTTERS + ((PAR + 'plotbestmodel', {'none': True}),):
        C.guard(_gof_plot, n, kw)


def weights(r):
    W = {}
    for k, d in zip(('wtCorr', 'wtRMSE', 'wtPG'), (num('0.4'), num('0.4'), num('0.2'))):
        v = r.params.get(k)
        W[k] = d if v is None or equal(v, NONE) else v
    return W


def _gof_serial(C):
    for r, c, g in runs(C):
        e = C.spec('waveform', 'goodness', dict(weights(r), Corr=c[0], RMSE=c[1], PG=c[2]))
        C.same(r, 'goodness-of-fit-formula', g, e.value, 'combined goodness of fit')


def _gof_prints(C):
    for r, c, g in runs(C):
        b = C.spec('waveform', 'best_of', dict(Corr=c[0], RMSE=c[1], PG=c[2], GoF=g, H=c[3], K=c[4])).value
        _prints(C, r, b)


def _prints(C, r, best):
    pr = [e for e in r.ev('print')]
    for i, (name, key) in enumerate((('Correlation', 'Correlation'), ('RMSE', 'RMSE'), ('PG', 'PG'),
                                     ('overall goodness', 'Goodness of Fit'))):
        hit = [e for e in pr if key in text_of(e) and 'Best' in text_of(e)
               and (key != 'PG' or 'PG' in text_of(e))]
        if not hit:
            continue
        vals = [p[1] for p in parts_of(hit[0]) if not isinstance(p, str)]
        want = best.items[i].items
        ok = len(vals) >= 2 and equal(vals[0], want[0]) and equal(vals[1], want[1])
        if ok:
            C.good(r, 'printed-best-model', 'best model by %s' % name)
        elif any(opaque_in(v) for v in vals):
            C.unsure(r, 'printed-best-model', 'best model by %s: unmodelled' % name)
        else:
            k = 0 if not vals or not equal(vals[0], want[0]) else min(1, len(vals) - 1)
            d = first_diff(vals[k], want[k]) if vals else ('', full(want[0]))
            C.bad(r, 'printed-best-model', 'the printed best model by %s is not the extremum of that criterion' % name,
                  actual=d[0], expected=d[1], line=hit[0].line)


def parts_of(e):
    out = []
    for a in e.args:
        out += list(a.parts) if isinstance(a, StrV) else ([a.v] if isinstance(a, Kst) and isinstance(a.v, str) else [('', a)])
    return out


def text_of(e):
    return ''.join(p for p in parts_of(e) if isinstance(p, str))


def plot_inputs(C, n, r):
    """Columns of the solutions the plotter is given, the model they belong to, the stream."""
    W = weights(r)
    if n == SER or n.endswith('PlotWaveformFitting'):
        fit = C.entry(SER)
        c = runs(C)[0][1]
        m = C.spec('waveform', 'model', fit.params).value
        st = fit.params['rfstream']
    else:
        b = C.entry(PAR + 'run_waveformfitting')
        fit = C.entry(PAR + 'WaveformPara')
        m = C.spec('waveform', 'model', fit.params).value
        st = fit.params['rfstream']
        c = [flatten(pick(b.value, k)) for k in range(5)]
    g = C.spec('waveform', 'goodness', dict(W, Corr=c[0], RMSE=c[1], PG=c[2])).value
    return dict(rfstream=st, m=m, Corr=c[0], RMSE=c[1], PG=c[2], GoF=g, H=c[3], K=c[4],
                Hs=fit.params['HMoho'], Ks=fit.params['KMoho'])


def unwrap(v):
    a = as_atom(v) if isinstance(v, N) else None
    while a is not None and a.op == 'wrapped':
        v = a.args[0]
        a = as_atom(v) if isinstance(v, N) else None
    return v


def flatten(v):
    """comp over H of comp over K -> one comp over both."""
    a = as_atom(v)
    bs, ns, body = a.args
    fr = [fresh_binder() for _ in bs]
    x = unwrap(subst(body, dict(zip(bs, fr))))
    j = fresh_binder()
    return f_comp(fr + [j], list(ns) + [f_len(x)], f_at(x, j))


def header_preonset(C, st):
    return C.spec('waveform', 'header_preonset', {'rfstream': st}).value


def agreement(A, E):
    return sum(1 for (ad, _), (ed, _) in zip(A, E) for e in ed
               if any(x.name == e.name and equal(dkey(x)[1], dkey(e)[1]) for x in ad))


def _gof_plot(C, n, kw):
    r = C.entry(n, **kw)
    I = plot_inputs(C, n, r)
    b = C.spec('waveform', 'best_of', {k: I[k] for k in 'Corr RMSE PG GoF H K'.split()}).value
    if r.ev('print'):
        _prints(C, r, b)
    s = C.spec('waveform', 'figures', I)
    A, E = segments(r), segments(s)
    if n.endswith('PlotWaveformFitting') and len(A) == len(E):
        # the plotter of the serial fit knows the preonset only from the trace header
        J = dict(I)
        J['m'] = Dct(dict(I['m'].d, preonset=header_preonset(C, I['rfstream'])))
        E2 = segments(C.spec('waveform', 'figures', J))
        if agreement(A, E2) > agreement(A, E):
            E = E2
    if len(A) != len(E):
        if r.ev('unknowncall', 'unknownmethod') or r.notes:
            return C.unsure(r, 'criterion-figures', 'figures not recognised')
        return C.bad(r, 'criterion-figures', '%d figures saved, 4 criteria' % len(A))
    framing(C, r, s, 'criterion-figure-content')
    for k, ((ad, asv), (ed, _)) in enumerate(zip(A, E)):
        left = [dkey(e) for e in ad]
        what = ('Correlation', 'RMSE', 'phase goodness', 'combined goodness')[k]
        miss = []
        for e in ed:
            nm, v = dkey(e)
            hit = next((i for i, (an, av) in enumerate(left) if an == nm and equal(av, v)), None)
            if hit is None:
                miss.append((e, nm, v))
            else:
                left.pop(hit)
                C.good(r, 'criterion-figure-content', '%s figure: %s' % (what, nm))
        for e, nm, v in miss:
            cand = next(((an, av) for an, av in left if an == nm), None)
            if any(opaque_in(av) for _, av in left):
                C.unsure(r, 'criterion-figure-content', '%s figure: unmodelled construct in %s' % (what, nm))
                continue
            d = first_diff(cand[1], v) if cand else (None, full(v))
            line = next((x.line for x in ad if cand and equal(dkey(x)[1], cand[1])), asv.line if asv else None)
            C.bad(r, 'criterion-figure-content', 'the %s figure does not show the %s of its best model' % (what, nm),
                  actual=d[0], expected=d[1], line=line)
            if cand:
                left.remove(cand)


# ------------------------------------------------------------------ P12
def serial_is_parallel(C):
    C.guard(_ser_par)
    C.guard(_nproc_free)
    C.guard(_worker)
    C.guard(worker_count)


def _ser_par(C):
    b = C.entry(PAR + 'run_waveformfitting')
    for r, c, _ in runs(C):
        for k in range(5):
            p = pick(b.value, k)
            if p is None:
                C.unsure(b, 'parallel-rows-equal-serial', 'rows not recognised')
                continue
            p = flatten(p)
            # the serial list may run through the grid in either order
            alts = [c[k]]
            sw = swap(c[k])
            if sw is not None:
                alts.append(sw)
            C.same(b, 'parallel-rows-equal-serial', p, alts, '%s of every grid node' % COLS[k])


def swap(v):
    a = as_atom(v)
    if a is None or a.op != 'comp' or len(a.args[0]) != 2:
        return None
    bs, ns, body = a.args
    fr = [fresh_binder() for _ in bs]
    if any(bid(f) in free_binders_any(n) for f in fr for n in ns):
        return None
    return f_comp(fr[::-1], list(ns)[::-1], subst(body, dict(zip(bs, fr))))


def _nproc_free(C):
    r = C.entry(PAR + 'run_waveformfitting')
    used = any(a.op == 'par' and a.args[0] == 'nproc' for a in atoms_in(r.value).values())
    if not opaque_in(r.value):
        C.holds(r, 'result-independent-of-process-count', not used, 'returned rows do not depend on nproc')
    ms = r.ev('pool_map')
    for e in ms:
        if e.name in ('imap_unordered',):
            C.bad(r, 'results-in-grid-order', 'results are collected in completion order (%s)' % e.name, line=e.line)
        else:
            C.good(r, 'results-in-grid-order', 'pool.%s keeps the order of its inputs' % e.name)


def _worker(C):
    r = C.entry(PAR + 'WaveformFit_multiproc')
    gl = [e for e in r.events if e.kind in ('mutate',)]
    for e in gl:
        C.bad(r, 'worker-has-no-side-effect', '%s is modified by the worker' % e.name, line=e.line)
    if not gl:
        C.good(r, 'worker-has-no-side-effect', 'the worker changes nothing it is given and no global')




def worker_count(C):
    """A fit worker holds about 1 GB: the pool may not grow with nproc alone, else a worker is
    killed for lack of memory and the map never returns."""
    r = C.entry(PAR + 'run_waveformfitting')
    for e in r.ev('pool_open'):
        n = e.args[1] if len(e.args) > 1 else e.kw.get('processes', e.kw.get('max_workers', NONE))
        if n is NONE or intconst(n) is not None:
            C.good(r, 'worker-count-bounded-by-machine', 'library default or fixed worker count', line=e.line)
            continue
        if opaque_in(n):
            C.unsure(r, 'worker-count-bounded-by-machine', 'worker count not modelled')
            continue
        ats = atoms_in(n).values()
        cpu = any(a.op == "lib" and ("cpu_count" in str(a.args[0]) or "affinity" in str(a.args[0])) for a in ats)
        raw = equal(n, r.params.get('nproc', NONE))
        if cpu or not raw:
            C.good(r, 'worker-count-bounded-by-machine', 'worker count %s' % full(n), line=e.line)
        else:
            C.bad(r, 'worker-count-bounded-by-machine', 'as many workers as nproc says are started, whatever the '
                  'machine has: memory runs out, a worker is killed and the call never returns', actual=full(n),
                  expected='min(nproc, processors)', line=e.line)
