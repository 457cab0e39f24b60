"""Plotter and side-effect rules: what is drawn, what is written, what is left alone."""
from .core import *
from .rules_hk import hk_configs, stage_hk, col, item, Bag

PLOTS = {'hkZhu.plothk': ('HKResult', 'plothk', (dict(stack=False), dict(stack=True))),
         'hkSeqYeck.plotSeqhk': ('SequentialHKResult', 'plotSeqhk', (dict(stack=False), dict(stack=True))),
         'hkYu.plothkYu': ('hkYuResult', 'plothkYu', ({},)),
         'SynthAnalysis.plothkSynth': ('HKResultSynth', 'plothkSynth', ({},)),
         'SynthAnalysis.plothkSeqSynth': ('SynthSeqHKResult', 'plothkSeqSynth', ({},)),
         'SynthAnalysis.plotfiltSynthrf': ('FilteredRF', 'plotfilt', ({},)),
         'ReverbFilter.plotfiltrf': ('FilteredRF', 'plotfilt', ({},))}

DATA_ARGS = {'tricontourf': (3, ()), 'tricontour': (3, ()), 'plot': (2, ()), 'fill_between': (3, ('where',)),
             'axvspan': (2, ()), 'axvline': (1, ()), 'scatter': (2, ()), 'contourf': (3, ())}


OPTIONAL = ('axvspan',)      # shaded bands are decoration: wrong if drawn elsewhere, not required


def plot_variants(tier):
    for n, (_, _, kws) in PLOTS.items():
        for kw in kws:
            yield n, kw
            if n.endswith(('filtSynthrf', 'filtrf')):
                continue
            yield n, dict(kw, rmneg=False)
            yield n, dict(kw, none=True)
            if 'plothk' == n.split('.')[1] or n.endswith('plothkSynth'):
                yield n, dict(kw, layer='Sed')
                if tier == 'thorough':
                    yield n, dict(kw, layer='Sed', rmneg=False)
                    yield n, dict(kw, layer='Sed', none=True)


def segments(r):
    """Data-bearing draws, grouped by the figure they end up in."""
    out, cur = [], []
    for e in r.events:
        if e.kind == 'draw' and e.name in DATA_ARGS:
            cur.append(e)
        elif e.kind == 'draw' and e.name == 'vlines':
            cur.extend(vlines(e))
        elif e.kind == 'savefig':
            out.append((cur, e))
            cur = []
    if cur:
        out.append((cur, None))
    return out


class Drawn:
    """A draw event written in another form."""
    kind = 'draw'

    def __init__(self, e, name, args, loops):
        self.name, self.args, self.loops, self.kw, self.line = name, args, loops, {}, e.line


def vlines(e):
    """vlines(x, lo, hi): one vertical segment for every x."""
    a = [e.args[k] if k < len(e.args) else e.kw.get(n) for k, n in enumerate(('x', 'ymin', 'ymax'))]
    if any(not isinstance(x, Val) for x in a):
        return []
    xs = a[0].items if isinstance(a[0], Tup) else [a[0]]
    if any(isinstance(x, N) and x.ty in ARR for x in xs):
        return []
    return [Drawn(e, 'plot', [Tup([x, x], 'list'), Tup([a[1], a[2]], 'list')], e.loops) for x in xs]


def vlines_known(e):
    return e.name == 'vlines' and bool(vlines(e))


def forms(e):
    """The ways to write the same drawing: a segment from either end, a band from either side."""
    n, kws = DATA_ARGS[e.name]
    out = [ev_value(e, n, kws)]
    a = list(e.args[:n])
    if e.name == 'plot' and len(a) == 2 and all(isinstance(x, Tup) and len(x.items) == 2 for x in a):
        b = [Tup(list(reversed(x.items)), x.kind) for x in a]
    elif e.name == 'fill_between' and len(a) == 3:
        b = [a[0], a[2], a[1]]
    elif e.name == 'axvspan' and len(a) == 2:
        b = [a[1], a[0]]
    else:
        return out
    f = Drawn(e, e.name, b, e.loops)
    f.kw = e.kw
    return out + [ev_value(f, n, kws)]


# other ways to put data into a figure, which the specification does not name
OTHER_DRAWS = ('vlines', 'hlines', 'add_collection', 'add_line', 'add_artist', 'add_patch', 'stem', 'step', 'errorbar', 'tripcolor',
               'pcolormesh', 'contour', 'imshow', 'fill', 'fill_betweenx', 'eventplot', 'broken_barh', 'bar', 'LineCollection',
               'tricontour', 'axline')


def dkey(e):
    n, kws = DATA_ARGS[e.name]
    return e.name, ev_value(e, n, kws)


# ------------------------------------------------------------------ P15
def drawn_content(C):
    for n, kw in plot_variants(C.tier):
        C.guard(_drawn, n, kw)
    for n, kw in hk_configs(C.tier):
        C.guard(_preview, n, kw)


def _drawn(C, n, kw):
    r = C.entry(n, **kw)
    param, sp, _ = PLOTS[n]
    rm = kw.get('rmneg', True)
    vals = {param: r.consts[param], 'g': r.params.get('g'), 'rmneg': TRUE if rm else FALSE}
    if kw.get('none'):
        vals['g'] = Tup([num(75), num(10), num(15), num(2.5)], 'list')
        vals['rmneg'] = TRUE if n in ('hkZhu.plothk', 'hkSeqYeck.plotSeqhk') else FALSE
    s = C.spec('plots', sp, vals)
    A, E = segments(r), segments(s)
    if len(A) != len(E):
        ops = [e for e in r.ev('unknowncall', 'unknownmethod')]
        f = C.unsure if ops or r.notes else C.bad
        return f(r, 'figures-drawn', '%d figures are saved where %d are specified' % (len(A), len(E)))
    framing(C, r, s, 'draws-analysed-quantity')
    used_labels = {'tricontourf': 'stack surface', 'plot': 'curve/marker', 'fill_between': 'filled trace',
                   'axvspan': 'phase-time band'}
    for k, ((ad, asv), (ed, esv)) in enumerate(zip(A, E)):
        left = [dkey(e) for e in ad]
        miss = []
        for e in ed:
            nm, v = dkey(e)
            hit = next((i for i, (an, av) in enumerate(left) if an == nm and equal(av, v)), None)
            if hit is None:
                hit = next((i for w in forms(e)[1:] for i, (an, av) in enumerate(left) if an == nm and equal(av, w)), None)
            if hit is None:
                if nm not in OPTIONAL:
                    miss.append((e, v))
            else:
                left.pop(hit)
                C.good(r, 'draws-analysed-quantity', 'figure %d: %s' % (k + 1, used_labels.get(nm, nm)))
        for an, av in left:
            if an in OPTIONAL and not opaque_in(av):
                C.bad(r, 'draws-analysed-quantity', 'figure %d draws a %s that is not around any predicted time' % (
                    k + 1, used_labels.get(an, an)), actual=full(av),
                    line=next((x.line for x in ad if equal(dkey(x)[1], av)), None))
        for e, v in miss:
            cands = [(an, av) for an, av in left if an == e.name]
            line = None
            act = None
            if cands:
                act = cands[0][1]
                line = next((x.line for x in ad if dkey(x)[1] is act or equal(dkey(x)[1], act)), None)
            other = [x for x in r.ev('draw') if x.name in OTHER_DRAWS and not vlines_known(x)]
            if other:
                C.unsure(r, 'draws-analysed-quantity', 'figure %d: %s not found, %s is drawn instead' % (k + 1, e.name, other[0].name))
                continue
            if any(opaque_in(av) for _, av in left) or (not cands and any(
                    opaque_in(dkey(x)[1]) for x in ad)):
                C.unsure(r, 'draws-analysed-quantity', 'figure %d: unmodelled construct in a %s' % (k + 1, e.name))
                continue
            d = first_diff(act, v) if act is not None else (None, full(v))
            C.bad(r, 'draws-analysed-quantity', 'figure %d does not draw the specified %s' % (
                k + 1, used_labels.get(e.name, e.name)), actual=d[0], expected=d[1],
                line=line or (asv.line if asv else None))
            if cands:
                left.remove(cands[0])


LIMITS = {'set_xlim': (0, 'left', 'right', 'xmin', 'xmax'), 'xlim': (0, 'left', 'right', 'xmin', 'xmax'),
          'set_ylim': (1, 'bottom', 'top', 'ymin', 'ymax'), 'ylim': (1, 'bottom', 'top', 'ymin', 'ymax')}


def frames(r, previews=False):
    """Per saved (or shown) figure: the limits given to its axes that depend on data, and its captioned markers."""
    out, lim, marks, surf = [], [], [], []
    for e in r.events:
        if e.kind == 'draw' and e.name in LIMITS:
            ax, lo, hi, lo2, hi2 = LIMITS[e.name]
            a = list(e.args[0].items) if len(e.args) == 1 and isinstance(e.args[0], Tup) else list(e.args)
            v = [a[0] if a else e.kw.get(lo, e.kw.get(lo2)), a[1] if len(a) > 1 else e.kw.get(hi, e.kw.get(hi2))]
            if all(isinstance(x, N) for x in v) and any(const(x) is None for x in v):
                lim.append((ax, v[0], v[1], e))
        elif e.kind == 'draw' and e.name in ('plot', 'scatter'):
            marks += captioned([e])
        elif e.kind == 'draw' and e.name == 'tricontourf' and len(e.args) > 1:
            surf.append(e.args[:2])
        elif e.kind == 'savefig' or previews and (e.kind in ('show', 'close') or e.name in ('show', 'clf')) and surf:
            out.append((lim, marks, surf))
            lim, marks, surf = [], [], []
    return out


def captioned(evs):
    return [(e.kw['label'], e) for e in evs if isinstance(e.kw.get('label'), StrV) and len(e.args) >= 2 and all(
        isinstance(x, N) and x.ty not in ARR for x in e.args[:2])]


def framing(C, r, s, rule):
    """The surface is shown over its own grid, and the caption of a marker gives the numbers it is drawn at."""
    A, E = frames(r), frames(s)
    if len(A) != len(E):
        return
    for k, ((lim, marks, surf), (want, _, _)) in enumerate(zip(A, E)):
        limits(C, r, lim, surf, {x[0]: x[1:3] for x in want}, rule, 'figure %d: ' % (k + 1))
        captions(C, r, marks, rule, 'figure %d: ' % (k + 1))


def limits(C, r, lim, surf, want, rule, where=''):
    for ax, lo, hi, e in lim:
        w = want.get(ax)
        src = as_atom(w[0]).args[0] if w else None
        if not isinstance(src, N):
            continue
        name = ('horizontal', 'vertical')[ax]
        cols = [x[ax] for x in surf if isinstance(x[ax], N)]
        rng = [src] + cols
        lows = [w[0]] + [f_at(x, num(0)) for x in rng] + [f_minv(x) for x in cols]
        his = [w[1]] + [f_at(x, num(-1)) for x in rng] + [f_maxv(x) for x in cols]
        if any(equal(lo, x) for x in lows) and any(equal(hi, x) for x in his):
            C.good(r, rule, where + '%s axis spans its grid' % name)
        elif opaque_in(lo) or opaque_in(hi):
            C.unsure(r, rule, where + 'limits of the %s axis not modelled' % name)
        elif equal(lo, hi) or any(const(x) is None and not mentions(x, src, cols) for x in (lo, hi)):
            C.bad(r, rule, where + 'the %s axis of the stacking surface does not span the grid that was searched' % (
                name), actual='%s .. %s' % (full(lo), full(hi)), expected='%s .. %s' % (full(w[0]), full(w[1])),
                line=e.line)


def captions(C, r, marks, rule, where=''):
    for lab, e in marks:
        nums = [(i, p[1]) for i, p in enumerate(lab.parts) if isinstance(p, tuple) and isinstance(p[1], N)
                and p[1].ty not in ('str', 'obj', 'unk') and not is_text(p[1])]
        if len(nums) < 2:
            continue
        xy = e.args[:2]
        near = [[same_number(v, c) for c in xy] for _, v in nums]
        for j, nm in enumerate(('depth', 'Vp/Vs')):
            if any(n[j] for n in near):
                bad = [n for (i, v), n in zip(nums, near) if n[j] and not n[1 - j] and unit_of(lab, i) not in (None, j)]
                if not bad:
                    C.good(r, rule, where + 'caption gives the %s of the marker' % nm)
                    continue
            elif any(opaque_in(v) for _, v in nums) or opaque_in(xy[j]):
                C.unsure(r, rule, where + 'caption not modelled')
                continue
            C.bad(r, rule, where + 'the caption of the marker does not give the %s it is drawn at' % nm,
                  actual=' / '.join(full(v) for _, v in nums), expected=full(xy[j]), line=e.line)


def mentions(v, src, cols):
    ids = set(atoms_in(v))
    return any(as_atom(x) is not None and as_atom(x).id in ids for x in [src] + cols)


def is_text(v):
    a = as_atom(v)
    return a is not None and a.op in ('field', 'attr', 'item') and any(
        isinstance(x, str) and 'sta' in x.lower() for x in a.args)


def same_number(v, c):
    """Equal to what two decimals show."""
    def exact(a):
        if a.op == 'round' and (const(a.args[1]) or 0) >= 2 or a.op == 'single':
            return a.args[0]
        return None
    v, c = rewrite(v, exact), rewrite(c, exact)
    d = const(sub(v, c))
    return d is not None and abs(d) <= 0.005


def unit_of(lab, i):
    nxt = lab.parts[i + 1] if i + 1 < len(lab.parts) else ''
    nxt = nxt.strip().lower() if isinstance(nxt, str) else ''
    return 0 if nxt.startswith('km') else 1 if nxt.startswith('vp/vs') else None


def _preview(C, n, kw):
    st = stage_hk(C, n, **kw)
    r = st[0].r
    surf = [e for e in r.ev('draw') if e.name == 'tricontourf']
    marks = [e for e in r.ev('draw') if e.name == 'plot']
    captions(C, r, captioned(marks), 'preview-marks-best-model')
    shown = frames(r, True)
    for s in st:
        grid = [[p for q, p in r.params.items() if q.startswith(c) and isinstance(p, N) and as_atom(p) is not None
                 and isinstance(col(s.surface, j), N) and mentions(col(s.surface, j), p, [])]
                for j, c in enumerate('HK')]
        if all(len(g) == 1 for g in grid):
            for lim, _, faces in shown:
                if any(isinstance(x[0], N) and equal(x[0], col(s.surface, 0)) for x in faces):
                    limits(C, r, lim, faces, {j: (f_minv(g[0]), f_maxv(g[0])) for j, g in enumerate(grid)},
                           'preview-draws-own-surface', 'preview of %s: ' % s.skey)
        full_ = Tup([col(s.surface, k) for k in range(3)], 'tuple')
        clip = Tup([col(s.surface, 0), col(s.surface, 1), f_maxz(col(s.surface, 2))], 'tuple')
        clip2 = Tup([col(s.surface, 0), col(s.surface, 1), f_max2(num(0), col(s.surface, 2))], 'tuple')
        ok = any(equal(ev_value(e, 3), w) for e in surf for w in (full_, clip, clip2))
        mk_ = any(equal(ev_value(e, 2), Tup([item(s.best, 0), item(s.best, 1)], 'tuple')) for e in marks)
        if not surf:
            C.unsure(r, 'preview-draws-own-surface', 'no preview surface recognised')
            continue
        for ok_, rule, what, evs in ((ok, 'preview-draws-own-surface', 'surface', surf),
                                     (mk_, 'preview-marks-best-model', 'best-model marker', marks)):
            if ok_:
                C.good(r, rule, 'preview of %s' % s.skey)
            elif any(opaque_in(ev_value(e)) for e in evs):
                C.unsure(r, rule, 'unmodelled construct')
            else:
                C.bad(r, rule, 'the preview figure of %s does not show its %s' % (s.skey, what),
                      line=evs[0].line if evs else None)


def f_maxz(v):
    a = as_atom(v)
    if a is not None and a.op == 'comp':
        bs, ns, body = a.args
        fr = [fresh_binder() for _ in bs]
        return f_comp(fr, list(ns), f_max2(num(0), subst(body, dict(zip(bs, fr)))))
    return f_max2(num(0), v)


# ------------------------------------------------------------ P16 / P17
ANNOT = ('tps', 'tppps', 'tpsps')


def is_annotation(e):
    """Arrival times stored in a trace header by a plotter (documented side effect)."""
    if '.stats[' not in e.name and '.stats.' not in e.name:
        return False
    k = e.name.rsplit('[', 1)[-1].strip("]'\"") if e.name.endswith(']') else e.name.rsplit('.', 1)[-1]
    return k.startswith(ANNOT)


def mutations(r):
    return [e for e in r.events if e.kind == 'mutate']


def results_untouched(C):
    for n, kw in plot_all(C.tier):
        C.guard(_untouched, n, kw, 'plotter-leaves-result-unmodified', True)


def plot_all(tier):
    for n, (_, _, kws) in PLOTS.items():
        for kw in kws:
            for rm in ((True, False) if not n.endswith('rf') else (True,)):
                yield n, dict(kw, rmneg=rm)
            if not n.endswith('rf'):
                yield n, dict(kw, none=True)
    yield 'WaveformFitting.PlotWaveformFitting', {'composed': False}
    yield 'WaveformFitting.PlotWaveformFitting', {'composed': True}
    yield 'WaveformFittingMultiproc.plotbestmodel', {}
    yield 'WaveformFittingMultiproc.plotbestmodel', {'none': True}


ANALYSES = [('hkZhu.hk', dict(stack=False)), ('hkZhu.hk', dict(stack=True)), ('hkSeqYeck.hkSeq', dict(stack=False)),
            ('hkSeqYeck.hkSeq', dict(stack=True)), ('hkYu.hkYu', {}), ('SynthAnalysis.hkSynth', {}),
            ('SynthAnalysis.hkSeqSynth', {}), ('SynthAnalysis.hkSeqSynth', dict(rmneg=True)),
            ('SynthAnalysis.ResonanceFilt', {}), ('ReverbFilter.ResonanceFilt', {}),
            ('WaveformFitting.WaveformFitting', {}), ('WaveformFittingMultiproc.WaveformPara', {}),
            ('WaveformFittingMultiproc.WaveformFit_multiproc', {}),
            ('WaveformFittingMultiproc.run_waveformfitting', {}),
            ('ExtractEqMultiproc.Eq_times', {}), ('ExtractEqMultiproc.Get_Eqtimes_multiproc', {}),
            ('synrf.deconv_iterative', dict(phase='P')), ('synrf.deconv_iterative', dict(phase='S')),
            ('synrf.deconv_waterlevel', dict(normalize=True)), ('synrf.deconv_waterlevel', dict(normalize=False)),
            ('synrf.fwd_seis', {}), ('synrf.haskell', {}), ('synrf.gfilter', {}), ('synrf.correl', {}), ('synrf.phaseshift', {}),
            ('chain.synth_model', {}), ('chain.synth_traces', dict(rayp='list')), ('chain.synth_traces', dict(rayp='arr')),
            ('chain.synth_rf', {}), ('chain.synth_rf_water', {}), ('chain.arrays_iter', {}), ('chain.arrays_water', {}),
            ('chain.trace_iter', {}), ('chain.trace_water', {})]


def inputs_untouched(C):
    for n, kw in ANALYSES:
        C.guard(_untouched, n, kw, 'analysis-leaves-inputs-unmodified', False)


def _untouched(C, n, kw, rule, annot):
    r = C.entry(n, **kw)
    ms = [e for e in mutations(r) if not (annot and is_annotation(e))]
    ms = [e for e in ms if not e.name.startswith('global:')]
    uk = r.ev('unknowncall', 'unknownmethod')
    for e in ms:
        C.bad(r, rule, '%s is modified in place (%s)' % (e.name, e.extra), line=e.line, func=fn_of(e, r))
    if not ms:
        if uk:
            C.unsure(r, rule, 'call of unmodelled %s' % uk[0].name)
        else:
            C.good(r, rule, 'no store, in-place operation or in-place library method reaches an argument '
                   '(%d heap writes examined)' % len(r.assigns))


def fn_of(e, r):
    return (e.func or r.where[1]).split('.')[-1] if e.func else r.where[1]


# ------------------------------------------------------------------ P18
def figures_released(C):
    todo = [(n, dict(kw, **({} if n.endswith('rf') else {}))) for n, (_, _, kws) in PLOTS.items() for kw in kws]
    todo += [(n, kw) for n, kw in hk_configs(C.tier)]
    todo += [('WaveformFitting.PlotWaveformFitting', {}), ('WaveformFittingMultiproc.plotbestmodel', {})]
    todo += [(n, dict(kw, rmneg=False)) for n, (_, _, kws) in PLOTS.items() for kw in kws if not n.endswith('rf')]
    for n, kw in todo:
        C.guard(_released, n, kw)


SETUP = ('rcParams', 'rc', 'style', 'use', 'ion', 'ioff', 'HandlerLine2D', 'GridSpec', 'blended_transform_factory',
         'get_cmap', 'Line2D', 'Patch', 'show', 'pause', 'draw')


def _released(C, n, kw):
    r = C.entry(n, **kw)
    rule1, rule2 = 'every-figure-closed-before-return', 'each-file-holds-only-its-own-figure'
    opened, saved = [], None
    ok1 = ok2 = True
    figs = 0
    top = [e for e in r.ev('return')]
    lastret = top[-1] if top else None
    for e in r.events:
        if e.kind == 'close':
            if e.guards and opened and not set(map(gk, e.guards)) <= set(map(gk, opened[-1].guards)):
                continue
            allf = any(isinstance(x, Kst) and x.v == 'all' for x in e.args) or e.name in ('clf', 'cla')
            if not e.args and not allf:
                if opened:
                    opened.pop()
            elif allf and e.name == 'close':
                opened = []
            elif opened:
                opened.pop()
            saved = None
        elif e.kind == 'figure' or (e.kind == 'draw' and e.name in ('figure', 'subplots')):
            opened.append(e)
            figs += 1
            saved = None
        elif e.kind == 'draw' and e.name not in SETUP:
            if not opened:
                opened.append(e)
                figs += 1
            if saved is not None and e.name in DATA_ARGS:
                ok2 = False
                C.bad(r, rule2, 'a curve is drawn on the figure that was already saved at line %d without '
                      'closing it or opening a new one' % saved.line, line=e.line)
                saved = None
        elif e.kind == 'savefig':
            saved = e
            if not opened:
                opened.append(e)
        elif e.kind == 'return' and e is lastret and opened:
            break
        elif e.kind == 'return' and opened and at_top(e, r) and e is not lastret:
            ok1 = False
            C.bad(r, rule1, 'a figure opened at line %d is still open at this return' % opened[-1].line, line=e.line)
    if opened:
        ok1 = False
        C.bad(r, rule1, 'a figure opened at line %d is never closed on this path' % opened[-1].line,
              line=opened[-1].line)
    if ok1 and figs:
        C.good(r, rule1, '%d figures opened, all closed' % figs)
    if ok2 and figs:
        C.good(r, rule2, '%d figures' % figs)
    if not figs:
        C.unsure(r, rule1, 'no figure recognised')


def at_top(e, r):
    return (e.func or '').split('.')[-1] == r.where[1] or (e.name or '').split('.')[-1] == r.where[1]


def gk(g):
    return g.key() if isinstance(g, Val) else repr(g)


# ------------------------------------------------------------------ P19
PARTS = {'hkZhu.plothk': ('R.staname', 'R.comp', 'layer'), 'hkSeqYeck.plotSeqhk': ('R.staname', 'R.comp'),
         'SynthAnalysis.plothkSynth': ('layer',)}


def figure_files(C):
    for n, (_, _, kws) in PLOTS.items():
        for kw in kws:
            C.guard(_files, n, kw, len(segments(C.spec('plots', PLOTS[n][1], {
                PLOTS[n][0]: C.entry(n, **kw).consts[PLOTS[n][0]], 'g': C.entry(n, **kw).params.get('g', NONE),
                'rmneg': TRUE}))))
    for n in ('WaveformFitting.PlotWaveformFitting', 'WaveformFittingMultiproc.plotbestmodel'):
        C.guard(_files, n, {}, 4)
    for s in (True, False):
        C.guard(_files, 'hkZhu.plothk', dict(stack=s, layer='Sed'), 1)
    C.guard(_files, 'SynthAnalysis.plothkSynth', dict(layer='Sed'), 1)


def _saved_as_drawn(C, r):
    """Each figure is saved whatever is on disk, and while it is open and not yet shown."""
    drawn, gone, bad = False, '', False
    for e in sorted(r.events, key=lambda x: x.seq):
        if e.kind == 'close':
            drawn, gone = False, 'closed'
        elif e.kind == 'draw' and e.name == 'show':
            drawn, gone = False, 'shown'
        elif e.kind == 'draw' and e.name not in ('pause', 'ioff', 'ion', 'switch_backend', 'clf', 'cla'):
            drawn = True
        elif e.kind == 'savefig':
            if e.extra is None and not drawn and gone:
                bad = True
                C.bad(r, 'figure-saved-while-open', 'the current figure is saved after it was %s: the file is blank' % gone,
                      line=e.line)
            fs = [a for g in e.guards if isinstance(g, Val) for a in atoms_in(g).values()
                  if a.op == 'lib' and str(a.args[0]).startswith('os.path.')]
            if fs:
                bad = True
                C.bad(r, 'figure-always-saved', 'the figure is only saved depending on what is on disk already: a second '
                      'analysis leaves the file of the first', line=e.line)
    if not bad:
        C.good(r, 'figure-saved-while-open', 'every figure is saved while it is open')


def _files(C, n, kw, want):
    r = C.entry(n, **kw)
    sv = r.ev('savefig')
    rule = 'one-file-per-figure'
    count = 0
    for e in sv:
        k = 1
        for _, c in e.loops:
            x = intconst(c)
            k = k * x if x is not None and k is not None else None
        count = None if k is None or count is None else count + k
    if count is None:
        C.unsure(r, rule, 'number of saved figures not bounded')
    else:
        (C.good if count == want else C.bad)(r, rule, '%d figures saved, %d produced' % (count, want),
                                             **({'line': sv[-1].line if sv else None}))
    names = []
    for e in sv:
        f = e.args[0] if e.args else e.kw.get('fname', NONE)
        fm = e.kw.get('format')
        P = r.params
        sp, fo = P.get('savepath'), P.get('format')
        if opaque_in(f):
            C.unsure(r, 'file-under-savepath', 'file name not modelled')
            continue
        parts = list(f.parts) if isinstance(f, StrV) else None
        good = parts is not None and not isinstance(parts[0], str) and equal(parts[0][1], sp) and \
            len(parts) > 1 and isinstance(parts[1], str) and parts[1].startswith('/')
        C.holds(r, 'file-under-savepath', good, 'figure file lies directly under savepath: %s' % full(f), line=e.line)
        inner = parts[1][1:] if good else ''
        goodf = parts is not None and not isinstance(parts[-1], str) and equal(parts[-1][1], fo) and \
            isinstance(parts[-2], str) and parts[-2].endswith('.')
        C.holds(r, 'file-has-requested-format', goodf and (fm is None or equal(fm, fo)),
                'extension and image format are the requested format: %s' % full(f), line=e.line)
        sub = [b for b, _ in e.loops]
        if sub and not any(bid(b) in free_binders(p[1]) for b in sub for p in parts or [] if not isinstance(p, str)):
            C.bad(r, 'files-distinct', 'every iteration writes the same file', line=e.line)
        for g, e2 in names:
            if equal(g, f):
                C.bad(r, 'files-distinct', 'two figures are written to the same file %s' % full(f), line=e.line)
        names.append((f, e))
        have = {a.args[0] for a in atoms_in(f).values() if a.op == 'par'}
        for need in PARTS.get(n, ()):
            if need == 'layer':
                lay = kw.get('layer', 'Moho')
                C.holds(r, 'file-named-after-analysis', any(isinstance(p, str) and lay in p for p in parts or []),
                        'file name carries the layer', line=e.line)
            else:
                C.holds(r, 'file-named-after-analysis', need in have, 'file name carries %s' % need, line=e.line)
    _saved_as_drawn(C, r)
    if len(names) == len(sv) and len(sv) > 1:
        C.good(r, 'files-distinct', '%d distinct names' % len(sv))
