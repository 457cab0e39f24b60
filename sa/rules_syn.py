"""Synthetic seismograms and deconvolution."""
from fractions import Fraction as F
from .core import *

M = 'synrf.'


def direct(C, fn, specfn, what, ren=None, **kw):
    r = C.entry(M + fn, **kw)
    P = dict(r.params)
    P.update({k: P[v] for k, v in (ren or {}).items()})
    e = C.spec('synth', specfn, P)
    return r, e


def same_fn(C, fn, specfn, rule, what, ren=None, **kw):
    r, e = direct(C, fn, specfn, what, ren, **kw)
    C.same(r, rule, r.value, e.value, what)


# ------------------------------------------------------------------ P27
def propagators(C):
    C.guard(same_fn, 'e_inverse', 'up_down', 'half-space-matrix', 'inverse eigenvector matrix of the half-space')
    C.guard(same_fn, 'propagator_sol', 'layer', 'layer-propagator', 'P-SV propagator of one layer')
    for ipha in (1, -1):
        C.guard(same_fn, 'haskell', 'response', 'surface-response', 'surface displacement response', ipha=ipha)
        C.guard(same_fn, 'fwd_seis', 'seismograms', 'seismogram-synthesis', 'synthetic seismograms', ipha=ipha)


# ------------------------------------------------------------------ P28
def deconvolution(C):
    C.guard(same_fn, 'gaussFilter', 'gauss', 'gaussian-low-pass', 'Gaussian filter', {'n': 'nft', 'a': 'gaussian'})
    C.guard(same_fn, 'gfilter', 'smooth', 'filtering', 'Gaussian filtering', {'n': 'nfft', 'g': 'gauss'})
    C.guard(same_fn, 'correl', 'correlation', 'correlation', 'correlation', {'n': 'nfft'})
    C.guard(same_fn, 'phaseshift', 'delayed', 'onset-shift', 'onset shift', {'n': 'nfft'})
    for norm in (True, False):
        C.guard(same_fn, 'deconv_waterlevel', 'waterlevel', 'water-level-deconvolution', 'water-level deconvolution',
                normalize=norm, phase='P')
    for ph in ('P', 'S'):
        C.guard(_iter, ph)


def _iter(C, phase):
    r, e = direct(C, 'deconv_iterative', 'iterative', '', phase=phase)
    for k, nm in enumerate(('receiver function', 'misfits', 'number of iterations')):
        va = r.value.items[k] if isinstance(r.value, Tup) and len(r.value.items) == 3 else None
        if va is None:
            C.unsure(r, 'iterative-deconvolution', 'result not recognised')
            return
        same_recurrence(C, r, 'iterative-deconvolution', va, e, e.value.items[k], nm)


# routines whose own value P27 / P28 decide; first compared as symbols of their arguments
PARTS = {'fwd_seis': ('seismograms', ('arr', 'arr')), 'deconv_iterative': ('iterative', ('arr', 'arr', 'num')),
         'deconv_waterlevel': ('waterlevel', ('arr', 'num'))}
MODULAR = {'rfsed.synrf.' + k: v for k, v in PARTS.items()}
MODULAR_S = {'rfspec.synth.' + v[0]: v for v in PARTS.values()}


def _chain(C, e, specfn, what, pick=None, ren=None, extra=None, spick=None, modular=True, **kw):
    r = C.entry('chain.' + e, modular=MODULAR if modular else None, **kw)
    P = dict(r.params)
    P.update(ren(P) if ren else {})
    s = C.spec('synth', specfn, P, modular=MODULAR_S if modular else None, **(extra or {}))
    va, vs = r.value, s.value
    if pick is not None:
        va = va.items[pick] if isinstance(va, Tup) and len(va.items) > pick else None
    if spick is not None:
        vs = vs.items[spick]
    return r, s, va, vs


def _parts_hold(C):
    if not hasattr(C, 'parts_hold'):
        keep, C.obs = C.obs, []
        try:
            for ph in ('P', 'S'):
                C.guard(_iter, ph)
            C.guard(same_fn, 'deconv_waterlevel', 'waterlevel', '-', '-', normalize=False, phase='P')
            C.parts_hold = all(o.status == 'discharged' for o in C.obs)
        finally:
            C.obs = keep
    return C.parts_hold


def chain_same(C, e, specfn, rule, what, **kw):
    """Compare with the parts as symbols; if that does not settle it, with everything expanded."""
    r, s, va, vs = _chain(C, e, specfn, what, **kw)
    ma, ms = va, vs
    if va is not None and not opaque_in(va) and equal(va, vs):
        return C.good(r, rule, what)
    r, s, va, vs = _chain(C, e, specfn, what, modular=False, **kw)
    if va is None:
        return C.unsure(r, rule, what + ': result not recognised')
    if loops_in(r, va):
        o = same_recurrence(C, r, rule, va, s, vs, what)
        if o.status == 'undetermined' and ma is not None and not opaque_in(ma) and _parts_hold(C):
            # the parts are the specified ones, so only what they are given can differ
            C.obs.remove(o)
            d = first_diff(ma, ms)
            return C.bad(r, rule, '%s: not the specified value' % what, actual=d[0], expected=d[1], line=blame(r, ma, ms))
        return o
    C.same(r, rule, va, vs, what)


def reject_rule(C, e, excs, rule, what, uncond=True, **kw):
    r = C.entry('chain.' + e, **kw)
    ev = [x for x in r.events if x.kind in ('raise', 'keyerror')]
    hit = [x for x in ev if (str(x.name).split('.')[-1] in excs or x.kind == 'keyerror')]
    top = [x for x in hit if not x.guards]
    if top:
        return C.good(r, rule, what, line=top[0].line)
    if hit or r.notes:
        return C.unsure(r, rule, what + ': raised under a condition the analysis does not decide')
    C.bad(r, rule, what + ': accepted', actual=r.value)


def accept_rule(C, r, rule, what):
    """no unconditional raise on this configuration"""
    ev = [x for x in r.events if x.kind == 'raise' and not x.guards and not x.loops]
    if ev:
        return C.bad(r, rule, '%s: %s is always raised' % (what, ev[0].name), line=ev[0].line)
    C.good(r, rule, what)


def one_if_scalar(P):
    return {'rayp': Tup([P['rayp']], 'list')} if getattr(P['rayp'], 'ty', '') == 'float' else {}


# ------------------------------------------------------------------ P26
def synthetic_object(C):
    C.guard(chain_same, 'synth_model', 'layers_of', 'thickness', 'layer thicknesses of the model', pick=0)
    for k in ('list', 'arr', 'num'):
        C.guard(_accept, k)
        for ph in (1, -1):
            C.guard(chain_same, 'synth_traces', 'radial', 'radial-per-ray-parameter', 'radial traces', pick=0, ren=one_if_scalar, rayp=k, ipha=ph)
            C.guard(chain_same, 'synth_traces', 'vertical', 'vertical-per-ray-parameter', 'vertical traces', pick=1, ren=one_if_scalar, rayp=k, ipha=ph)
        for j, w in ((2, 'radial'), (3, 'vertical')):
            C.guard(chain_same, 'synth_traces', 'sampling', 'sampling-interval', 'sampling interval of the %s traces' % w, pick=j, ren=one_if_scalar, rayp=k)
    C.guard(reject_rule, 'synth_model', ('TypeError',), 'ray-parameter-type', 'a ray parameter of another type', rayp='str')
    C.guard(reject_rule, 'synth_model', ('TypeError',), 'ray-parameter-type', 'a ray parameter that is a tuple', rayp='tuple')
    for k in ('list', 'num'):
        C.guard(chain_same, 'synth_rf_sampling', 'sampling', 'sampling-interval', 'sampling interval of the receiver functions',
                ren=one_if_scalar, rayp=k)
    for e in ('trace_header', 'trace_header_water'):
        C.guard(chain_same, e, 'rf_header', 'header-of-radial', 'sampling, start and station of the receiver function')
    for j, w in ((0, 'radial'), (1, 'vertical')):
        C.guard(chain_same, 'synth_defaults', w, 'defaults', '%s traces with default length and incident phase' % w, pick=j,
                extra={'npts': num(2500), 'ipha': num(1)})
        C.guard(chain_same, 'synth_filtered', 'filtered', 'band-pass', 'filtered %s traces' % w, pick=j, extra={'which': num(j)})
        C.guard(chain_same, 'synth_filter_default', 'filtered', 'band-pass', 'filtered %s traces, default order' % w, pick=j,
                extra={'which': num(j), 'order': num(2), 'zerophase': TRUE})
    for k in ('list', 'num'):
        C.guard(chain_same, 'synth_rf_water', 'rf_water', 'radial-by-vertical', 'receiver functions (water level)', ren=one_if_scalar, rayp=k)
        C.guard(chain_same, 'synth_rf', 'rf_iter', 'radial-by-vertical', 'receiver functions (pre-filtered, iterative)', ren=one_if_scalar, rayp=k)
        C.guard(chain_same, 'synth_rf_plain', 'rf_iter', 'radial-by-vertical', 'receiver functions (not pre-filtered)', ren=one_if_scalar, rayp=k,
                extra={'f1': NONE, 'f2': NONE})
    C.guard(chain_same, 'synth_rf_default', 'rf_iter', 'defaults', 'receiver functions with default options',
            extra={'f1': num(F(5, 100)), 'f2': num(2), 'preonset': num(10), 'gaussian': num(2)})


def _accept(C, k):
    r = C.entry('chain.synth_model', rayp=k)
    accept_rule(C, r, 'ray-parameter-type', 'ray parameter given as %s' % k)
    vals = r.value.items[1] if isinstance(r.value, Tup) and len(r.value.items) == 2 else None
    want = Tup([r.params['rayp']], 'list') if k == 'num' else r.params['rayp']
    if vals is not None:
        C.same(r, 'ray-parameters', vals, want, 'ray parameters kept for a %s' % k)


# ------------------------------------------------------------------ P28, as the user calls it
def deconvolution_calls(C):
    D, g = {'phase': Kst('P')}, C.ws.I.get_attr
    OI = {'preonset': num(10), 'gaussian': num(2), 'itmax': num(400), 'minderr': num(F(1, 1000)), **D}
    OW = {'preonset': num(10), 'gaussian': num(2), 'wlevel': num(F(5, 100)), 'normalize': FALSE, **D}
    tr = lambda P: {'uin': g(P['utr'], 'data'), 'win': g(P['wtr'], 'data'), 'dt': g(g(P['utr'], 'stats'), 'delta')}
    IT, WT = ('receiver function', 'misfits', 'number of iterations'), ('receiver function', 'misfit')
    for e, fn, names, ren, extra in (
            ('trace_iter', 'iterative', IT, tr, D), ('trace_default', 'iterative', IT, tr, OI),
            ('trace_water', 'waterlevel', WT, tr, {'normalize': FALSE, **D}), ('trace_water_default', 'waterlevel', WT, tr, OW),
            ('arrays_iter', 'iterative', IT, None, D), ('arrays_default', 'iterative', IT, None, OI),
            ('arrays_water', 'waterlevel', WT, None, D), ('arrays_water_default', 'waterlevel', WT, None, OW)):
        for k, w in enumerate(names):
            C.guard(chain_same, e, fn, 'requested-method-and-options', w, pick=k, spick=k, ren=ren, extra=extra)
    C.guard(reject_rule, 'trace_unknown', ('ValueError', 'KeyError'), 'unknown-method', 'an unknown method name for traces')
    C.guard(reject_rule, 'synth_rf_unknown', ('ValueError', 'KeyError'), 'unknown-method', 'an unknown method name for the synthetic object')
    C.guard(reject_rule, 'arrays_unknown', ('ValueError', 'KeyError'), 'unknown-method', 'an unknown method name for arrays')
    for e in ('arrays_iter', 'arrays_water'):
        C.guard(_length, e)


def _length(C, e):
    """different lengths of the two traces are rejected"""
    r = C.entry('chain.' + e)
    ev = [x for x in r.events if x.kind == 'raise' and str(x.name).endswith('ValueError')]
    P = r.params
    n = [mk('len', (P[x],), 'num') for x in ('uin', 'win')]
    for x in ev:
        if len(x.guards) == 1 and isinstance(x.guards[0], Val) and equal(x.guards[0], f_not(cmp('==', n[1], n[0]))):
            return C.good(r, 'equal-length', 'traces of different lengths are rejected', line=x.line)
    C.unsure(r, 'equal-length', 'test of the trace lengths not recognised')
