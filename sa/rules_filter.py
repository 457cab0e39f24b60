"""Resonance filter and real/synthetic agreement rules."""
from .core import *
from .rules_hk import stage_hk, col, item, argmins, Bag

WHAT = {'autoc': 'normalised autocorrelation at non-negative lags', 'r': 'magnitude of the first trough (0 if none)',
        'tlag': 'lag of the first trough (0 if none)', 'resonancefilter': '1 + r exp(-i w tlag) over the FFT frequencies',
        'filteredrf': 'real inverse FFT of spectrum times filter', 'time': 'time axis', 'rf': 'input trace',
        'delta': 'sampling interval'}
FILTERS = (('ReverbFilter.ResonanceFilt', 'real_one'), ('SynthAnalysis.ResonanceFilt', 'synthetic_one'))


# ------------------------------------------------------------------ P07
def resonance_filter(C):
    for n, sp in FILTERS:
        C.guard(_filter, n, sp)


def _filter(C, n, sp):
    r = C.entry(n)
    e = C.spec('filters', sp, r.params).value.d
    if not isinstance(r.value, Dct):
        raise Missing('%s does not return a dictionary' % n)
    d = r.value.d
    for k in ('autoc', 'r', 'tlag', 'resonancefilter', 'filteredrf'):
        C.same(r, 'resonance-filter-form', d.get(k), e[k], '%s: %s' % (k, WHAT[k]))
    for k in ('time', 'rf', 'delta'):
        C.same(r, 'filter-reports-its-input', d.get(k), e[k], '%s: %s' % (k, WHAT[k]))
    # no trough -> filter is exactly 1
    z = d.get('resonancefilter')
    if z is not None:
        zz = rewrite(z, lambda a: rewrite(a.args[1], lambda b: None) if a.op == 'ite' and no_trough(a.args[0]) else None)
        C.same(r, 'no-reverberation-means-identity', zz, num(1), 'filter when no trough exists')


def no_trough(c):
    a = as_atom(c)
    return a is not None and a.op in ('eq', 'eq0') and any(x.op == 'find_peaks' for x in atoms_in(c).values())


# ------------------------------------------------------------------ P08
def axis(r):
    """time axis of the first trace, as a value"""
    return r.value.d.get('time')


def siblings(C):
    C.guard(_sib_filter)
    C.guard(_sib_hk)
    C.guard(_sib_seq)


def sub_par(v, m):
    ids = {as_atom(k).id: x for k, x in m}
    return subst(v, ids)


def _sib_filter(C):
    a, b = C.entry('ReverbFilter.ResonanceFilt'), C.entry('SynthAnalysis.ResonanceFilt')
    P = b.params
    m = [(P['Synthrf'], a.value.d['rf']), (P['time'], a.value.d['time'])]
    for k in ('autoc', 'r', 'tlag', 'resonancefilter', 'filteredrf', 'rf', 'time', 'delta'):
        x, y = a.value.d.get(k), b.value.d.get(k)
        if x is None or y is None:
            C.unsure(b, 'synthetic-filter-agrees-with-real', '%s missing' % k)
            continue
        C.same(b, 'synthetic-filter-agrees-with-real', sub_par(y, m), x,
               'ResonanceFilt %s on the same trace' % k)


def _sib_hk(C):
    for kw in (dict(), dict(layer='Sed')):
        (a,), (b,) = stage_hk(C, 'hkZhu.hk', stack=True, **kw), stage_hk(C, 'SynthAnalysis.hkSynth', **kw)
        _sib_stage(C, a, b, {}, {})


def _sib_stage(C, a, b, extra, abst):
    ra, rb = a.r, b.r
    PA, PB = ra.params, rb.params
    n = f_len(PA[abst.get('stream', 'rfstream')])
    m = [(PB[abst.get('syn', 'Synthrf')], ra.value.d[abst.get('stackkey', 'RFStack')]),
         (PB['time'], ra.value.d['time']),
         (PB['rayp'], mul(mk('km2deg', (), 'num'), ra.value.d['AvgSlow']))]
    y = sub_par(col(b.surface, 2), m)
    x = col(a.surface, 2)
    for k, v in abst.get('atoms_a', ()):
        x = rewrite(x, lambda q: v if q.id == k else None)
    for k, v in abst.get('atoms_b', ()):
        y = rewrite(y, lambda q: v if q.id == k else None)
    y = rewrite(y, lambda q: None)
    yn = scale_comp(y, n)
    C.same(rb, 'synthetic-stack-agrees-with-real', yn, x,
           '%s of %s equals that of %s on the same trace (stacked mode, per trace)' % (b.skey, rb.entry, ra.entry))
    C.same(rb, 'synthetic-grid-agrees-with-real', Tup([col(b.surface, 0), col(b.surface, 1)], 'tuple'),
           Tup([col(a.surface, 0), col(a.surface, 1)], 'tuple'), '%s grid' % b.skey)


def scale_comp(v, n):
    a = as_atom(v)
    if a is not None and a.op == 'comp':
        bs, ns, body = a.args
        fr = [fresh_binder() for _ in bs]
        return f_comp(fr, list(ns), mul(n, subst(body, dict(zip(bs, fr)))))
    return mul(n, v)


def _sib_seq(C):
    A, B = stage_hk(C, 'hkSeqYeck.hkSeq', stack=True), stage_hk(C, 'SynthAnalysis.hkSeqSynth')
    if len(A) < 2 or len(B) < 2:
        raise Missing('no sediment best model')
    _sib_stage(C, A[0], B[0], {}, {'stream': 'rfstreamSed', 'syn': 'rfSynthSed', 'stackkey': 'RFSedStack'})
    H, K = mk('SedH', (), 'num'), mk('SedK', (), 'num')

    def at(best):
        return [(as_atom(item(best, 0)).id, H), (as_atom(item(best, 1)).id, K)]
    # the sediment best models themselves are compared above; abstract them here
    PB, ra = B[1].r.params, A[1].r
    m = [(PB['rfSynthMoho'], ra.value.d['RFMohoStack']), (PB['time'], ra.value.d['time']),
         (PB['rayp'], mul(mk('km2deg', (), 'num'), ra.value.d['AvgSlow']))]
    x = col(A[1].surface, 2)
    y = col(B[1].surface, 2)
    for k, v in at(A[1 - 1].best):
        x = rewrite(x, lambda q: v if q.id == k else None)
    for k, v in at(B[0].best):
        y = rewrite(y, lambda q: v if q.id == k else None)
    y = sub_par(y, m)
    C.same(B[1].r, 'synthetic-stack-agrees-with-real', scale_comp(y, f_len(ra.params['rfstreamMoho'])), x,
           '%s equals that of hkSeq on the same traces and sediment model' % B[1].skey)
    C.same(B[1].r, 'synthetic-grid-agrees-with-real', Tup([col(B[1].surface, 0), col(B[1].surface, 1)], 'tuple'),
           Tup([col(A[1].surface, 0), col(A[1].surface, 1)], 'tuple'), '%s grid' % B[1].skey)
