"""What each plotter must draw, as a specification (never executed)."""
import numpy as np
import matplotlib.pyplot as plt
from rfspec.hk import perkm, one_layer, two_layer, yu_delay


def draw_surface(stk, best, rmneg, H, K):
    z = stk[:, 2]
    if rmneg:
        z = np.maximum(z, 0)
    plt.tricontourf(stk[:, 0], stk[:, 1], z, 50)
    plt.plot(best[0], best[1])
    plt.xlim(min(H), max(H))
    plt.ylim(min(K), max(K))


def draw_trace(t, data, base, gain):
    y = data * gain + base
    plt.plot(t, y)
    plt.fill_between(t, base, y, where=y > base)
    plt.fill_between(t, base, y, where=y <= base)


def draw_times(times, base, half):
    for x in times:
        plt.plot([x, x], [base + half, base - half])


def draw_spans(times, span):
    for x in times:
        plt.axvspan(x - span, x + span)


def draw_record(rf, key, gain, half, span, times_of):
    last = None
    for tr in rf:
        st = tr.stats
        t = st.delta * np.arange(0, len(tr.data)) + (st.starttime - st.onset)
        base = st.back_azimuth if key == 'baz' else st.distance
        draw_trace(t, tr.data, base, gain)
        draw_times(times_of(tr), base, half)
        last = times_of(tr)
    draw_spans(last, span)


def plothk(HKResult, g, rmneg):
    R = HKResult
    best = R['bestmodel']
    span = 0.5
    if R['layer'] == 'Sed':
        span = 0.1
    draw_surface(R['stackvalues'], best, rmneg, R['H'], R['K'])

    def times(p):
        return one_layer(best[0], best[1], R['Vp'], p)
    if R['stack']:
        ts = times(perkm(R['AvgSlow']))
        draw_trace(R['time'], R['RFStack'], 180, g[0])
        draw_times(ts, 180, g[1])
        draw_spans(ts, span)
    else:
        draw_record(R['RF'], 'baz', g[0], g[1], span, lambda tr: times(perkm(tr.stats['slowness'])))
        draw_record(R['RF'], 'dist', g[2], g[3], span, lambda tr: times(perkm(tr.stats['slowness'])))
    plt.savefig('figure')


def plothkYu(hkYuResult, g, rmneg):
    R = hkYuResult
    best = R['bestmodelSubSed']
    draw_surface(R['stackvaluesSubSed'], best, rmneg, R['HMoho'], R['KMoho'])
    a, b, c = one_layer(best[0], best[1], R['VpMoho'], R['rayp'])
    ts = (a + R['Pdelay'], b + R['tlag'] - R['Pdelay'], c + R['tlag'])
    draw_trace(R['time'], R['FltRF'], 180, g[0])
    draw_times(ts, 180, g[1])
    draw_spans(ts, 0.5)
    plt.savefig('figure')


def plothkSynth(HKResultSynth, g, rmneg):
    R = HKResultSynth
    best = R['bestmodel']
    span = 0.5
    if R['layer'] == 'Sed':
        span = 0.1
    draw_surface(R['stackvalues'], best, rmneg, R['H'], R['K'])
    ts = one_layer(best[0], best[1], R['Vp'], R['rayp'])
    draw_trace(R['time'], R['SynthRF'], 180, g[0])
    draw_times(ts, 180, g[1])
    draw_spans(ts, span)
    plt.savefig('figure')


def plotSeqhk(SequentialHKResult, g, rmneg):
    R = SequentialHKResult
    b1, b2 = R['bestmodelSed'], R['bestmodelMoho']

    def sed(p):
        return one_layer(b1[0], b1[1], R['VpSed'], p)

    def moho(p):
        return two_layer(b1[0], b1[1], R['VpSed'], b2[0], b2[1], R['VpMoho'], p)
    draw_surface(R['stackvalueSed'], b1, rmneg, R['HSed'], R['KSed'])
    if R['stack']:
        ts = sed(perkm(R['AvgSlow']))
        draw_trace(R['time'], R['RFSedStack'], 180, g[0])
        draw_times(ts, 180, g[1])
        draw_spans(ts, 0.1)
    else:
        draw_record(R['RFSed'], 'baz', g[0], g[1], 0.1, lambda tr: sed(perkm(tr.stats['slowness'])))
        draw_record(R['RFSed'], 'dist', g[2], g[3], 0.1, lambda tr: sed(perkm(tr.stats['slowness'])))
    plt.savefig('figure')
    draw_surface(R['stackvalueMoho'], b2, rmneg, R['HMoho'], R['KMoho'])
    if R['stack']:
        ts = moho(perkm(R['AvgSlow']))
        draw_trace(R['time'], R['RFMohoStack'], 180, g[0])
        draw_times(ts, 180, g[1])
        draw_spans(ts, 0.5)
    else:
        draw_record(R['RFMoho'], 'baz', g[0], g[1], 0.5, lambda tr: moho(perkm(tr.stats['slowness'])))
        draw_record(R['RFMoho'], 'dist', g[2], g[3], 0.5, lambda tr: moho(perkm(tr.stats['slowness'])))
    plt.savefig('figure')


def plothkSeqSynth(SynthSeqHKResult, g, rmneg):
    R = SynthSeqHKResult
    b1, b2 = R['bestmodelSed'], R['bestmodelMoho']
    draw_surface(R['stackvalueSed'], b1, rmneg, R['HSed'], R['KSed'])
    ts = one_layer(b1[0], b1[1], R['VpSed'], R['RayP'])
    draw_trace(R['time'], R['SynthRFSed'], 180, g[0] / 2)
    draw_times(ts, 180, g[1])
    draw_spans(ts, 0.1)
    plt.savefig('figure')
    draw_surface(R['stackvalueMoho'], b2, rmneg, R['HMoho'], R['KMoho'])
    ts = two_layer(b1[0], b1[1], R['VpSed'], b2[0], b2[1], R['VpMoho'], R['RayP'])
    draw_trace(R['time'], R['SynthRFMoho'], 180, g[0])
    draw_times(ts, 180, g[1])
    draw_spans(ts, 0.5)
    plt.savefig('figure')


def plotfilt(FilteredRF):
    R = FilteredRF
    plt.plot(R['time'], R['autoc'])
    plt.savefig('figure')
    plt.plot(R['time'], np.real(R['resonancefilter']))
    plt.savefig('figure')
    plt.plot(R['time'], R['rf'])
    plt.plot(R['time'], R['filteredrf'])
    plt.savefig('figure')
