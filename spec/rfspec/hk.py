"""H-k stacking, as a specification.

Read by the analyser (value-numbered like the code under test), never executed.
"""
import numpy as np
from obspy.geodetics import kilometer2degrees


# ---- pieces -----------------------------------------------------------
def nearest(data, t, when):
    return data[np.argmin(np.abs(t - when))]


def vertical(v, p):
    """vertical slowness of a wave of speed v at ray parameter p (s/km)"""
    return np.sqrt((1 / v)**2 - p**2)


def one_layer(H, K, Vp, p):
    s = np.sqrt((K / Vp)**2 - p**2)
    q = vertical(Vp, p)
    return H * (s - q), H * (s + q), 2 * H * s


def two_layer(H1, K1, V1, H2, K2, V2, p):
    a = one_layer(H1, K1, V1, p)
    b = one_layer(H2, K2, V2, p)
    return a[0] + b[0], a[1] + b[1], a[2] + b[2]


def perkm(slowness):
    return kilometer2degrees(1) * slowness


def average_slowness(stream):
    return np.mean([tr.stats['slowness'] for tr in stream])


def axis_of(stream, preonset):
    tr = stream[0]
    return tr.stats.delta * np.arange(0, len(tr.data)) - preonset


def weighted(data, t, times, w):
    return w[0] * nearest(data, t, times[0]) + w[1] * nearest(data, t, times[1]) \
        - w[2] * nearest(data, t, times[2])


def surface(H, K, order, value):
    rows = []
    if order == 'KH':
        for k in K:
            for h in H:
                rows.append([h, k, value(h, k)])
    else:
        for h in H:
            for k in K:
                rows.append([h, k, value(h, k)])
    return np.array(rows)


# ---- hkZhu / first stage of hkSeqYeck ------------------------------------
def stream_one(rfstream, slowstream, axisstream, preonset, H, K, Vp, w, stack, order):
    t = axis_of(axisstream, preonset)
    stacked = rfstream.stack()[0].data
    avg = average_slowness(slowstream)

    def value(h, k):
        s = 0
        for tr in rfstream:
            if stack:
                s = s + weighted(stacked, t, one_layer(h, k, Vp, perkm(avg)), w)
            else:
                s = s + weighted(tr.data, t, one_layer(h, k, Vp, perkm(tr.stats['slowness'])), w)
        return s
    return surface(H, K, order, value)


def hk(rfstream, preonset, H, K, Vp, w1, w2, w3, stack, order):
    return {'surface': stream_one(rfstream, rfstream, rfstream, preonset, H, K, Vp, (w1, w2, w3), stack, order),
            'time': axis_of(rfstream, preonset),
            'RFStack': rfstream.stack()[0].data,
            'AvgSlow': average_slowness(rfstream)}


def seq_sed(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed, w2Sed, w3Sed, stack, order):
    return {'surface': stream_one(rfstreamSed, rfstreamMoho, rfstreamSed, preonset, HSed, KSed, VpSed,
                                  (w1Sed, w2Sed, w3Sed), stack, order),
            'time': axis_of(rfstreamSed, preonset)}


def seq_moho(rfstreamMoho, axisstream, preonset, H1, K1, VpSed, HMoho, KMoho, VpMoho,
             w1Moho, w2Moho, w3Moho, stack, order):
    t = axis_of(axisstream, preonset)
    stacked = rfstreamMoho.stack()[0].data
    avg = average_slowness(rfstreamMoho)
    w = (w1Moho, w2Moho, w3Moho)

    def value(h, k):
        s = 0
        for tr in rfstreamMoho:
            if stack:
                s = s + weighted(stacked, t, two_layer(H1, K1, VpSed, h, k, VpMoho, perkm(avg)), w)
            else:
                s = s + weighted(tr.data, t,
                                 two_layer(H1, K1, VpSed, h, k, VpMoho, perkm(tr.stats['slowness'])), w)
        return s
    return {'surface': surface(HMoho, KMoho, order, value)}


# ---- single synthetic trace, ray parameter already in s/km ----------------
def synth_one(data, time, rayp, H, K, Vp, w1, w2, w3, order):
    return {'surface': surface(H, K, order, lambda h, k: weighted(
        data, time, one_layer(h, k, Vp, rayp), (w1, w2, w3)))}


def synth_moho(data, time, rayp, H1, K1, VpSed, HMoho, KMoho, VpMoho, w1Moho, w2Moho, w3Moho, order):
    return {'surface': surface(HMoho, KMoho, order, lambda h, k: weighted(
        data, time, two_layer(H1, K1, VpSed, h, k, VpMoho, rayp), (w1Moho, w2Moho, w3Moho)))}


# ---- Yu et al. correction --------------------------------------------------
def yu_thickness(tlag, VsSed):
    return tlag * VsSed / 2


def yu_delay(tlag, VsSed, VpSed):
    h = yu_thickness(tlag, VsSed)
    return h / VsSed - h / VpSed


def yu_times(h, k, VpMoho, rayp, tlag, VsSed, VpSed):
    ps, ppps, psps = one_layer(h, k, VpMoho, rayp)
    d = yu_delay(tlag, VsSed, VpSed)
    return ps + d, ppps + tlag - d, psps + tlag


def yu(data, time, tlag, rayp, HSubSed, KSubSed, VpMoho, VpSed, VsSed, w1SubSed, w2SubSed, w3SubSed, order):
    return {'surface': surface(HSubSed, KSubSed, order, lambda h, k: weighted(
                data, time, yu_times(h, k, VpMoho, rayp, tlag, VsSed, VpSed),
                (w1SubSed, w2SubSed, w3SubSed))),
            'Pdelay': yu_delay(tlag, VsSed, VpSed),
            'SedThick': yu_thickness(tlag, VsSed)}
