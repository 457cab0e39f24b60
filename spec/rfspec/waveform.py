"""Waveform fitting (documented method), as a specification (never executed)."""
import math
import numpy as np
import matplotlib.pyplot as plt
from obspy.signal.tf_misfit import pg
from sklearn.metrics import mean_squared_error
from rfsed.synrf import synrf


def vs_of(vp):
    return 0.7858 - 1.2344 * vp + 0.7949 * vp ** 2 - 0.1238 * vp ** 3 + 0.0064 * vp ** 4


def density_of(vp):
    return 1.6612 * vp - 0.4721 * vp ** 2 + 0.0671 * vp ** 3 - 0.0043 * vp ** 4 + 0.000106 * vp ** 5


def axis(rfstream, preonset):
    return rfstream[0].stats.delta * np.arange(0, len(rfstream[0].data)) - preonset


def stacked(rfstream):
    return rfstream.select(component='R').stack()[0].data


def synthetic(m, H, K):
    s = synrf(np.array([m['HSed'], H, 77.5]), np.array([m['VpSed'], m['VpCrust'], 8.045]),
              np.array([m['VsSed'], m['VpCrust'] / K, 4.49]), np.array([m['SedDen'], m['CrustDen'], 3.299]),
              m['rayp'], dt=m['delta'], npts=m['n'], ipha=1)
    s.run_fwd()
    s.filter(freqmin=0.05, freqmax=1.25, order=2, zerophase=True)
    out = s.run_deconvolution(pre_filt=[0.05, 1.25], preonset=m['preonset'], gaussian=m['gaussian'])
    return out[0].data


def model(rfstream, preonset, HSed, VpSed, VpCrust, rayp, KMoho, HMoho, gaussian):
    t = axis(rfstream, preonset)
    data = stacked(rfstream)
    std = np.std(data)
    delta = rfstream[0].stats.delta
    first = np.argmin(np.abs(t))
    return {'rfstream': rfstream, 'rayp': rayp, 'gaussian': gaussian, 'HSed': HSed, 'VpSed': VpSed,
            'VpCrust': VpCrust, 'VsSed': vs_of(VpSed), 'SedDen': density_of(VpSed), 'VsCrust': vs_of(VpCrust),
            'CrustDen': density_of(VpCrust), 'HMoho': HMoho, 'KMoho': KMoho, 'delta': delta, 'time': t,
            'staname': rfstream[0].stats.station, 'StackedData': data, 'Stdd': std, 'StddPlus': data + std,
            'StddMinus': data - std, 'preonset': np.abs(t[0]), 'n': len(data),
            'tstart': first, 'tend': first + int(25 / delta)}


def signs(x):
    return np.where(np.abs(x) == 0, np.abs(x), x / np.abs(x))


def measures(m, syn):
    a = m['StackedData'][m['tstart']:m['tend']]
    b = syn[m['tstart']:m['tend']]
    return [np.corrcoef(a, b)[0, 1], math.sqrt(mean_squared_error(a, b)),
            pg(signs(a), signs(b), dt=m['delta'], fmin=.5, fmax=10, nf=100, w0=6, st2_isref=True, a=10., k=1.)]


def row(m, H, K):
    return measures(m, synthetic(m, H, K)) + [H, K]


def solutions_k(rfstream, preonset, HSed, VpSed, VpCrust, rayp, KMoho, HMoho, gaussian):
    m = model(rfstream, preonset, HSed, VpSed, VpCrust, rayp, KMoho, HMoho, gaussian)
    out = np.zeros((len(KMoho) * len(HMoho), 5))
    z = 0
    for k in KMoho:
        for h in HMoho:
            out[z, :] = row(m, h, k)
            z = z + 1
    return out


def solutions_h(rfstream, preonset, HSed, VpSed, VpCrust, rayp, KMoho, HMoho, gaussian):
    m = model(rfstream, preonset, HSed, VpSed, VpCrust, rayp, KMoho, HMoho, gaussian)
    out = np.zeros((len(KMoho) * len(HMoho), 5))
    z = 0
    for h in HMoho:
        for k in KMoho:
            out[z, :] = row(m, h, k)
            z = z + 1
    return out


def depth_rows(ModelParams, H):
    m = ModelParams[0]
    return [row(m, H, k) for k in m['KMoho']]


def all_depths(ModelParams, HMoho):
    m = ModelParams[0]
    return [[row(m, h, k) for k in m['KMoho']] for h in HMoho]


def goodness(Corr, RMSE, PG, wtCorr, wtRMSE, wtPG):
    return wtCorr * (Corr / max(Corr)) + wtRMSE * (1 - RMSE / max(RMSE)) + wtPG * (PG / max(PG))


LABELS = ('Correlation Coefficient', 'Root-mean-square Error', 'Phase Goodness of Fit', 'Overall Goodness of Fit')


def best_of(Corr, RMSE, PG, GoF, H, K):
    a, b, c, d = np.argmax(Corr), np.argmin(RMSE), np.argmax(PG), np.argmax(GoF)
    return [(H[a], K[a]), (H[b], K[b]), (H[c], K[c]), (H[d], K[d])]


def figures(rfstream, m, Corr, RMSE, PG, GoF, H, K, Hs, Ks):
    """What the four figures show."""
    st = rfstream[0].stats
    t = st.delta * np.arange(0, len(rfstream[0].data)) + (st.starttime - st.onset)
    data = stacked(rfstream)
    std = np.std(data)
    best = best_of(Corr, RMSE, PG, GoF, H, K)
    crit = [Corr, RMSE, PG, GoF]
    for i in range(4):
        h, k = best[i]
        plt.tricontourf(H, K, crit[i], 50)
        plt.plot(h, k)
        plt.xlim(min(Hs), max(Hs))
        plt.ylim(min(Ks), max(Ks))
        syn = synthetic(m, h, k)
        plt.plot(t, data)
        plt.plot(st.delta * np.arange(0, len(syn)) - m['preonset'], syn)
        plt.fill_between(t, data + std, data - std)
        dep = (0, m['HSed'], m['HSed'], h, h, 50)
        plt.plot((m['VpSed'], m['VpSed'], m['VpCrust'], m['VpCrust'], 8.045, 8.045), dep)
        plt.plot((m['VsSed'], m['VsSed'], m['VpCrust'] / k, m['VpCrust'] / k, 4.49, 4.49), dep)
        plt.savefig('f')


def header_preonset(rfstream):
    return np.abs(rfstream[0].stats.starttime - rfstream[0].stats.onset)
