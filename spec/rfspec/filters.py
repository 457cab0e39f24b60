"""Resonance removal filter (Yu et al., 2015), as a specification (never executed)."""
import numpy as np
from numpy.fft import fft, ifft
from scipy.signal import find_peaks, detrend


def resonance(data, dt):
    n = len(data)
    clean = detrend(data - np.mean(data))
    full = np.correlate(clean, clean, mode='full')
    auto = (full / np.max(full))[n - 1:2 * n - 1]
    troughs, _ = find_peaks(-auto)
    if len(troughs) == 0:
        r, lag = 0, 0
    else:
        r = np.abs(auto[troughs[0]])
        lag = dt * troughs[0]
    omega = 2 * np.pi / (n * dt) * np.concatenate((np.arange(0, n // 2 + 1), np.arange(-n // 2 + 1, 0)))
    flt = 1 + r * np.exp(-1j * omega * lag)
    return {'autoc': auto, 'r': r, 'tlag': lag, 'resonancefilter': flt,
            'filteredrf': np.real(ifft(fft(clean) * flt))}


def real_one(rfstream, preonset):
    tr = rfstream[0]
    d = resonance(rfstream.stack()[0].data, tr.stats.delta)
    d['time'] = tr.stats.delta * np.arange(0, len(tr.data)) - preonset
    d['rf'] = rfstream.stack()[0].data
    d['delta'] = tr.stats.delta
    return d


def synthetic_one(Synthrf, time):
    d = resonance(Synthrf, time[1] - time[0])
    d['time'] = time
    d['rf'] = Synthrf
    d['delta'] = time[1] - time[0]
    return d
