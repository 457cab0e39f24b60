"""Synthetic receiver functions and deconvolution, as a specification (never executed)."""
import numpy as np
from math import pi
from numpy.fft import fft, ifft
from obspy.signal.util import next_pow_2


# ---- P-SV propagation (Aki & Richards eq. 5.71 and box 9.1) ------------------
def up_down(omega, rho, alpha, beta, p):
    """rows: the wave amplitudes; columns: displacement x, z and traction x, z"""
    q = np.sqrt(1 / alpha ** 2 - p ** 2)
    n = np.sqrt(1 / beta ** 2 - p ** 2)
    c = 1 - 2 * (beta * p) ** 2
    i = 1j
    return np.array([
        [beta ** 2 * p / alpha, c / (2 * alpha * q), -i * p / (2 * omega * rho * alpha * q), -i / (2 * omega * rho * alpha)],
        [c / (2 * beta * n), -beta * p, -i / (2 * omega * rho * beta), i * p / (2 * omega * rho * beta * n)],
        [beta ** 2 * p / alpha, -c / (2 * alpha * q), i * p / (2 * omega * rho * alpha * q), -i / (2 * omega * rho * alpha)],
        [c / (2 * beta * n), beta * p, i / (2 * omega * rho * beta), i * p / (2 * omega * rho * beta * n)]])


def layer(omega, rho, alpha, beta, p, z):
    q = np.sqrt(1 / alpha ** 2 - p ** 2)
    n = np.sqrt(1 / beta ** 2 - p ** 2)
    c = 1 - 2 * (beta * p) ** 2
    b2 = 2 * (beta * p) ** 2
    m = omega * rho
    cq, cn, sq, sn = np.cos(omega * q * z), np.cos(omega * n * z), np.sin(omega * q * z), np.sin(omega * n * z)
    i = 1j
    a = b2 * cq + c * cn
    d = c * cq + b2 * cn
    x = i * p * (c * sq / q - 2 * beta ** 2 * n * sn)
    y = i * p * (2 * beta ** 2 * q * sq - c * sn / n)
    u = i * p * (cn - cq) / m
    v = i * 2 * m * beta ** 2 * p * c * (cq - cn)
    return np.array([
        [a, x, (p ** 2 * sq / q + n * sn) / m, u],
        [y, d, u, (q * sq + p ** 2 * sn / n) / m],
        [-m * (4 * beta ** 4 * p ** 2 * q * sq + c ** 2 * sn / n), v, a, y],
        [v, -m * (c ** 2 * sq / q + 4 * beta ** 4 * p ** 2 * n * sn), x, d]])


def stack_of(omega, p, nl, alpha, beta, rho, h):
    m = layer(omega, rho[0], alpha[0], beta[0], p, h[0])
    for i in range(1, nl):
        m = np.matmul(layer(omega, rho[i], alpha[i], beta[i], p, h[i]), m)
    e = up_down(omega, rho[-1], alpha[-1], beta[-1], p)
    return np.matmul(e, m) if nl > 1 else e


def response(omega, p, nl, ipha, alpha, beta, rho, h):
    s = stack_of(omega, p, nl, alpha, beta, rho, h)
    d = s[2, 0] * s[3, 1] - s[2, 1] * s[3, 0]
    if ipha >= 0:
        return s[3, 1] / d, -s[3, 0] / d
    return -s[2, 1] / d, s[2, 0] / d


def seismograms(rayp, dt, npts, ipha, alpha, beta, rho, h):
    n = next_pow_2(npts)
    R = np.zeros(n, dtype=complex)
    Z = np.zeros(n, dtype=complex)
    for k in range(1, int(n / 2 + 1)):
        R[k], Z[k] = response(2 * np.pi * k / (n * dt), rayp, h.size, ipha, alpha, beta, rho, h)
    r = ifft(R).real[::-1] / n
    z = -ifft(Z).real[::-1] / n
    return r[0:npts], z[0:npts]


# ---- deconvolution --------------------------------------------------------
def gauss(dt, n, a):
    half = 0.5 * n + 1
    w = 2 * pi * np.arange(0, half) / (n * dt)
    g = np.zeros(n)
    g[0:int(half)] = np.exp(-0.25 * (w / a) ** 2) / dt
    g[int(half):] = g[1:int(half) - 1][::-1]
    return g


def smooth(x, n, g, dt):
    return ifft(fft(x, n) * g * dt, n).real


def correlation(R, W, n):
    return ifft(fft(R, n) * np.conj(fft(W, n)), n).real


def delayed(x, n, dt, preonset):
    s = int(preonset / dt)
    a = 2 * pi * np.arange(1, n + 1) * s / n
    return (ifft(fft(x, n) * (np.cos(a) - 1j * np.sin(a)), n) / np.cos(2 * pi * s / n)).real


def iterative(uin, win, dt, preonset, gaussian, itmax, minderr, phase):
    nt = len(uin)
    n = next_pow_2(nt)
    u0 = np.zeros(n)
    w0 = np.zeros(n)
    u0[0:nt] = uin
    w0[0:nt] = win
    g = gauss(dt, n, gaussian)
    u = smooth(u0, n, g, dt)
    w = smooth(w0, n, g, dt)
    W = fft(w0, n)
    total = np.sum(u ** 2)
    spikes = np.zeros(n)
    misfit = np.zeros(itmax)
    left, before, change, k = u, 1, 100 * total + minderr, 0
    while np.abs(change) > minderr and k < itmax:
        c = correlation(left, w, n) / np.sum(w ** 2)
        if phase == 'P':
            j = np.argmax(np.abs(c[0:int(0.5 * n) - 1]))
        else:
            j = np.argmax(np.abs(c))
        spikes[j] = spikes[j] + c[j] / dt
        left = u - smooth(smooth(spikes, n, g, dt), n, W, dt)
        now = np.sum(left ** 2) / total
        misfit[k] = now
        change = 100 * (before - now)
        before = now
        k = k + 1
    out = delayed(smooth(spikes, n, g, dt), n, dt, preonset)
    return out[0:nt], misfit[0:k], k


def waterlevel(uin, win, dt, preonset, wlevel, gaussian, normalize, phase):
    nt = len(uin)
    n = next_pow_2(nt)
    step = 1 / (n * dt)
    g = gauss(dt, n, gaussian)
    U = fft(uin, n)
    W = fft(win, n)
    power = W * np.conj(W)
    floor = wlevel * max(power.real)
    D = np.where(power.real < floor, floor, power)
    Q = g * U * np.conj(W) / D
    w = 2 * pi * step * np.arange(n / 2 + 1)
    w = np.append(w, -w[1:-1][::-1])
    out = ifft(Q * np.exp(-1j * w * preonset), n)[0:nt].real
    want = ifft(g * U, n).real
    got = ifft(Q * W, n).real
    misfit = np.sum((got[0:nt] - want[0:nt]) ** 2) / np.sum(want[0:nt] ** 2)
    if normalize:
        out = out / (np.sum(g) * step * dt)
    return out, misfit


# ---- the synthetic receiver function object --------------------------------
from obspy import Stream, Trace


def layers_of(depth):
    return [depth[0] if i == 0 else depth[i] - depth[i - 1] for i in range(len(depth))]


def radial(depth, vp, vs, rho, rayp, dt, npts, ipha):
    h = np.array(layers_of(depth))
    return [seismograms(p, dt, npts, ipha, vp, vs, rho, h)[0] for p in rayp]


def vertical(depth, vp, vs, rho, rayp, dt, npts, ipha):
    h = np.array(layers_of(depth))
    return [seismograms(p, dt, npts, ipha, vp, vs, rho, h)[1] for p in rayp]


def rf_header(utr):
    return utr.stats.delta, utr.stats.starttime, utr.stats.station


def sampling(rayp, dt):
    return [dt for p in rayp]


def component(which, depth, vp, vs, rho, rayp, dt, npts, ipha):
    h = np.array(layers_of(depth))
    st = Stream()
    for p in rayp:
        tr = Trace(data=seismograms(p, dt, npts, ipha, vp, vs, rho, h)[which])
        tr.stats.delta = dt
        st.append(tr)
    return st


def filtered(which, depth, vp, vs, rho, rayp, dt, npts, ipha, f1, f2, order, zerophase):
    st = component(which, depth, vp, vs, rho, rayp, dt, npts, ipha)
    st.filter('bandpass', freqmin=f1, freqmax=f2, corners=order, zerophase=zerophase)
    return st


def rf_water(depth, vp, vs, rho, rayp, dt, npts, ipha, preonset, gaussian, wlevel):
    r = component(0, depth, vp, vs, rho, rayp, dt, npts, ipha)
    z = component(1, depth, vp, vs, rho, rayp, dt, npts, ipha)
    return [waterlevel(r[i].data, z[i].data, r[i].stats.delta, preonset, wlevel, gaussian, False, 'P')[0] for i in range(len(rayp))]


def rf_iter(depth, vp, vs, rho, rayp, dt, npts, ipha, f1, f2, preonset, gaussian):
    r = component(0, depth, vp, vs, rho, rayp, dt, npts, ipha)
    z = component(1, depth, vp, vs, rho, rayp, dt, npts, ipha)
    if f1 is not None:
        r.filter('bandpass', freqmin=f1, freqmax=f2, corners=2, zerophase=True)
        z.filter('bandpass', freqmin=f1, freqmax=f2, corners=2, zerophase=True)
    return [iterative(r[i].data, z[i].data, r[i].stats.delta, preonset, gaussian, 400, 0.001, 'P')[0] for i in range(len(rayp))]
