"""Documented ways of chaining the routines (analysed, never executed)."""
from rfsed.ExtractEqMultiproc import Add_sta_time_2cat, Get_Eqtimes_multiproc, ExtractEq_Multiproc
from rfsed.SynthAnalysis import ResonanceFilt as SynthResonanceFilt
from rfsed.hkYu import hkYu


def extract_parallel(catalogfile, stalat, stalon, Request_window, datafiles, nproc, filename):
    catalog = Add_sta_time_2cat(catalogfile, stalat, stalon, Request_window)
    timewindow = Get_Eqtimes_multiproc(catalog, nproc)
    ExtractEq_Multiproc(datafiles, timewindow, nproc, filename)
    return timewindow


# ---- synthetic receiver functions -----------------------------------------
from rfsed.synrf import synrf, RFTrace, deconvolve


def datas(st):
    return [tr.data for tr in st]


def synth_model(depth, vp, vs, rho, rayp, dt, npts, ipha):
    s = synrf(depth, vp, vs, rho, rayp, dt, npts=npts, ipha=ipha)
    return s.thickness, s.rayp


def synth_defaults(depth, vp, vs, rho, rayp, dt):
    s = synrf(depth, vp, vs, rho, rayp, dt)
    s.run_fwd()
    return datas(s.rstream), datas(s.zstream)


def synth_traces(depth, vp, vs, rho, rayp, dt, npts, ipha):
    s = synrf(depth, vp, vs, rho, rayp, dt, npts=npts, ipha=ipha)
    s.run_fwd()
    return [tr.data for tr in s.rstream], [tr.data for tr in s.zstream], \
        [tr.stats.delta for tr in s.rstream], [tr.stats.delta for tr in s.zstream]


def synth_filtered(depth, vp, vs, rho, rayp, dt, npts, ipha, f1, f2, order, zerophase):
    s = synrf(depth, vp, vs, rho, rayp, dt, npts=npts, ipha=ipha)
    s.run_fwd()
    s.filter(freqmin=f1, freqmax=f2, order=order, zerophase=zerophase)
    return s.rstream, s.zstream


def synth_rf(depth, vp, vs, rho, rayp, dt, npts, ipha, f1, f2, preonset, gaussian):
    s = synrf(depth, vp, vs, rho, rayp, dt, npts=npts, ipha=ipha)
    s.run_fwd()
    return datas(s.run_deconvolution(pre_filt=[f1, f2], preonset=preonset, gaussian=gaussian))


def synth_rf_plain(depth, vp, vs, rho, rayp, dt, npts, ipha, preonset, gaussian):
    s = synrf(depth, vp, vs, rho, rayp, dt, npts=npts, ipha=ipha)
    s.run_fwd()
    return datas(s.run_deconvolution(pre_filt=None, preonset=preonset, gaussian=gaussian))


def synth_rf_water(depth, vp, vs, rho, rayp, dt, npts, ipha, preonset, gaussian, wlevel):
    s = synrf(depth, vp, vs, rho, rayp, dt, npts=npts, ipha=ipha)
    s.run_fwd()
    return datas(s.run_deconvolution(pre_filt=None, preonset=preonset, gaussian=gaussian, method='water', wlevel=wlevel))


def trace_iter(utr, wtr, preonset, gaussian, itmax, minderr):
    t = RFTrace.deconvolve(utr, wtr, preonset=preonset, gaussian=gaussian, itmax=itmax, minderr=minderr)
    return t.data, t.stats.rms, t.stats.iter


def trace_header(utr, wtr, preonset, gaussian):
    t = RFTrace.deconvolve(utr, wtr, preonset=preonset, gaussian=gaussian)
    return t.stats.delta, t.stats.starttime, t.stats.station


def trace_header_water(utr, wtr, preonset, gaussian):
    t = RFTrace.deconvolve(utr, wtr, method='water', preonset=preonset, gaussian=gaussian)
    return t.stats.delta, t.stats.starttime, t.stats.station


def synth_rf_sampling(depth, vp, vs, rho, rayp, dt, npts, ipha, preonset, gaussian):
    s = synrf(depth, vp, vs, rho, rayp, dt, npts=npts, ipha=ipha)
    s.run_fwd()
    return [tr.stats.delta for tr in s.run_deconvolution(pre_filt=None, preonset=preonset, gaussian=gaussian)]


def trace_water(utr, wtr, preonset, gaussian, wlevel):
    t = RFTrace.deconvolve(utr, wtr, method='Water', preonset=preonset, gaussian=gaussian, wlevel=wlevel)
    return t.data, t.stats.rms


def trace_unknown(utr, wtr):
    return RFTrace.deconvolve(utr, wtr, method='other')


def arrays_iter(uin, win, dt, preonset, gaussian, itmax, minderr):
    return deconvolve(uin, win, dt, method='ITER', preonset=preonset, gaussian=gaussian, itmax=itmax, minderr=minderr)


def arrays_default(uin, win, dt):
    return deconvolve(uin, win, dt)


def arrays_water(uin, win, dt, preonset, gaussian, wlevel, normalize):
    return deconvolve(uin, win, dt, method='water', preonset=preonset, gaussian=gaussian, wlevel=wlevel, normalize=normalize)


def arrays_unknown(uin, win, dt):
    return deconvolve(uin, win, dt, method='other')


def trace_default(utr, wtr):
    t = RFTrace.deconvolve(utr, wtr)
    return t.data, t.stats.rms, t.stats.iter


def trace_water_default(utr, wtr):
    t = RFTrace.deconvolve(utr, wtr, method='water')
    return t.data, t.stats.rms


def arrays_water_default(uin, win, dt):
    return deconvolve(uin, win, dt, method='WATER')


def synth_filter_default(depth, vp, vs, rho, rayp, dt, npts, ipha, f1, f2):
    s = synrf(depth, vp, vs, rho, rayp, dt, npts=npts, ipha=ipha)
    s.run_fwd()
    s.filter(f1, f2)
    return s.rstream, s.zstream


def synth_rf_default(depth, vp, vs, rho, rayp, dt, npts, ipha):
    s = synrf(depth, vp, vs, rho, rayp, dt, npts=npts, ipha=ipha)
    s.run_fwd()
    return datas(s.run_deconvolution())


def synth_rf_unknown(depth, vp, vs, rho, rayp, dt, npts, ipha):
    s = synrf(depth, vp, vs, rho, rayp, dt, npts=npts, ipha=ipha)
    s.run_fwd()
    return datas(s.run_deconvolution(method='other'))


def yu_synth(Synthrf, time, rayp, HSubSed, KSubSed, VpMoho, VpSed, VsSed, w1SubSed, w2SubSed, w3SubSed):
    flt = SynthResonanceFilt(Synthrf, time)
    return hkYu(flt, rayp, HSubSed, KSubSed, VpMoho, VpSed, VsSed, w1SubSed, w2SubSed, w3SubSed)
