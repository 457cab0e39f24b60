"""What the fields handed from a producing routine to its consumers hold.

Surfaces, best models and filtered traces are specified in hk.py, filters.py
and waveform.py; here are the fields that are passed along.
"""
from rfspec.hk import axis_of, average_slowness, perkm


def hkZhu(rfstream, preonset, H, K, Vp, layer, stack):
    s = rfstream.copy()
    return {'RF': rfstream, 'RFStack': s.stack()[0].data, 'time': axis_of(rfstream, preonset), 'Vp': Vp,
            'staname': rfstream[0].stats.station, 'comp': rfstream[0].stats.channel, 'layer': layer, 'stack': stack,
            'AvgSlow': average_slowness(rfstream), 'H': H, 'K': K}


def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, HMoho, KMoho, VpMoho, stack):
    a = rfstreamSed.copy()
    b = rfstreamMoho.copy()
    return {'RFSed': rfstreamSed, 'RFMoho': rfstreamMoho, 'RFSedStack': a.stack()[0].data, 'RFMohoStack': b.stack()[0].data,
            'time': axis_of(rfstreamSed, preonset), 'stack': stack, 'staname': rfstreamSed[0].stats.station,
            'comp': rfstreamSed[0].stats.channel, 'AvgSlow': average_slowness(rfstreamMoho), 'VpSed': VpSed, 'VpMoho': VpMoho,
            'HSed': HSed, 'KSed': KSed, 'HMoho': HMoho, 'KMoho': KMoho}


def hkYu(filteredrf, time, tlag, rayp, VpMoho, VpSed, HSubSed, KSubSed):
    return {'FltRF': filteredrf, 'time': time, 'tlag': tlag, 'rayp': rayp, 'VpMoho': VpMoho, 'VpSed': VpSed,
            'HMoho': HSubSed, 'KMoho': KSubSed}


def hkSynth(Synthrf, time, rayp, H, K, Vp, layer):
    return {'SynthRF': Synthrf, 'time': time, 'rayp': rayp, 'H': H, 'K': K, 'Vp': Vp, 'layer': layer}


def hkSeqSynth(rfSynthSed, rfSynthMoho, time, rayp, HSed, KSed, VpSed, HMoho, KMoho, VpMoho):
    return {'SynthRFSed': rfSynthSed, 'SynthRFMoho': rfSynthMoho, 'time': time, 'RayP': rayp, 'HSed': HSed, 'KSed': KSed,
            'VpSed': VpSed, 'HMoho': HMoho, 'KMoho': KMoho, 'VpMoho': VpMoho}


def fit(rfstream, HSed, VpSed, VpCrust, rayp, KMoho, HMoho, gaussian, wtCorr, wtRMSE, wtPG, savepath, format):
    return {'rfstream': rfstream, 'HSed': HSed, 'VpSed': VpSed, 'VpCrust': VpCrust, 'rayp': rayp, 'KMoho': KMoho,
            'HMoho': HMoho, 'gaussian': gaussian, 'wtCorr': wtCorr, 'wtRMSE': wtRMSE, 'wtPG': wtPG, 'savepath': savepath,
            'format': format}


def para(rfstream, preonset, HSed, VpSed, VpCrust, rayp, KMoho, HMoho, gaussian):
    return {'rfstream': rfstream, 'HSed': HSed, 'VpSed': VpSed, 'VpCrust': VpCrust, 'rayp': rayp,
            'KMoho': KMoho, 'gaussian': gaussian, 'HMoho': HMoho}
