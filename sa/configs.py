"""Entry points and the configurations under which each one is analysed.

A configuration fixes parameter *kinds* (number, array, receiver-function
stream, ...) and, where the code branches on it, a mode flag (stack / no stack,
layer, None for a defaulted argument).  Every remaining parameter is a free
symbol, so one abstract run covers every input of that mode.
"""
import os
from .terms import *
from .ops import *
from .heap import *
from .interp import Interp
from .entry import OMIT, run, find, params_of, sym, mklist, mkdict

DRIVE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'drive')
SYNRF = 'rfsed.synrf.synrf'


def names(s, ty):
    return {x: ty for x in s.split()}


HK_T = {'rfstream': 'RFStream', **names('preonset Vp w1 w2 w3', 'num'), **names('H K', 'arr'), 'layer': 'str'}
SEQ_T = {**names('rfstreamSed rfstreamMoho', 'RFStream'), 'preonset': 'num',
         **names('VpSed w1Sed w2Sed w3Sed VpMoho w1Moho w2Moho w3Moho', 'num'),
         **names('HSed KSed HMoho KMoho', 'arr')}
YU_T = {**names('rayp VpMoho VpSed VsSed w1SubSed w2SubSed w3SubSed', 'num'), **names('HSubSed KSubSed', 'arr')}
SHK_T = {**names('rayp Vp w1 w2 w3', 'num'), **names('Synthrf time H K', 'arr'), 'layer': 'str'}
SSEQ_T = {**names('rayp VpSed w1Sed w2Sed w3Sed VpMoho w1Moho w2Moho w3Moho', 'num'),
          **names('rfSynthSed rfSynthMoho time HSed KSed HMoho KMoho', 'arr')}
FLT_T = {'rfstream': 'RFStream', 'preonset': 'num'}
SFLT_T = names('Synthrf time', 'arr')
WF_T = {'rfstream': 'RFStream', **names('preonset HSed VpSed VpCrust rayp gaussian wtCorr wtRMSE wtPG', 'num'),
        **names('KMoho HMoho', 'arr'), **names('savepath format', 'str')}
PLOT_T = names('savepath format', 'str')

# abstract value of what `ResonanceFilt` hands to hkYu, and so on
ROWT = 'rows'


class Workspace:
    """One parsed source tree plus memoised abstract runs."""

    def __init__(self, src, package='rfsed'):
        self.src = src
        self.I = Interp(src, package)
        D = Interp(DRIVE, 'drive')
        self.I.modules.update({package + '.' + k.replace('.', '_'): m for k, m in D.modules.items()})
        for k, m in D.modules.items():
            m.name = package + '.' + k.replace('.', '_')
        self.memo = {}
        self.errors = {}

    def result(self, name, modular=None, **kw):
        key = (name, tuple(sorted(kw.items())), modular is not None)
        if key not in self.memo:
            sets = dict(kw).get('sets') or ()
            mod, fn, types, consts, oc = ENTRIES[name](self, **{k: v for k, v in kw.items() if k != 'sets'})
            consts = dict(consts)
            consts.update(_set(x) for x in sets)
            f = find(self.I, mod, fn)
            if f is None:
                self.memo[key] = None
            else:
                self.I.opaque_classes = set(oc)
                c = dict(consts)
                self.I.summaries = modular or {}
                try:
                    r = run(self.I, f, types, c)
                finally:
                    self.I.summaries = {}
                r.entry = name
                r.consts = consts
                r.where = (mod + '.py', fn)
                self.memo[key] = r
        return self.memo[key]

    # symbolic copy of a producer's result: same keys, fresh symbols
    def symbolic(self, name, base, keep=(), over=None, **kw):
        pr = self.result(name, **kw)

        def build(I):
            v = pr.value if pr is not None else None
            d = {}
            if isinstance(v, Dct):
                for k, x in v.d.items():
                    if over and k in over:
                        d[k] = over[k]
                    elif k in keep or isinstance(x, Kst):
                        d[k] = x
                    else:
                        d[k] = sym('%s.%s' % (base, k), kind_of(x))
                return I.alloc(HDict(d))
            return sym(base, 'unk')
        return build

    def composed(self, name, **kw):
        pr = self.result(name, **kw)

        def build(I):
            return thaw(I, pr.value) if pr is not None else sym('missing', 'unk')
        return build


def _set(x):
    k, v = x
    return k, (lambda I: mklist(I, [num(y) for y in v])) if isinstance(v, tuple) else v


def thaw(I, v):
    if isinstance(v, Dct):
        return I.alloc(HDict({k: thaw(I, x) for k, x in v.d.items()}))
    if isinstance(v, Tup) and v.kind == 'list':
        return mklist(I, [thaw(I, x) for x in v.items])
    return v


def kind_of(x):
    if isinstance(x, N):
        if x.ty == 'table':
            return 'arr2'
        if x.ty in ('const',):
            return 'num'
        return x.ty
    if isinstance(x, Tup):
        return 'arr' if x.kind in ('row', 'array') else 'list'
    if isinstance(x, StrV):
        return 'str'
    return 'unk'


def _none(keys, on):
    return {k: None for k in keys.split()} if on else {}


def flt_dict(ws):
    return ws.symbolic('ReverbFilter.ResonanceFilt', 'FltResult')


ENTRIES = {}


def entry(name):
    def d(f):
        ENTRIES[name] = f
        return f
    return d


@entry('hkZhu.hk')
def _(ws, stack=True, none=False, layer='Moho'):
    c = {'stack': stack, 'layer': layer}
    c.update(_none('Vp w1 w2 w3 layer stack', none))
    if none:
        c['stack'] = None
    return 'hkZhu', 'hk', HK_T, c, ()


@entry('hkSeqYeck.hkSeq')
def _(ws, stack=True, none=False):
    c = {'stack': stack}
    c.update(_none('VpSed w1Sed w2Sed w3Sed stack', none))
    return 'hkSeqYeck', 'hkSeq', SEQ_T, c, ()


@entry('hkYu.hkYu')
def _(ws, none=False):
    c = {'FltResult': flt_dict(ws)}
    c.update(_none('VpMoho VpSed w1SubSed w2SubSed w3SubSed', none))
    return 'hkYu', 'hkYu', YU_T, c, ()


@entry('SynthAnalysis.hkSynth')
def _(ws, none=False, layer='Moho'):
    c = {'layer': layer}
    c.update(_none('Vp w1 w2 w3 layer', none))
    return 'SynthAnalysis', 'hkSynth', SHK_T, c, ()


@entry('SynthAnalysis.hkSeqSynth')
def _(ws, none=False, rmneg=None):
    c = {'rmneg': rmneg}
    c.update(_none('VpSed w1Sed w2Sed w3Sed', none))
    return 'SynthAnalysis', 'hkSeqSynth', SSEQ_T, c, ()


@entry('ReverbFilter.ResonanceFilt')
def _(ws):
    return 'ReverbFilter', 'ResonanceFilt', FLT_T, {}, ()


@entry('SynthAnalysis.ResonanceFilt')
def _(ws):
    return 'SynthAnalysis', 'ResonanceFilt', SFLT_T, {}, ()


@entry('WaveformFitting.WaveformFitting')
def _(ws):
    return 'WaveformFitting', 'WaveformFitting', WF_T, {}, (SYNRF,)


@entry('WaveformFittingMultiproc.WaveformPara')
def _(ws):
    return 'WaveformFittingMultiproc', 'WaveformPara', WF_T, {}, (SYNRF,)


@entry('WaveformFittingMultiproc.WaveformFit_multiproc')
def _(ws):
    def ip(I):
        p = ws_params(ws)(I)
        return Tup([Tup([sym('HMoho', 'num')], 'tuple'), p], 'tuple')
    return 'WaveformFittingMultiproc', 'WaveformFit_multiproc', {}, {'inputparams': ip}, (SYNRF,)


def ws_params(ws):
    pr = ws.result('WaveformFittingMultiproc.WaveformPara')

    def build(I):
        return thaw(I, pr.value)
    return build


@entry('WaveformFittingMultiproc.run_waveformfitting')
def _(ws):
    return ('WaveformFittingMultiproc', 'run_waveformfitting', {'nproc': 'num', 'HMoho': 'arr'},
            {'ModelParams': ws_params(ws)}, (SYNRF,))


@entry('WaveformFittingMultiproc.plotbestmodel')
def _(ws, none=False, composed=True):
    fit = ws.result('WaveformFittingMultiproc.run_waveformfitting')
    c = {'ModelParams': ws_params(ws), 'WaveformResults': (lambda I: fit.value) if composed else sym('WR', 'list')}
    c.update(_none('wtCorr wtRMSE wtPG', none))
    return ('WaveformFittingMultiproc', 'plotbestmodel',
            {**names('wtCorr wtRMSE wtPG', 'num'), **PLOT_T}, c, (SYNRF,))


@entry('WaveformFitting.PlotWaveformFitting')
def _(ws, composed=True):
    W = {k: sym('plot.' + k, 'num') for k in ('wtCorr', 'wtRMSE', 'wtPG')}
    b = ws.composed('WaveformFitting.WaveformFitting') if composed else \
        ws.symbolic('WaveformFitting.WaveformFitting', 'R')
    return ('WaveformFitting', 'PlotWaveformFitting', PLOT_T, dict(W, WaveformFitting=b), (SYNRF,))


GC = {'g': 'numlist', 'savepath': 'str', 'format': 'str'}


def plot_entry(mod, fn, param, prod, **fixed):
    @entry(mod + '.' + fn)
    def _(ws, none=False, composed=False, rmneg=True, **kw):
        pk = {k: kw[k] for k in ('stack', 'layer') if k in kw}
        b = ws.composed(prod, **pk) if composed else ws.symbolic(prod, 'R', **pk)
        c = {param: b, 'rmneg': rmneg}
        if none:
            c.update(_none('g rmneg format', True))
        return mod, fn, GC, c, (SYNRF,)
    return _


plot_entry('hkZhu', 'plothk', 'HKResult', 'hkZhu.hk')
plot_entry('hkSeqYeck', 'plotSeqhk', 'SequentialHKResult', 'hkSeqYeck.hkSeq')
plot_entry('hkYu', 'plothkYu', 'hkYuResult', 'hkYu.hkYu')
plot_entry('SynthAnalysis', 'plothkSynth', 'HKResultSynth', 'SynthAnalysis.hkSynth')
plot_entry('SynthAnalysis', 'plothkSeqSynth', 'SynthSeqHKResult', 'SynthAnalysis.hkSeqSynth')
plot_entry('SynthAnalysis', 'plotfiltSynthrf', 'FilteredRF', 'SynthAnalysis.ResonanceFilt')
plot_entry('ReverbFilter', 'plotfiltrf', 'FilteredRF', 'ReverbFilter.ResonanceFilt')


@entry('ExtractEq.ExtractEq')
def _(ws):
    return ('ExtractEq', 'ExtractEq', {**names('datapath filename', 'str'), 'catalog': 'str',
                                       **names('stalat stalon', 'num'), 'Request_window': 'numlist'}, {}, ())


@entry('ExtractEqMultiproc.Add_sta_time_2cat')
def _(ws):
    return ('ExtractEqMultiproc', 'Add_sta_time_2cat',
            {'catalogfile': 'str', **names('stalat stalon', 'num'), 'Request_window': 'numlist'}, {}, ())


@entry('ExtractEqMultiproc.Eq_times')
def _(ws):
    return 'ExtractEqMultiproc', 'Eq_times', {'catalog': 'Event'}, {}, ()


@entry('ExtractEqMultiproc.Get_Eqtimes_multiproc')
def _(ws):
    return 'ExtractEqMultiproc', 'Get_Eqtimes_multiproc', {'catalog': 'Catalog', 'nproc': 'num'}, {}, ()


@entry('ExtractEqMultiproc.Get_EqStream_multiproc')
def _(ws):
    tw = ws.result('ExtractEqMultiproc.Get_Eqtimes_multiproc')
    return ('ExtractEqMultiproc', 'Get_EqStream_multiproc', {},
            {'inputparams': lambda I: Tup([Tup([sym('file', 'str')], 'tuple'), tw.value], 'tuple')}, ())


@entry('ExtractEqMultiproc.ExtractEq_Multiproc')
def _(ws):
    tw = ws.result('ExtractEqMultiproc.Get_Eqtimes_multiproc')
    return ('ExtractEqMultiproc', 'ExtractEq_Multiproc',
            {'datafiles': 'files', 'nproc': 'num', 'filename': 'str'},
            {'timewindow': lambda I: tw.value}, ())


SYN_T = {
    'gaussFilter': names('dt nft gaussian', 'num'),
    'gfilter': {**names('x gauss', 'arr'), **names('nfft dt', 'num')},
    'correl': {**names('R W', 'arr'), 'nfft': 'num'},
    'phaseshift': {'x': 'arr', **names('nfft dt preonset', 'num')},
    'deconv_iterative': {**names('uin win', 'arr'), **names('dt preonset gaussian itmax minderr', 'num')},
    'deconv_waterlevel': {**names('uin win', 'arr'), **names('dt preonset wlevel gaussian', 'num')},
    'deconvolve': {**names('uin win', 'arr'), 'dt': 'num'},
    'e_inverse': names('omega rho alpha beta p', 'num'),
    'propagator_sol': names('omega rho alpha beta p z', 'num'),
    'haskell': {**names('omega p nl', 'num'), **names('alpha beta rho h', 'arr')},
    'fwd_seis': {**names('rayp dt npts', 'num'), **names('alpha beta rho h', 'arr')},
}


def _syn(f):
    @entry('synrf.' + f)
    def _(ws, **kw):
        return 'synrf', f, SYN_T[f], kw, ()


for _f in SYN_T:
    _syn(_f)


SCH_T = {**names('depth vp vs rho uin win', 'arr'), **names('dt npts f1 f2 order preonset gaussian itmax minderr wlevel', 'num'),
         **names('utr wtr', 'Trace')}


def _chain(f):
    @entry('chain.' + f)
    def _(ws, rayp='list', ipha=1, **kw):
        t = dict(SCH_T, rayp={'list': 'numlist', 'arr': 'arr', 'num': 'float'}.get(rayp, 'num'))
        c = dict(kw)
        c['ipha'] = ipha
        if rayp == 'str':
            c['rayp'] = 'x'
        if rayp == 'tuple':
            c['rayp'] = lambda I: Tup([num(1), num(2)])
        if rayp == 'int':
            c['rayp'] = lambda I: num(1)
        return 'drive_chains', f, t, c, ()


for _f in ('synth_model synth_defaults synth_traces synth_filtered synth_rf synth_rf_plain synth_rf_water trace_iter trace_water trace_header trace_header_water synth_rf_sampling '
           'trace_default trace_water_default arrays_water_default synth_filter_default synth_rf_default synth_rf_unknown '
           'trace_unknown arrays_iter arrays_default arrays_water arrays_unknown').split():
    _chain(_f)


@entry('chain.extract_parallel')
def _(ws):
    return ('drive_chains', 'extract_parallel',
            {**names('catalogfile filename', 'str'), **names('stalat stalon nproc', 'num'),
             'Request_window': 'numlist', 'datafiles': 'files'}, {}, ())


@entry('chain.yu_synth')
def _(ws):
    return 'drive_chains', 'yu_synth', dict(YU_T, **SFLT_T), {}, ()


for _f in ('rfMoho_example rfSed_example raw_data_example catalog_example read_raw_waveform_data save_Eq_data '
           'save_IRIS_waveform save_calculated_RF save_catalog save_plot save_tests install_examples '
           'install_rfsed_tests').split():
    def _mk(f):
        @entry('util.' + f)
        def _(ws):
            return 'util', f, {'path': 'str'}, {}, ()
    _mk(_f)


# ------------------------------------------------------------ all modes
def _grid(**kw):
    import itertools
    ks = sorted(kw)
    return [dict(zip(ks, v)) for v in itertools.product(*[kw[k] for k in ks])]


TF, LAY = (True, False), ('Moho', 'Sed')
MODES = {
    'hkZhu.hk': _grid(stack=TF, layer=LAY) + [{'none': True}],
    'hkSeqYeck.hkSeq': _grid(stack=TF) + [{'none': True}],
    'hkYu.hkYu': _grid(none=TF),
    'SynthAnalysis.hkSynth': _grid(layer=LAY) + [{'none': True}],
    'SynthAnalysis.hkSeqSynth': _grid(rmneg=(None, True, False)) + [{'none': True}],
    'hkZhu.plothk': _grid(stack=TF, layer=LAY, rmneg=TF, composed=TF) + _grid(none=[True], stack=TF),
    'hkSeqYeck.plotSeqhk': _grid(stack=TF, rmneg=TF, composed=TF) + _grid(none=[True], stack=TF),
    'hkYu.plothkYu': _grid(rmneg=TF, composed=TF) + [{'none': True}],
    'SynthAnalysis.plothkSynth': _grid(layer=LAY, rmneg=TF, composed=TF) + [{'none': True}],
    'SynthAnalysis.plothkSeqSynth': _grid(rmneg=TF, composed=TF) + [{'none': True}],
    'SynthAnalysis.plotfiltSynthrf': _grid(composed=TF) + [{'none': True}],
    'ReverbFilter.plotfiltrf': _grid(composed=TF) + [{'none': True}],
    'WaveformFitting.PlotWaveformFitting': _grid(composed=TF),
    'WaveformFittingMultiproc.plotbestmodel': _grid(composed=[True], none=TF),
    'synrf.deconv_iterative': _grid(phase=('P', 'S')),
    'synrf.deconv_waterlevel': _grid(normalize=TF, phase=('P', 'S')),
    'synrf.haskell': _grid(ipha=(1, -1)), 'synrf.fwd_seis': _grid(ipha=(1, -1)),
    'chain.synth_traces': _grid(rayp=('list', 'arr', 'num'), ipha=(1, -1)),
}


def modes(name):
    return MODES.get(name, [{}])
