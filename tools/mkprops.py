"""Writes properties.jsonl (kept as a program so that wording stays uniform)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': ['src/rfsed/' + f for f in files.split()],
                          'mechanism': [{'name': n, 'where': 'src/rfsed/' + w} for n, w in mech]}})


IN, CF, SC, FS, HI = 'inputs', 'configurations', 'schedules', 'fault_sequences', 'histories'

p('P01', 'H-K stack is the weighted phase sum over every trace at every grid node',
  'For every H-kappa analysis (single layer, sequential sediment and Moho stages, reverberation-corrected, real or synthetic), the stacking value reported for a grid node (H, kappa) equals w1*A(tPs) + w2*A(tPpPs) - w3*A(tPsPs+PpSs), summed over every receiver function given and divided by their number where the method averages, with A the amplitude at the predicted arrival and w1..w3 the user weights. The returned stack is that surface itself, in sequential methods for both stages, not a clipped or partial copy.',
  IN + ' ' + CF, 'All receiver-function streams of any number of traces, all grids, weights, velocities, and the stack/no-stack, layer and defaulted-argument modes.',
  'The three H-K tests compare one synthetic stream at one grid and only check the located maximum; a dropped trace, a swapped weight or a sign only shows on other data.',
  'hkZhu.py hkSeqYeck.py hkYu.py SynthAnalysis.py',
  [('hk', 'hkZhu.py hk'), ('hkSeq', 'hkSeqYeck.py hkSeq'), ('hkYu', 'hkYu.py hkYu'), ('hkSynth, hkSeqSynth', 'SynthAnalysis.py')])
p('P02', 'Predicted phase arrival times follow the travel-time equations',
  'For a candidate layer of thickness H and Vp/Vs ratio kappa, amplitudes are read at t_Ps = H(q_s - q_p), t_PpPs = H(q_s + q_p) and t_PsPs+PpSs = 2 H q_s with q_s = sqrt(kappa^2/Vp^2 - p^2) and q_p = sqrt(1/Vp^2 - p^2), and the times reported with the results are those of the best model. The amplitude used is that of the trace sample nearest the predicted time on the time axis that starts preonset before the onset.',
  IN + ' ' + CF, 'All H, kappa, Vp, ray parameter p, sampling interval and preonset; each analysis and stage.',
  'Tests check one crustal model; a changed term in an equation shifts the answer inside their tolerance or only away from that model.',
  'hkZhu.py hkSeqYeck.py hkYu.py SynthAnalysis.py',
  [('hk', 'hkZhu.py hk'), ('hkSeq', 'hkSeqYeck.py hkSeq'), ('hkYu', 'hkYu.py hkYu'), ('hkSynth', 'SynthAnalysis.py hkSynth')])
p('P03', 'The whole H-kappa grid is searched and the reported best model is its maximum',
  'Every pair of the H and kappa grids given by the user is evaluated exactly once, at its own node. The reported best (H, kappa) is the node of the largest stacking value, and the printed summary names that node, its value and its ratio.',
  IN + ' ' + CF, 'All grid sizes and values, all streams, all analyses and stages.',
  'Tests use one grid whose maximum is interior; skipped rows, transposed indices on non-square grids or a stale summary do not show there.',
  'hkZhu.py hkSeqYeck.py hkYu.py SynthAnalysis.py',
  [('grid loop and arg-max', 'hkZhu.py hk'), ('hkSeq', 'hkSeqYeck.py hkSeq'), ('hkYu', 'hkYu.py hkYu'), ('hkSynth, hkSeqSynth', 'SynthAnalysis.py')])
p('P04', 'Ray parameter is in s/km everywhere it enters an equation, converted once',
  'Slowness headers of real receiver functions (s/deg) are converted to s/km exactly once before they enter any travel-time equation, each trace with its own slowness. Ray parameters that the user passes explicitly are already in s/km and are used as given.',
  IN, 'All streams with arbitrary slowness headers and all user ray parameters, every analysis.',
  'The tests use streams of one common slowness; a per-trace mix-up or a doubled conversion on one path is invisible to them.',
  'hkZhu.py hkSeqYeck.py hkYu.py SynthAnalysis.py',
  [('slowness conversion', 'hkZhu.py hk'), ('hkSeq', 'hkSeqYeck.py hkSeq')])
p('P05', 'The sequential Moho stage uses the best sediment model of the first stage',
  'In sequential H-kappa stacking, the Moho stage delays every phase by the sediment travel times computed with the sediment thickness and ratio found best in the first stage, for real and for synthetic data. No other sediment model enters the Moho stage, and the reported sediment and Moho solutions are those two maxima.',
  IN + ' ' + CF, 'All sediment and Moho streams, grids, velocities and weights.',
  'The sequential test is not runnable in this environment and no other test couples the two stages.',
  'hkSeqYeck.py SynthAnalysis.py', [('hkSeq', 'hkSeqYeck.py hkSeq'), ('hkSeqSynth', 'SynthAnalysis.py hkSeqSynth')])
p('P06', 'Reverberation delay corrections enter each phase with the right sign and amount',
  'The reverberation-corrected H-kappa analysis derives the sediment thickness from the measured two-way reverberation time and the sediment velocities, adds the sediment Ps delay to t_Ps, and (two-way time minus that delay) or the two-way time to t_PpPs and t_PsPs+PpSs respectively. The corrections use the sediment parameters given by the user and the two-way time measured from the same receiver function.',
  IN + ' ' + CF, 'All filter results, sediment velocities, ray parameters and grids.',
  'One test model with one sediment; a sign or a swapped correction moves the maximum by less than the grid tolerance or only for other sediments.',
  'hkYu.py ReverbFilter.py', [('hkYu', 'hkYu.py hkYu')])
p('P07', 'Resonance filter is 1 + r exp(-i w T), the identity when there is no reverb',
  'The reverberation-removal filter takes its strength r and delay T from the first trough of the normalised autocorrelation of the detrended stacked receiver function, builds 1 + r exp(-i w T) over the FFT frequencies of the trace, and applies it by spectral multiplication. When the autocorrelation has no trough, the filter is exactly one at every frequency, and the reported input trace, time axis and sampling interval are those of the input.',
  IN, 'All receiver functions (real or synthetic) of any length, even or odd.',
  'Two tests compare the output for one trace of even length; phase sign, frequency layout for odd lengths and the no-trough path are never run.',
  'ReverbFilter.py SynthAnalysis.py', [('ResonanceFilt', 'ReverbFilter.py'), ('ResonanceFilt', 'SynthAnalysis.py')])
p('P08', 'Real-data and synthetic-data analyses agree on the same trace',
  'Given the same single trace, time axis and ray parameter, the synthetic-data routine and its real-data counterpart (resonance filter, H-kappa stacking, sequential stacking) compute the same stacking surface, best model and filtered trace. No routine of the pair silently uses a different equation, weight or time axis.',
  IN + ' ' + CF, 'All traces, grids, weights and velocities; each real/synthetic pair.',
  'No test runs both members of a pair on the same data.',
  'hkZhu.py hkSeqYeck.py ReverbFilter.py SynthAnalysis.py', [('hkSynth vs hk', 'SynthAnalysis.py'), ('hkSeqSynth vs hkSeq', 'SynthAnalysis.py')])
p('P09', 'Waveform fitting models the documented earth model at every grid node',
  'For every (H, kappa) of the Moho grid, waveform fitting synthesises a receiver function for a sediment layer with the given thickness and Vp, a crust of thickness H with Vs = Vp/kappa, and the fixed mantle half-space, with sediment Vs and the densities from the documented polynomials, and the user ray parameter, sampling interval, trace length and Gaussian factor. Every node of the grid gives exactly one row, labelled with its own H and kappa.',
  IN + ' ' + CF, 'All grids, sediment and crust parameters, streams.',
  'The tests only compare one node of one grid, whose best-fit misfit is insensitive to most parameters.',
  'WaveformFitting.py WaveformFittingMultiproc.py', [('WaveformFitting', 'WaveformFitting.py'), ('WaveformPara, WaveformFit_multiproc', 'WaveformFittingMultiproc.py')])
p('P10', 'Fits compare the same 25 s after the onset of data and synthetic',
  'Correlation, RMS error and phase goodness are each computed between the stacked radial receiver function and the synthetic one over the same samples, from the sample nearest the P onset to 25 s later, whatever the preonset and sampling interval. Each reported measure is the named one: Pearson coefficient, root of the mean squared difference, and the phase goodness of the sign series with the synthetic as reference.',
  IN + ' ' + CF, 'All sampling intervals (including those for which no sample falls exactly at zero), preonset values and traces.',
  'Tests use one sampling interval and preonset; misalignment by a sample or a window past the end is not visible.',
  'WaveformFitting.py WaveformFittingMultiproc.py', [('fit window', 'WaveformFitting.py'), ('fit window', 'WaveformFittingMultiproc.py')])
p('P11', 'Best fit per criterion is that criterion extremum; GoF weights as documented',
  'The combined goodness of fit of each node is wtCorr*Corr/max(Corr) + wtRMSE*(1 - RMSE/max(RMSE)) + wtPG*PG/max(PG) with the user weights. The best model shown for correlation, phase goodness and combined fit is the maximum of that measure and the one for RMSE is its minimum, each with its own H, kappa and synthetic waveform.',
  IN + ' ' + CF, 'All solution sets, weights and grids, serial and parallel plotting routines.',
  'The plot tests only check that a file appears.',
  'WaveformFitting.py WaveformFittingMultiproc.py', [('PlotWaveformFitting', 'WaveformFitting.py'), ('plotbestmodel', 'WaveformFittingMultiproc.py')])
p('P12', 'Parallel waveform fitting equals the serial one, for any number of processes',
  'The parallel waveform fitting returns, for every Moho depth in the order of the grid, the same rows the serial routine computes for the same inputs, whatever the number of processes. No depth is skipped, duplicated or reordered and the workers use the same parameters.',
  IN + ' ' + SC + ' ' + CF, 'All inputs, grids and worker counts / task schedules.',
  'No test runs both on the same input; tests run one process count.',
  'WaveformFitting.py WaveformFittingMultiproc.py', [('run_waveformfitting', 'WaveformFittingMultiproc.py'), ('WaveformFitting', 'WaveformFitting.py')])
p('P13', 'Events are cut around the theoretical P onset of their own source and station',
  'For each catalogue event the request window is [P onset - before, P onset + after] with the onset the origin time plus the first P travel time at the true epicentral distance and source depth in km, and the onset stored on the traces is that of the same event. The serial and the parallel extraction derive identical windows.',
  IN, 'All catalogues, station locations and request windows.',
  'Two tests use one bundled catalogue and one station.',
  'ExtractEq.py ExtractEqMultiproc.py', [('ExtractEq', 'ExtractEq.py'), ('Add_sta_time_2cat, Eq_times', 'ExtractEqMultiproc.py')])
p('P14', 'Extraction covers every file and every event window; nothing is lost',
  'Every waveform file is examined for every event window, each matching cut is kept with the onset of its own window, and all of them are in the written output, whatever the number of worker processes. The output is written under the requested name.',
  IN + ' ' + SC, 'All file sets, window sets and worker counts.',
  'The extraction tests need network-sized data and are not in the stable set.',
  'ExtractEq.py ExtractEqMultiproc.py', [('Get_EqStream_multiproc, ExtractEq_Multiproc', 'ExtractEqMultiproc.py'), ('ExtractEq', 'ExtractEq.py')])
p('P15', 'Plots draw the results that were computed',
  'Each plotting routine draws the stacking surface against its own H and kappa grids, marks the best model at the maximum of that surface, and marks the phase arrivals at the times computed for that best model, on the data of the same stage. The axes of a surface span the grid that was searched and the caption of the best model gives the numbers it is marked at. Filter plots draw the input, autocorrelation and filtered traces of the result they are given; waveform-fitting figures draw the observed stack with its spread and the synthetic of the best model of their criterion.',
  IN + ' ' + CF, 'All results of the matching analysis, gains and negative-removal modes.',
  'Plot tests check that an output file exists; content is never compared.',
  'hkZhu.py hkSeqYeck.py hkYu.py ReverbFilter.py SynthAnalysis.py', [('plothk', 'hkZhu.py'), ('plotSeqhk', 'hkSeqYeck.py'), ('plothkYu', 'hkYu.py'), ('plothkSynth, plothkSeqSynth', 'SynthAnalysis.py')])
p('P16', 'Plotting leaves the analysis results unmodified',
  'Calling a plotting routine leaves every value of the results it is given as it was (apart from the arrival-time header annotations on the traces it draws), so plotting twice or in another order shows the same thing. Negative-value removal affects the picture only.',
  HI + ' ' + CF, 'All results and plotting options; any sequence of plot calls.',
  'Each test plots once and discards the results.',
  'hkZhu.py hkSeqYeck.py hkYu.py ReverbFilter.py SynthAnalysis.py WaveformFitting.py WaveformFittingMultiproc.py', [('plothk', 'hkZhu.py'), ('plotSeqhk', 'hkSeqYeck.py')])
p('P17', 'Analyses leave the caller inputs unmodified',
  'No analysis changes the receiver functions, grids, velocity or model arrays the caller passes in: the same objects can be analysed again, with other settings or by another method, and give the same result.',
  HI + ' ' + IN, 'All inputs, any sequence of analyses on the same objects.',
  'Tests build fresh inputs for every call.',
  'hkZhu.py hkSeqYeck.py hkYu.py ReverbFilter.py SynthAnalysis.py WaveformFitting.py WaveformFittingMultiproc.py', [('hk', 'hkZhu.py'), ('WaveformPara', 'WaveformFittingMultiproc.py')])
p('P18', 'Plotting routines release every figure they open',
  'Every figure a plotting routine opens is closed (or shown, where the routine is interactive) by the time it returns, in every mode. Repeated plotting does not accumulate open figures.',
  HI + ' ' + CF, 'All plotting routines and mode flags; any number of calls.',
  'Tests plot once per process.',
  'hkZhu.py hkSeqYeck.py hkYu.py ReverbFilter.py SynthAnalysis.py WaveformFitting.py WaveformFittingMultiproc.py', [('plothk', 'hkZhu.py'), ('plotSeqhk', 'hkSeqYeck.py')])
p('P19', 'Every figure is saved under savepath in the requested format, none overwritten',
  'Each figure a plotting routine produces is saved to a file in the directory the user gave with the extension of the requested format. Different figures of one call go to different files, and the file is saved from the figure it is named after.',
  IN + ' ' + CF, 'All save paths, formats, station names and modes.',
  'Tests look for the existence of one file of one format.',
  'hkZhu.py hkSeqYeck.py hkYu.py ReverbFilter.py SynthAnalysis.py WaveformFitting.py WaveformFittingMultiproc.py', [('savefig', 'hkZhu.py plothk')])
p('P20', 'Worker pools are released on every exit, including worker failures',
  'Every pool of worker processes that a parallel routine opens is shut down on every path out of it: normal return and any exception raised by a worker or by the routine. No routine leaves worker processes behind, nor uses a pool after it is shut down.',
  FS + ' ' + SC, 'All failures at any call between pool creation and the end of the routine; all worker counts.',
  'Tests never make a worker fail.',
  'ExtractEqMultiproc.py WaveformFittingMultiproc.py', [('Get_Eqtimes_multiproc, ExtractEq_Multiproc', 'ExtractEqMultiproc.py'), ('run_waveformfitting', 'WaveformFittingMultiproc.py')])
p('P21', 'Results of each producer carry every field its consumers read, same meaning',
  'Whatever mode an analysis ran in, its result contains every field that the matching plotting, correction or fitting routine reads, with the same kind and meaning. Feeding a result to its documented consumer never fails on a missing field.',
  CF + ' ' + IN, 'All producer/consumer pairs in all combinations of modes.',
  'Tests feed each consumer from one mode of its producer.',
  'hkZhu.py hkSeqYeck.py hkYu.py ReverbFilter.py SynthAnalysis.py WaveformFitting.py WaveformFittingMultiproc.py', [('plothk <- hk', 'hkZhu.py'), ('hkYu <- ResonanceFilt', 'hkYu.py')])
p('P22', 'Omitted options mean the documented defaults',
  'Passing None for an optional velocity, weight, gain, layer or mode gives exactly the result of passing its documented default explicitly. No omitted option is silently given another value or left unset.',
  CF, 'All optional parameters of all analyses and plotting routines.',
  'Tests always pass explicit values.',
  'hkZhu.py hkSeqYeck.py hkYu.py SynthAnalysis.py WaveformFittingMultiproc.py', [('default handling', 'hkZhu.py hk')])
p('P23', 'Results depend only on the arguments: no hidden state, clock or randomness',
  'The result of every analysis, synthesis and extraction is a function of its arguments and the files it is told to read. No routine reads or writes module-level mutable state, global configuration, environment, clock or random numbers, and repeated calls in one process give equal results.',
  HI + ' ' + SC, 'All call sequences in one process, all routines of the package.',
  'Each test process calls each routine once.',
  '__init__.py hkZhu.py hkSeqYeck.py hkYu.py ReverbFilter.py SynthAnalysis.py synrf.py WaveformFitting.py WaveformFittingMultiproc.py ExtractEq.py ExtractEqMultiproc.py util.py', [('whole package', '__init__.py')])
p('P24', 'Files are only written where documented, nothing is deleted',
  'Analyses write no files; plotting routines write only figures under the given save path; extraction writes only the named output; helper and installer routines create only the documented directories. No routine deletes, renames or runs anything.',
  IN + ' ' + CF, 'All arguments and all code paths of the package.',
  'Tests do not observe effects outside the asserted file.',
  'hkZhu.py hkSeqYeck.py hkYu.py ReverbFilter.py SynthAnalysis.py synrf.py WaveformFitting.py WaveformFittingMultiproc.py ExtractEq.py ExtractEqMultiproc.py util.py', [('savefig', 'hkZhu.py plothk'), ('installers', 'util.py')])
p('P25', 'No supported mode reaches an undefined name, attribute or wrong-arity call',
  'In every documented combination of modes, every routine of the package runs without using a name before it is bound, a missing module attribute, or a call of a package routine with arguments it does not take.',
  CF, 'All routines, all mode flags, all internal call sites.',
  'Tests cover one mode per routine and skip two modules.',
  'hkZhu.py hkSeqYeck.py hkYu.py ReverbFilter.py SynthAnalysis.py synrf.py WaveformFitting.py WaveformFittingMultiproc.py ExtractEq.py ExtractEqMultiproc.py util.py', [('whole package', '__init__.py')])
p('P26', 'Synthetic receiver functions: interface depths, components and ray parameters',
  'The synthetic-seismogram object converts interface depths or thicknesses to layer thicknesses as documented, computes one radial and one vertical trace for each ray parameter with that ray parameter, labels them accordingly, and deconvolves each radial by the vertical of the same ray parameter. A ray parameter that is neither a number, list nor array is rejected with a type error.',
  IN + ' ' + CF, 'All layer models, ray-parameter lists, sampling and incident phases.',
  'Tests synthesise one two-layer model with one ray parameter.',
  'synrf.py', [('synrf', 'synrf.py synrf'), ('fwd_seis', 'synrf.py')])
p('P27', 'Propagator matrices follow the Haskell-Thomson P-SV theory',
  'The forward synthesis uses the P-SV propagator of each layer with its own thickness, velocities and density, the product of all layers in order down to the half-space, the inverse half-space eigenvector matrix, and the displacement ratios of the documented incident phase, over the positive frequencies of the trace with the conjugate-symmetric completion. Layer order, branch signs and the wave type are those of the published formulation.',
  IN, 'All layered models, frequencies, ray parameters, P and S incidence.',
  'No test checks the synthesised amplitude for more than one model, and S incidence is never run.',
  'synrf.py', [('haskell, propagator_sol, e_inverse, fwd_seis', 'synrf.py')])
p('P28', 'Deconvolution is the documented algorithm with its returned misfit',
  'Iterative time-domain deconvolution picks at each iteration the largest correlation lag, accumulates spikes, stops on misfit change or iteration limit and returns the Gaussian-filtered, onset-shifted result with the misfits of the iterations made; water-level deconvolution divides the spectra with the floor at the given fraction of the maximum, with the same Gaussian and onset shift. The method requested by the user is the one applied, with its parameters passed through, and an unknown method is rejected.',
  IN + ' ' + CF, 'All traces, sampling, Gaussian factors, levels, iteration limits and both methods.',
  'Tests run the default method on one trace.',
  'synrf.py', [('deconv_iterative, deconv_waterlevel, deconvolve', 'synrf.py'), ('RFTrace.deconvolve', 'synrf.py')])
p('P29', 'Helpers read the bundled example data and create the documented directories',
  'Each example-data helper reads or names its own bundled file in the installed package, each save-directory helper creates (if absent) and returns its own documented directory, and the installers copy the bundled examples, data and tests below the path the user gives. Repeated calls are harmless and none of the locations depends on the current directory.',
  IN + ' ' + HI, 'All install paths, repeated calls, pre-existing directories.',
  'Tests use a single fresh path for some of them.',
  'util.py', [('util helpers', 'util.py')])
p('P30', 'Every argument is accepted in its documented place and takes effect',
  'Every public routine takes its documented arguments in the documented order, and a documented call stays valid. In every mode each argument the user passes takes part in the result or the output, and the values of a mode argument (stacking, layer, removal of negative values, phase, normalisation, incident wave) are told apart: no option is silently ignored. (The plotting gain of the sequential analyses and the removal flag of the synthetic one only matter to their plotters.)',
  IN + ' ' + CF, 'All public routines, all modes, all argument values.',
  'A test passes one value per option, by keyword or in one order; it cannot see that another value would change nothing.',
  'hkZhu.py hkSeqYeck.py hkYu.py ReverbFilter.py SynthAnalysis.py synrf.py WaveformFitting.py WaveformFittingMultiproc.py ExtractEq.py ExtractEqMultiproc.py util.py',
  [('signatures', 'hkZhu.py hk'), ('synrf', 'synrf.py synrf')])
p('P31', 'Iterative deconvolution never increases its misfit from one step to the next',
  'For every pair of radial and vertical traces the sequence of misfits returned by the iterative deconvolution does not increase, and its last value is that of the returned receiver function.',
  IN, 'All pairs of traces, Gaussian factors, iteration limits.',
  'Tests deconvolve one synthetic pair.',
  'synrf.py', [('deconv_iterative', 'synrf.py deconv_iterative')])
p('P32', 'The located maximum recovers the true crustal model within the grid resolution',
  'For receiver functions synthesised from a layered model, the H-kappa methods report a thickness and ratio within one grid step of the model that generated them.',
  IN, 'All layered models, grids that contain the model, noise levels.',
  'Tests recover one model.',
  'hkZhu.py hkSeqYeck.py hkYu.py SynthAnalysis.py', [('hk', 'hkZhu.py hk')])
p('P33', 'Forward synthesis stays finite and accurate for every valid layered model',
  'The synthetic traces are finite and free of cancellation error for every physically valid stack of layers, ray parameter and record length, including post-critical ray parameters.',
  IN, 'All layered models, ray parameters, sampling intervals and trace lengths.',
  'Tests synthesise one two-layer model at one ray parameter.',
  'synrf.py', [('fwd_seis', 'synrf.py')])
with open(OUT, 'w') as fh:
    for q in P:
        assert len(q['title']) <= 80, (q['id'], len(q['title']))
        fh.write(json.dumps(q) + '\n')
print(len(P))
