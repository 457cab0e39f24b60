"""Which rules decide which property."""
from . import rules_hk as hk, rules_plot as pl, rules_filter as fl, rules_wave as wv, rules_extract as ex, rules_sys as sy, rules_syn as sn, rules_iface as fc

SYM = ('abstract interpretation of the source to canonical symbolic values, compared with a '
       'specification program evaluated in the same domain (value-equivalence dataflow)')
EFF = 'effect and typestate analysis over the same interprocedural abstract interpretation'

CHECKS = {
    'P01': ([hk.stack_value], SYM, 'The value every analysis returns as its stacking surface is extracted from the source as one closed term over its inputs, for every mode, and compared with the documented weighted phase sum over all traces.'),
    'P02': ([hk.arrival_times], SYM, 'Arrival-time terms of every phase, stage and mode are extracted and compared with the travel-time equations.'),
    'P03': ([hk.grid_and_best], SYM, 'Loop domains, node labels, the arg-max selection and the printed summary are extracted and compared with full coverage of the grid and its maximum.'),
    'P04': ([hk.ray_parameter_units], SYM + '; unit inference on slowness', 'Every ray parameter reaching an equation is traced to its source and its unit conversion counted.'),
    'P05': ([hk.sequential_stage], SYM, 'The sediment terms of the Moho stage are extracted and compared with the travel times of the first-stage maximum.'),
    'P06': ([hk.yu_correction], SYM, 'The corrected arrival times and the derived sediment thickness are extracted and compared with the published corrections.'),
    'P07': ([fl.resonance_filter], SYM, 'Filter, trough parameters, spectra and reported inputs are extracted and compared; the no-trough branch is specialised and shown to be one.'),
    'P08': ([fl.siblings], SYM + '; relational comparison of two routines', 'The two routines of each pair are analysed, their inputs identified, and their results compared term by term.'),
    'P09': ([wv.earth_model], SYM, 'The layered model handed to the synthesis at every grid node and the node labels are extracted from the fit rows and compared with the documented model, in the serial and parallel routines.'),
    'P10': ([wv.fit_window], SYM, 'Each measure is extracted as a term over stacked and synthetic traces; window bounds and formula are compared with the documented ones.'),
    'P11': ([wv.goodness], SYM + '; effect analysis of drawing calls', 'Combined goodness, arg-extremum per criterion, printed models and all four figures are extracted and compared.'),
    'P12': ([wv.serial_is_parallel], SYM + '; relational comparison of two routines', 'The rows of the parallel routine are extracted through the pool map and compared with the serial table; order, worker effects and worker count are checked.'),
    'P13': ([ex.event_windows], SYM + '; relational comparison of two routines', 'Windows, cut bounds and stored onsets are extracted as terms over catalogue, station and request (parallel pipeline followed through its pool maps) and compared with the documented window.'),
    'P14': ([ex.extraction_complete], SYM, 'The written stream is extracted as a set comprehension over files and events and compared with full coverage; result order and process count are shown irrelevant.'),
    'P15': ([pl.drawn_content, wv.criterion_figures], SYM + '; effect analysis of drawing calls', 'All drawing calls of every plotting routine are collected with the values they draw and matched with the analysed result.'),
    'P16': ([pl.results_untouched], EFF, 'Every store reachable from the results a plotter receives is collected; none may change them.'),
    'P17': ([pl.inputs_untouched], EFF, 'Every store reachable from a parameter of an analysis is collected; none may change the caller inputs.'),
    'P18': ([pl.figures_released], EFF + ' (typestate open/closed)', 'Every figure opened on every mode path is followed to its close or show.'),
    'P19': ([pl.figure_files], EFF, 'Every saved path is extracted as a string term and compared with savepath/.../format; distinctness is decided on the terms.'),
    'P20': ([sy.pools_released], 'typestate analysis of worker pools over the exceptional control flow of the syntax tree', 'Every pool creation is followed over normal and exceptional edges to a release; leaving a routine with a live pool is reported with the path.'),
    'P26': ([sn.synthetic_object], SYM + '; modular: parts decided by P27/P28 stand as symbols first', 'The traces, sampling, ray parameters, defaults and deconvolution pairing of the object are followed through its methods and compared with the documented ones.'),
    'P21': ([sy.result_fields], SYM + '; producer/consumer composition', 'Each consumer is analysed on the very result term of its producer in every mode, so that every field read is resolved against the fields written; the passed-along fields are compared with their documented content.'),
    'P22': ([sy.omitted_options], SYM + '; relational comparison of two configurations of one routine', 'Each optional argument, singly and together, is analysed once as None and once as its documented default; results and all drawing, saving and printing effects must be the same terms.'),
    'P23': ([sy.pure_of_state], EFF, 'Every read of clock, environment or random state and every store into module-level state, class attributes or argument defaults is collected over all entry points in all modes.'),
    'P24': ([sy.write_effects], EFF, 'Every file-writing, directory-creating and figure-saving call reached from any entry point in any mode is collected with the path it acts on and compared with the documented effects.'),
    'P25': ([sy.definedness], 'scope and name-resolution analysis of the syntax tree (package and library attribute universe); definite-assignment and call-arity events of the abstract interpretation', 'Every name, package import, attribute and package call of the source is resolved; every mode of every entry point is followed for reads before assignment and wrong arguments.'),
    'P29': ([sy.helpers], 'path provenance and effect analysis of the helper routines', 'Locations are extracted as package-relative path terms, directory creation with its guard, and copies with source and target.'),
    'P27': ([sn.propagators], SYM, 'Layer matrices and surface response are extracted as terms and compared with the isotropic P-SV eigen-decomposition and reflectivity formulas.'),
    'P28': ([sn.deconvolution, sn.deconvolution_calls], SYM + '; comparison of the iteration as a recurrence (initial state, step, stop condition, result)', 'Gaussian filter, correlation, shift and both deconvolutions are extracted as terms and recurrences and compared with their published definitions.'),
    'P30': ([fc.arguments], 'dependence analysis: the set of arguments each result and output depends on, per mode, and the signature of the syntax tree, against the documented interface', 'For every public routine and mode, the arguments occurring in the extracted result, its conditions and its output effects are compared with the documented interface; modes must be told apart.'),
}
