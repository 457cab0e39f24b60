"""Package-wide rules: pools, state, files, names, defaults, producer/consumer fields."""
from .core import *
from .entry import OMIT
import os

from .pools import Pools


# ------------------------------------------------------------------ P20
def pools_released(C):
    C.guard(_pools)


def _pools(C):
    mods = {q: m for q, m in C.ws.I.modules.items() if '.drive' not in q}
    P = Pools(mods)
    roots = P.run()
    for (file, line, rule), (text, func) in sorted(P.findings.items()):
        C.bad(None, rule, text, file=file, func=func, line=line)
    bad = {(f, l) for (f, l, r) in P.findings}
    for (file, line), func in sorted(P.sites.items()):
        if (file, line) not in bad:
            C.good(None, 'released-on-every-exit', 'pool released on all of the %d exits examined (%d exceptional '
                   'edges)' % (P.paths, P.edges), file=file, func=func, line=line)
    for u in sorted(set(P.unknown)):
        C.unsure(None, 'released-on-every-exit', u)
    if not P.sites and not roots:
        C.good(None, 'released-on-every-exit', 'no routine opens a pool', file='package', func='-')


# ------------------------------------------------------------------ P29
READS = {'rfMoho_example': 'data/rfstreams_Moho/rfstreams.h5', 'rfSed_example': 'data/rfstreams_Sed/rfstreams.h5',
         'read_raw_waveform_data': 'examples/IRIS_Downloaded_Waveform/00_eq_data.h5'}
NAMES = {'raw_data_example': 'data/Raw_Data', 'catalog_example': 'data/Earthquake_Catalog/eq_events.quakeml'}
SAVES = {'save_Eq_data': 'examples/earthquake_data', 'save_IRIS_waveform': 'examples/IRIS_Downloaded_Waveform',
         'save_calculated_RF': 'examples/Calculated_Receiver_Functions', 'save_catalog': 'examples/catalog',
         'save_plot': 'examples/plots', 'save_tests': 'examples/test_output'}
COPIES = {'install_examples': [('examples', '/examples'), ('data', '/data')],
          'install_rfsed_tests': [('examples/rfsed_tests', '')]}


def helpers(C):
    for f, rel in READS.items():
        C.guard(_helper, f, rel, 'read')
    for f, rel in NAMES.items():
        C.guard(_helper, f, rel, 'name')
    for f, rel in SAVES.items():
        C.guard(_helper, f, rel, 'save')
    for f, want in COPIES.items():
        C.guard(_installer, f, want)


def place(v):
    """('rfsed', 'a/b') inside the installed package, ('cwd', s) a constant, ('arg', rest) below a parameter, else None"""
    ps = strparts(v)
    a0 = as_atom(ps[0][1]) if len(ps) > 2 and not isinstance(ps[0], str) and isinstance(ps[0][1], N) else None
    if a0 is not None and a0.op == 'lib' and a0.args[0] == 'os.getcwd' and ps[1] == '/' and not isinstance(ps[2], str):
        ps = ps[2:]                  # a relative path is meant from the current directory anyway
        v = mkstr(ps)
    if ps and all(isinstance(p, str) for p in ps):
        return ('const', ''.join(ps))
    if ps and not isinstance(ps[0], str) and isinstance(ps[0][1], N) and all(isinstance(p, str) for p in ps[1:]):
        a = as_atom(ps[0][1])
        t = ''.join(ps[1:])
        if a is not None and a.op == 'pkgdir':
            return (a.args[0], '/'.join(x for x in t.split('/') if x not in ('', '.')))
        if a is not None and a.op == 'par':
            return ('arg ' + str(a.args[0]), t.rstrip('/'))
    if ps:
        at = [None if isinstance(p, str) or not isinstance(p[1], N) else as_atom(p[1]) for p in ps]
        if all(isinstance(p, str) or a is not None and a.op in ('par', 'pkgdir') for p, a in zip(ps, at)):
            return ('joined', ''.join(p if isinstance(p, str) else '{%s}' % a.args[0] for p, a in zip(ps, at)))
    return None


def _place_is(C, r, rule, v, want, what, line=None):
    p = place(v)
    if p == want:
        C.good(r, rule, what, line=line)
        return True
    if p is None:
        cwd = [a.args[0] for a in atoms_in(v).values() if a.op == 'lib' and a.args[0] in ('os.getcwd', 'os.path.relpath', 'os.getcwdb')]
        if cwd:
            C.bad(r, rule, what + ' depends on the current directory (%s)' % cwd[0], line=line)
            return False
        C.unsure(r, rule, what + ': location not recognised')
        return None
    C.bad(r, rule, what + ' is another location', actual='%s: %s' % p, expected='%s: %s' % want, line=line)
    return False


def _helper(C, f, rel, kind):
    r = C.entry('util.' + f)
    v = r.value
    if kind == 'read':
        a = as_atom(v) if isinstance(v, N) else None
        if a is None or a.op != 'read_rf':
            return C.unsure(r, 'bundled-data', 'the stream returned is not recognised')
        v = a.args[0]
    rule = {'read': 'bundled-data', 'name': 'bundled-data', 'save': 'save-directory'}[kind]
    ok = _place_is(C, r, rule, v, ('rfsed', rel), 'location of %s' % f)
    if ok and rel.count('.') and not os.path.exists(os.path.join(C.src, rel)):
        C.unsure(r, rule, 'file %s is not in the source tree' % rel)
    ws = [e for e in r.events if e.kind == 'write']
    if kind != 'save':
        for e in ws:
            C.bad(r, 'bundled-data', '%s writes' % e.name, line=e.line)
        return
    made = False
    for e in ws:
        if not (str(e.name).split('.')[-1] in ('makedirs', 'mkdir')):
            C.bad(r, 'save-directory', '%s does more than create the directory: %s' % (f, e.name), line=e.line)
            continue
        p = place(e.args[0])
        if p is None:
            C.unsure(r, 'create-if-absent', 'created location not recognised')
            made = None
            continue
        if p != ('rfsed', rel) and not (p[0] == 'rfsed' and rel.startswith(p[1] + '/')):
            C.bad(r, 'save-directory', 'creates another directory', actual='%s: %s' % p, expected=rel, line=e.line)
            continue
        x = e.kw.get('exist_ok') if isinstance(e.kw, dict) else None
        if x is None and str(e.name).endswith('makedirs') and len(e.args) > 2:
            x = e.args[2]
        g = [x for x in e.guards if isinstance(x, Val)]
        if x is not None and truth(x) is TRUE or caught(C, r, e.line):
            if not g or all(_absent(y, p) for y in g):
                made = True if p == ('rfsed', rel) else made
            else:
                made = None if made is False else made
        elif any(_absent(y, p) for y in g):
            made = True if p == ('rfsed', rel) else made
        elif not g:
            C.bad(r, 'repeatable', 'creates the directory although it may exist', line=e.line)
            made = True
        elif all(_absent_file(y, p) for y in g):
            C.bad(r, 'repeatable', 'creates the directory whenever no file of that name exists, so also when it exists', line=e.line)
            made = True
        elif any(_present(y, p) for y in g):
            C.bad(r, 'create-if-absent', 'creates the directory only when it exists', line=e.line)
            made = True
        else:
            made = None
    if made is True:
        C.good(r, 'create-if-absent', '%s creates its directory when absent' % f)
    elif made is None:
        C.unsure(r, 'create-if-absent', '%s: condition for creating the directory not recognised' % f)
    elif r.notes or [e for e in r.events if e.kind == 'unknowncall']:
        C.unsure(r, 'create-if-absent', '%s: creation not recognised' % f)
    else:
        C.bad(r, 'create-if-absent', '%s does not create its directory' % f, line=ret_line(r))


def _exists_arg(a):
    if a is not None and a.op == 'truth' and isinstance(a.args[0], N):
        a = as_atom(a.args[0])
    if a is not None and a.op == 'lib' and a.args[0] in ('os.path.exists', 'os.path.isdir'):
        return place(a.args[1])
    return None


def _absent_file(c, p):
    a = as_atom(f_not(c)) if isinstance(f_not(c), N) else None
    if a is not None and a.op == 'truth' and isinstance(a.args[0], N):
        a = as_atom(a.args[0])
    return a is not None and a.op == 'lib' and a.args[0] in ('os.path.isfile', 'os.path.islink') and place(a.args[1]) == p


def _present(c, p):
    return _exists_arg(as_atom(c) if isinstance(c, N) else None) == p


def _absent(c, p):
    return _present(f_not(c), p)


def caught(C, r, line):
    """the statement at this line of util.py sits in a try whose handler swallows an existing directory"""
    import ast
    m = C.ws.I.module('rfsed.util')
    for t in ast.walk(m.tree):
        if isinstance(t, ast.Try) and any(s.lineno <= line <= s.end_lineno for s in t.body):
            for h in t.handlers:
                names = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                if h.type is None or any(isinstance(n, ast.Name) and n.id in ('FileExistsError', 'OSError', 'Exception', 'IOError')
                                         for n in names):
                    if not any(isinstance(s, ast.Raise) for s in ast.walk(h)):
                        return True
    return False


COPY = ('copy_tree', 'copytree')


def _installer(C, f, want):
    r = C.entry('util.' + f)
    P = r.params
    left = list(want)
    clear = True
    for e in [e for e in r.events if e.kind == 'write']:
        nm = str(e.name).split('.')[-1]
        if nm in ('makedirs', 'mkdir'):
            p = place(e.args[0])
            if p is not None and not p[0].startswith('arg'):
                C.bad(r, 'install-below-path', 'creates a directory elsewhere', actual='%s: %s' % p, line=e.line)
            continue
        if nm not in COPY:
            C.bad(r, 'install-only-copies', '%s' % e.name, line=e.line)
            continue
        kw = e.kw if isinstance(e.kw, dict) else {}
        s = place(e.args[0] if e.args else kw.get('src'))
        d = place(e.args[1] if len(e.args) > 1 else kw.get('dst'))
        if e.loops or s is None or d is None:
            clear = False
            C.unsure(r, 'install-below-path', 'source or target of a copy not recognised')
            continue
        hit = [w for w in left if (s, d) == (('rfsed', w[0]), ('arg path', w[1]))]
        dry = kw.get('dry_run')
        if dry is not None and truth(dry) is TRUE:
            C.bad(r, 'install-complete', 'only a dry run', line=e.line)
        if not hit:
            C.bad(r, 'install-below-path', 'copies to or from another place', actual='%s/%s -> %s%s' % (s + d),
                  expected=', '.join('rfsed/%s -> path%s' % w for w in left), line=e.line)
        elif [g for g in e.guards if isinstance(g, Val)]:
            clear = False
            C.unsure(r, 'install-complete', 'copy made under a condition')
            left.remove(hit[0])
        else:
            if nm == 'copytree' and not (kw.get('dirs_exist_ok') is not None and truth(kw['dirs_exist_ok']) is TRUE):
                C.bad(r, 'repeatable', 'copying fails when the target exists', line=e.line)
            left.remove(hit[0])
            C.good(r, 'install-below-path', 'copies rfsed/%s below the given path%s' % hit[0], line=e.line)
    for w in left:
        if clear and not r.notes and not [e for e in r.events if e.kind == 'unknowncall']:
            C.bad(r, 'install-complete', 'rfsed/%s is not copied to path%s' % w)
        else:
            C.unsure(r, 'install-complete', 'rfsed/%s: copy not recognised' % w[0])


# ------------------------------------------------------------------ P25
def package_sources(C):
    import ast
    d = {}
    for p, ds, fs in os.walk(C.src):
        ds[:] = [x for x in ds if x not in ('examples', 'data', '__pycache__', 'tests')]
        for f in sorted(fs):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(p, f), C.src)[:-3].replace(os.sep, '.')
                q = 'rfsed' if rel == '__init__' else 'rfsed.' + (rel[:-9] if rel.endswith('.__init__') else rel)
                with open(os.path.join(p, f), encoding='utf-8') as fh:
                    s = fh.read()
                d[q] = (os.path.join(p, f), s, ast.parse(s))
    for n in ('examples', 'data'):
        if os.path.isdir(os.path.join(C.src, n)):
            d.setdefault('rfsed.' + n, (os.path.join(C.src, n, '__init__.py'), '', ast.parse('')))
    return d


def every_run(C):
    """All entry points in all modes; quietly skips the ones that are gone."""
    for n in sorted(configs.ENTRIES):
        for kw in configs.modes(n):
            try:
                yield n, kw, C.entry(n, **kw)
            except Missing as e:
                C.unsure(None, 'entry-point', str(e), file=n, func=n)
            except Exception as e:
                C.unsure(None, 'entry-point', '%s %s: %r' % (n, kw, e), file=n, func=n)


CRASH = {'unbound': ('names-bound', ('NameError', 'UnboundLocalError')), 'callerror': ('call-arity', ('TypeError',)),
         'missingattr': ('attributes-exist', ('AttributeError',))}


def definedness(C):
    from .names import Names, caught_by
    src = package_sources(C)
    N_ = Names(src).run()
    for path, fn, line, rule, text in N_.findings:
        C.bad(None, rule, text, file=path, func=fn, line=line)
    if not N_.findings:
        C.good(None, 'names-bound', '%d name references bound' % N_.checked['name'], file='package', func='-')
        C.good(None, 'imports-exist', '%d package imports and attributes resolved' % N_.checked['import'], file='package', func='-')
        C.good(None, 'attributes-exist', '%d attribute reads resolved' % N_.checked['attribute'], file='package', func='-')
    trees = {os.path.basename(p): t for p, s, t in src.values()}
    seen = set()
    for n, kw, r in every_run(C):
        bad = 0
        for e in r.events:
            if e.kind not in CRASH:
                continue
            rule, excs = CRASH[e.kind]
            f = os.path.basename(e.file or '')
            if f in trees and e.line and caught_by(trees[f], e.line, excs):
                continue
            key = (e.kind, f, e.line, e.name, str(e.extra))
            if key in seen:
                continue
            seen.add(key)
            bad += 1
            if f not in trees:
                C.unsure(r, rule, '%s %s in the driver' % (e.name, e.extra))
            elif e.extra == 'maybe':
                C.unsure(r, rule, '%s may be unbound' % e.name, line=e.line, file=f, func=e.func)
            else:
                C.bad(r, rule, '%s: %s (%s)' % (e.name, {'unbound': 'used before it is bound', 'missingattr': 'no such attribute'}.get(e.kind, 'wrong arguments'), e.extra),
                      line=e.line, file=f, func=e.func)
        if not bad:
            C.good(r, 'runs-through', '%d events, %d calls of package routines' % (
                len(r.events), sum(1 for e in r.events if e.kind == 'call')))


# ------------------------------------------------------------------ P23
def pure_of_state(C):
    seen = set()
    for n, kw, r in every_run(C):
        bad = 0
        for e in r.events:
            if e.kind == 'impure':
                rule, what = 'no-hidden-input', 'depends on %s' % e.name
            elif e.kind == 'mutate' and str(e.name).startswith(('global:', 'default:')):
                kind, _, nm = str(e.name).partition(':')
                rule, what = 'no-hidden-state', '%s %s is changed (%s) and kept between calls' % (
                    'module-level state' if kind == 'global' else 'default value', nm, e.extra)
            else:
                continue
            bad += 1
            key = (rule, e.file, e.line, e.name)
            if key not in seen:
                seen.add(key)
                C.bad(r, rule, what, line=e.line, file=e.file, func=e.func)
        if not bad:
            C.good(r, 'function-of-arguments', '%d effects examined' % len(r.events))


# ------------------------------------------------------------------ P24
def write_effects(C):
    seen = set()
    for n, kw, r in every_run(C):
        mod, _, fn = n.partition('.')
        plotter = fn.lower().startswith('plot')
        bad = 0

        def no(rule, e, what):
            nonlocal bad
            bad += 1
            key = (rule, e.file, e.line, e.name)
            if key not in seen:
                seen.add(key)
                C.bad(r, rule, what, line=e.line, file=e.file, func=e.func)
        for e in r.events:
            if e.kind == 'savefig' and not plotter:
                no('only-plots-save-figures', e, 'a routine that is not a plot saves a figure')
            elif e.kind == 'savefig':
                p = root_place(e.args[0] if e.args else e.kw.get('fname'))
                if p is not None and p != 'savepath':
                    no('below-save-path', e, 'figure saved outside the save path (%s)' % p)
            elif e.kind == 'write':
                short = str(e.name).split('.')[-1]
                if mod == 'util' and short in ('makedirs', 'mkdir', 'copy_tree', 'copytree', 'mkpath'):
                    continue          # their places are decided by P29
                if plotter and short in ('makedirs', 'mkdir') and root_place(e.args[0] if e.args else None) == 'savepath':
                    continue
                if extracts(n) and short == 'write' and len(e.args) > 1 and e.name == 'stream.write':
                    t = e.args[1]
                    if root_place(t) not in ('filename', None):
                        no('only-the-named-output', e, 'the stream is written to %s' % show(t)[:80])
                    continue
                no('no-other-write', e, '%s is not a documented effect of this routine' % e.name)
        if not bad:
            C.good(r, 'documented-effects', '%d effects examined' % len(r.events))


def extracts(n):
    return n in ('ExtractEq.ExtractEq', 'ExtractEqMultiproc.ExtractEq_Multiproc', 'chain.extract_parallel')


def root_place(v):
    """first component of a path: a parameter name, a constant, or None if unknown"""
    ps = strparts(v) if isinstance(v, Val) else []
    if not ps:
        return None
    if isinstance(ps[0], str):
        return repr(ps[0])
    a = as_atom(ps[0][1]) if isinstance(ps[0][1], N) else None
    if a is not None and a.op == 'par':
        return str(a.args[0])
    return None


# ------------------------------------------------------------------ P22
def _w(names, vals):
    return list(zip(names.split(), vals))


W3 = (0.6, 0.3, 0.1)
GAIN = ('g', (75., 10., 15., 2.5))
OPTIONS = {
    'hkZhu.hk': [('Vp', 6.5)] + _w('w1 w2 w3', W3) + [('layer', 'Moho'), ('stack', False)],
    'hkSeqYeck.hkSeq': [('VpSed', 3.0)] + _w('w1Sed w2Sed w3Sed', W3) + [('stack', False)],
    'hkYu.hkYu': [('VpMoho', 6.5), ('VpSed', 2.5)] + _w('w1SubSed w2SubSed w3SubSed', W3),
    'SynthAnalysis.hkSynth': [('Vp', 6.5)] + _w('w1 w2 w3', W3) + [('layer', 'Moho')],
    'SynthAnalysis.hkSeqSynth': [('VpSed', 3.0)] + _w('w1Sed w2Sed w3Sed', W3) + [('rmneg', False)],
    'hkZhu.plothk': [GAIN, ('rmneg', True)], 'hkSeqYeck.plotSeqhk': [GAIN, ('rmneg', True)],
    'hkYu.plothkYu': [GAIN, ('rmneg', False)], 'SynthAnalysis.plothkSynth': [GAIN, ('rmneg', False)],
    'SynthAnalysis.plothkSeqSynth': [GAIN, ('rmneg', False)],
    'WaveformFittingMultiproc.plotbestmodel': _w('wtCorr wtRMSE wtPG', (0.4, 0.4, 0.2)),
}
BASES = {
    'hkZhu.hk': configs._grid(stack=(True, False), layer=('Moho', 'Sed')), 'hkSeqYeck.hkSeq': configs._grid(stack=(True, False)),
    'hkZhu.plothk': configs._grid(stack=(True, False), composed=(True,)),
    'hkSeqYeck.plotSeqhk': configs._grid(stack=(True, False), composed=(True,)),
    'hkYu.plothkYu': [{'composed': True}], 'SynthAnalysis.plothkSynth': configs._grid(composed=(True,), layer=('Moho', 'Sed')),
    'SynthAnalysis.plothkSeqSynth': [{'composed': True}],
    'SynthAnalysis.hkSynth': configs._grid(layer=('Moho', 'Sed')),
}
# arguments that may be left out, with the documented value they then have
FMT = ('format', 'jpg')
LEFT_OUT = {
    'hkZhu.hk': [('stack', False)], 'hkSeqYeck.hkSeq': [('stack', False)],
    'SynthAnalysis.hkSynth': [('layer', 'Moho')],
    'hkZhu.plothk': [GAIN, ('rmneg', True), FMT], 'hkSeqYeck.plotSeqhk': [GAIN, ('rmneg', True), FMT],
    'hkYu.plothkYu': [GAIN, FMT], 'SynthAnalysis.plothkSynth': [GAIN, ('rmneg', False), FMT],
    'SynthAnalysis.plothkSeqSynth': [GAIN, ('rmneg', False), FMT],
    'SynthAnalysis.plotfiltSynthrf': [FMT], 'ReverbFilter.plotfiltrf': [FMT],
    'synrf.deconv_iterative': [('nt', None), ('preonset', 10), ('gaussian', 2), ('itmax', 400), ('minderr', 0.001), ('phase', 'P')],
    'synrf.deconv_waterlevel': [('preonset', 10), ('wlevel', 0.05), ('gaussian', 2), ('normalize', False), ('phase', 'P')],
    'util.install_examples': [('path', './rfsed_examples')], 'util.install_rfsed_tests': [('path', './rfsed_tests')],
}
EFFECTS = ('draw', 'savefig', 'figure', 'print', 'show', 'close', 'write')


def omitted_options(C):
    for n in sorted(OPTIONS):
        for kw in BASES.get(n, [{}]):
            for o in OPTIONS[n]:
                if o[0] in kw and kw is not BASES[n][0]:
                    continue
                C.guard(_omitted, n, kw, [o])
            if len(OPTIONS[n]) > 1:
                C.guard(_omitted, n, kw, OPTIONS[n])
        for o in OPTIONS[n]:
            if o[0].startswith('w') and isinstance(o[1], float):
                for kw in BASES.get(n, [{}]):
                    C.guard(_zero_given, n, kw, o[0])
    for o in ('preonset', 'minderr'):
        C.guard(_zero_given, 'synrf.deconv_iterative', {}, o)
    for o in ('preonset', 'wlevel'):
        C.guard(_zero_given, 'synrf.deconv_waterlevel', {}, o)
    for n in sorted(LEFT_OUT):
        for kw in BASES.get(n, [{}]):
            for o in LEFT_OUT[n]:
                if o[0] in kw and kw is not BASES[n][0]:
                    continue
                C.guard(_omitted, n, kw, [o], OMIT)


def _zero_given(C, n, kw, opt):
    """A numeric option given as zero is given, not left out."""
    r = C.entry(n, **kw)
    tests = {}
    vals = [r.value] + [_effect(e) for e in r.events if e.kind in EFFECTS] + [e.args[0] for e in r.events if e.kind == 'branch' and e.args]
    for v in vals:
        for i, a in (atoms_in(v).items() if isinstance(v, Val) else ()):
            if a.op == 'truth' and any(b.op == 'par' and b.args[0] == opt for b in atoms_in(a.args[0]).values()) and \
                    as_atom(a.args[0]) is not None and as_atom(a.args[0]).op == 'par':
                tests[i] = a
    if not tests:
        return C.good(r, 'zero-is-a-value', '%s is never tested for being zero' % opt)
    par = {i: num(0) for a in tests.values() for i, b in atoms_in(a.args[0]).items() if b.op == 'par'}
    zero = C.entry(n, sets=((opt, 0),), **kw)
    want = subst(rewrite(r.value, lambda a: TRUE if a.id in tests else None), par)
    line = next((e.line for e in r.events if e.kind == 'branch' and e.args and isinstance(e.args[0], Val)
                 and set(atoms_in(e.args[0])) & set(tests)), None)
    C.same(zero, 'zero-is-a-value', zero.value, want, 'result with %s given as zero' % opt, line=line)
    a, b = [[e for e in x.events if e.kind in EFFECTS] for x in (zero, r)]
    for x, y in zip(a, b):
        if (x.kind, x.name, x.line) != (y.kind, y.name, y.line):
            return C.unsure(zero, 'zero-is-a-value', 'with %s given as zero the routine takes another course' % opt, line=x.line)
        u, v = _effect(x), subst(rewrite(_effect(y), lambda q: TRUE if q.id in tests else None), par)
        if not equal(u, v):
            if opaque_in(u):
                C.unsure(zero, 'zero-is-a-value', 'arguments of %s not recognised' % x.name, line=x.line)
                continue
            d = first_diff(u, v)
            return C.bad(zero, 'zero-is-a-value', '%s given as zero is treated as left out: see %s' % (opt, x.name or x.kind),
                         actual=d[0], expected=d[1], line=line or x.line, file=x.file, func=x.func)


def _omitted(C, n, kw, opts, how=None):
    unset = C.entry(n, sets=tuple((k, how) for k, _ in opts), **kw)
    given = C.entry(n, sets=tuple(opts), **kw)
    what = ', '.join('%s=None' % k if how is None else '%s left out' % k for k, _ in opts)
    if how is OMIT and all(k in unset.given and equal(unset.given[k], given.given[k]) for k, _ in opts):
        unset.config = what
        return C.good(unset, 'none-means-default', 'the default of %s is the documented one' % opts[0][0])
    gone = [a for v in [unset.value] + [_effect(e) for e in unset.events if e.kind in EFFECTS]
            for a in (atoms_in(v).values() if isinstance(v, Val) else ()) if a.op == 'required']
    if gone:
        return C.bad(unset, 'option-left-unset', '%s can no longer be left out' % gone[0].args[0])
    unset.config = ', '.join(['%s=%s' % i for i in sorted(kw.items())] + [what])
    want = ', '.join('%s=%s' % (k, list(v) if isinstance(v, tuple) else v) for k, v in opts)
    for e in unset.events:
        if e.kind in ('typeerror', 'nonesub', 'nonearith'):
            C.bad(unset, 'option-left-unset', '%s: None reaches %s' % (what, e.name), line=e.line, file=e.file, func=e.func)
    C.same(unset, 'none-means-default', unset.value, given.value, 'result with %s and with %s' % (what, want))
    a = [e for e in unset.events if e.kind in EFFECTS]
    b = [e for e in given.events if e.kind in EFFECTS]
    for x, y in zip(a, b):
        if (x.kind, x.name, x.line) != (y.kind, y.name, y.line):
            return C.bad(unset, 'none-means-default', 'with %s the routine takes another course than with %s' % (what, want),
                         line=x.line, file=x.file, func=x.func)
        u, v = _effect(x), _effect(y)
        if not equal(u, v):
            if opaque_in(u):
                C.unsure(unset, 'none-means-default', 'arguments of %s not recognised' % x.name, line=x.line)
                continue
            d = first_diff(u, v)
            return C.bad(unset, 'none-means-default', '%s differs between %s and %s' % (x.name or x.kind, what, want),
                         actual=d[0], expected=d[1], line=x.line, file=x.file, func=x.func)
    if len(a) != len(b):
        e = (a if len(a) > len(b) else b)[min(len(a), len(b))]
        return C.bad(unset, 'none-means-default', 'with %s the routine takes another course than with %s' % (what, want),
                     line=e.line, file=e.file, func=e.func)
    if a:
        C.good(unset, 'none-means-default', '%d effects agree' % len(a))


def _effect(e):
    kw = e.kw if isinstance(e.kw, dict) else {}
    t = [ev_value(e, None, sorted(k for k in kw if isinstance(kw[k], Val)))]
    g = [x for x in e.guards if isinstance(x, Val)]
    return Tup(t + g, 'tuple')


# ------------------------------------------------------------------ P21
RESULT_FIELDS = [('hkZhu.hk', 'hkZhu', configs._grid(stack=(True, False), layer=('Moho', 'Sed'))),
                 ('hkSeqYeck.hkSeq', 'hkSeq', configs._grid(stack=(True, False))), ('hkYu.hkYu', 'hkYu', [{}]),
                 ('SynthAnalysis.hkSynth', 'hkSynth', configs._grid(layer=('Moho', 'Sed'))),
                 ('SynthAnalysis.hkSeqSynth', 'hkSeqSynth', configs._grid(rmneg=(None, True, False))),
                 ('WaveformFitting.WaveformFitting', 'fit', [{}]),
                 ('WaveformFittingMultiproc.WaveformPara', 'para', [{}])]
CONSUMERS = ('hkZhu.plothk', 'hkSeqYeck.plotSeqhk', 'hkYu.plothkYu', 'SynthAnalysis.plothkSynth', 'SynthAnalysis.plothkSeqSynth',
             'SynthAnalysis.plotfiltSynthrf', 'ReverbFilter.plotfiltrf', 'WaveformFitting.PlotWaveformFitting',
             'WaveformFittingMultiproc.plotbestmodel', 'WaveformFittingMultiproc.WaveformFit_multiproc',
             'WaveformFittingMultiproc.run_waveformfitting', 'hkYu.hkYu', 'chain.yu_synth', 'ExtractEqMultiproc.Get_EqStream_multiproc',
             'ExtractEqMultiproc.ExtractEq_Multiproc', 'ExtractEqMultiproc.Get_Eqtimes_multiproc', 'chain.extract_parallel',
             'chain.synth_rf')
LOST = {'keyerror': 'missing field %s', 'missingattr': 'missing attribute %s', 'indexerror': 'missing entry %s'}


def result_fields(C):
    for n, f, modes in RESULT_FIELDS:
        for kw in modes:
            C.guard(_fields, n, f, kw)
    from .names import caught_by
    trees = {os.path.basename(p): t for p, s, t in package_sources(C).values()}
    for n in CONSUMERS:
        for kw in configs.modes(n):
            C.guard(_consumer, n, kw, trees, caught_by)


def _fields(C, n, f, kw):
    r = C.entry(n, **kw)
    v = r.value
    if isinstance(v, Tup) and len(v.items) == 1:
        v = v.items[0]
    if not isinstance(v, Dct):
        return C.unsure(r, 'field-meaning', 'the result is not recognised as a dictionary')
    P = dict(r.params)
    if n == 'hkYu.hkYu':
        read = r.given['FltResult']
        P.update({k: read.d[k] for k in ('filteredrf', 'time', 'tlag') if isinstance(read, Dct) and k in read.d})
    want = C.spec('fields', f, P).value
    for k in want.d:
        if k in v.d:
            C.same(r, 'field-meaning', v.d[k], want.d[k], 'field %s of the result of %s' % (k, n.split('.')[1]))


def _consumer(C, n, kw, trees, caught_by):
    r = C.entry(n, **kw)
    bad = set()
    for e in r.events:
        if e.kind in LOST:
            f = os.path.basename(e.file or '')
            if f in trees and e.line and caught_by(trees[f], e.line, ('KeyError', 'AttributeError', 'IndexError', 'LookupError')):
                continue
            k = (e.kind, e.name, e.line)
            if k not in bad:
                bad.add(k)
                C.bad(r, 'fields-present', 'reads ' + LOST[e.kind] % e.name, expected='one of %s' % (e.extra,), line=e.line,
                      file=e.file, func=e.func)
    if not bad:
        C.good(r, 'fields-present', 'every field read is in the result it is read from')
