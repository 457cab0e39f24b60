"""Cutting events out of continuous data: windows, onsets, completeness."""
import ast

from .core import *

SER = 'ExtractEq.ExtractEq'
PAR = 'ExtractEqMultiproc.'
CHAIN = 'chain.extract_parallel'


def chain(C):
    r = C.entry(CHAIN)
    r.where = ('ExtractEqMultiproc.py', 'ExtractEq_Multiproc')
    return r


def fileset(C, r):
    """The files the routine may go through (their order does not matter)."""
    if 'datafiles' in r.params:
        return [r.params['datafiles']]
    return [C.spec('extract', f, {'datapath': r.params['datapath']}).value for f in ('sorted_files', 'found_files')]


def written(r):
    return [e for e in r.events if e.kind == 'write' and e.name == 'stream.write']


def content_of(w):
    """The written stream, whatever the order of its traces."""
    v = w.args[0]
    return rewrite(v, lambda a: a.args[0] if a.op == 'processed' and a.args[1] == 'sort' else None) if isinstance(v, N) else v


def catfile(r):
    return r.params.get('catalogfile', r.params.get('catalog'))


def expected(C, r):
    """Every accepted content of the written stream, with its onset by trace."""
    ev = C.spec('extract', 'events_of', {'catalogfile': catfile(r)}).value
    out = []
    for fs in fileset(C, r):
        for f in ('contained_by_file', 'contained_by_event', 'by_file', 'by_event'):
            out.append(C.spec('extract', f, dict(files=fs, events=ev, **{k: r.params[k] for k in
                              'stalat stalon Request_window filename'.split()})))
    return out


def reads_with_window(C, r, v):
    """(file, start, end) of every windowed read in a stream value, binders free."""
    out = []
    for a in atoms_in(v).values():
        if a.op == 'read' and len(a.args) > 1 and isinstance(a.args[1], Dct) and 'starttime' in a.args[1].d:
            out.append(a)
    return out


# ------------------------------------------------------------------ P13
def event_windows(C):
    C.guard(_windows_value)
    C.guard(_onsets, SER)
    C.guard(_onsets, CHAIN)
    C.guard(_same_windows)


def _windows_value(C):
    r = C.entry(PAR + 'Eq_times')
    e = C.spec('extract', 'event_window', r.params)
    C.same(r, 'event-window', r.value, e.value, 'window and onset of one event')
    r = chain(C)
    e = C.spec('extract', 'all_windows', r.params)
    C.same(r, 'event-windows', r.value, e.value, 'windows of the catalogue with the station and request added to it')


def _get(C, n):
    return chain(C) if n == CHAIN else C.entry(n)


def element(v):
    """(binders, extents, guard, element stream) of a flattened list of streams."""
    a = as_atom(v) if isinstance(v, N) else None
    if a is None or a.op != 'flat':
        return None
    bs, ns, body = a.args
    fr = [fresh_binder() for _ in bs]
    body = subst(body, dict(zip(bs, fr)))
    g = TRUE
    b = as_atom(body) if isinstance(body, N) else None
    while b is not None and b.op == 'when':
        g = b.args[0] if g is TRUE else mk_and(g, b.args[0])
        body = b.args[1]
        b = as_atom(body)
    return fr, ns, g, body


def mk_and(a, b):
    return f_and(a, b)


def onset_at(r, st, g):
    """stats.onset of any trace of the cut st, on the paths where g holds."""
    I = r.I
    saved = I.pstores
    I.pstores = r.pstores
    try:
        tr = f_at(st, fresh_binder())
        stats = I.get_attr(tr, 'stats')
        v = I.path_load('attr', stats, 'onset')
        if v is None:
            v = I.path_load('item', stats, 'onset')
    finally:
        I.pstores = saved
    if v is None:
        return None
    n = f_len(st)

    def there(a):
        if a.op != 'ite':
            return None
        if equal(a.args[0], g):
            return a.args[1]
        for c, k in ((a.args[0], 1), (f_not(a.args[0]), 2)):
            m = nonempty_of(c)
            if m is not None and equal(m, n):       # there is a trace, so the cut is not empty
                return a.args[k]
        return None
    return rewrite(v, there)


def _onsets(C, n):
    r = _get(C, n)
    ws = written(r)
    if not ws:
        return C.unsure(r, 'onset-stored', 'no written stream recognised')
    P = r.params
    ev = C.spec('extract', 'events_of', {'catalogfile': catfile(r)}).value
    for w in ws:
        el = element(content_of(w))
        if el is None:
            C.unsure(r, 'onset-stored', 'written stream not recognised: %s' % full(content_of(w), 120))
            continue
        bs, ns, g, st = el
        a = as_atom(st)
        if a is None or a.op != 'read' or len(a.args) < 2:
            C.unsure(r, 'onset-stored', 'cut not recognised: %s' % full(st, 120))
            continue
        on = onset_at(r, st, g)
        lo = a.args[1].d.get('starttime') if isinstance(a.args[1], Dct) else None
        exp = [C.spec('extract', 'window_of', {'event': f_at(ev, b), 'stalat': P['stalat'], 'stalon': P['stalon'],
                                               'Request_window': P['Request_window']}).value for b in bs]
        exp = [x.items[0].d for x in exp]
        # the loop variable that runs over events
        k = next((i for i, x in enumerate(exp) if lo is not None and equal(lo, x['eqstart'])), None)
        if k is None:
            k = next((i for i, nn in enumerate(ns) if equal(nn, f_len(ev))), len(bs) - 1)
        C.same(r, 'cut-start', lo, exp[k]['eqstart'], 'start of the cut', line=w.line)
        C.same(r, 'cut-end', a.args[1].d.get('endtime') if isinstance(a.args[1], Dct) else None, exp[k]['eqend'],
               'end of the cut', line=w.line)
        if on is None:
            if r.notes or r.ev('unknownmethod', 'unknowncall'):
                C.unsure(r, 'onset-stored', 'onset of the cut traces not recognised')
            else:
                C.bad(r, 'onset-stored', 'the cut traces are written without the onset of their event', line=w.line)
        else:
            C.same(r, 'onset-stored', on, exp[k]['onset'], 'onset stored on every trace of the cut', line=w.line)


def _same_windows(C):
    s, p = C.entry(SER), chain(C)
    a = element(content_of(written(s)[0])) if written(s) else None
    b = element(content_of(written(p)[0])) if written(p) else None
    if a is None or b is None:
        return C.unsure(p, 'serial-and-parallel-windows', 'written stream not recognised')
    ra, rb = as_atom(a[3]), as_atom(b[3])
    if ra is None or rb is None or ra.op != 'read' or rb.op != 'read':
        return C.unsure(p, 'serial-and-parallel-windows', 'cut not recognised')

    def close(el, at, r):
        ev = C.spec('extract', 'events_of', {'catalogfile': catfile(r)}).value
        k = next((i for i, nn in enumerate(el[1]) if equal(nn, f_len(ev))), len(el[0]) - 1)
        cat = as_atom(catfile(r)) if isinstance(catfile(r), N) else None
        f = lambda x: rewrite(x, lambda q: sym('CATALOG', 'str') if cat is not None and q is cat else None)
        return f(Tup([subst(at.args[1].d[k2], {bid(el[0][k]): sym('event', 'num')}) for k2 in ('starttime', 'endtime')]))
    C.same(p, 'serial-and-parallel-windows', close(b, rb, p), close(a, ra, s), 'window of an event')


# ------------------------------------------------------------------ P14
def extraction_complete(C):
    C.guard(_complete, SER)
    C.guard(_complete, CHAIN)
    C.guard(_onsets, SER)
    C.guard(_onsets, CHAIN)
    C.guard(_workers)
    C.guard(_left_early, SER)
    C.guard(_left_early, CHAIN)


def _reads(node):
    return any(isinstance(x, ast.Call) and (getattr(x.func, 'id', '') == 'read' or getattr(x.func, 'attr', '') == 'read')
               for b in node for x in ast.walk(b))


def _ordered(li):
    """Might the events of this loop come in order of time?"""
    for x in ast.walk(li.node.iter):
        if isinstance(x, ast.Call) and getattr(x.func, 'id', getattr(x.func, 'attr', '')) in ('sorted', 'sort', 'argsort'):
            return True
    return bool(li.fnnode is not None and any(isinstance(x, ast.Attribute) and x.attr in ('sort', 'argsort')
                                              or isinstance(x, ast.Name) and x.id == 'sorted'
                                              and not _of_files(li.fnnode, x) for x in ast.walk(li.fnnode)))


def _returns(body):
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Return):
            return True
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(x))
    return False


def _collects(body):
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store) or isinstance(x, ast.Call) and \
                    isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'add'):
                return True
    return False


def _of_files(fn, name):
    for c in ast.walk(fn):
        if isinstance(c, ast.Call) and c.func is name and c.args:
            a = c.args[0]
            return isinstance(a, ast.Call) and getattr(a.func, 'id', getattr(a.func, 'attr', '')) in \
                ('glob', 'iglob', 'listdir', 'scandir')
    return False


def _left_early(C, n):
    """No event, whatever the order of the catalogue, ends the cutting of the events after it."""
    r = _get(C, n)
    nev = f_len(C.spec('extract', 'events_of', {'catalogfile': catfile(r)}).value)
    seen = 0
    for li in r.loopinfos:
        if not isinstance(li.node, (ast.For, ast.AsyncFor)) or not any(equal(k, nev) for k in li.ns):
            continue
        out = _returns(li.node.body)
        if not _reads(li.node.body) and not (out and _collects(li.node.body)):
            continue
        seen += 1
        if (li.brk or out) and not _ordered(li):
            C.bad(r, 'every-event-tried', '%s leaves the loop over the events early: the events listed after one that '
                  'does not fit are never cut' % li.func, file=li.file, line=li.node.lineno, func=li.func)
    for e in r.events:
        if e.kind == 'handler' and e.extra and e.extra[0]:
            C.bad(r, 'every-event-tried', '%s carries on without the data when reading them fails: their events are '
                  'missing from the written file' % e.func, file=e.file, line=e.line, func=e.func)
    C.good(r, 'every-event-tried', '%d loops over the events recognised, none left early' % seen)


def _complete(C, n):
    r = _get(C, n)
    ws = written(r)
    if len(ws) != 1:
        if not ws and (r.notes or r.ev('unknowncall', 'unknownmethod')):
            return C.unsure(r, 'written-stream', 'no written stream recognised')
        return C.holds(r, 'written-stream', False, '%d streams are written instead of one' % len(ws))
    w = ws[0]
    if w.loops:
        return C.bad(r, 'written-stream', 'the stream is written inside a loop: later writes replace earlier ones',
                     line=w.line)
    exps = [x for x in expected(C, r)]
    C.same(r, 'every-file-and-event-written', content_of(w), [content_of(written(x)[0]) for x in exps],
           'stream of all cuts of all files', line=w.line)
    C.same(r, 'written-under-requested-name', w.args[1] if len(w.args) > 1 else w.kw.get('filename'), r.params['filename'],
           'name of the written file', line=w.line)
    fmt = w.kw.get('format', w.args[2] if len(w.args) > 2 else None)
    if isinstance(fmt, Kst) and fmt.v is not None and fmt is not NONE:
        C.bad(r, 'written-under-requested-name', 'the stream is always written as %s, whatever format the name of the file asks '
              'for' % fmt.v, line=w.line)
    if any(g is not TRUE for g in w.guards):
        C.unsure(r, 'written-always', 'the stream is written under a condition')


def _workers(C):
    for n in ('Get_Eqtimes_multiproc', 'ExtractEq_Multiproc'):
        r = C.entry(PAR + n)
        for e in r.ev('pool_map'):
            if e.name in ('imap_unordered',):
                C.good(r, 'all-results-collected', 'every result collected (order free)')
            else:
                C.good(r, 'all-results-collected', 'pool.%s returns every result' % e.name)
        v = r.value if n.startswith('Get') else (written(r)[0].args[0] if written(r) else None)
        if v is not None and not opaque_in(v):
            used = any(a.op == 'par' and a.args[0] == 'nproc' for a in atoms_in(v).values())
            C.holds(r, 'result-independent-of-process-count', not used, 'the extracted data do not depend on nproc')
