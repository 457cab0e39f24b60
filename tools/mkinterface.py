"""Writes spec/interface.json: the documented call interface and, per mode, the arguments that act.

Run once on the reviewed tree; the checks only read the file."""
import json, os, sys, threading
sys.setrecursionlimit(60000)
threading.stack_size(512 * 1024 * 1024)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def main():
    from sa.core import Ctx
    from sa.entry import find
    from sa import rules_iface as ri, rules_sys as sy
    C = Ctx('P30', 'quick', os.environ.get('RFSED_SRC', '/repo/src/rfsed'))
    out, runs = {}, {}

    def sig(fn):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        return pos, pos[len(pos) - len(a.defaults):] if a.defaults else []
    for n, kw, r in sy.every_run(C):
        if not ri.public(n) or 'composed' in kw and kw['composed'] and n.split('.')[1].startswith('plot') and \
                n not in ('WaveformFittingMultiproc.plotbestmodel', 'WaveformFitting.PlotWaveformFitting'):
            continue
        pos, opt = sig(r.fn)
        s = out.setdefault(n, {'order': pos, 'optional': opt, 'acts': {}, 'modes': []})
        live, _ = ri.acting(r)
        s['acts'][ri.modekey(kw)] = sorted(live)
        ent = {p: k for p, k in ri.entries(r)[0].items() if p in ('g', 'Request_window')}
        if ent:
            s.setdefault('entries', {})[ri.modekey(kw)] = ent
        runs.setdefault(n, []).append((kw, r))
    for n, rs in runs.items():
        pos = out[n]['order']
        for p in sorted({k for kw, _ in rs for k in kw if k in pos}):
            pairs = [(a, b) for a, ra in rs for b, rb in rs if set(a) == set(b) and p in a and
                     all(a[q] == b[q] for q in a if q != p) and a[p] != b[p]]
            same = [(a, b) for a, b in pairs if ri.sight(dict((id(x), y) for x, y in rs)[id(a)]) == ri.sight(dict((id(x), y) for x, y in rs)[id(b)])]
            if pairs and not same:
                out[n]['modes'].append(p)
            elif same:
                print('mode without effect', n, p, same[:2])
    for m in ri.METHODS:
        pos, opt = sig(find(C.ws.I, 'synrf', m))
        out['synrf.' + m] = {'order': pos, 'optional': opt, 'acts': {}, 'modes': []}
    json.dump(out, open(os.path.join(V, 'spec', 'interface.json'), 'w'), indent=0, sort_keys=True)
    for n in sorted(out):
        o = out[n]
        al = set().union(*[set(x) for x in o['acts'].values()] or [set()])
        print(n, '| modes', o['modes'], '| never', [p for p in o['order'] if p not in al and p not in o['modes']])


t = threading.Thread(target=main); t.start(); t.join()
