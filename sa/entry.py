"""Running an entry point under a configuration."""
import ast
from .terms import *
from .ops import *
from .heap import *
from .interp import Interp, Frame

SCHEMAS = {}


class Result:
    """What one abstract run of an entry point produced."""
    def __init__(self, I, fn, value):
        self.fn, self.value = fn, value
        self.events = list(I.events)
        self.notes = list(I.notes)
        self.loopinfos = list(I.loopinfos)
        self.assigns = list(I.assigns)
        self.pstores = list(I.pstores)
        self.I = I
        self.params = dict(I.params)

    def ev(self, *kinds):
        return [e for e in self.events if e.kind in kinds]


class Omit:
    """Stands for an argument the caller leaves out."""

    def __repr__(self):
        return 'omitted'


OMIT = Omit()


def sym(name, ty='num'):
    return mk('par', (name,), ty)


def mklist(I, items):
    return I.alloc(HList([('item', v) for v in items]))


def mkdict(I, base, types, consts=None):
    d = {k: sym(base + '.' + k, t) for k, t in types.items()}
    d.update(consts or {})
    return I.alloc(HDict(d))


def find(I, mod, fn):
    m = I.module('rfsed.' + mod)
    if m is None:
        return None
    o = m.env
    f = None
    for part in fn.split('.'):
        if isinstance(f, Cls):
            f = I.find_member(f, part)
        else:
            f = o.get(part)
    return f


def params_of(fn):
    a = fn.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def run(I, fn, types, consts=None, prelude=None):
    """types: {param: ty} ; consts: {param: python constant / Val}."""
    I.plain_copies = set()
    for _ in range(4):
        r = run_once(I, fn, types, consts, prelude)
        more = I.unchanged_copies()
        if not more:
            break
        I.plain_copies |= more
    return r


def tag_given(I, v, name):
    """Containers the caller hands in: a store into one is a side effect on an argument."""
    if isinstance(v, Tup):
        for x in v.items:
            tag_given(I, x, name)
    if not isinstance(v, Ref) or I.tags.get(v.id):
        return
    I.tags[v.id] = name
    o = I.heap.get(v.id)
    if isinstance(o, HDict):
        for k, x in o.d.items():
            tag_given(I, x, '%s[%r]' % (name, k))
    elif isinstance(o, HList):
        for s in o.segs:
            if s[0] == 'item':
                tag_given(I, s[1], name + '[]')


def run_once(I, fn, types, consts=None, prelude=None):
    I.reset()
    consts = consts or {}
    I.frames = [Frame(Fn(None, fn.module, '<driver>'), fn.module)]
    env = {}
    I.module(fn.module.name)
    defaults = I.fn_defaults(fn)
    a = fn.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    dm = dict(zip(pos[len(pos) - len(defaults[0]):], defaults[0]))
    dm.update({x.arg: d for x, d in zip(a.kwonlyargs, defaults[1]) if d is not None})
    for p in params_of(fn):
        if p in consts and consts[p] is OMIT:
            env[p] = dm[p] if p in dm else mk('required', (p,), 'unk', opaque=True)
        elif p in consts:
            v = consts[p]
            if callable(v):
                v = v(I)
            elif not isinstance(v, Val):
                v = NONE if v is None else (TRUE if v is True else FALSE if v is False else
                                            Kst(v) if isinstance(v, str) else num(v))
            env[p] = v
        elif p in types:
            env[p] = sym(p, types[p])
        elif p in dm:
            env[p] = dm[p]
        else:
            env[p] = sym(p, 'unk')
    if a.vararg:
        env[a.vararg.arg] = Tup([], 'tuple')
    if a.kwarg:
        env[a.kwarg.arg] = I.alloc(HDict({}))
    I.params = dict(env)
    given = {k: I.fz(v) if isinstance(v, Ref) else v for k, v in env.items()}
    for k, x in env.items():
        tag_given(I, x, k)
    v = I.run_fn(fn, env, fn.node, skip=1)
    val = I.fz(v)
    r = Result(I, fn, val)
    r.given = given
    return r
