"""Meaning of the outside functions the analysed code uses.

Functions are either interpreted (normalised to the operators of ops.py), kept
as named uninterpreted functions (same arguments, same result), or unknown -
and unknown results are marked so that nothing is concluded from them.
"""
import ast
from .terms import *
from .terms import _ATOMS
from .ops import *
from .heap import *

UNROLL = 24
MISSING = object()
UFUNC2 = ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'maximum', 'minimum', 'mod', 'fmod', 'floor_divide')
UFUNC1 = ('abs', 'absolute', 'negative', 'sqrt', 'exp', 'sin', 'cos', 'sign', 'floor', 'ceil', 'square', 'conj', 'conjugate',
          'log', 'real', 'rint', 'trunc')


def g(args, kw, i, name, default=MISSING):
    if i is not None and i < len(args):
        return args[i]
    if name in kw:
        return kw[name]
    return default


NUMPY_ALIAS = {
    'scipy.fft.fft': 'numpy.fft.fft', 'scipy.fftpack.fft': 'numpy.fft.fft',
    'scipy.fft.ifft': 'numpy.fft.ifft', 'scipy.fftpack.ifft': 'numpy.fft.ifft',
    'scipy.signal.correlate': 'numpy.correlate',
    'obspy.core.stream.read': 'obspy.read', 'obspy.core.read': 'obspy.read',
    'obspy.core.event.catalog.read_events': 'obspy.read_events',
    'obspy.core.event.read_events': 'obspy.read_events',
    'obspy.core.stream.Stream': 'obspy.Stream', 'obspy.core.Stream': 'obspy.Stream',
    'obspy.core.trace.Trace': 'obspy.Trace', 'obspy.core.Trace': 'obspy.Trace',
    'obspy.core.utcdatetime.UTCDateTime': 'obspy.UTCDateTime', 'obspy.core.UTCDateTime': 'obspy.UTCDateTime',
    'obspy.geodetics.base.kilometer2degrees': 'obspy.geodetics.kilometer2degrees',
    'obspy.geodetics.base.kilometers2degrees': 'obspy.geodetics.kilometer2degrees',
    'obspy.geodetics.kilometers2degrees': 'obspy.geodetics.kilometer2degrees',
    'obspy.geodetics.base.degrees2kilometers': 'obspy.geodetics.degrees2kilometers',
    'obspy.geodetics.base.locations2degrees': 'obspy.geodetics.locations2degrees',
    'obspy.geodetics.base.gps2dist_azimuth': 'obspy.geodetics.gps2dist_azimuth',
    'obspy.taup.tau.TauPyModel': 'obspy.taup.TauPyModel',
    'rf.rfstream.read_rf': 'rf.read_rf', 'rf.rfstream.RFStream': 'rf.RFStream',
    'numpy.absolute': 'numpy.abs', 'numpy.fabs': 'numpy.abs', 'builtins.abs': 'numpy.abs',
    'math.log2': 'numpy.log2', 'math.log10': 'numpy.log10',
    'math.fabs': 'numpy.abs', 'math.sqrt': 'numpy.sqrt', 'math.exp': 'numpy.exp', 'math.cos': 'numpy.cos',
    'math.sin': 'numpy.sin', 'math.log': 'numpy.log', 'math.floor': 'numpy.floor', 'math.ceil': 'numpy.ceil',
    'math.pow': 'numpy.power', 'cmath.exp': 'numpy.exp', 'cmath.sqrt': 'numpy.sqrt',
    'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.asfarray': 'numpy.asarray',
    'numpy.asanyarray': 'numpy.asarray', 'numpy.ascontiguousarray': 'numpy.asarray',
    'numpy.conjugate': 'numpy.conj', 'numpy.flipud': 'numpy.flip', 'numpy.row_stack': 'numpy.vstack',
    'numpy.matmul': 'numpy.dot@', 'numpy.float64': 'builtins.float', 'numpy.single': 'numpy.float32', 'numpy.half': 'numpy.float16',
    'numpy.int64': 'builtins.int', 'numpy.int32': 'builtins.int', 'numpy.int': 'builtins.int',
    'numpy.float': 'builtins.float', 'numpy.double': 'builtins.float', 'math.isnan': 'numpy.isnan',
    'math.fsum': 'builtins.sum', 'numpy.round_': 'numpy.round', 'numpy.around': 'numpy.round',
    'os.mkdir': 'os.makedirs', 'numpy.nonzero': 'numpy.where',
    'multiprocessing.pool.Pool': 'multiprocessing.Pool', 'numpy.true_divide': 'numpy.divide',
    'operator.add': 'numpy.add', 'operator.mul': 'numpy.multiply', 'operator.sub': 'numpy.subtract',
}

PURE = set('''numpy.interp numpy.unwrap numpy.angle numpy.std numpy.var numpy.median numpy.sort numpy.argsort
 numpy.cumsum numpy.cumprod numpy.diff numpy.gradient numpy.unique numpy.sign numpy.log numpy.log10 numpy.log2
 numpy.tan numpy.arctan numpy.arctan2 numpy.arcsin numpy.arccos numpy.sinh numpy.cosh numpy.tanh numpy.hypot
 numpy.deg2rad numpy.rad2deg numpy.radians numpy.degrees numpy.ceil numpy.convolve
 numpy.isclose numpy.allclose numpy.searchsorted numpy.histogram numpy.percentile numpy.quantile
 numpy.ptp numpy.hanning numpy.hamming numpy.fft.rfft numpy.fft.irfft numpy.fft.fftfreq numpy.fft.rfftfreq
 numpy.fft.fftshift numpy.polyfit numpy.roll numpy.trapz numpy.nanmax numpy.nanmin
 numpy.nanargmax numpy.nanargmin numpy.nanmean numpy.linalg.norm numpy.linalg.inv numpy.linalg.solve
 numpy.isfinite numpy.isinf numpy.iscomplexobj numpy.isscalar numpy.tile numpy.repeat
 scipy.signal.butter scipy.signal.filtfilt scipy.signal.lfilter scipy.signal.hilbert scipy.signal.find_peaks_cwt
 scipy.signal.resample scipy.interpolate.interp1d
 obspy.geodetics.locations2degrees obspy.signal.util.next_pow_2
 os.path.exists os.path.isdir os.path.isfile os.path.basename os.path.dirname os.path.abspath os.path.splitext
 os.path.realpath os.path.expanduser os.path.normpath os.path.relpath os.getcwd os.listdir glob.glob sorted
 math.tan math.atan math.atan2 math.asin math.acos math.log10 math.log2 math.isclose math.radians math.degrees
 pkg_resources.resource_filename importlib.resources.files'''.split())

# functions a different formulation of the same value may well use: a value
# containing one of them is not judged (only random interpretation looks inside)
REWRITABLE = set('''numpy.sort numpy.argsort numpy.cumsum numpy.cumprod numpy.diff numpy.unique numpy.isclose numpy.allclose
 numpy.searchsorted numpy.fft.rfft numpy.fft.irfft numpy.fft.fftshift numpy.roll numpy.trapz numpy.nanmax numpy.nanmin
 numpy.nanargmax numpy.nanargmin numpy.nanmean numpy.linalg.norm numpy.linalg.inv numpy.linalg.solve numpy.tile numpy.repeat
 numpy.gradient numpy.arctan numpy.arctan2 numpy.arcsin numpy.arccos numpy.sinh numpy.cosh numpy.tanh numpy.log numpy.log10
 numpy.log2 numpy.sign numpy.histogram sorted os.path.splitext os.path.basename os.path.normpath os.path.dirname'''.split())

INPLACE = ('numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.copyto', 'numpy.fill_diagonal', 'numpy.put_along_axis',
           'numpy.random.shuffle', 'random.shuffle')
RANDOM = ('numpy.random', 'random.', 'time.time', 'time.perf', 'time.mono', 'time.process', 'time.clock', 'time.ctime', 'time.local',
          'time.gmtime', 'time.strftime', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today',
          'datetime.date.today', 'datetime.now', 'uuid.', 'secrets.', 'os.urandom', 'scipy.stats.norm.rvs', 'obspy.UTCDateTime.now',
          'obspy.UTCDateTime.utcnow')
WRITERS = set('''numpy.save numpy.savetxt numpy.savez pickle.dump json.dump shutil.copy shutil.copytree shutil.copyfile
 shutil.rmtree shutil.move os.remove os.rename os.rmdir os.unlink os.makedirs distutils.dir_util.copy_tree os.system
 shutil.copy2 os.replace os.symlink os.link os.chmod os.chown os.truncate os.removedirs os.renames os.popen os.kill os.utime
 os.startfile os.mkfifo os.write os.abort os._exit numpy.savez_compressed numpy.memmap h5py.File pickle.Pickler
 shutil.make_archive shutil.unpack_archive shutil.chown shutil.copymode shutil.copystat distutils.dir_util.remove_tree
 distutils.dir_util.mkpath distutils.file_util.copy_file distutils.file_util.move_file matplotlib.pyplot.imsave
 matplotlib.image.imsave'''.split())
WRITE_PREFIX = ('subprocess.', 'tempfile.', 'os.exec', 'os.spawn', 'os.posix_spawn', 'sqlite3.', 'logging.FileHandler')
WRITE_METHODS = ('tofile', 'to_csv', 'to_hdf', 'to_pickle', 'to_json', 'imsave', 'unlink', 'rename', 'replace_file', 'rmdir', 'write_text',
                 'write_bytes', 'touch', 'symlink_to', 'hardlink_to')

DATA_WRITERS = ('tofile', 'dump', 'to_csv', 'to_hdf', 'to_pickle', 'to_json', 'savetxt')     # methods of arrays and tables that write a file

PREFERRED = {'preferred_origin': 'Origin', 'preferred_magnitude': 'Magnitude', 'preferred_focal_mechanism': 'unk'}

EXCEPTIONS = ('Exception', 'Error', 'Warning', 'Interrupt', 'Exit')


class LibMixin:

    # ------------------------------------------------------------ helpers
    def asval(self, v):
        """Freeze and turn concrete sequences into Tup values."""
        return self.fz(v)

    def map1(self, f, v):
        v = self.asval(v)
        if isinstance(v, Tup):
            return Tup([self.map1(f, x) for x in v.items], 'array')
        v = self.tonum(v)
        r = f(v)
        return N(r.t) if isinstance(r, N) else r

    def lib_atom(self, name, args, kw, ty='unk', opaque=False):
        a = [self.fz(x) for x in args]
        k = Dct({n: self.fz(x) for n, x in kw.items()})
        return mk('lib', (name,) + tuple(a) + ((k,) if k.d else ()), ty, opaque=opaque)

    def vec(self, v):
        """A sequence as a 1-D value (Tup or N)."""
        v = self.asval(v)
        return v

    # ------------------------------------------------------------ dispatch
    def in_place(self, name, args, kw, node):
        """Library functions that write into their first argument."""
        args = list(args)
        for k in ('a', 'arr', 'dst', 'x', 'ind', 'mask', 'src', 'vals', 'values', 'v', 'where'):
            if k in kw and len(args) < 3 + (k == 'where'):
                args.append(kw[k])
        if name.endswith('random.shuffle') or name == 'random.shuffle':
            self.event('impure', name, args, kw, node)
        if not args:
            return self.opaque(name, node)
        x = args[0]
        self.note_mut(x, name, node)
        if name in ('numpy.place', 'numpy.putmask') and len(args) == 3 and isinstance(self.fz(args[2]), N) and self.fz(args[2]).ty not in ARR:
            self.store_index(x, [self.fz(args[1])], args[2], node)
        elif name == 'numpy.copyto' and len(args) == 2:
            self.store_index(x, [FULL], args[1], node)
        else:
            self.store_index(x, [FULL], self.opaque('written by %s' % name, node, 'arr'), node)
        return NONE

    def call_lib(self, name, args, kw, node=None):
        own = name.startswith('numpy.')
        if name == 'math.log' and len(args) == 2:
            return div(self.call_lib(name, args[:1], kw, node), self.call_lib(name, args[1:], kw, node))
        name = NUMPY_ALIAS.get(name, name)
        if own and name not in ('numpy.clip', 'numpy.correlate'):
            # out=: the result is written into an existing array
            base = name[6:]
            out = kw.get('out')
            if out is None and (base in UFUNC2 and len(args) == 3 or base in UFUNC1 and len(args) == 2):
                out, args = args[-1], args[:-1]
            if out is not None:
                kw = {k: v for k, v in kw.items() if k != 'out'}
                r = self.call_lib(name, args, kw, node)
                if out is NONE:
                    return r
                self.note_mut(out, name, node)
                self.store_index(out, [FULL], r, node)
                return out
        if name in INPLACE or name.startswith('numpy.') and name.endswith('.at') and len(args) > 1:
            return self.in_place(name, args, kw, node)
        if name.startswith('numpy.ndarray.') and name.count('.') == 2 and args:
            return self.array_method(args[0], name.split('.')[2], list(args[1:]), kw, node)
        if name == 'numpy.nan_to_num' and args and 'copy' in kw and truth(kw['copy']) is FALSE:
            r = self.call_lib(name, args, {k: v for k, v in kw.items() if k != 'copy'}, node)
            self.note_mut(args[0], name, node)
            self.store_index(args[0], [FULL], r, node)
            return args[0]
        f = LIB.get(name)
        if f is not None:
            return f(self, args, kw, node)
        if name in WRITERS or name.startswith(WRITE_PREFIX):
            self.event('write', name, args, kw, node)
            return self.lib_atom(name, args, kw)
        if name.startswith('matplotlib.') or name.startswith('seaborn') or name.startswith('mpl_toolkits'):
            return self.draw(name, None, args, kw, node)
        if any(name.startswith(p) for p in RANDOM):
            self.event('impure', name, args, kw, node)
            return self.opaque('impure %s' % name, node)
        if name in WRITERS:
            self.event('write', name, args, kw, node)
            return self.lib_atom(name, args, kw)
        if name.startswith('builtins.') and name.endswith(EXCEPTIONS):
            return mk('inst', (name,), 'exc')
        if name in PURE:
            fa = [self.fz(x) for x in args]
            ty = 'num'
            if any(isinstance(x, N) and x.ty in ARR or isinstance(x, Tup) for x in fa) and name.startswith(('numpy', 'scipy')):
                ty = 'arr'
            if name in ('numpy.std', 'numpy.var', 'numpy.median', 'numpy.ptp', 'numpy.trapz'):
                ty = 'num'
            if name in ('numpy.searchsorted', 'numpy.digitize') and len(fa) > 1:
                k = 1 if name.endswith('sorted') else 0
                ty = 'arr' if isinstance(fa[k], Tup) or isinstance(fa[k], N) and fa[k].ty in ARR else 'num'
            if name.startswith('os.path') or name.startswith('pkg_res') or name == 'os.getcwd':
                ty = 'str'
            if name == 'glob.glob' or name == 'os.listdir':
                ty = 'files'
            if name.startswith('glob') or name == 'os.listdir' or name.startswith('os.path.ex') or name.startswith('os.path.is'):
                self.event('fsread', name, args, kw, node)
            return self.lib_atom(name.replace('math.', 'numpy.'), args, kw, ty, name.replace('math.', 'numpy.') in REWRITABLE)
        self.event('unknowncall', name, args, kw, node)
        # an unknown callee may change mutable arguments
        for a in args:
            self.note_unknown(a, name, node)
        return self.opaque('call of %s' % name, node)

    def note_unknown(self, a, name, node):
        pass

    def draw(self, name, obj, args, kw, node):
        short = name.split('.')[-1]
        e = None
        if short == 'savefig':
            self.event('savefig', short, args, kw, node, extra=obj)
        elif short in ('close',):
            self.event('close', short, args, kw, node)
        elif short in ('figure', 'subplots'):
            self.event('figure', short, args, kw, node)
        else:
            self.event('draw', short, args, kw, node, extra=obj)
        self.figseq = getattr(self, 'figseq', 0) + 1
        at = mk('mpl', (short, self.figseq), 'mpl')
        if short == 'plot':
            return Tup([at], 'list')
        if short == 'subplots':
            return Tup([mk('mpl', ('figure', self.figseq), 'mpl'), mk('mpl', ('axes', self.figseq), 'mpl')], 'tuple')
        return at

    # ------------------------------------------------------------ methods
    def call_method(self, obj, name, args, kw, node=None):
        if isinstance(obj, Mod):
            return self.call_lib(obj.name + '.' + name, args, kw, node)
        if name in DATA_WRITERS and self.is_data(obj):
            self.event('write', name, [obj] + list(args), kw, node)
        if isinstance(obj, Ref):
            o = self.heap.get(obj.id)
            if isinstance(o, HList):
                return self.list_method(obj, o, name, args, kw, node)
            if isinstance(o, HDict):
                return self.dict_method(obj, o, name, args, kw, node)
            if isinstance(o, HArr):
                return self.array_method(obj, name, args, kw, node)
            if isinstance(o, HInst):
                return self.inst_method(obj, o, name, args, kw, node)
        if isinstance(obj, View) or isinstance(obj, Tup):
            return self.array_method(obj, name, args, kw, node)
        if isinstance(obj, Dct):
            return self.dict_method(self.alloc(HDict(obj.d)), HDict(obj.d), name, args, kw, node)
        if obj.ty in ('str', 'path') or isinstance(obj, (Kst, StrV)):
            return self.str_method(obj, name, args, kw, node)
        if isinstance(obj, It):
            return self.opaque('iterator method %s' % name, node)
        if isinstance(obj, Cls):
            m = self.find_member(obj, name)
            if isinstance(m, Fn):
                return self.call_fn(m, args, kw, node)
            return self.opaque('class attribute call', node)
        if isinstance(obj, N):
            return self.atom_method(obj, name, args, kw, node)
        if isinstance(obj, Fn):
            return self.opaque('function attribute', node)
        return self.opaque('method %s of %s' % (name, show(obj)[:30]), node)

    def is_data(self, obj):
        if isinstance(obj, Ref):
            return isinstance(self.heap.get(obj.id), HArr)
        return isinstance(obj, (View, Tup)) or isinstance(obj, N) and (obj.ty in ARR or as_atom(obj) is None)

    # ---- lists and streams
    def list_method(self, ref, o, name, args, kw, node):
        if name == 'append':
            self.note_mut(ref, 'append', node)
            self.heap[ref.id] = HList(o.segs + (('item', args[0]),), o.kind)
            return NONE
        if name == 'extend':
            self.extend_list(ref, args[0], node)
            return ref if o.kind == 'Stream' else NONE
        if name == 'add' and o.kind == 'set':
            self.heap[ref.id] = HList(o.segs + (('item', args[0]),), o.kind)
            return NONE
        if name == 'insert' and len(args) == 2 and intconst(args[0]) == 0:
            self.note_mut(ref, 'insert', node)
            self.heap[ref.id] = HList((('item', args[1]),) + o.segs, o.kind)
            return NONE
        if name == 'copy':
            if o.kind == 'Stream':
                return self.alloc(HList([('splat', self.copied(self.fz(ref), 'Stream'))], 'Stream'))
            return self.alloc(HList(o.segs, o.kind))
        if name == 'clear':
            self.note_mut(ref, 'clear', node)
            self.heap[ref.id] = HList((), o.kind)
            return NONE
        if name == 'pop' and o.segs:
            self.note_mut(ref, 'pop', node)
            k = intconst(args[0]) if args else -1
            if k == -1 and o.segs[-1][0] == 'item':
                self.heap[ref.id] = HList(o.segs[:-1], o.kind)
                return o.segs[-1][1]
            if k == 0 and o.segs[0][0] == 'item':
                self.heap[ref.id] = HList(o.segs[1:], o.kind)
                return o.segs[0][1]
        if name == 'reverse' and all(s[0] == 'item' for s in o.segs):
            self.note_mut(ref, 'reverse', node)
            self.heap[ref.id] = HList(o.segs[::-1], o.kind)
            return NONE
        if name == 'write':
            self.event('write', 'stream.write', [ref] + list(args), kw, node)
            return NONE
        if name in ('index', 'count'):
            return self.lib_atom('list.' + name, [ref] + list(args), kw, 'num')
        if name == '__iter__':
            return ref
        if o.kind == 'Stream':
            fv = self.fz(ref)
            return self.stream_method(fv if isinstance(fv, N) else mk('streamof', (fv,), 'Stream'), name, args, kw, node, ref)
        self.note_mut(ref, name, node)
        self.heap[ref.id] = HList([('splat', self.opaque('list.%s' % name, node))], o.kind)
        return self.opaque('list.%s' % name, node)

    def dict_method(self, ref, o, name, args, kw, node):
        if name == 'get':
            k = self.dkey(self.rv(args[0]))
            if k is not None and k in o.d:
                return o.d[k]
            if k is not None and not o.unknown:
                return args[1] if len(args) > 1 else NONE
            return self.opaque('dict.get', node)
        if name == 'copy':
            return self.alloc(HDict(o.d, o.unknown))
        if not o.unknown:
            ks = [Kst(k) if not isinstance(k, tuple) else num(k[1]) for k in o.d]
            if name == 'keys':
                return self.alloc(HList([('item', k) for k in ks]))
            if name == 'values':
                return self.alloc(HList([('item', v) for v in o.d.values()]))
            if name == 'items':
                return self.alloc(HList([('item', Tup([k, v])) for k, v in zip(ks, o.d.values())]))
        if name == 'update':
            self.note_mut(ref, 'update', node)
            d, unk = dict(o.d), o.unknown
            if args:
                a = args[0]
                if isinstance(a, Ref) and isinstance(self.heap.get(a.id), HDict):
                    d.update(self.heap[a.id].d)
                    unk |= self.heap[a.id].unknown
                elif isinstance(a, Dct):
                    d.update(a.d)
                else:
                    unk = True
            d.update(kw)
            self.heap[ref.id] = HDict(d, unk)
            return NONE
        if name == 'setdefault':
            k = self.dkey(self.rv(args[0]))
            if k is not None and not o.unknown:
                if k in o.d:
                    return o.d[k]
                v = args[1] if len(args) > 1 else NONE
                self.note_mut(ref, 'setdefault', node)
                d = dict(o.d)
                d[k] = v
                self.heap[ref.id] = HDict(d)
                return v
            if k is None and self.memo_open(o):
                m = self.memo_load(ref, o, args[0])
                if m is None:
                    self.note_mut(ref, 'setdefault', node)
                    self.memo_store(ref, o, args[0], args[1] if len(args) > 1 else NONE)
                    m = self.memo_load(ref, self.heap[ref.id], args[0])
                return m
        if name == 'pop':
            k = self.dkey(self.rv(args[0]))
            self.note_mut(ref, 'pop', node)
            d = dict(o.d)
            if k is not None and k in d and not o.unknown:
                v = d.pop(k)
                self.heap[ref.id] = HDict(d)
                return v
            if k is not None and not o.unknown and len(args) > 1:
                return args[1]
        self.heap[ref.id] = HDict(o.d, True)
        return self.opaque('dict.%s' % name, node)

    def str_method(self, obj, name, args, kw, node):
        if name == 'format':
            return self.str_format(obj, args, kw, node)
        if name == 'join' and args:
            items = self.concrete(args[0])
            if items is not None:
                parts = []
                for i, x in enumerate(items):
                    if i:
                        parts += strparts(self.fz(obj))
                    parts += strparts(self.fz(x))
                return mkstr(parts)
            return self.lib_atom('str.join', [obj] + list(args), kw, 'str')
        if isinstance(obj, Kst) and isinstance(obj.v, str) and all(isinstance(a, Kst) for a in args) and \
                name in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'replace', 'startswith', 'endswith', 'title',
                         'capitalize'):
            r = getattr(obj.v, name)(*[a.v for a in args])
            if isinstance(r, bool):
                return TRUE if r else FALSE
            return Kst(r)
        if name in ('mkdir', 'touch', 'write_text', 'write_bytes', 'unlink', 'rmdir'):
            self.event('write', 'path.' + name, [obj] + list(args), kw, node)
            return NONE
        if name in ('exists', 'is_dir', 'is_file'):
            return mk('lib', ('os.path.exists', self.fz(obj)), 'num')
        if name in ('joinpath',):
            return self.path_join([obj] + list(args))
        ty = 'bool' if name in ('startswith', 'endswith', 'isdigit') else 'str'
        if name == 'split':
            ty = 'list'
        return self.lib_atom('str.' + name, [obj] + list(args), kw, ty)

    def str_format(self, obj, args, kw, node):
        import string
        if not (isinstance(obj, Kst) and isinstance(obj.v, str)):
            return self.opaque('dynamic format', node, 'str')
        parts = []
        k = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(obj.v):
                if lit:
                    parts.append(lit)
                if field is None:
                    continue
                if field == '':
                    src = args[k]
                    k += 1
                elif field.isdigit():
                    src = args[int(field)]
                elif field in kw:
                    src = kw[field]
                else:
                    return self.opaque('format field', node, 'str')
                parts.append((spec or '', self.fz(src)))
        except (IndexError, ValueError):
            self.event('formaterror', obj.v, node=node)
            return self.opaque('format', node, 'str')
        return mkstr(parts)

    # ---- arrays
    def array_method(self, obj, name, args, kw, node):
        if name in ('mean', 'max', 'min', 'sum', 'argmax', 'argmin', 'clip', 'dot', 'round', 'std', 'var', 'any',
                    'all', 'ravel', 'flatten', 'reshape', 'conj', 'conjugate', 'repeat', 'cumsum', 'argsort',
                    'nonzero', 'transpose', 'squeeze', 'searchsorted', 'ptp'):
            r = self.call_lib('numpy.' + {'flatten': 'ravel'}.get(name, name), [obj] + list(args), kw, node)
            return self.fresh_array(r) if name == 'flatten' and isinstance(r, (N, Ref, View)) else r
        if name == 'view' and not kw and (not args or isinstance(args[0], Mod) and args[0].name == 'numpy.ndarray'):
            return obj
        if name == 'copy':
            return self.fresh_array(obj)
        if name == 'astype':
            a = args[0] if args else None
            nm = a.name if isinstance(a, Mod) else a.v if isinstance(a, Kst) else ''
            dt = dtype_kind(nm)
            keep = truth(kw['copy']) is FALSE if 'copy' in kw else False
            if keep and (dt is None or dt == 'float'):
                return obj
            if dt:
                return self.map1(lambda x: cast_to(dt, x), obj)
            return self.fresh_array(obj)
        if name == 'tolist':
            v = self.fz(obj)
            if isinstance(v, Tup):
                return self.alloc(HList([('item', x) for x in v.items]))
            return self.alloc(HList([('splat', v)]))
        if name == 'item':
            return self.load_index(obj, [args[0]], node) if args else self.fz(obj)
        if name == 'fill':
            self.note_mut(obj, 'fill', node)
            self.store_index(obj, [FULL], args[0], node)
            return NONE
        if name == 'sort':
            self.note_mut(obj, 'sort', node)
            self.store_index(obj, [FULL], self.opaque('sorted in place', node, 'arr'), node)
            return NONE
        if name in ('append', 'extend') and isinstance(obj, Tup):
            return self.opaque('append to tuple', node)
        if name in ('index', 'count') and isinstance(obj, Tup):
            return self.lib_atom('list.' + name, [obj] + list(args), kw, 'num')
        if isinstance(obj, Tup) and name == '__len__':
            return num(len(obj.items))
        if name in ('put', 'partition', 'resize', 'itemset', 'setfield', '__setitem__', '__iadd__', '__isub__', '__imul__',
                    '__itruediv__') or name == 'byteswap' and args:
            self.note_mut(obj, name, node)
            if name == '__setitem__' and len(args) == 2:
                self.store_index(obj, [args[0]], args[1], node)
                return NONE
            v = self.opaque('written by %s' % name, node, 'arr')
            self.store_index(obj, [FULL], v, node)
            return obj if name.startswith('__i') else NONE
        self.event('unknownmethod', 'array.' + name, [obj] + list(args), kw, node)
        return self.opaque('array method %s' % name, node)

    def fresh_array(self, v):
        fv = self.fz(v)
        if isinstance(fv, Tup):
            return Tup(list(fv.items), 'array')
        if isinstance(fv, N):
            if fv.ty == 'arr':
                return self.alloc(HArr((f_len(fv),), fv))
            if isinstance(v, Ref) and isinstance(self.heap.get(v.id), HArr):
                o = self.heap[v.id]
                return self.alloc(HArr(o.shape, o.base, o.stores, o.bad, o.dtype))
            a = as_atom(fv)
            if fv.ty in ('num', 'time'):
                return fv
            if a is not None and a.op == 'table':
                return self.alloc(HArr((f_len(a.args[0]), num(len(a.args))), fv))
            if a is not None and root_of(fv) is not None:
                if fv.ty == 'arr2':
                    return self.alloc(HArr(None, fv))
                return self.copied(fv, fv.ty)
            return N(fv.t)
        return fv

    # ---- instances
    def inst_method(self, ref, o, name, args, kw, node):
        if isinstance(o.cls, Cls):
            m = self.find_member(o.cls, name)
            if isinstance(m, Fn):
                return self.call_fn(Fn(m.node, m.module, m.qual, m.closure, None, ref), args, kw, node)
            if o.cls.bases and name not in ('__init__',):
                # inherited from an outside class
                self.event('draw' if 'matplotlib' in str(o.cls.bases) else 'extmethod', name, [ref] + list(args), kw, node)
                return self.opaque('inherited method %s' % name, node)
            return self.opaque('missing method %s' % name, node)
        if o.cls == 'Stats' and name == '__getstate__' and not o.hist:
            return self.alloc(HDict({k: self.fz(v) for k, v in o.fields.items()}, False))
        cls = self.class_of(o.cls)
        bound = {}
        if cls is not None:
            m = self.find_member(cls, name)
            if isinstance(m, Fn):
                env = self.bind(Fn(m.node, m.module, m.qual, m.closure, None, NONE), args, kw, node)
                ps = m.node.args.posonlyargs + m.node.args.args
                if ps:
                    env.pop(ps[0].arg, None)
                bound = {k: self.fz(v) for k, v in env.items()}
            else:
                bound = {str(i): self.fz(a) for i, a in enumerate(args)}
                bound.update({k: self.fz(v) for k, v in kw.items()})
        else:
            bound = {str(i): self.fz(a) for i, a in enumerate(args)}
            bound.update({k: self.fz(v) for k, v in kw.items()})
        self.note_mut(ref, name, node)
        self.heap[ref.id] = HInst(o.cls, o.fields, o.hist + ((name, (), bound),))
        self.event('instcall', '%s.%s' % (o.cls, name), [ref], bound, node)
        return mk('mret', (self.fz(ref), name), 'unk')

    def class_of(self, qual):
        if isinstance(qual, Cls):
            return qual
        m, _, c = str(qual).rpartition('.')
        mm = self.module(m) if m in self.modules else None
        if mm is not None and isinstance(mm.env.get(c), Cls):
            return mm.env[c]
        return None

    # ---- outside atoms
    STREAMS = ('Stream', 'RFStream', 'Trace', 'RFTrace')
    INPLACE = set('''filter trim detrend normalize taper decimate resample rotate sort interpolate integrate
      differentiate deconvolve rf moveout attach_response remove_response remove_sensitivity merge simulate
      clear reverse pop remove insert append extend ppoint'''.split())

    def atom_method(self, obj, name, args, kw, node):
        a = as_atom(obj)
        ty = obj.ty
        if name == 'bit_length' and isinstance(obj, N):
            return mk('bitlen', (obj,), 'num')
        if ty in ARR or (a is None):
            return self.array_method(obj, name, args, kw, node)
        if a is not None and a.op == 'ite' and ty not in ('pool', 'mpl'):
            x, y = a.args[1], a.args[2]
            if x in (NONE, UNBOUND):
                return self.call_method(y, name, args, kw, node)
            if y in (NONE, UNBOUND):
                return self.call_method(x, name, args, kw, node)
        if ty == 'mpl':
            return self.draw(name, obj, args, kw, node)
        if ty == 'pool':
            return self.pool_method(obj, name, args, kw, node)
        if ty in self.STREAMS:
            return self.stream_method(obj, name, args, kw, node)
        if ty == 'TauP':
            return self.taup_method(obj, name, args, kw, node)
        if ty == 'async':
            if name == 'get':
                return a.args[0]
            return NONE
        if ty == 'file':
            if name in ('write', 'writelines'):
                self.event('write', 'file.write', [obj] + list(args), kw, node)
            elif name == 'close':
                self.event('fileclose', '', [obj], node=node)
            return self.lib_atom('file.' + name, [obj] + list(args), kw, 'str')
        if ty == 'mpctx':
            return self.call_lib('multiprocessing.' + name, args, kw, node)
        if ty == 'executor':
            return self.pool_method(obj, name, args, kw, node)
        if ty == 'logger':
            return NONE
        if ty == 'super' and name == '__init__':
            cls = self.class_of(a.args[0].rpartition('.')[0])
            base = next((b for b in cls.bases if isinstance(b, (Mod, Cls))), None) if cls is not None else None
            if isinstance(base, Mod) and base.name in ('obspy.Trace', 'obspy.core.Trace', 'obspy.core.trace.Trace'):
                from .libtab import trace_fields, g
                o = self.heap.get(a.args[2])
                if isinstance(o, HInst):
                    self.heap[a.args[2]] = HInst(o.cls, {**o.fields, **trace_fields(
                        self, g(args, kw, 0, 'data', NONE), g(args, kw, 1, 'header', NONE))}, o.hist)
                    return NONE
            if isinstance(base, Cls) and a.args[2] in self.heap:
                m = self.find_member(base, '__init__')
                if isinstance(m, Fn):
                    return self.call_fn(Fn(m.node, m.module, m.qual, m.closure, None, Ref(a.args[2])), args, kw, node)
        if name == '__getstate__' and a is not None and a.op == 'inst' and a.args[0] == 'Stats' and isinstance(a.args[-1], Dct) and len(a.args) == 2:
            return self.alloc(HDict(dict(a.args[-1].d), False))
        if ty == 'Stats' and name in ('__getstate__', 'copy'):
            return self.alloc(HDict({'**': obj}, False)) if name == '__getstate__' else self.copied(obj, ty)
        if name in ('copy',):
            if a.op == 'table':
                return self.fresh_array(obj)
            return self.copied(obj, ty)
        if ty in ('Catalog', 'list', 'files', 'windows', 'numlist', 'params', 'winlist', 'rows') and name in (
                'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear'):
            self.note_mut(obj, name, node)
            return self.opaque('in-place %s on %s' % (name, path_str(obj)), node)
        if ty == 'Event' and name in PREFERRED:
            return mk('ite', (mk('lib', ('event.has_' + name, obj), 'bool'), mk('lib', ('event.' + name, obj), PREFERRED[name]), NONE))
        if ty in ('Catalog', 'Event') and name == 'write':
            self.event('write', 'catalog.write', [obj] + list(args), kw, node)
            return NONE
        if ty == 'dict' or ty in getattr(self, 'schemas', {}):
            if name == 'get':
                k = self.fz(args[0])
                if isinstance(k, Kst):
                    return self.get_item(obj, k.v)
            if name == 'copy':
                return self.copied(obj, ty)
            if name in ('update', 'pop', 'setdefault', 'clear', 'popitem'):
                self.note_mut(obj, name, node)
            sch = getattr(self, 'schemas', {}).get(ty)
            if name in ('keys', 'values', 'items') and sch:
                ks = [k for k in sch if not k.startswith('*')]
                if name == 'keys':
                    return self.alloc(HList([('item', Kst(k)) for k in ks]))
                vs = [self.get_item(obj, k) for k in ks]
                if name == 'values':
                    return self.alloc(HList([('item', v) for v in vs]))
                return self.alloc(HList([('item', Tup([Kst(k), v])) for k, v in zip(ks, vs)]))
        if a.op == 'lib' and a.args[0] == 'rf.fdsn':
            return self.lib_atom('client.' + name, args, kw)
        if root_of(obj) is not None and ty == 'unk':
            if name in ('mean', 'max', 'min', 'sum', 'argmax', 'argmin', 'copy', 'astype', 'tolist'):
                return self.array_method(obj, name, args, kw, node)
            self.event('write' if name in WRITE_METHODS else 'unknownmethod', name, [obj] + list(args), kw, node)
            return self.opaque('method %s of %s' % (name, path_str(obj)), node)
        return self.opaque('method %s' % name, node)

    def stream_method(self, obj, name, args, kw, node, ref=None):
        ty = obj.ty
        if name == 'copy':
            return self.copied(obj, ty)
        if name == 'stack':
            return mk('rfstack', (obj,), 'RFStream')
        if name == 'select':
            k = {n: self.fz(v) for n, v in kw.items()}
            if args:
                k.update(dict(zip(('network', 'station', 'location', 'channel'), [self.fz(x) for x in args])))
            return mk('select', (obj, Dct(k)), ty)
        if name == 'slice':
            k = {n: self.fz(v) for n, v in kw.items()}
            k.update(dict(zip(('starttime', 'endtime'), [self.fz(x) for x in args])))
            return mk('select', (obj, Dct(k)), ty)
        if name == 'write':
            self.event('write', 'stream.write', [obj] + list(args), kw, node)
            return NONE
        if name in ('max', 'min', 'std', 'times', '__len__', 'get_id', 'plot_rf', 'plot'):
            if name.startswith('plot'):
                self.event('draw', name, [obj] + list(args), kw, node)
            return mk('lib', ('stream.' + name, obj) + tuple(self.fz(x) for x in args), 'arr' if name == 'times' else 'num')
        if name in self.INPLACE:
            self.note_mut(ref if ref is not None else obj, name, node)
            k = Dct({**{str(i): self.fz(x) for i, x in enumerate(args)}, **{n: self.fz(v) for n, v in kw.items()}})
            self.event('inplace', name, [obj], kw, node, extra=k)
            new = mk('processed', (obj, name, k), ty)
            if ref is not None:
                self.heap[ref.id] = HList([('splat', new)], 'Stream')
                return ref
            # everything reached through this object now reads the processed one
            if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'merge', 'rotate', 'trim'):
                self.repoint(obj, new)
                return new if ty in ('Stream', 'RFStream') and name != 'pop' else obj
            if ty in ('Trace', 'RFTrace'):
                self.path_store('attr', obj, 'data', mk('attr', (new, 'data'), 'arr'), node)
                return obj
            self.repoint(obj, new)
            return new
        self.event('write' if name in WRITE_METHODS else 'unknownmethod', name, [obj] + list(args), kw, node)
        return self.opaque('stream method %s' % name, node)

    def repoint(self, obj, new):
        k = obj.key()
        for n, v in list(self.env.items()):
            if isinstance(v, N) and v.key() == k:
                self.env[n] = new
        for i, o in list(self.heap.items()):
            if isinstance(o, HInst):
                f = {x: (new if isinstance(y, N) and y.key() == k else y) for x, y in o.fields.items()}
                if any(f[x] is not o.fields[x] for x in f):
                    self.heap[i] = HInst(o.cls, f, o.hist)
        for p in [p for p in self.pstores if isinstance(p['val'], N) and p['val'].key() == k]:
            q = dict(p)
            q['val'] = new
            self.pstores = [q if x is p else x for x in self.pstores]
        a = as_atom(obj)
        if a is not None and a.op == 'attr' and a.args[1] not in ('stats', 'data'):
            self.path_store('attr', a.args[0], a.args[1], new)

    def taup_method(self, obj, name, args, kw, node):
        names = ('source_depth_in_km', 'distance_in_degree', 'phase_list', 'receiver_depth_in_km')
        k = dict(zip(names, [self.fz(a) for a in args]))
        k.update({n: self.fz(v) for n, v in kw.items()})
        if name == 'get_travel_times':
            return mk('taup_tt', (obj, Dct(k)), 'Arrivals')
        if name == 'get_travel_times_geo':
            return mk('taup_geo', (obj, Dct(k)), 'Arrivals')
        return self.opaque('taup.%s' % name, node)

    # ---- pools
    def pool_method(self, obj, name, args, kw, node):
        if name in ('close', 'terminate', 'shutdown'):
            self.event('pool_release', name, [obj], node=node)
            return NONE
        if name == 'join':
            self.event('pool_join', name, [obj], node=node)
            return NONE
        if name in ('map', 'imap', 'map_async', 'imap_unordered'):
            self.event('pool_map', name, [obj], kw, node)
            r = self.map_over(args[0], args[1:2] if as_atom(obj).ty == 'pool' else args[1:], node)
            if name == 'imap_unordered':
                r = mk('unordered', (self.fz(r),), 'list')
            if name == 'map_async':
                return mk('async', (self.fz(r),), 'async')
            return r
        if name in ('starmap', 'starmap_async'):
            self.event('pool_map', name, [obj], kw, node)
            r = self.star_over(args[0], args[1], node)
            if name.endswith('async'):
                return mk('async', (self.fz(r),), 'async')
            return r
        if name in ('apply', 'apply_async', 'submit'):
            self.event('pool_map', name, [obj], kw, node)
            if name == 'submit':
                r = self.call(args[0], list(args[1:]), kw, node)
            else:
                al = self.concrete(args[1]) if len(args) > 1 else []
                r = self.call(args[0], al or [], {}, node) if al is not None else self.opaque('apply args', node)
            return self.fz(r) if name == 'apply' else mk('async', (self.fz(r),), 'async')
        return self.opaque('pool.%s' % name, node)

    def map_over(self, f, seqs, node):
        if len(seqs) == 1:
            items = self.concrete(seqs[0])
            if items is not None and len(items) <= UNROLL:
                return self.alloc(HList([('item', self.call(f, [x], {}, node)) for x in items]))
            segs = None
            lo = self.listobj(seqs[0])
            if lo is not None and len(lo.segs) > 1:
                out = []
                for s in lo.segs:
                    out += self.map_seg(f, s, node)
                return self.alloc(HList(out))
            bs, ns, e, c = self.domain(seqs[0])
        else:
            z = self.call_lib('builtins.zip', list(seqs), {}, node)
            return self.star_over(f, z, node)
        return self.comp_call(f, bs, ns, [e], c, node)

    def map_seg(self, f, s, node):
        if s[0] == 'item':
            return [('item', self.fz(self.call(f, [s[1]], {}, node)))]
        if s[0] == 'if':
            self.guards.append(s[1])
            inner = [y for x in s[2] for y in self.map_seg(f, x, node)]
            self.guards.pop()
            return [('if', s[1], tuple(inner))]
        if s[0] == 'comp':
            self.loops.extend(zip(s[1], s[2]))
            n0 = len(self.pstores)
            inner = [y for x in s[3] for y in self.map_seg(f, x, node)]
            self.open_stores(n0, s[1])
            for _ in s[1]:
                self.loops.pop()
            return [('comp', s[1], s[2], tuple(inner))]
        bs, ns, e, c = self.domain(s[1])
        return list(self.heap[self.comp_call(f, bs, ns, [e], c, node).id].segs)

    def comp_call(self, f, bs, ns, args, c, node):
        self.loops.extend(zip(bs, ns))
        if c is not TRUE:
            self.guards.append(c)
        n0 = len(self.pstores)
        r = self.fz(self.call(f, args, {}, node))
        self.open_stores(n0, bs, c)
        seg = ('item', r)
        if c is not TRUE:
            self.guards.pop()
            seg = ('if', c, (seg,))
        for _ in bs:
            self.loops.pop()
        return self.alloc(HList([('comp', tuple(bs), tuple(ns), (seg,))] if bs else [seg]))

    def star_over(self, f, seq, node):
        items = self.concrete(seq)
        if items is not None and len(items) <= UNROLL:
            out = []
            for x in items:
                al = self.concrete(x)
                out.append(('item', self.call(f, al, {}, node) if al is not None else self.opaque('starmap', node)))
            return self.alloc(HList(out))
        bs, ns, e, c = self.domain(seq)
        al = self.concrete(e)
        if al is None:
            return self.opaque('starmap of unknown tuples', node)
        return self.comp_call(f, bs, ns, al, c, node)

    def ctx_exit(self, v, node):
        a = as_atom(v)
        if a is not None and a.ty in ('pool', 'executor'):
            self.event('pool_release', '__exit__', [v], node=node)


from .libtab import LIB          # noqa: E402  (table of interpreted functions)
