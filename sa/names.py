"""Name binding, imports and attribute existence over the syntax tree."""
import ast
import builtins
import glob
import os
import re
import symtable

SITE = sorted(glob.glob('/opt/venv/lib/*/site-packages')) + sorted(glob.glob('/opt/venv/*/site-packages'))
WORD = re.compile(rb'[A-Za-z_][A-Za-z_0-9]*')
_words = {}


def words_of(path, want, found):
    """which of the identifiers in want occur in the sources below path"""
    key = path
    if key not in _words:
        fs = []
        if os.path.isdir(path):
            for d, ds, ff in os.walk(path):
                ds[:] = [x for x in ds if x not in ('tests', 'test', '__pycache__', 'testing')]
                fs += [os.path.join(d, f) for f in ff if f.endswith(('.py', '.pyi', '.pyx'))]
        elif os.path.isfile(path):
            fs = [path]
        _words[key] = fs
    for f in _words[key]:
        if not want - found:
            return
        try:
            with open(f, 'rb') as fh:
                ws = set(WORD.findall(fh.read()))
        except OSError:
            continue
        found |= {w for w in want if w.encode() in ws}


def package_path(name):
    top = name.split('.')[0]
    for s in SITE:
        for p in (os.path.join(s, top), os.path.join(s, top + '.py')):
            if os.path.exists(p):
                return p
    return None


def caught_by(tree, line, names):
    """is this line inside a try body that handles one of the exceptions"""
    for t in ast.walk(tree):
        if isinstance(t, ast.Try) and t.handlers and any(s.lineno <= line <= s.end_lineno for s in t.body):
            for h in t.handlers:
                hs = [] if h.type is None else (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])
                if h.type is None or any(getattr(x, 'id', getattr(x, 'attr', '')) in names + ('Exception', 'BaseException')
                                         for x in hs):
                    return True
    return False


class Names:
    def __init__(self, modules, package='rfsed'):
        self.modules = modules          # qualified name -> (path, source, tree)
        self.package = package
        self.findings = []              # (file, func, line, rule, text)
        self.checked = {'name': 0, 'import': 0, 'attribute': 0}

    def module_names(self, q, seen=()):
        """names a module defines at its top level (None: cannot be enumerated)"""
        if q not in self.modules or q in seen:
            return None
        path, src, tree = self.modules[q]
        out = set()
        for st in ast.walk(tree):
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(st.name)
            elif isinstance(st, ast.Name) and isinstance(st.ctx, (ast.Store, ast.Del)):
                out.add(st.id)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    out.add((a.asname or a.name).split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    if a.name == '*':
                        base = self.absolute(q, st)
                        sub = self.module_names(base, seen + (q,)) if base else None
                        if sub is None:
                            return None
                        out |= sub
                    else:
                        out.add(a.asname or a.name)
            elif isinstance(st, ast.ExceptHandler) and st.name:
                out.add(st.name)
        d = os.path.dirname(path)
        if os.path.basename(path) == '__init__.py':
            out |= {f[:-3] for f in os.listdir(d) if f.endswith('.py')}
            out |= {f for f in os.listdir(d) if os.path.isdir(os.path.join(d, f))}
        return out

    def absolute(self, q, st):
        if not st.level:
            return st.module
        path = self.modules[q][0]
        base = q.split('.')
        if os.path.basename(path) != '__init__.py':
            base = base[:-1]
        base = base[:len(base) - st.level + 1] if st.level > 1 else base
        return '.'.join(base + ([st.module] if st.module else []))

    def run(self):
        for q in self.modules:
            self.scopes(q)
            self.imports(q)
        self.attributes()
        return self

    # ---- every global name read is bound somewhere in its module
    def scopes(self, q):
        path, src, tree = self.modules[q]
        top = self.module_names(q)
        if top is None:
            return
        known = top | set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__builtins__',
                                            '__class__', '__loader__', '__debug__', '__annotations__'}
        if any(isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('globals', 'exec', 'eval') for n in ast.walk(tree)):
            return
        missing = set()

        def walk(t, fn):
            for s in t.get_symbols():
                if s.is_referenced() and (s.is_global() or t.get_type() == 'module'):
                    self.checked['name'] += 1
                    if s.get_name() not in known:
                        missing.add(s.get_name())
            for c in t.get_children():
                walk(c, fn)
        try:
            walk(symtable.symtable(src, path, 'exec'), '')
        except SyntaxError:
            return
        if not missing:
            return
        for fn, n in self.located(tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in missing and not caught_by(tree, n.lineno, ('NameError',)):
                self.findings.append((path, fn, n.lineno, 'names-bound', 'name %s is defined nowhere' % n.id))

    def located(self, tree):
        out = []

        def go(n, fn):
            for c in ast.iter_child_nodes(n):
                f = fn
                if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    f = fn + '.' + c.name if fn != '-' else c.name
                out.append((f, c))
                go(c, f)
        go(tree, '-')
        return out

    # ---- names imported from, or read off, modules of the package exist
    def imports(self, q):
        path, src, tree = self.modules[q]
        alias = {}
        for fn, n in self.located(tree):
            if isinstance(n, ast.ImportFrom):
                base = self.absolute(q, n)
                if base in self.modules:
                    top = self.module_names(base)
                    for a in n.names:
                        if a.name == '*':
                            continue
                        self.checked['import'] += 1
                        if base + '.' + a.name in self.modules:
                            alias[a.asname or a.name] = base + '.' + a.name
                        elif top is not None and a.name not in top and not caught_by(tree, n.lineno, ('ImportError',)):
                            self.findings.append((path, fn, n.lineno, 'imports-exist', '%s has no %s' % (base, a.name)))
                elif base and base.split('.')[0] == self.package and not caught_by(tree, n.lineno, ('ImportError', 'ModuleNotFoundError')):
                    if not os.path.isdir(os.path.join(os.path.dirname(self.modules[self.package][0]) if self.package in self.modules else '',
                                                      *base.split('.')[1:])):
                        self.findings.append((path, fn, n.lineno, 'imports-exist', 'module %s does not exist' % base))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name in self.modules:
                        alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        for fn, n in self.located(tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load) and n.value.id in alias:
                m = alias[n.value.id]
                top = self.module_names(m)
                self.checked['import'] += 1
                if top is not None and n.attr not in top and m + '.' + n.attr not in self.modules and n.attr[:2] != '__' and \
                        not caught_by(tree, n.lineno, ('AttributeError',)):
                    self.findings.append((path, fn, n.lineno, 'imports-exist', '%s has no %s' % (m, n.attr)))

    # ---- every attribute read is a name that exists somewhere it can come from
    def attributes(self):
        own = set(dir(builtins))
        for t in (object, int, float, complex, str, bytes, list, tuple, dict, set, type, Exception, BaseException):
            own |= set(dir(t))
        own |= set(dir(lambda: 0)) | set(dir(open(os.devnull))) | {'send', 'throw', 'close', '__wrapped__'}
        uses, tops, libuse = {}, set(), {}
        for q, (path, src, tree) in self.modules.items():
            al = {}
            for fn, n in self.located(tree):
                if isinstance(n, ast.Attribute):
                    if isinstance(n.ctx, ast.Load):
                        uses.setdefault(n.attr, []).append((path, fn, n.lineno, tree))
                    else:
                        own.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    own.add(n.name)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                    own |= set(re.findall(r'[A-Za-z_]\w*', n.value))  if len(n.value) < 60 else set()
                elif isinstance(n, ast.keyword) and n.arg:
                    own.add(n.arg)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and '.' in fn or isinstance(n, ast.arg):
                    own.add(getattr(n, 'id', getattr(n, 'arg', '')))
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        tops.add(a.name.split('.')[0])
                        al[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                    tops.add(n.module.split('.')[0])
                    for a in n.names:
                        if n.module.split('.')[0] != self.package:
                            libuse.setdefault(n.module.split('.')[0], {}).setdefault(a.name, []).append((path, fn, n.lineno, tree))
            # attributes read directly off an imported library module
            for fn, n in self.located(tree):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load) and n.value.id in al \
                        and al[n.value.id].split('.')[0] != self.package:
                    libuse.setdefault(al[n.value.id].split('.')[0], {}).setdefault(n.attr, []).append((path, fn, n.lineno, tree))
        for top, names in libuse.items():
            p = package_path(top)
            if p is None:
                continue
            found = set()
            words_of(p, set(names) - {'*'}, found)
            for a, sites in names.items():
                self.checked['attribute'] += len(sites)
                if a != '*' and a not in found:
                    for path, fn, line, tree in sites:
                        if not caught_by(tree, line, ('AttributeError', 'ImportError')):
                            self.findings.append((path, fn, line, 'attributes-exist', '%s has no %s' % (top, a)))
        want = {a for a in uses if a not in own}
        found = set()
        paths = [package_path(t) for t in sorted(tops) if t != self.package]
        deps = ['numpy', 'scipy', 'matplotlib', 'obspy', 'rf', 'seaborn', 'pandas', 'h5py', 'obspyh5', 'setuptools', 'tqdm', 'cartopy']
        paths += [package_path(t) for t in deps]
        if not any(paths):
            return
        for p in dict.fromkeys(x for x in paths if x):
            words_of(p, want, found)
        if want - found:
            std = os.path.dirname(os.__file__)
            words_of(std, want, found)
            for p in SITE:
                words_of(p, want, found)
        for a in sorted(uses):
            self.checked['attribute'] += len(uses[a])
            if a in want - found:
                for path, fn, line, tree in uses[a]:
                    if not caught_by(tree, line, ('AttributeError',)):
                        self.findings.append((path, fn, line, 'attributes-exist', 'no object has an attribute %s' % a))
