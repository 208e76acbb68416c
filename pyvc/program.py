"""Parses /repo's current source and resolves names, classes and functions.  Nothing is imported or executed."""
import ast
import os


class FuncInfo:
    def __init__(self, node, module, cls=None):
        self.node, self.module, self.cls = node, module, cls
        self.name = node.name

    @property
    def qual(self):
        return f"{self.cls.name}.{self.name}" if self.cls else f"{self.module.short}:{self.name}"

    @property
    def where(self):
        return f"{self.module.path}:{self.node.lineno}"


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods, self.consts, self.base_nodes = {}, {}, node.bases
        self.bases = []
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = FuncInfo(s, module, self)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value

    def mro(self):
        seqs = [b.mro() for b in self.bases if isinstance(b, ClassInfo)]
        seqs = [list(q) for q in seqs + [[b for b in self.bases if isinstance(b, ClassInfo)]]]
        out = [self]
        while any(seqs):
            seqs = [q for q in seqs if q]
            for q in seqs:
                if not any(q[0] in t[1:] for t in seqs):
                    break
            else:
                raise ValueError('inconsistent base classes: ' + self.name)
            c = q[0]
            out.append(c)
            for t in seqs:
                if t[0] is c:
                    del t[0]
        return out

    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_const(self, name):
        for c in self.mro():
            if name in c.consts:
                return c.consts[name], c
        return None

    def is_enum(self):
        return any(isinstance(b, Ext) and b.name in ('enum.Enum', 'enum.IntEnum') for c in self.mro() for b in c.bases)

    def subclass_of(self, other):
        return other in self.mro()


class Ext:
    """something outside the repository"""
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Module:
    def __init__(self, name, path, relpath):
        self.name, self.path, self.ns = name, relpath, {}
        self.short = name.split('.')[-1]
        self.tree = ast.parse(open(path, encoding='utf8').read())
        self.done = False


class Program:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        for top in ('source_py', 'run_py'):
            for d, _, fs in sorted(os.walk(os.path.join(root, top))):
                for f in sorted(fs):
                    if f.endswith('.py'):
                        p = os.path.join(d, f)
                        rel = os.path.relpath(p, root)
                        name = rel[:-3].replace(os.sep, '.')
                        if name.endswith('.__init__'):
                            name = name[:-9]
                        self.modules[name] = Module(name, p, rel)
        for m in list(self.modules.values()):
            self._load(m)
        self.classes = {}
        for m in self.modules.values():
            for v in m.ns.values():
                if isinstance(v, ClassInfo) and v.module is m:
                    self.classes[v.name] = v

    def _load(self, m):
        if m.done:
            return
        m.done = True
        for s in m.tree.body:
            self.bind_stmt(m, s)

    def bind_stmt(self, m, s):
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for k, v in self.import_bindings(s, m).items():
                m.ns[k] = v
        elif isinstance(s, ast.ClassDef):
            c = ClassInfo(s, m)
            for b in s.bases:
                c.bases.append(self.static(m, b))
            m.ns[s.name] = c
        elif isinstance(s, ast.FunctionDef):
            m.ns[s.name] = FuncInfo(s, m)
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            try:
                m.ns[s.targets[0].id] = self.static(m, s.value)
            except KeyError:
                m.ns[s.targets[0].id] = ('const', s.value)

    def import_bindings(self, s, m):
        out = {}
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    out[a.asname] = self.modules.get(a.name) or Ext(a.name)
                else:
                    top = a.name.split('.')[0]
                    out[top] = self.modules.get(top) or Ext(top)
        else:
            src = s.module or ''
            if s.level:
                base = m.name.split('.')
                base = base[:len(base) - s.level]
                src = '.'.join(base + ([s.module] if s.module else []))
            mod = self.modules.get(src)
            if mod:
                self._load(mod)
            for a in s.names:
                if a.name == '*':
                    if mod:
                        out.update({k: v for k, v in mod.ns.items() if not k.startswith('_')})
                    continue
                nm = a.asname or a.name
                if mod and a.name in mod.ns:
                    out[nm] = mod.ns[a.name]
                elif src + '.' + a.name in self.modules:
                    sub = self.modules[src + '.' + a.name]
                    self._load(sub)
                    out[nm] = sub
                else:
                    out[nm] = Ext(src + '.' + a.name)
        return out

    def static(self, m, node):
        if isinstance(node, ast.Name):
            if node.id not in m.ns and hasattr(__import__('builtins'), node.id):
                return Ext('builtins.' + node.id)
            return m.ns[node.id]
        if isinstance(node, ast.Attribute):
            b = self.static(m, node.value)
            if isinstance(b, Module):
                self._load(b)
                return b.ns[node.attr]
            if isinstance(b, Ext):
                return Ext(b.name + '.' + node.attr)
        raise KeyError('static')
