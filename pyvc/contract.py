"""Contracts of functions of the repository and how they are verified."""
import ast
import z3
from .terms import *
from .values import *
from .engine import Clause, Ob
from . import world as W
from . import theory as T


class Contract:
    """subclass per function.  key: 'Class.method' or 'module:function' (resolved in the current source)."""
    key = None
    props = ()
    inline = True            # callers execute the body; when False they use the contract
    classes = None           # receiver classes to verify for (default: the defining class)
    loop_invs = None
    may_skip = False         # an internal helper: when it no longer exists its callers are verified with whatever they call
    variants = ('',)
    cases = (None,)          # outcomes distinguished at a call
    rlimit = 6000000
    cls = None               # class of the receiver the function is verified for
    virtual = ()             # methods it only uses through a contract that holds for every class

    def resolve(self, prog):
        k = self.key
        if ':' in k:
            m, f = k.split(':')
            for mod in prog.modules.values():
                if mod.short == m and f in mod.ns:
                    return mod.ns[f]
            return None
        c, f = k.split('.')
        ci = prog.classes.get(c)
        return ci.find(f) if ci else None

    def setup(self, eng, variant):
        """-> (World, args, kwargs) ; assumptions are in world.st"""
        raise NotImplementedError

    def ensures(self, c):
        return []

    def exits(self, c):
        """extra obligations at exit computed directly on the state"""
        return []

    # call-site use (inline = False)
    def matches(self, eng, st, fi, recv):
        return False

    def requires(self, c):
        return []

    def havoc(self, c, s2):
        raise NotImplementedError


class Ctx:
    """old and new views of one function execution"""
    def __init__(self, eng, contract, w, st, args, kwargs=None, variant=''):
        self.eng, self.contract, self.w, self.args, self.kwargs, self.variant = eng, contract, w, args, kwargs or {}, variant
        self.old_state = st
        self.old = W.View(w, st)
        self.new = None
        self.res = None

    def bind_new(self, st, res):
        self.new = W.View(self.w, st)
        self.res = res


PARTS = ('lattice_ref', 'cluster_pool_ref')


def called_names(ci, fi):
    """names of the methods a function may call on its object (over-approximated: every name it mentions, transitively)"""
    seen, todo, done = set(), [fi], set()
    while todo:
        f = todo.pop()
        if f in done:
            continue
        done.add(f)
        a = f.node.args
        me = (a.posonlyargs + a.args)[0].arg if a.posonlyargs + a.args else None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.value.attr in PARTS and isinstance(n.value.value, ast.Name) and n.value.value.id == me:
                continue        # a method of the lattice or the pool
            nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if nm and nm not in seen:
                g = ci.find(nm)
                if g is not None:
                    seen.add(nm)
                    todo.append(g)
    return seen


def same_code(a, b, fi, virtual=()):
    """a function verified for objects of class a runs the same code on objects of class b"""
    if a is b:
        return True
    names = (called_names(a, fi) | called_names(b, fi)) - set(virtual)
    return all(a.find(n) is b.find(n) for n in names)


class Registry:
    def __init__(self, contracts):
        self.list = contracts
        self.cache = {}

    def applies(self, eng, st, c, fi, recv):
        """verified for the class of the receiver?"""
        if c.cls is None or not isinstance(recv, Obj):
            return True
        rc = st.objs[recv.oid].cls
        k = (id(c), rc.name)
        if k not in self.cache:
            a = eng.prog.classes.get(c.cls)
            self.cache[k] = a is not None and same_code(a, rc, fi, c.virtual)
        return self.cache[k]

    def lookup(self, eng, st, fi, recv):
        for c in self.list:
            if not c.inline and c.fi is fi and eng.curfi is not fi and self.applies(eng, st, c, fi, recv) and c.matches(eng, st, fi, recv):
                return c
        return None

    def ctx(self, eng, c, fi, env, st):
        w = W.World.__new__(W.World)
        w.eng, w.st = eng, st
        c.find_world(eng, w, env, st)
        return Ctx(eng, c, w, st, env)


def clause(name, body, vars=(), pats=None, hints=None, props=None, uses=None):
    return Clause(name, body, vars, pats, hints, props, uses)
