"""Symbolic values, heap and states."""
import z3
from fractions import Fraction
from .terms import *


class Unsupported(Exception):
    """the code under contract leaves the verifier's subset"""
    def __init__(self, msg, node=None):
        super().__init__(msg)
        self.lineno = getattr(node, 'lineno', None)


class Obj:
    def __init__(self, oid): self.oid = oid
    def __eq__(self, o): return isinstance(o, Obj) and o.oid == self.oid
    def __hash__(self): return hash(('obj', self.oid))


class FRef:
    """object number `key` of a family of like objects owned by one list"""
    def __init__(self, fam, key, ver): self.fam, self.key, self.ver = fam, key, ver


class ListRef:
    def __init__(self, oid): self.oid = oid
    def __eq__(self, o): return isinstance(o, ListRef) and o.oid == self.oid
    def __hash__(self): return hash(('list', self.oid))


class FListRef:
    """the list stored in field `field` of family object `key`"""
    def __init__(self, fam, field, key, ver): self.fam, self.field, self.key, self.ver = fam, field, key, ver


class SetRef:
    def __init__(self, oid): self.oid = oid


class DictRef:
    def __init__(self, oid): self.oid = oid


class NdRef:
    """a numpy array object: flattened real entries (contents in State.lists, entry type 'nd')"""
    def __init__(self, oid): self.oid = oid
    def __eq__(self, o): return isinstance(o, NdRef) and o.oid == self.oid
    def __hash__(self): return hash(('nd', self.oid))


class Nd2V:
    """a two-dimensional numpy array of the caller: `rows` rows, column c is cols[c]; only read"""
    def __init__(self, rows, cols): self.rows, self.cols = rows, cols


class SimV:
    """a simulation object known only by what its class guarantees; its state is the ghost term State.ghost[key]"""
    def __init__(self, key): self.key = key


class ProcV:
    """process number `term` of those created"""
    def __init__(self, term): self.term = term


class Tup:
    def __init__(self, items): self.items = tuple(items)


class RangeV:
    def __init__(self, lo, hi, step=1): self.lo, self.hi, self.step = lo, hi, step


class Opt:
    """either None (when isnone) or val"""
    def __init__(self, isnone, val): self.isnone, self.val = isnone, val


class EnumV:
    def __init__(self, cls, term): self.cls, self.term = cls, term   # cls: ClassInfo


class FuncV:
    def __init__(self, fi): self.fi = fi


class Bound:
    def __init__(self, recv, fi): self.recv, self.fi = recv, fi


class BMeth:
    """method of a builtin value"""
    def __init__(self, recv, name): self.recv, self.name = recv, name


class ClassV:
    def __init__(self, ci): self.ci = ci


class SymClassV:
    """an unknown subclass of the simulation class (a driver's class argument)"""
    def __init__(self, tag): self.tag = tag


class ModV:
    def __init__(self, m): self.m = m


class ExtV:
    def __init__(self, name): self.name = name


class BuiltinV:
    def __init__(self, name): self.name = name


class TypeV:
    """type(x) of a builtin value"""
    def __init__(self, name): self.name = name


class LambdaV:
    """a lambda, or (fi given) a nested function with its local names"""
    def __init__(self, node, env, module, cls, fi=None, locals=()):
        self.node, self.env, self.module, self.cls, self.fi, self.locals = node, env, module, cls, fi, locals


class SuperV:
    def __init__(self, recv, after): self.recv, self.after = recv, after


class StrV:
    """concatenation of literal pieces and ('fmt', spec, value) pieces"""
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if p == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)


class Opaque:
    """value of a trusted external operation: name + arguments (compared structurally)"""
    def __init__(self, name, *args): self.name, self.args = name, args


class IterV:
    """a lazily described sequence: n items, item(k) -> Value"""
    def __init__(self, n, item, src=None): self.n, self.item, self.src = n, item, src


class UnboundT:
    def __repr__(self): return 'UNBOUND'


UNBOUND = UnboundT()


# ---------------------------------------------------------------- lists
class CList:
    kind = 'c'
    def __init__(self, items): self.items = tuple(items)


class SList:
    """symbolic length; ety 'int' | 'real' | 'pair' ; els: tuple of z3 arrays"""
    kind = 's'
    def __init__(self, n, ety, els): self.n, self.ety, self.els = n, ety, tuple(els)


class FamList:
    kind = 'f'
    def __init__(self, fam, n, present): self.fam, self.n, self.present = fam, n, present


def esorts(ety):
    return (R,) * ety[1] if isinstance(ety, tuple) else ESORTS[ety]


ESORTS = {'int': (I,), 'real': (R,), 'bool': (B,), 'pair': (I, I), 'nd': (R,), 'proc': (I,)}


def epack(ety, arrs, i):
    xs = [z3.Select(a, zint(i)) for a in arrs]
    if ety == 'proc':
        return ProcV(xs[0])
    return Tup(xs) if ety == 'pair' or isinstance(ety, tuple) else xs[0]


def eunpack(ety, v):
    if isinstance(ety, tuple):
        if not isinstance(v, Tup) or len(v.items) != ety[1] or not all(is_num(x) for x in v.items):
            raise Unsupported('list row')
        return [zreal(x) for x in v.items]
    if ety == 'pair':
        if not isinstance(v, Tup) or len(v.items) != 2 or not all(is_num(x) for x in v.items):
            raise Unsupported('list element is not a pair of ints')
        return [zint(x) for x in v.items]
    if ety == 'proc' and isinstance(v, ProcV):
        return [zint(v.term)]
    if ety in ('proc', 'nd') or not is_num(v):
        raise Unsupported('list element type')
    if ety == 'int':
        if is_reallike(v):
            raise Unsupported('real stored in an int list')
        return [zint(v)]
    if ety == 'real':
        return [zreal(v)]
    return [zbool(v)]


def ety_of(v):
    if is_boollike(v):
        return 'int'
    if is_intlike(v):
        return 'int'
    if is_reallike(v):
        return 'real'
    if isinstance(v, Tup) and len(v.items) == 2 and all(is_intlike(x) for x in v.items):
        return 'pair'
    if isinstance(v, ProcV):
        return 'proc'
    return None


class ObjRec:
    __slots__ = ('cls', 'attrs', 'frozen', 'fwd')
    def __init__(self, cls, attrs, frozen=False, fwd=None):
        self.cls, self.attrs, self.frozen, self.fwd = cls, attrs, frozen, fwd

    def copy(self):
        return ObjRec(self.cls, dict(self.attrs), self.frozen, self.fwd)


class State:
    def __init__(self):
        self.pc, self.qh = [], []
        self.env, self.frames = {}, []
        self.objs, self.lists, self.sets, self.dicts = {}, {}, {}, {}
        self.fam, self.famver, self.ghost = {}, {}, {}
        self.events = ()
        self.readonly = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.pc, s.qh = list(self.pc), list(self.qh)
        s.env, s.frames = dict(self.env), list(self.frames)
        s.objs = {k: v for k, v in self.objs.items()}
        s.lists, s.sets, s.dicts = dict(self.lists), dict(self.sets), dict(self.dicts)
        s.fam, s.famver, s.ghost = dict(self.fam), dict(self.famver), dict(self.ghost)
        s.events = self.events
        s.readonly = self.readonly
        return s

    def add(self, *fs):
        for f in fs:
            if f is True:
                continue
            if f is False:
                f = z3.BoolVal(False)
            if z3.is_true(f):
                continue
            if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE:
                c, a, b = f.children()
                if z3.is_false(b):
                    self.add(c, a)
                    continue
            if z3.is_and(f):
                self.add(*f.children())
                continue
            (self.qh if z3.is_quantifier(f) else self.pc).append(f)

    def wobj(self, oid):
        r = self.objs[oid].copy()
        self.objs[oid] = r
        return r


class DictKeys:
    def __init__(self, ref): self.ref = ref
