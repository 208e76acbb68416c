"""Symbolic execution of the functions of /repo against contracts (verification-condition generation)."""
import ast
import z3
from fractions import Fraction
from .terms import *
from .terms import _n as _freshctr
from .values import *
from .program import *
from . import solve
from .solve import has_quant, theory_facts
from . import theory as T


class Clause:
    """one named conjunct of a contract; with vars it is universally quantified"""
    def __init__(self, name, body, vars=(), pats=None, hints=None, props=None, uses=None):
        self.name, self.body, self.vars, self.pats, self.hints, self.props = name, body, tuple(vars), pats, hints, props
        self.uses = uses        # names of the quantified facts tried first (all of them are tried when these do not suffice)

    def hyp(self):
        if not self.vars:
            return zbool(self.body())
        vs = [z3.Const(f'{n}?', s) for n, s in self.vars]
        b = zbool(self.body(*vs))
        kw = {'qid': self.name}
        if self.pats:
            ps = self.pats(*vs)
            kw['patterns'] = [p if isinstance(p, z3.PatternRef) else z3.MultiPattern(*p) if isinstance(p, (tuple, list)) else p for p in ps]
        return z3.ForAll(vs, b, **kw)

    def goal(self):
        """-> (goal, hints) with the bound variables made arbitrary constants"""
        if not self.vars:
            return zbool(self.body()), list(self.hints() if self.hints else [])
        vs = [fresh('sk_' + n, s) for n, s in self.vars]
        return zbool(self.body(*vs)), list(self.hints(*vs) if self.hints else [])


class Ob:
    """a proof obligation"""
    __slots__ = ('kind', 'func', 'name', 'where', 'hyps', 'goal', 'hints', 'props', 'result', 'info', 'first')
    def __init__(self, kind, func, name, where, hyps, goal, hints, props):
        self.kind, self.func, self.name, self.where = kind, func, name, where
        self.hyps, self.goal, self.hints, self.props = hyps, goal, hints, props
        self.result, self.info, self.first = None, '', None

    def id(self):
        return f'{self.func}/{self.kind}/{self.name}'


IGNORED_CALLS = {'print'}
IGNORED_EXT = ('logging.',)


NOMERGE = object()


class Engine:
    def __init__(self, prog, schema, contracts):
        self.prog, self.schema, self.contracts = prog, schema, contracts
        self.obs = []
        self.suppress = 0
        self.cur = None            # contract being verified
        self.curfi = None
        self.depth = 0
        self.callstack = []
        self.frame_no = 0
        self.oid = 0
        self.lits, self.litkeep = {}, []
        self.xs = solve.new_solver(150000, False)
        self.relied = set()
        self.functions_used = {}   # contracts relied on, functions inlined
        self.loop_checks = 0
        self.trusted = set()
        self.nondet = set()
        self.entail_cache = {}

    # ------------------------------------------------------------ solver access during execution
    def _lit(self, f):
        i = f.get_id()
        if i not in self.lits:
            p = z3.Bool(f'lit!{len(self.lits)}')
            self.lits[i] = p
            self.litkeep.append(f)
            self.xs.add(z3.Implies(p, f))
            for t in theory_facts([f]):
                self.xs.add(t)
        return self.lits[i]

    def check(self, st, extra=(), quant=True):
        as_ = [self._lit(f) for f in st.pc]
        if quant:
            as_ += [self._lit(f) for f in st.qh]
        as_ += [self._lit(zbool(e)) for e in extra]
        solve.STATS['queries'] += 1
        return self.xs.check(*as_)

    def entails(self, st, f):
        f = simp(f)
        if isinstance(f, bool):
            return f
        fid = f.get_id()
        if any(p.get_id() == fid for p in st.pc):
            return True
        return self.check(st, [z3.Not(f)]) == z3.unsat

    def feasible(self, st):
        return self.check(st) != z3.unsat

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, name, goal, node=None, hints=(), props=None):
        goal = simp(goal)
        if goal is True:
            g = z3.BoolVal(True)
        else:
            g = zbool(goal)
        if not self.suppress:
            w = f'line {node.lineno}' if node is not None and hasattr(node, 'lineno') else ''
            self.obs.append(Ob(kind, self.cur.key if self.cur else '?', name, w, list(st.pc) + list(st.qh), g, list(hints),
                               props if props is not None else (self.cur.props if self.cur else set())))
        st.add(g)

    def oblige_clause(self, st, kind, cl, node=None, prefix='', add=True):
        g, h = cl.goal()
        if not self.suppress:
            w = f'line {node.lineno}' if node is not None and hasattr(node, 'lineno') else ''
            props = cl.props if cl.props is not None else (self.cur.props if self.cur else set())
            o = Ob(kind, self.cur.key, prefix + cl.name, w, list(st.pc) + list(st.qh), g, h, props)
            if cl.uses is not None:
                o.first = list(st.pc) + [f for f in st.qh if any(u in f.qid() for u in cl.uses)]
            self.obs.append(o)
        if add:
            st.add(cl.hyp())

    # ------------------------------------------------------------ allocation
    def newoid(self):
        self.oid += 1
        return self.oid

    def new_list(self, st, lv):
        o = self.newoid()
        st.lists[o] = lv
        return ListRef(o)

    def new_obj(self, st, cls, attrs=None, frozen=False):
        o = self.newoid()
        st.objs[o] = ObjRec(cls, dict(attrs or {}), frozen)
        return Obj(o)

    def new_set(self, st, items=()):
        o = self.newoid()
        st.sets[o] = tuple(items)
        return SetRef(o)

    # ------------------------------------------------------------ expressions: list of (state, value)
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__, e)
        return m(e, st)

    def evs(self, es, st):
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, float):
            v = Fraction(v)
        if isinstance(v, (int, bool, str, Fraction)) or v is None:
            return [(st, v)]
        raise Unsupported('constant', e)

    def e_Name(self, e, st):
        if e.id in st.env:
            v = st.env[e.id]
            if v is UNBOUND:
                raise Unsupported('possibly unbound variable ' + e.id, e)
            return [(st, v)]
        return [(st, self.global_name(e.id, e))]

    BUILTINS = {'len', 'range', 'abs', 'max', 'min', 'sum', 'any', 'all', 'list', 'set', 'tuple', 'dict', 'int', 'float', 'bool', 'str',
                'type', 'isinstance', 'print', 'enumerate', 'zip', 'map', 'reversed', 'sorted', 'super', 'frozenset', 'divmod', 'round', 'pow'}

    def global_name(self, name, node):
        ns = self.curmod.ns
        if name in ns:
            return self.lift(ns[name], node)
        if name in self.BUILTINS:
            return BuiltinV(name)
        raise Unsupported('unknown name ' + name, node)

    def lift(self, b, node):
        if isinstance(b, ClassInfo):
            return ClassV(b)
        if isinstance(b, FuncInfo):
            return FuncV(b)
        if isinstance(b, Module):
            return ModV(b)
        if isinstance(b, Ext):
            return ExtV(b.name)
        if isinstance(b, tuple) and b[0] == 'const':
            try:
                v = ast.literal_eval(b[1])
            except ValueError:
                raise Unsupported('module constant', node)
            if isinstance(v, float):
                return Fraction(v)
            if isinstance(v, (int, str, bool)) or v is None:
                return v
            raise Unsupported('module constant (mutable)', node)
        raise Unsupported('binding', node)

    def e_Tuple(self, e, st):
        return [(s, Tup(vs)) for s, vs in self.evs(e.elts, st)]

    def e_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported('starred list', e)
        return [(s, self.new_list(s, CList(vs))) for s, vs in self.evs(e.elts, st)]

    def e_Set(self, e, st):
        out = []
        for s, vs in self.evs(e.elts, st):
            cur = [(s, self.new_set(s))]
            for v in vs:
                cur = [x for s1, r in cur for x in self.set_add(s1, r, v, e)]
            out += cur
        return out

    def e_Dict(self, e, st):
        out = []
        if not all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in e.keys):
            if any(k is None for k in e.keys):
                raise Unsupported('dict unpacking', e)
            for s, kvs in self.evs(list(e.keys) + list(e.values), st):
                o = self.newoid()
                s.dicts[o] = {}
                cur = [s]
                for k, v in zip(kvs[:len(e.keys)], kvs[len(e.keys):]):
                    cur = [s2 for s1 in cur for s2 in self.dict_set(s1, DictRef(o), k, v, e)]
                out += [(s1, DictRef(o)) for s1 in cur]
            return out
        for s, vs in self.evs(e.values, st):
            o = self.newoid()
            s.dicts[o] = {k.value: v for k, v in zip(e.keys, vs)}
            out.append((s, DictRef(o)))
        return out

    def e_JoinedStr(self, e, st):
        vals = [p.value for p in e.values if isinstance(p, ast.FormattedValue)]
        out = []
        for s, vs in self.evs(vals, st):
            parts, it = [], iter(vs)
            for p in e.values:
                if isinstance(p, ast.Constant):
                    parts.append(p.value)
                else:
                    spec = ''
                    if p.format_spec is not None:
                        spec = ''.join(c.value for c in p.format_spec.values if isinstance(c, ast.Constant))
                    parts += self.fmt(next(it), spec)
            out.append((s, StrV(parts)))
        return out

    def fmt(self, v, spec):
        if spec in ('', 's') and isinstance(v, str):
            return [v]
        if spec in ('', 's') and isinstance(v, StrV):
            return list(v.parts)
        if spec in ('', 'd') and isinstance(v, int) and not isinstance(v, bool):
            return [str(v)]
        return [('fmt', '' if spec == 'd' else spec, v)]

    def e_Lambda(self, e, st):
        return [(st, LambdaV(e, dict(st.env), self.curmod, self.curcls))]

    def e_IfExp(self, e, st):
        out = []
        for s, c in self.ev(e.test, st):
            c = self.truth(c, e, s)
            out += self.branch(s, c, lambda s1: self.ev(e.body, s1), lambda s1: self.ev(e.orelse, s1))
        return out

    def dict_key(self, k, s, node):
        k = simp(self.unopt(k, node, s))
        if isinstance(k, str) or is_intlike(k) and not isinstance(k, bool):
            return k
        raise Unsupported('dict key', node)

    def dict_find(self, s, ref, k, node):
        """[(state, key as stored or None)]: which entry of a dict has this key; forks unless decided"""
        k = self.dict_key(k, s, node)
        keys = list(s.dicts[ref.oid])
        for x in keys:
            if isinstance(x, str) == isinstance(k, str) and (x == k if isinstance(x, str) else zint(x).eq(zint(k))):
                return [(s, x)]
        if isinstance(k, str):
            return [(s, None)]
        out, rest = [], s
        for x in keys:
            if isinstance(x, str):
                continue
            c = simp(zint(x) == zint(k))
            if c is True:
                return out + [(rest, x)]
            if c is False or self.entails(rest, z3.Not(c)):
                continue
            if self.entails(rest, c):
                return out + [(rest, x)]
            s1 = rest.copy()
            s1.add(c)
            out.append((s1, x))
            rest.add(z3.Not(c))
        return out + [(rest, None)]

    def dict_set(self, s, ref, k, v, node):
        out = []
        k = self.dict_key(k, s, node)
        for s1, x in self.dict_find(s, ref, k, node):
            d = dict(s1.dicts[ref.oid])
            d[k if x is None else x] = v
            s1.dicts[ref.oid] = d
            out.append(s1)
        return out

    def branch(self, st, c, fa, fb):
        """fork on c, run both sides (value-returning), merge where possible"""
        c = simp(c)
        if c is True:
            return fa(st)
        if c is False:
            return fb(st)
        s1, s2 = st.copy(), st
        s1.add(c)
        s2 = st.copy()
        s2.add(z3.Not(c))
        f1, f2 = self.feasible(s1), self.feasible(s2)
        if not f1 and not f2:
            return []
        if not f2:
            return fa(s1)
        if not f1:
            return fb(s2)
        outs = fa(s1) + fb(s2)
        return self.merge_vals(outs)

    def merge_vals(self, outs):
        outs = [(s, ('val', v)) for s, v in outs]
        return [(s, o[1]) for s, o in self.merge_all(outs)]

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def rec(i, s):
            res = []
            for s1, v in self.ev(e.values[i], s):
                if i == len(e.values) - 1:
                    res.append((s1, v))
                    continue
                t = self.truth(v, e, s1)
                if is_boollike(v) or True:
                    stay = t if isand else Not(t)
                    res += self.branch(s1, stay, lambda s2: rec(i + 1, s2), lambda s2, v=v: [(s2, (not isand) if is_boollike(v) else v)])
            return res
        return rec(0, st)

    def e_UnaryOp(self, e, st):
        out = []
        for s, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                out.append((s, Not(self.truth(v, e, s))))
            elif isinstance(e.op, ast.USub):
                v = self.num(v, e, s)
                out.append((s, -v if not is_sym(v) else -(zint(v) if v.sort() != R else v)))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, self.num(v, e, s)))
            else:
                raise Unsupported('unary op', e)
        return out

    def num(self, v, node, st):
        v = self.unopt(v, node, st)
        if not is_num(v):
            raise Unsupported('number expected, got ' + type(v).__name__, node)
        return v

    def unopt(self, v, node, st):
        if isinstance(v, Opt):
            self.oblige(st, 'none', 'value is not None', Not(v.isnone), node)
            return v.val
        return v

    def e_BinOp(self, e, st):
        out = []
        for s, (a, b) in self.evs([e.left, e.right], st):
            out += self.binop(type(e.op).__name__, a, b, s, e)
        return out

    def binop(self, op, a, b, s, node):
        a, b = self.unopt(a, node, s), self.unopt(b, node, s)
        if op == 'Add' and isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
            if isinstance(a, str) and isinstance(b, str):
                return [(s, a + b)]
            pa = a.parts if isinstance(a, StrV) else [a]
            pb = b.parts if isinstance(b, StrV) else [b]
            return [(s, StrV(list(pa) + list(pb)))]
        if op == 'Mod' and isinstance(a, str):
            raise Unsupported('% formatting', node)
        r = self.hook_binop(op, a, b, s, node)
        if r is not None:
            return [(s, r)]
        if isinstance(a, (ListRef, FListRef)) or isinstance(b, (ListRef, FListRef)):
            return [(s, self.list_binop(op, a, b, s, node))]
        if isinstance(a, (Obj, FRef)) or isinstance(b, (Obj, FRef)):
            nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__'}.get(op)
            if isinstance(a, Obj) and nm:
                fi = self.cls_of(a, s).find(nm)
                if fi:
                    return self.call_func(s, fi, [a, b], {}, node, recv=a)
            raise Unsupported('operator on object', node)
        if isinstance(a, SetRef) and isinstance(b, SetRef):
            if op == 'BitOr':
                cur = [(s, self.new_set(s, s.sets[a.oid]))]
                for v in s.sets[b.oid]:
                    cur = [x for s1, r in cur for x in self.set_add(s1, r, v, node)]
                return cur
            if op in ('Sub', 'BitAnd'):
                cur = [(s, ())]
                for v in s.sets[a.oid]:
                    nxt = []
                    for s1, items in cur:
                        inn = simp(zbool(self.contains(v, b, s1, node)))
                        if not is_sym(inn):
                            yes, no = bool(inn), not inn
                        else:
                            yes, no = not self.entails(s1, z3.Not(inn)), not self.entails(s1, inn)
                        for flag in (True, False):
                            if not (yes if flag else no):
                                continue
                            s2 = s1.copy()
                            if is_sym(inn):
                                s2.add(inn if flag else z3.Not(inn))
                            nxt.append((s2, items + (v,) if flag == (op == 'BitAnd') else items))
                    cur = nxt
                return [(s1, self.new_set(s1, items)) for s1, items in cur]
            raise Unsupported('set operator', node)
        if not is_num(a) or not is_num(b):
            raise Unsupported(f'operator {op} on {type(a).__name__}, {type(b).__name__}', node)
        return [(s, self.arith(op, a, b, s, node))]

    def hook_binop(self, op, a, b, s, node):
        return None

    def arith(self, op, a, b, s, node):
        real = is_reallike(a) or is_reallike(b)
        sym = is_sym(a) or is_sym(b)
        if op in ('Add', 'Sub'):
            if not sym:
                return a + b if op == 'Add' else a - b
            a, b = (zreal(a), zreal(b)) if real else (zint(a), zint(b))
            return z3.simplify(a + b if op == 'Add' else a - b) if False else (a + b if op == 'Add' else a - b)
        if op == 'Mult':
            if not sym:
                return a * b
            if real:
                return mul(zreal(a), zreal(b))
            return mul(zint(a), zint(b))
        if op == 'Pow':
            if isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 4:
                if not is_sym(a):
                    return a ** b
                r = 1
                for _ in range(b):
                    r = mul(r, a) if is_sym(r) or r != 1 else a
                return r
            raise Unsupported('power', node)
        if op == 'Div':
            self.oblige(s, 'divzero', 'divisor is not zero', self.cmp_eq_num(b, 0, negate=True), node)
            if not sym:
                return Fraction(a) / Fraction(b)
            x, y = zreal(a), zreal(b)
            if z3.is_rational_value(y):
                return x / y
            return RDIV(x, y)
        if op in ('FloorDiv', 'Mod'):
            if real:
                raise Unsupported('float floor division', node)
            self.oblige(s, 'divzero', 'divisor is not zero', self.cmp_eq_num(b, 0, negate=True), node)
            if not sym:
                return a // b if op == 'FloorDiv' else a % b
            a, b = zint(a), zint(b)
            if z3.is_int_value(b):
                n = b.as_long()
                if n > 0:
                    return a / b if op == 'FloorDiv' else a % b
                q = (-a) / z3.IntVal(-n)
                return q if op == 'FloorDiv' else a - q * n
            if not self.entails(s, b > 0):
                raise Unsupported('floor division by a possibly negative symbolic number', node)
            for f in divmod_facts(a, b):
                s.add(f)
            return FDIV(a, b) if op == 'FloorDiv' else FMOD(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and is_boollike(a) and is_boollike(b):
            a, b = zbool(a), zbool(b)
            return z3.And(a, b) if op == 'BitAnd' else z3.Or(a, b) if op == 'BitOr' else z3.Xor(a, b)
        raise Unsupported('operator ' + op, node)

    def cmp_eq_num(self, a, b, negate=False):
        if not is_sym(a) and not is_sym(b):
            r = a == b
        else:
            if is_boollike(a) and is_boollike(b):
                r = zbool(a) == zbool(b)
            elif is_reallike(a) or is_reallike(b):
                r = zreal(a) == zreal(b)
            else:
                r = zint(a) == zint(b)
        return Not(r) if negate else r

    def e_Compare(self, e, st):
        out = []
        for s, vs in self.evs([e.left] + e.comparators, st):
            t = True
            for op, a, b in zip(e.ops, vs, vs[1:]):
                t2 = self.compare(type(op).__name__, a, b, s, e)
                t = t2 if t is True else (False if t is False or t2 is False else (t if t2 is True else z3.And(zbool(t), zbool(t2))))
            out.append((s, t))
        return out

    def compare(self, op, a, b, s, node):
        if op in ('Is', 'IsNot', 'Eq', 'NotEq'):
            r = self.equal(a, b, s, node, identity=op.startswith('Is'))
            return Not(r) if op in ('IsNot', 'NotEq') else r
        if op in ('In', 'NotIn'):
            r = self.contains(a, b, s, node)
            return Not(r) if op == 'NotIn' else r
        a, b = self.num(a, node, s), self.num(b, node, s)
        if not is_sym(a) and not is_sym(b):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if is_reallike(a) or is_reallike(b):
            a, b = zreal(a), zreal(b)
        else:
            a, b = zint(a), zint(b)
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]

    def equal(self, a, b, s, node, identity=False):
        if isinstance(a, Opt) or isinstance(b, Opt):
            if a is None or b is None:
                o = a if b is None else b
                return o.isnone
            na, va = (a.isnone, a.val) if isinstance(a, Opt) else (False, a)
            nb, vb = (b.isnone, b.val) if isinstance(b, Opt) else (False, b)
            return Or(And(zbool(na), zbool(nb)), And(Not(zbool(na)), Not(zbool(nb)), zbool(self.equal(va, vb, s, node, identity))))
        if a is None or b is None:
            return a is b
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return self.cmp_eq_num(a.term, b.term) if a.cls is b.cls else False
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return a.ci is b.ci
        if isinstance(a, (ClassV, TypeV, BuiltinV)) and isinstance(b, (ClassV, TypeV, BuiltinV)):
            na = a.name if not isinstance(a, ClassV) else a.ci
            nb = b.name if not isinstance(b, ClassV) else b.ci
            return na == nb
        if is_num(a) and is_num(b):
            if identity and not (is_boollike(a) and is_boollike(b)):
                raise Unsupported('identity of numbers', node)
            return self.cmp_eq_num(a, b)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.oid == b.oid:
                return True
            ra, rb = s.objs[a.oid], s.objs[b.oid]
            if ra.frozen or rb.frozen or ra.fwd or rb.fwd:
                raise Unsupported('identity of snapshots', node)
            if not identity and ra.cls.find('__eq__'):
                raise Unsupported('__eq__', node)
            return False
        if isinstance(a, FRef) and isinstance(b, FRef):
            if a.fam != b.fam:
                return False
            return zint(a.key) == zint(b.key)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return And([zbool(self.equal(x, y, s, node)) for x, y in zip(a.items, b.items)])
        la, lb = self.as_clist(a, s), self.as_clist(b, s)
        if la is not None and lb is not None and not identity:
            if len(la) != len(lb):
                return False
            return And([zbool(self.equal(x, y, s, node)) for x, y in zip(la, lb)])
        if isinstance(a, (ListRef, FListRef, SetRef, DictRef, Obj, FRef, Tup, str, StrV)) and is_num(b) or \
           isinstance(b, (ListRef, FListRef, SetRef, DictRef, Obj, FRef, Tup, str, StrV)) and is_num(a):
            return False
        raise Unsupported(f'comparison of {type(a).__name__} and {type(b).__name__}', node)

    def as_clist(self, v, s):
        if isinstance(v, ListRef) and isinstance(s.lists[v.oid], CList):
            return s.lists[v.oid].items
        return None

    def contains(self, x, c, s, node):
        if isinstance(c, DictKeys):
            c = c.ref
        if isinstance(c, DictRef):
            if isinstance(x, str):
                return x in s.dicts[c.oid]
            x = self.dict_key(x, s, node)
            return Or([zint(x) == zint(y) for y in s.dicts[c.oid] if not isinstance(y, str)])
        if isinstance(c, SetRef):
            return Or([zbool(self.equal(x, y, s, node)) for y in s.sets[c.oid]])
        if isinstance(c, Tup):
            return Or([zbool(self.equal(x, y, s, node)) for y in c.items])
        if isinstance(c, RangeV) and c.step == 1:
            x = self.num(x, node, s)
            return And(zint(c.lo) <= zint(x), zint(x) < zint(c.hi))
        items = self.concrete_items(c, s, node)
        if items is not None:
            return Or([zbool(self.equal(x, y, s, node)) for y in items])
        it = self.iterate(c, s, node)
        j = fresh('j', I)
        v = it.item(j)
        if is_num(v) and is_num(x):
            return z3.Exists([j], z3.And(0 <= j, j < zint(it.n), zbool(self.cmp_eq_num(v, x))))
        raise Unsupported('membership', node)

    def truth(self, v, node, st):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Opt):
            return And(Not(zbool(v.isnone)), zbool(self.truth(v.val, node, st)))
        if is_num(v):
            if is_sym(v) and v.sort() == B:
                return v
            return self.cmp_eq_num(v, 0, negate=True)
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, (ListRef, FListRef, SetRef, Tup, RangeV)):
            n = self.length(v, st, node)
            return n > 0 if not is_sym(n) else n > 0
        if isinstance(v, (Obj, FRef, EnumV, ClassV, FuncV)):
            return True
        raise Unsupported('truth value', node)

    # ------------------------------------------------------------ attributes
    def cls_of(self, v, st):
        if isinstance(v, Obj):
            return st.objs[v.oid].cls
        if isinstance(v, FRef):
            return self.prog.classes[v.fam]
        raise Unsupported('class of value')

    def deref(self, v, st):
        if isinstance(v, Obj) and st.objs[v.oid].fwd is not None:
            return st.objs[v.oid].fwd
        return v

    def e_Attribute(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            out.append((s, self.getattr(v, e.attr, s, e)))
        return out

    def getattr(self, v, name, s, node):
        v = self.unopt(v, node, s)
        v = self.deref(v, s)
        if isinstance(v, ModV):
            if name in v.m.ns:
                return self.lift(v.m.ns[name], node)
            sub = self.prog.modules.get(v.m.name + '.' + name)
            if sub:
                return ModV(sub)
            raise Unsupported('module attribute ' + name, node)
        if isinstance(v, ExtV):
            return ExtV(v.name + '.' + name)
        if isinstance(v, Obj):
            rec = s.objs[v.oid]
            if name in rec.attrs:
                x = rec.attrs[name]
                if x is UNBOUND:
                    self.oblige(s, 'attr', f'attribute {name} exists', False, node)
                    raise Unsupported('attribute may not exist: ' + name, node)
                return x
            fi = rec.cls.find(name)
            if fi:
                return Bound(v, fi)
            c = rec.cls.find_const(name)
            if c:
                return self.ev_const(c[0], node)
            h = self.hook_getattr(v, rec, name, s, node)
            if h is not None:
                return h
            raise Unsupported(f'attribute {rec.cls.name}.{name}', node)
        if isinstance(v, FRef):
            ci = self.prog.classes.get(v.fam)
            fields = self.schema.FAMS[v.fam]
            if name in fields:
                return self.fam_load(s, v, name, node)
            fi = ci.find(name) if ci else None
            if fi:
                return Bound(v, fi)
            if ci is None:
                return BMeth(v, name)
            raise Unsupported(f'field {v.fam}.{name}', node)
        if isinstance(v, ClassV):
            if v.ci.is_enum():
                c = v.ci.find_const(name)
                if c:
                    return EnumV(v.ci, ast.literal_eval(c[0]))
            fi = v.ci.find(name)
            if fi:
                return FuncV(fi)
            c = v.ci.find_const(name)
            if c:
                return self.ev_const(c[0], node)
            if name == '__name__':
                return v.ci.name
            raise Unsupported('class attribute ' + name, node)
        if isinstance(v, SuperV):
            fi = self.cls_of(v.recv, s).find(name, after=v.after)
            if fi:
                return Bound(v.recv, fi)
            if name == '__init__':
                return BuiltinV('noop')
            raise Unsupported('super attribute ' + name, node)
        if isinstance(v, EnumV) and name == 'value':
            return v.term
        if isinstance(v, (ListRef, FListRef, SetRef, DictRef, str, StrV, Tup, Opaque, NdRef, SimV, ProcV)) or is_sym(v):
            return BMeth(v, name)
        raise Unsupported(f'attribute {name} of {type(v).__name__}', node)

    def hook_getattr(self, v, rec, name, s, node):
        return None

    def ev_const(self, node, at):
        v = ast.literal_eval(node)
        if isinstance(v, float):
            v = Fraction(v)
        if isinstance(v, (int, str, bool, Fraction)) or v is None:
            return v
        raise Unsupported('class constant', at)

    def fam_check(self, s, fr, node):
        if s.famver.get(fr.fam, 0) != fr.ver:
            raise Unsupported(f'reference to an object of a replaced {fr.fam} list', node)

    def fam_load(self, s, fr, name, node):
        self.fam_check(s, fr, node)
        ty = self.schema.FAMS[fr.fam][name]
        k = zint(fr.key)
        if ty == 'int':
            return sel(s.fam[(fr.fam, name, 0)], k)
        if ty == 'bool':
            return sel(s.fam[(fr.fam, name, 0)], k)
        if ty == 'nint':
            x = sel(s.fam[(fr.fam, name, 0)], k)
            return x if self.entails(s, x != NONE) else Opt(x == NONE, x)
        if isinstance(ty, tuple) and ty[0] == 'idx':
            a = {'component_1': sel(s.fam[(fr.fam, name, 0)], k), 'component_2': sel(s.fam[(fr.fam, name, 1)], k)}
            return self.new_obj(s, self.prog.classes[ty[1]], a, frozen=True)
        if ty == 'ilist':
            return FListRef(fr.fam, name, k, s.famver.get((fr.fam, name), 0))
        if isinstance(ty, tuple) and ty[0] == 'const':
            return ty[1]
        raise Unsupported('field type', node)

    def fam_store(self, s, fr, name, val, node):
        self.fam_check(s, fr, node)
        fields = self.schema.FAMS[fr.fam]
        if name not in fields:
            raise Unsupported(f'new field {fr.fam}.{name}', node)
        ty = fields[name]
        k = zint(fr.key)
        if ty == 'nint':
            a = (fr.fam, name, 0)
            if isinstance(val, Opt):
                raise Unsupported('possibly missing id stored', node)
            if val is not None:
                if not is_intlike(val):
                    raise Unsupported(f'value of type {type(val).__name__} stored in {fr.fam}.{name}', node)
                self.oblige(s, 'range', f'{fr.fam}.{name} is a valid number', zint(val) > NONE, node)
            s.fam[a] = store(s.fam[a], k, NONE if val is None else zint(val))
            return
        if ty in ('int', 'bool'):
            if isinstance(val, Opt) or not is_num(val) or is_reallike(val):
                raise Unsupported(f'value of type {type(val).__name__} stored in {fr.fam}.{name}', node)
            a = (fr.fam, name, 0)
            s.fam[a] = store(s.fam[a], k, zint(val) if ty == 'int' else zbool(val))
        elif isinstance(ty, tuple) and ty[0] == 'idx':
            if not isinstance(val, Obj) or s.objs[val.oid].cls.name != ty[1]:
                raise Unsupported(f'{fr.fam}.{name} set to something that is not a {ty[1]}', node)
            rec = s.objs[val.oid]
            for i, c in enumerate(('component_1', 'component_2')):
                x = rec.attrs.get(c)
                if not is_intlike(x):
                    raise Unsupported('index component', node)
                s.fam[(fr.fam, name, i)] = store(s.fam[(fr.fam, name, i)], k, zint(x))
            r = s.wobj(val.oid)
            r.frozen = True
        elif ty == 'ilist':
            if not isinstance(val, ListRef):
                raise Unsupported('list field set to a shared list', node)
            self.no_alias(s, val, node)
            n, el = self.list_arrays(s, val, node)
            if fr.fam in T.COUNTED and isinstance(n, int):
                t, chain = el, []
                for _ in range(n):
                    chain.append(t)
                    t = t.arg(0)
                for i, nd in enumerate(reversed(chain)):
                    s.add(T.cnt_append(nd.arg(0), z3.IntVal(i), nd.arg(2)))
            self.len_store(s, (fr.fam, name, 'len'), k, zint(n))
            s.fam[(fr.fam, name, 'el')] = store(s.fam[(fr.fam, name, 'el')], k, el)
            s.famver[(fr.fam, name)] = s.famver.get((fr.fam, name), 0) + 1
            s.lists[val.oid] = ('moved',)
        elif isinstance(ty, tuple) and ty[0] == 'const':
            if val != ty[1]:
                raise Unsupported(f'{fr.fam}.{name} is constant', node)

    def named(self, s, t):
        """t itself, or a fresh constant equal to it when it cannot occur in a quantifier pattern"""
        if pattern_safe(t):
            return t
        c = fresh('nm', t.sort())
        s.add(c == t)
        return c

    def name_fams(self, s):
        for k, a in s.fam.items():
            if not pattern_safe(a):
                s.fam[k] = self.named(s, a)

    def name_attrs(self, s):
        """numbers stored in objects, and the contents of lists, become constants where a pattern could not hold them"""
        for oid in list(s.objs):
            for nm, x in list(s.objs[oid].attrs.items()):
                if isinstance(x, z3.ArithRef) and not pattern_safe(x):
                    s.wobj(oid).attrs[nm] = self.named(s, x)
        for o, lv in list(s.lists.items()):
            if isinstance(lv, SList) and not (all(pattern_safe(e) for e in lv.els) and pattern_safe(zint(lv.n))):
                s.lists[o] = SList(self.named(s, zint(lv.n)), lv.ety, [self.named(s, e) for e in lv.els])

    def len_store(self, s, key, k, n):
        a = s.fam[key]
        s.fam[key] = store(a, k, n)
        if key[0] in T.COUNTED:
            s.add(T.sum_store(a, k, n, s.fam[key], key[1] == 'bond_ids'))

    def no_alias(self, s, ref, node, allow=1):
        """the list object must not be reachable from elsewhere (ownership moves into the family)"""
        cnt = 0
        for env in [s.env] + s.frames:
            for nm, v in env.items():
                if isinstance(v, ListRef) and v.oid == ref.oid:
                    cnt += 1
        for o in s.objs.values():
            if o.fwd is None:
                for v in o.attrs.values():
                    if isinstance(v, ListRef) and v.oid == ref.oid:
                        cnt += 1
        if cnt > 0 or ref.oid in s.readonly:
            raise Unsupported('list shared between owners', node)

    def list_arrays(self, s, ref, node):
        """(length, element array) of a list of ints"""
        if isinstance(ref, FListRef):
            self.flist_check(s, ref, node)
            return (sel(s.fam[(ref.fam, ref.field, 'len')], ref.key), sel(s.fam[(ref.fam, ref.field, 'el')], ref.key))
        lv = s.lists[ref.oid]
        if isinstance(lv, SList) and lv.ety == 'int':
            return lv.n, lv.els[0]
        if isinstance(lv, CList):
            a = fresh('clist', z3.ArraySort(I, I))
            for i, v in enumerate(lv.items):
                if not is_intlike(v):
                    raise Unsupported('list of non-ints', node)
                a = z3.Store(a, i, zint(v))
            return len(lv.items), a
        raise Unsupported('list contents', node)

    def flist_check(self, s, r, node):
        if s.famver.get((r.fam, r.field), 0) != r.ver:
            raise Unsupported('stale reference to a replaced list', node)

    def setattr(self, v, name, val, s, node):
        v = self.unopt(v, node, s)
        v = self.deref(v, s)
        if isinstance(v, FRef):
            return self.fam_store(s, v, name, val, node)
        if isinstance(v, Obj):
            rec = s.wobj(v.oid)
            if rec.frozen:
                raise Unsupported('mutation of an object that may be shared', node)
            owner = None
            for c in rec.cls.mro():
                owner = owner or self.schema.OWNERS.get((c.name, name))
            if owner:
                val = self.to_famlist(s, val, owner, node)
            elif isinstance(val, ListRef):
                t = self.schema.attr_type(rec.cls, name)
                if t and t.startswith('list:') and isinstance(s.lists[val.oid], CList):
                    s.lists[val.oid] = self.clist_to_s(s, s.lists[val.oid], t[5:], node)
            rec.attrs[name] = val
            return
        raise Unsupported('attribute assignment', node)

    def clist_to_s(self, s, lv, ety, node):
        arrs = [fresh('lst', z3.ArraySort(I, so)) for so in esorts(ety)]
        for i, x in enumerate(lv.items):
            for j, y in enumerate(eunpack(ety, x)):
                arrs[j] = z3.Store(arrs[j], i, y)
        return SList(len(lv.items), ety, arrs)

    def to_famlist(self, s, val, fam, node):
        if isinstance(val, ListRef):
            lv = s.lists[val.oid]
            if isinstance(lv, FamList) and lv.fam == fam:
                return val
            n = None
            if isinstance(lv, CList) and (not lv.items or all(x == 0 for x in lv.items if not is_sym(x))):
                n = len(lv.items)
            elif isinstance(lv, SList):
                n = lv.n
            if n is not None:
                s.famver[fam] = s.famver.get(fam, 0) + 1
                s.lists[val.oid] = FamList(fam, n, z3.K(I, z3.BoolVal(False)))
                return val
        raise Unsupported(f'list of {fam} objects replaced by something else', node)

    # ------------------------------------------------------------ publishing objects into a family
    def publish(self, s, ov, lst, idx, node, append=False):
        """store object value ov at slot idx of family list lst (ListRef)"""
        lv = s.lists[lst.oid]
        if not isinstance(ov, Obj) or s.objs[ov.oid].fwd is not None or s.objs[ov.oid].frozen:
            raise Unsupported(f'{lv.fam} slot given an object that may live elsewhere', node)
        rec = s.objs[ov.oid]
        if rec.cls.name != lv.fam:
            raise Unsupported(f'{lv.fam} slot given a {rec.cls.name}', node)
        k = zint(idx)
        if not append:
            s.famver[lv.fam] = self.newoid()      # an overwritten object would have stale references
        s.lists[lst.oid] = FamList(lv.fam, lv.n, z3.Store(lv.present, k, z3.BoolVal(True)))
        fr = FRef(lv.fam, k, s.famver.get(lv.fam, 0))
        r2 = s.wobj(ov.oid)
        attrs = dict(r2.attrs)
        r2.attrs, r2.fwd = {}, fr
        fields = self.schema.FAMS[lv.fam]
        for nm in fields:
            if nm not in attrs:
                if isinstance(fields[nm], tuple) and fields[nm][0] == 'const':
                    continue
                raise Unsupported(f'{lv.fam} object without {nm}', node)
        vers = dict(s.famver)
        for nm, x in attrs.items():
            if isinstance(x, ListRef) or fields.get(nm) is not None:
                self.fam_store(s, fr, nm, x, node)
            else:
                raise Unsupported(f'new field {lv.fam}.{nm}', node)
        # storing the initial lists of a fresh slot does not invalidate references to other objects' lists
        s.famver = vers
        return fr

    # ------------------------------------------------------------ sequences
    def length(self, v, s, node):
        if isinstance(v, ListRef):
            lv = s.lists[v.oid]
            if isinstance(lv, CList):
                return len(lv.items)
            if isinstance(lv, (SList, FamList)):
                return lv.n
        if isinstance(v, FListRef):
            self.flist_check(s, v, node)
            n = sel(s.fam[(v.fam, v.field, 'len')], v.key)
            s.add(n >= 0)
            return n
        if isinstance(v, SetRef):
            return len(s.sets[v.oid])
        if isinstance(v, DictRef):
            return len(s.dicts[v.oid])
        if isinstance(v, Tup):
            return len(v.items)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, IterV):
            return v.n
        if isinstance(v, RangeV):
            if v.step == 1:
                d = v.hi if not is_sym(v.lo) and v.lo == 0 else self.arith('Sub', v.hi, v.lo, s, node)
            elif v.step == -1:
                d = self.arith('Sub', v.lo, v.hi, s, node)
            else:
                raise Unsupported('range step', node)
            d = simp(d)
            if not is_sym(d):
                return max(d, 0)
            if self.entails(s, d >= 0):
                return d
            return z3.If(d >= 0, d, 0)
        if isinstance(v, Opaque):
            h = self.hook_len(v, s, node)
            if h is not None:
                return h
        raise Unsupported('len of ' + type(v).__name__, node)

    def hook_len(self, v, s, node):
        return None

    def getitem(self, v, i, s, node):
        v, i = self.unopt(v, node, s), self.unopt(i, node, s)
        v = self.deref(v, s)
        if isinstance(v, ExtV) and v.name == 'numpy.c_' and isinstance(i, Tup):
            return self.columns(s, i.items, node)
        if isinstance(v, DictRef):
            if not isinstance(i, str):
                i = self.dict_key(i, s, node)
                d = s.dicts[v.oid]
                here = [x for x in d if not isinstance(x, str)]
                for x in here:
                    if zint(x).eq(zint(i)) or self.entails(s, zint(x) == zint(i)):
                        return d[x]
                self.oblige(s, 'key', 'key present', Or([zint(x) == zint(i) for x in here]), node)
                if not here:
                    raise Unsupported('missing key', node)
                r = d[here[-1]]
                for x in here[-2::-1]:
                    r = self.merge_value(zint(x) == zint(i), d[x], r, s)
                    if r is NOMERGE:
                        raise Unsupported('dict values of different shapes', node)
                return r
            d = s.dicts[v.oid]
            self.oblige(s, 'key', f'key {i} present', i in d, node)
            if i not in d:
                raise Unsupported('missing key', node)
            return d[i]
        h = self.hook_getitem(v, i, s, node)
        if h is not None:
            return h
        if not is_intlike(i):
            raise Unsupported('subscript', node)
        i = simp(i)
        if isinstance(v, Tup) or self.as_clist(v, s) is not None:
            items = v.items if isinstance(v, Tup) else self.as_clist(v, s)
            if not is_sym(i):
                ok = -len(items) <= i < len(items)
                self.oblige(s, 'index', 'index in range', ok, node)
                if not ok:
                    raise Unsupported('index out of range', node)
                return items[i]
            if not items:
                self.oblige(s, 'index', 'index in range', False, node)
                raise Unsupported('index into empty list', node)
            self.oblige(s, 'index', 'index in range', z3.And(-len(items) <= i, i < len(items)), node)
            r = items[-1]
            for n in range(len(items) - 1):
                c = z3.Or(i == n, i == n - len(items))
                r = self.merge_value(c, items[n], r, s)
                if r is NOMERGE:
                    raise Unsupported('symbolic index into mixed list', node)
            return r
        n = self.length(v, s, node)
        pos = self.norm_index(i, n, s, node)
        if isinstance(v, RangeV):
            return self.arith('Add', v.lo, pos, s, node) if v.step == 1 else self.arith('Sub', v.lo, pos, s, node)
        if isinstance(v, IterV):
            return v.item(pos)
        if isinstance(v, FListRef):
            return sel(sel(s.fam[(v.fam, v.field, 'el')], v.key), zint(pos))
        if isinstance(v, ListRef):
            lv = s.lists[v.oid]
            if isinstance(lv, SList):
                return epack(lv.ety, lv.els, pos)
            if isinstance(lv, FamList):
                if not z3.eq(lv.present, z3.K(I, z3.BoolVal(True))):
                    self.oblige(s, 'slot', f'{lv.fam} object present', z3.Select(lv.present, zint(pos)), node)
                return FRef(lv.fam, zint(pos), s.famver.get(lv.fam, 0))
        raise Unsupported('subscript of ' + type(v).__name__, node)

    def hook_getitem(self, v, i, s, node):
        return None

    def norm_index(self, i, n, s, node):
        """bounds obligation; resolves Python's negative indices"""
        n_ = zint(n)
        if not is_sym(i) and i >= 0:
            self.oblige(s, 'index', 'index in range', zint(i) < n_, node)
            return i
        if not is_sym(i):
            self.oblige(s, 'index', 'index in range', z3.IntVal(-i) <= n_, node)
            return n_ + i
        if self.entails(s, i >= 0):
            self.oblige(s, 'index', 'index in range', i < n_, node)
            return i
        if self.entails(s, i < 0):
            self.oblige(s, 'index', 'index in range', -i <= n_, node)
            return n_ + i
        self.oblige(s, 'index', 'index in range', z3.And(-n_ <= i, i < n_), node)
        return z3.If(i >= 0, i, n_ + i)

    def e_Subscript(self, e, st):
        out = []
        if isinstance(e.slice, ast.Slice):
            parts = [x for x in (e.slice.lower, e.slice.upper, e.slice.step) if x is not None]
            for s, vs in self.evs([e.value] + parts, st):
                it = iter(vs[1:])
                sl = [next(it) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                out.append((s, self.slice(vs[0], sl, s, e)))
            return out
        for s, (v, i) in self.evs([e.value, e.slice], st):
            out.append((s, self.getitem(v, i, s, e)))
        return out

    def e_Slice(self, e, st):
        return [(st, ('slice',) if e.lower is None and e.upper is None and e.step is None else ('part',))]

    def slice(self, v, sl, s, node):
        h = self.hook_slice(v, sl, s, node)
        if h is not None:
            return h
        items = v.items if isinstance(v, Tup) else self.concrete_items(v, s, node)
        if items is not None and all(x is None or (isinstance(x, int)) for x in sl):
            r = items[slice(*sl)]
            return Tup(r) if isinstance(v, Tup) else self.new_list(s, CList(r))
        if sl == [None, None, None]:
            return self.list_copy(v, s, node)
        lo, hi, step = sl
        if isinstance(v, (ListRef, FListRef)) and step in (None, 1, -1) and not is_sym(step) and all(x is None or is_intlike(x) for x in (lo, hi)) \
           and (step != -1 or lo is None and hi is None):
            n = self.length(v, s, node)
            it = self.iterate(v, s, node)
            if step == -1:
                return self.list_copy(IterV(n, lambda k: it.item(self.arith('Sub', self.arith('Sub', n, 1, s, node), k, s, node))), s, node)

            def clip(x, dflt):
                if x is None:
                    return zint(dflt)
                x, m = zint(x), zint(n)
                return z3.If(x < 0, z3.If(x + m < 0, 0, x + m), z3.If(x > m, m, x))
            a, b = clip(lo, 0), clip(hi, n)
            if hi is None and lo == 0:
                return self.list_copy(v, s, node)

            def named(x, nm):
                x = simp(x)
                if not is_sym(x) or z3.is_const(x):
                    return x
                c = fresh(nm, I)
                s.add(c == x)
                return c
            size, a = named(z3.If(b > a, b - a, 0), 'size'), named(a, 'start')
            return self.list_copy(IterV(size, lambda k: it.item(self.arith('Add', a, k, s, node))), s, node)
        raise Unsupported('slice', node)

    def hook_slice(self, v, sl, s, node):
        return None

    def setitem(self, v, i, val, s, node):
        v, i = self.unopt(v, node, s), self.unopt(i, node, s)
        if isinstance(v, DictRef) and isinstance(i, str):
            d = dict(s.dicts[v.oid])
            d[i] = val
            s.dicts[v.oid] = d
            return
        if isinstance(v, ListRef):
            if v.oid in s.readonly:
                raise Unsupported('mutation of a default argument', node)
            lv = s.lists[v.oid]
            if isinstance(lv, CList):
                i = simp(i)
                if is_sym(i):
                    raise Unsupported('symbolic index store in concrete list', node)
                ok = -len(lv.items) <= i < len(lv.items)
                self.oblige(s, 'index', 'index in range', ok, node)
                if not ok:
                    raise Unsupported('index out of range', node)
                it = list(lv.items)
                it[i] = val
                s.lists[v.oid] = CList(it)
                return
            pos = self.norm_index(simp(i), lv.n, s, node)
            if isinstance(lv, SList):
                vs = eunpack(lv.ety, self.unopt(val, node, s))
                s.lists[v.oid] = SList(lv.n, lv.ety, [z3.Store(a, zint(pos), x) for a, x in zip(lv.els, vs)])
                return
            if isinstance(lv, FamList):
                self.publish(s, val, v, pos, node)
                return
        if isinstance(v, FListRef):
            pos = self.norm_index(simp(i), self.length(v, s, node), s, node)
            val = self.unopt(val, node, s)
            if not is_intlike(val):
                raise Unsupported('list element type', node)
            a = (v.fam, v.field, 'el')
            s.fam[a] = store(s.fam[a], v.key, z3.Store(sel(s.fam[a], v.key), zint(pos), zint(val)))
            return
        raise Unsupported('item assignment', node)

    def concrete_items(self, v, s, node):
        """tuple of item values when the length is known exactly, else None"""
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, SetRef):
            return s.sets[v.oid]
        if isinstance(v, str):
            return tuple(v)
        if isinstance(v, DictRef):
            return tuple(s.dicts[v.oid])
        if isinstance(v, DictKeys):
            return tuple(s.dicts[v.ref.oid])
        if isinstance(v, ListRef) and isinstance(s.lists[v.oid], CList):
            return s.lists[v.oid].items
        if isinstance(v, (ListRef, FListRef, RangeV, IterV)):
            n = simp(self.length(v, s, node))
            if is_sym(n):
                n = self.fixed_value(s, n)
            if n is not None and n <= 12:
                it = self.iterate(v, s, node)
                return tuple(it.item(z3.IntVal(k)) if not isinstance(v, RangeV) else it.item(k) for k in range(n))
        return None

    def fixed_value(self, s, n):
        for c in (4, 2, 0, 1, 3):
            if self.entails(s, n == c):
                return c
        return None

    def iterate(self, v, s, node):
        """a description of the sequence as it is now (later mutation of the list is caught by the loop's change check)"""
        v = self.unopt(v, node, s)
        if isinstance(v, IterV):
            return v
        if isinstance(v, (ListRef, FListRef, RangeV, Tup)):
            n = self.length(v, s, node)
            if isinstance(v, RangeV):
                if v.step == 1:
                    return IterV(n, lambda k, v=v: (v.lo + k) if not (v.lo == 0 and not is_sym(v.lo)) else k, v)
                return IterV(n, lambda k, v=v: v.lo - k, v)
            if isinstance(v, FListRef):
                el = sel(s.fam[(v.fam, v.field, 'el')], v.key)
                return IterV(n, lambda k: z3.Select(el, zint(k)), v)
            if isinstance(v, Tup):
                return IterV(n, lambda k: v.items[k], v)
            lv = s.lists[v.oid]
            if isinstance(lv, CList):
                return IterV(n, lambda k: lv.items[k if not is_sym(k) else simp(k)], v)
            if isinstance(lv, SList):
                return IterV(n, lambda k: epack(lv.ety, lv.els, k), v)
            if isinstance(lv, FamList):
                if not z3.eq(lv.present, z3.K(I, z3.BoolVal(True))):
                    j = fresh('j', I)
                    self.oblige(s, 'slot', 'all slots filled', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zint(lv.n)), z3.Select(lv.present, j)),
                                                                        patterns=[z3.Select(lv.present, j)]), node)
                ver = s.famver.get(lv.fam, 0)
                return IterV(n, lambda k: FRef(lv.fam, zint(k), ver), v)
        if isinstance(v, (SetRef, str, DictRef, DictKeys)):
            items = self.concrete_items(v, s, node)
            return IterV(len(items), lambda k: items[k if not is_sym(k) else simp(k)], v)
        raise Unsupported('iteration over ' + type(v).__name__, node)

    def set_order(self, s, items, node):
        """iteration order of a set: an unknown permutation of its (pairwise distinct) elements"""
        if len(items) <= 1 or not all(is_intlike(x) for x in items):
            if len(items) > 1:
                raise Unsupported('iteration over a set of non-ints', node)
            return list(items)
        self.trusted.add('iteration order of a set of ints: some permutation, a function of its insertion history')
        es = [fresh('ord', I) for _ in items]
        for e in es:
            s.add(z3.Or([e == zint(x) for x in items]))
        for x in items:
            s.add(z3.Or([e == zint(x) for e in es]))
        s.add(z3.Distinct(es))
        return es

    def list_copy(self, v, s, node):
        if isinstance(v, ListRef):
            lv = s.lists[v.oid]
            if isinstance(lv, FamList):
                raise Unsupported('copy of an owning list', node)
            return self.new_list(s, lv)
        if isinstance(v, FListRef):
            items = self.concrete_items(v, s, node)
            if items is not None:
                return self.new_list(s, CList(items))
            n, el = self.list_arrays(s, v, node)
            return self.new_list(s, SList(n, 'int', [el]))
        if isinstance(v, Tup):
            return self.new_list(s, CList(v.items))
        if isinstance(v, SetRef):
            return self.new_list(s, CList(self.set_order(s, s.sets[v.oid], node)))
        if isinstance(v, (RangeV, IterV)):
            items = self.concrete_items(v, s, node)
            if items is not None:
                return self.new_list(s, CList(items))
            it = self.iterate(v, s, node)
            j = fresh('j', I)
            x = it.item(j)
            ety = ety_of(x)
            if ety is None:
                raise Unsupported('list of such items', node)
            arrs = [fresh('lst', z3.ArraySort(I, so)) for so in esorts(ety)]
            for a, y in zip(arrs, eunpack(ety, x)):
                s.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zint(it.n)), z3.Select(a, j) == y), patterns=[z3.Select(a, j)]))
            return self.new_list(s, SList(it.n, ety, arrs))
        if isinstance(v, (DictKeys, DictRef)):
            return self.new_list(s, CList(self.concrete_items(v, s, node)))
        raise Unsupported('list()', node)

    def list_binop(self, op, a, b, s, node):
        if op == 'Mult':
            l, n = (a, b) if isinstance(a, ListRef) else (b, a)
            items = self.as_clist(l, s)
            if items is None or not is_intlike(n):
                raise Unsupported('list repetition', node)
            if not is_sym(n):
                return self.new_list(s, CList(items * n))
            if len(items) == 1 and ety_of(items[0]):
                ety = ety_of(items[0])
                arrs = [z3.K(I, x) for x in eunpack(ety, items[0])]
                m = n if self.entails(s, n >= 0) else z3.If(n >= 0, n, 0)
                return self.new_list(s, SList(m, ety, arrs))
            raise Unsupported('list repetition', node)
        if op == 'Add':
            r = self.list_copy(a, s, node)
            self.list_extend(r, b, s, node)
            return r
        raise Unsupported('list operator', node)

    def list_extend(self, dst, src, s, node):
        """dst += src, in place"""
        if isinstance(dst, ListRef) and dst.oid in s.readonly:
            raise Unsupported('mutation of a default argument', node)
        sit = self.concrete_items(src, s, node)
        if isinstance(src, SetRef):
            sit = self.set_order(s, sit, node)
        if isinstance(dst, ListRef) and isinstance(s.lists[dst.oid], CList) and sit is not None:
            s.lists[dst.oid] = CList(s.lists[dst.oid].items + tuple(sit))
            return
        if sit is not None and len(sit) <= 4:
            for x in sit:
                self.list_append(dst, x, s, node)
            return
        it = self.iterate(src, s, node)
        n2 = zint(it.n)
        if isinstance(dst, ListRef) and isinstance(s.lists[dst.oid], FamList):
            raise Unsupported('extending an owning list', node)
        if isinstance(dst, FListRef):
            n1, e1s = *self.list_arrays(s, dst, node)[:1], [self.list_arrays(s, dst, node)[1]]
            ety = 'int'
        else:
            lv = s.lists[dst.oid]
            j = fresh('j', I)
            ety = lv.ety if isinstance(lv, SList) else ety_of(it.item(j))
            if ety is None:
                raise Unsupported('extend', node)
            if isinstance(lv, CList):
                lv = self.clist_to_s(s, lv, ety, node)
            n1, e1s = lv.n, lv.els
        n1 = zint(n1)
        counted = ety == 'int' and isinstance(src, FListRef) and src.fam in T.COUNTED
        if isinstance(dst, FListRef) and dst.fam in T.COUNTED or counted:
            n1, e1s = self.named(s, n1), [self.named(s, e) for e in e1s]
        j = fresh('j', I)
        new = []
        for idx, e1 in enumerate(e1s):
            E = fresh('ext', z3.ArraySort(I, e1.range()))
            src_j = eunpack(ety, it.item(j))[idx]
            src_off = z3.substitute(src_j, (j, j - n1))
            s.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n1), z3.Select(E, j) == z3.Select(e1, j)), patterns=[z3.Select(E, j), z3.Select(e1, j)]))
            s.add(z3.ForAll([j], z3.Implies(z3.And(n1 <= j, j < n1 + n2), z3.Select(E, j) == src_off), patterns=[z3.Select(E, j)]))
            pats = [src_j] if z3.is_select(src_j) else None
            if pats:
                s.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n2), z3.Select(E, n1 + j) == src_j), patterns=pats))
            new.append(E)
        s.add(n2 >= 0)
        if isinstance(dst, FListRef):
            a, ln = (dst.fam, dst.field, 'el'), (dst.fam, dst.field, 'len')
            s.fam[a] = store(s.fam[a], dst.key, new[0])
            if dst.fam in T.COUNTED and isinstance(src, FListRef):
                e1, (_, e2) = e1s[0], self.list_arrays(s, src, node)
                nn = fresh('len', I)
                s.add(nn == n1 + n2)
                s.add(T.cnt_concat(new[0], nn, e1, n1, e2, n2))
            else:
                nn = n1 + n2
            self.len_store(s, ln, dst.key, nn)
        elif counted:
            nn = fresh('len', I)
            s.add(nn == n1 + n2)
            s.add(T.cnt_concat(new[0], nn, e1s[0], n1, self.list_arrays(s, src, node)[1], n2))
            s.lists[dst.oid] = SList(nn, ety, new)
        else:
            s.lists[dst.oid] = SList(n1 + n2, ety, new)

    def list_append(self, dst, v, s, node):
        v = self.unopt(v, node, s) if isinstance(v, Opt) else v
        v = self.hook_element(v, s)
        if isinstance(dst, FListRef):
            if not is_intlike(v):
                raise Unsupported('append type', node)
            n, el = self.list_arrays(s, dst, node)
            s.add(n >= 0)
            a, ln = (dst.fam, dst.field, 'el'), (dst.fam, dst.field, 'len')
            if dst.fam in T.COUNTED:
                el, n = self.named(s, el), self.named(s, n)
                E, n1 = fresh('app', z3.ArraySort(I, I)), fresh('len', I)
                s.add(E == z3.Store(el, n, zint(v)), n1 == n + 1)
                s.add(T.cnt_append(el, n, zint(v), E, n1))
            else:
                E, n1 = z3.Store(el, n, zint(v)), n + 1
            s.fam[a] = store(s.fam[a], dst.key, E)
            self.len_store(s, ln, dst.key, n1)
            return
        if dst.oid in s.readonly:
            raise Unsupported('mutation of a default argument', node)
        lv = s.lists[dst.oid]
        if isinstance(lv, tuple):
            raise Unsupported('use of a list that was moved into an object', node)
        if isinstance(lv, CList):
            if isinstance(v, Obj) and s.objs[v.oid].cls.name in getattr(self.schema, 'LOCAL_FAMS', ()) and not lv.items:
                self.to_famlist(s, dst, s.objs[v.oid].cls.name, node)
                lv = s.lists[dst.oid]
            else:
                s.lists[dst.oid] = CList(lv.items + (v,))
                return
        if isinstance(lv, SList):
            vs = eunpack(lv.ety, v)
            s.lists[dst.oid] = SList(zint(lv.n) + 1, lv.ety, [z3.Store(a, zint(lv.n), x) for a, x in zip(lv.els, vs)])
            return
        n = lv.n
        s.lists[dst.oid] = FamList(lv.fam, zint(n) + 1, lv.present)
        self.publish(s, v, dst, n, node, append=True)

    def set_add(self, s, ref, v, node):
        """add v to a set: forks on membership unless decided"""
        if not is_intlike(v):
            raise Unsupported('set of non-ints', node)
        items = s.sets[ref.oid]
        inn = simp(self.contains(v, ref, s, node)) if items else False
        if inn is True:
            return [(s, ref)]
        if inn is not False:
            if self.entails(s, inn):
                return [(s, ref)]
            if not self.entails(s, z3.Not(inn)):
                s2 = s.copy()
                s2.add(inn)
                s.add(z3.Not(inn))
                s.sets[ref.oid] = items + (v,)
                return [(s, ref), (s2, ref)]
        s.sets[ref.oid] = items + (v,)
        return [(s, ref)]

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        if any(isinstance(a, ast.Starred) for a in e.args):
            raise Unsupported('star argument', e)
        if isinstance(e.func, ast.Name) and e.func.id == 'print' and 'print' not in st.env and 'print' not in self.curmod.ns:
            # arguments are still executed for their obligations when they contain calls
            outs = [st]
            if any(isinstance(n, ast.Call) for a in e.args for n in ast.walk(a)):
                outs = [s for s, _ in self.evs_loose(e.args, st)]
            return [(s, None) for s in outs]
        if any(isinstance(a, ast.GeneratorExp) for a in e.args):
            return self.call_genexp(e, st)
        out = []
        for s, f in self.ev(e.func, st):
            kws = [k for k in e.keywords]
            for s2, vs in self.evs(list(e.args) + [k.value for k in kws], s):
                args, kv = vs[:len(e.args)], {}
                for k, v in zip(kws, vs[len(e.args):]):
                    if k.arg is None:
                        if isinstance(v, DictRef):
                            kv.update(s2.dicts[v.oid])
                        else:
                            raise Unsupported('** argument', e)
                    else:
                        kv[k.arg] = v
                out += self.call(s2, f, args, kv, e)
        return out

    def evs_loose(self, es, st):
        try:
            return self.evs(es, st)
        except Unsupported:
            return [(st, [])]

    def call(self, s, f, args, kv, node):
        f = self.unopt(f, node, s)
        if isinstance(f, Bound):
            return self.call_func(s, f.fi, [f.recv] + args, kv, node, recv=f.recv)
        if isinstance(f, FuncV):
            recv = args[0] if f.fi.cls and args and isinstance(args[0], (Obj, FRef)) else None
            return self.call_func(s, f.fi, args, kv, node, recv=recv)
        if isinstance(f, ClassV):
            if f.ci.is_enum():
                raise Unsupported('enum construction', node)
            o = self.new_obj(s, f.ci)
            fi = f.ci.find('__init__')
            if fi is None:
                return [(s, o)]
            return [(s2, o) for s2, _ in self.call_func(s, fi, [o] + args, kv, node, recv=o)]
        if isinstance(f, BMeth):
            return self.call_bmeth(s, f, args, kv, node)
        if isinstance(f, BuiltinV):
            return self.call_builtin(s, f.name, args, kv, node)
        if isinstance(f, ExtV):
            return self.call_ext(s, f.name, args, kv, node)
        if isinstance(f, LambdaV) and f.fi is not None:
            return self.call_closure(s, f, args, kv, node)
        if isinstance(f, LambdaV):
            if kv:
                raise Unsupported('lambda arguments', node)
            return self.call_lambda(s, f, args, node)
        h = self.hook_call(s, f, args, kv, node)
        if h is not None:
            return h
        raise Unsupported('call of ' + type(f).__name__, node)

    def hook_call(self, s, f, args, kv, node):
        return None

    def captured(self, s, f, node):
        """the variables a lambda or nested function sees, as they are when it is called"""
        for env in (s.env, *reversed(s.frames)):
            if env.get('%frame') == f.env.get('%frame'):
                return dict(env)
        raise Unsupported('closure called after its function returned', node)

    def call_closure(self, s, f, args, kv, node):
        env = self.captured(s, f, node)
        own = self.bind(s, f.fi, args, kv, node)
        env = {k: v for k, v in env.items() if k not in f.locals and k != '%frame'}
        env.update(own)
        return self.inline(s, f.fi, env, node)

    def call_lambda(self, s, f, args, node):
        if f.fi is not None:
            return self.call_closure(s, f, args, {}, node)
        a = f.node.args
        if len(a.args) != len(args) or a.defaults or a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs:
            raise Unsupported('lambda arguments', node)
        env = self.captured(s, f, node)
        env.update({x.arg: v for x, v in zip(a.args, args)})
        self.frame_no += 1
        env['%frame'] = f'frame{self.frame_no}'
        saved, mod, cls = s.env, self.curmod, self.curcls
        s.frames.append(saved)
        s.env, self.curmod, self.curcls = env, f.module, f.cls
        outs = self.ev(f.node.body, s)
        self.curmod, self.curcls = mod, cls
        for s2, _ in outs:
            s2.env = dict(s2.frames.pop())
        return outs

    def bind(self, s, fi, args, kv, node):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env, kv = {}, dict(kv)
        if len(args) > len(names) and not a.vararg:
            self.oblige(s, 'arity', f'call of {fi.qual} has matching arguments', False, node)
            raise Unsupported('too many arguments', node)
        if a.vararg:
            raise Unsupported('*args', node)
        for n, v in zip(names, args):
            env[n] = v
        for n in names[len(args):] + [x.arg for x in a.kwonlyargs]:
            if n in kv:
                env[n] = kv.pop(n)
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if n not in defs:
                    self.oblige(s, 'arity', f'call of {fi.qual} has matching arguments', False, node)
                    raise Unsupported(f'missing argument {n} of {fi.qual}', node)
                d = defs[n]
                if isinstance(d, (ast.List, ast.Dict, ast.Set)):
                    if isinstance(d, ast.List) and not d.elts:
                        r = self.new_list(s, CList(()))
                        s.readonly = s.readonly | {r.oid}
                        env[n] = r
                        continue
                    raise Unsupported('mutable default', node)
                if isinstance(d, ast.Tuple) and not d.elts:
                    env[n] = Tup(())
                    continue
                saved, mod = s.env, self.curmod
                s.env, self.curmod = {}, fi.module
                (s_, v), = self.ev(d, s)
                s.env, self.curmod = saved, mod
                env[n] = v
        if a.kwarg:
            o = self.newoid()
            s.dicts[o] = kv
            env[a.kwarg.arg] = DictRef(o)
        elif kv:
            self.oblige(s, 'arity', f'call of {fi.qual} has matching arguments', False, node)
            raise Unsupported('unexpected keyword', node)
        return env

    def call_func(self, s, fi, args, kv, node, recv=None):
        env = self.bind(s, fi, args, kv, node)
        c = self.contracts.lookup(self, s, fi, recv)
        if c is not None and not c.inline:
            self.functions_used[c.key] = 'contract'
            return self.apply_contract(s, c, fi, env, node)
        self.functions_used.setdefault(fi.qual, 'inlined')
        return self.inline(s, fi, env, node)

    def inline(self, s, fi, env, node):
        if self.depth > 30 or self.callstack.count(fi) > 1:
            raise Unsupported('recursion or call depth at ' + fi.qual, node)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(fi.node)):
            raise Unsupported('generator ' + fi.qual, node)
        if fi.node.decorator_list:
            raise Unsupported('decorator on ' + fi.qual, node)
        mod, cls = self.curmod, self.curcls
        s.frames.append(s.env)
        self.frame_no += 1
        s.env = env
        env['%frame'] = f'frame{self.frame_no}'
        self.curmod, self.curcls = fi.module, fi.cls
        self.depth += 1
        self.callstack.append(fi)
        try:
            outs = self.block(fi.node.body, s)
        finally:
            self.depth -= 1
            self.callstack.pop()
            self.curmod, self.curcls = mod, cls
        res = []
        for s2, o in outs:
            if o is None:
                res.append((s2, None))
            elif o[0] == 'return':
                res.append((s2, o[1]))
            else:
                raise Unsupported('break outside loop', node)
        for s2, _ in res:
            s2.env = dict(s2.frames.pop())
        return self.merge_vals(res) if len(res) > 1 else res

    def apply_contract(self, s, c, fi, env, node):
        self.name_fams(s)
        ctx = self.contracts.ctx(self, c, fi, env, s)
        relied = self.prop is not None and self.prop not in c.props     # verified, with its preconditions, by the checks of other properties
        if relied:
            self.relied.add((c.key, c.cls or '') )
        for cl in () if relied else c.requires(ctx):
            if self.wanted(cl):
                self.oblige_clause(s, 'precondition', cl, node, prefix=f'{c.key}: ', add=True)
        ctx.applying = True
        ctx.old_state = s.copy()
        ctx.old = type(ctx.old)(ctx.w, ctx.old_state)
        out, dead = [], 0
        for case in c.cases:
            s2 = s.copy()
            ctx.case = case
            res = c.havoc(ctx, s2)
            ctx.bind_new(s2, res)
            for cl in c.ensures(ctx):
                if self.wanted(cl):
                    s2.add(cl.hyp())
            dead += solve.prove(s2.pc + s2.qh, z3.BoolVal(False), rlimit=200000)[0]
            out.append((s2, res))
        if dead == len(out) and not solve.prove(s.pc + s.qh, z3.BoolVal(False), rlimit=1000000)[0]:
            raise Unsupported(f'the contract of {c.key} is contradictory here', node)
        return out

    prop = None         # the property being checked: clauses tagged for other properties are left out

    def wanted(self, cl):
        return self.prop is None or not cl.props or self.prop in cl.props

    # ------------------------------------------------------------ builtins
    def call_builtin(self, s, name, args, kv, node):
        if name == 'noop':
            return [(s, None)]
        if name == 'print':
            return [(s, None)]
        if name == 'super':
            if args:
                if len(args) == 2 and isinstance(args[0], ClassV):
                    return [(s, SuperV(args[1], args[0].ci))]
                raise Unsupported('super()', node)
            first = self.curself(s)
            return [(s, SuperV(first, self.curcls))]
        if kv and name not in ('dict', 'max', 'min', 'sorted'):
            raise Unsupported('keyword argument of ' + name, node)
        if name == 'len':
            return [(s, self.length(self.unopt(args[0], node, s), s, node))]
        if name == 'range':
            vs = [self.num(a, node, s) for a in args]
            if len(vs) == 1:
                return [(s, RangeV(0, vs[0]))]
            if len(vs) == 2:
                return [(s, RangeV(vs[0], vs[1]))]
            if vs[2] in (1, -1):
                return [(s, RangeV(*vs))]
            raise Unsupported('range step', node)
        if name == 'pow' and len(args) == 2 and not kv:
            return self.binop('Pow', args[0], args[1], s, node)
        if name == 'abs':
            v = self.num(args[0], node, s)
            if not is_sym(v):
                return [(s, abs(v))]
            v = zint(v) if v.sort() != R else v
            return [(s, z3.If(v >= 0, v, -v))]
        if name in ('max', 'min'):
            if kv:
                raise Unsupported('key=', node)
            if len(args) == 1:
                items = self.concrete_items(args[0], s, node)
                if items is None:
                    return self.seq_extreme(s, name, args[0], node)
                self.oblige(s, 'empty', name + '() of a non-empty sequence', len(items) > 0, node)
            else:
                items = args
            r = self.num(items[0], node, s)
            for x in items[1:]:
                x = self.num(x, node, s)
                c = self.compare('Gt' if name == 'max' else 'Lt', x, r, s, node)
                r = Ite(c, to_z3(x), to_z3(r)) if not isinstance(c, bool) else (x if c else r)
            return [(s, r)]
        if name == 'sum':
            items = self.concrete_items(args[0], s, node)
            if items is None:
                raise Unsupported('sum of a symbolic sequence', node)
            r = args[1] if len(args) > 1 else 0
            for x in items:
                r = self.arith('Add', r, self.num(x, node, s), s, node)
            return [(s, r)]
        if name in ('any', 'all'):
            items = self.concrete_items(args[0], s, node)
            if items is None:
                it = self.iterate(args[0], s, node)
                j = fresh('j', I)
                b = self.uncomp(zbool(self.truth(it.item(j), node, s)))
                rng = z3.And(SEEN(j), 0 <= j, j < zint(it.n))
                item = self.uncomp(it.item(j))
                pats = [SEEN(j)] + ([item] if z3.is_expr(item) and z3.is_select(item) and item.arg(1).eq(j) else [])
                return [(s, z3.ForAll([j], z3.Implies(rng, b), patterns=pats) if name == 'all' else z3.Not(z3.ForAll([j], z3.Not(z3.And(rng, b)), patterns=pats)))]
            ts = [zbool(self.truth(x, node, s)) for x in items]
            return [(s, simp(And(ts) if name == 'all' else Or(ts)))]
        if name == 'list':
            if not args:
                return [(s, self.new_list(s, CList(())))]
            return [(s, self.list_copy(args[0], s, node))]
        if name == 'tuple':
            items = self.concrete_items(args[0], s, node) if args else ()
            if items is None:
                raise Unsupported('tuple()', node)
            return [(s, Tup(items))]
        if name in ('set', 'frozenset'):
            r = self.new_set(s)
            if not args:
                return [(s, r)]
            items = self.concrete_items(args[0], s, node)
            if items is None:
                raise Unsupported('set() of a symbolic sequence', node)
            cur = [(s, r)]
            for v in items:
                cur = [x for s1, r1 in cur for x in self.set_add(s1, r1, v, node)]
            return cur
        if name == 'dict':
            if args:
                raise Unsupported('dict()', node)
            o = self.newoid()
            s.dicts[o] = dict(kv)
            return [(s, DictRef(o))]
        if name == 'int':
            v = self.num(args[0], node, s)
            if is_intlike(v):
                return [(s, v)]
            if is_boollike(v):
                return [(s, zint(v) if is_sym(v) else int(v))]
            raise Unsupported('int() of a real', node)
        if name == 'float':
            v = self.num(args[0], node, s)
            return [(s, Fraction(v) if not is_sym(v) else zreal(v))]
        if name == 'bool':
            return [(s, self.truth(args[0], node, s))]
        if name == 'str':
            return [(s, StrV(self.fmt(args[0], '')) if not isinstance(args[0], str) else args[0])]
        if name == 'type':
            return [(s, self.type_of(args[0], s, node))]
        if name == 'isinstance':
            return [(s, self.isinstance_(args[0], args[1], s, node))]
        if name == 'enumerate':
            start = args[1] if len(args) > 1 else 0
            items = self.concrete_items(args[0], s, node)
            if items is not None:
                if isinstance(args[0], SetRef):
                    items = self.set_order(s, items, node)
                return [(s, Tup([Tup((self.arith('Add', start, i, s, node), x)) for i, x in enumerate(items)]))]
            it = self.iterate(args[0], s, node)
            return [(s, IterV(it.n, lambda k: Tup((k if start == 0 else self.arith('Add', start, k, s, node), it.item(k))), it.src))]
        if name == 'zip':
            its = [self.concrete_items(a, s, node) for a in args]
            if all(i is not None for i in its):
                return [(s, Tup([Tup(t) for t in zip(*its)]))]
            raise Unsupported('zip of symbolic sequences', node)
        if name == 'map':
            f = args[0]
            its = [self.concrete_items(a, s, node) for a in args[1:]]
            if any(i is None for i in its):
                raise Unsupported('map over a symbolic sequence', node)
            cur = [(s, [])]
            for t in zip(*its):
                cur = [(s2, acc + [v]) for s1, acc in cur for s2, v in self.call(s1, f, list(t), {}, node)]
            return [(s1, Tup(acc)) for s1, acc in cur]
        if name == 'reversed':
            items = self.concrete_items(args[0], s, node)
            if items is not None:
                return [(s, Tup(tuple(reversed(items))))]
            if isinstance(args[0], RangeV) and args[0].step == 1:
                r = args[0]
                return [(s, RangeV(self.arith('Sub', r.hi, 1, s, node), self.arith('Sub', r.lo, 1, s, node), -1))]
            it = self.iterate(args[0], s, node)
            n = it.n
            return [(s, IterV(n, lambda k: it.item(zint(n) - 1 - k), it.src))]
        if name == 'divmod':
            return [(s, Tup((self.arith('FloorDiv', args[0], args[1], s, node), self.arith('Mod', args[0], args[1], s, node))))]
        raise Unsupported('builtin ' + name, node)

    def curself(self, s):
        fi = self.callstack[-1] if self.callstack else self.curfi
        a = fi.node.args.args
        return s.env[a[0].arg]

    def seq_extreme(self, s, name, seq, node):
        it = self.iterate(seq, s, node)
        n = zint(it.n)
        self.oblige(s, 'empty', name + '() of a non-empty sequence', n > 0, node)
        j, w = fresh('j', I), fresh('arg' + name, I)
        x = it.item(j)
        if not is_num(x):
            raise Unsupported(name, node)
        m = fresh(name, x.sort() if is_sym(x) else I)
        s.add(0 <= w, w < n, m == it.item(w))
        s.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), (x <= m) if name == 'max' else (x >= m)),
                        patterns=[x] if z3.is_select(x) else []))
        return [(s, m)]

    def type_of(self, v, s, node):
        v = self.unopt(v, node, s)
        v = self.deref(v, s)
        if isinstance(v, Obj):
            return ClassV(s.objs[v.oid].cls)
        if isinstance(v, FRef):
            return ClassV(self.prog.classes[v.fam])
        if is_boollike(v):
            return BuiltinV('bool')
        if is_intlike(v):
            return BuiltinV('int')
        if is_reallike(v):
            return BuiltinV('float')
        if isinstance(v, (ListRef, FListRef)):
            return BuiltinV('list')
        if isinstance(v, Tup):
            return BuiltinV('tuple')
        if isinstance(v, (str, StrV)):
            return BuiltinV('str')
        if isinstance(v, SetRef):
            return BuiltinV('set')
        if isinstance(v, DictRef):
            return BuiltinV('dict')
        if isinstance(v, RangeV):
            return BuiltinV('range')
        if v is None:
            return TypeV('NoneType')
        raise Unsupported('type()', node)

    def isinstance_(self, v, t, s, node):
        if isinstance(v, Opt):
            return And(Not(zbool(v.isnone)), zbool(self.isinstance_(v.val, t, s, node)))
        if isinstance(t, Tup):
            return any(self.isinstance_(v, x, s, node) for x in t.items)
        ty = self.type_of(v, s, node)
        if isinstance(ty, ClassV):
            return isinstance(t, ClassV) and ty.ci.subclass_of(t.ci)
        if isinstance(t, ClassV):
            return False
        if isinstance(t, BuiltinV):
            return ty.name == t.name or (ty.name == 'bool' and t.name == 'int')
        raise Unsupported('isinstance', node)

    def call_bmeth(self, s, f, args, kv, node):
        v, nm = f.recv, f.name
        if isinstance(v, (ListRef, FListRef)):
            if nm == 'append':
                self.list_append(v, args[0], s, node)
                return [(s, None)]
            if nm == 'extend':
                self.list_extend(v, args[0], s, node)
                return [(s, None)]
            if nm == 'copy':
                return [(s, self.list_copy(v, s, node))]
            if nm == '__len__':
                return [(s, self.length(v, s, node))]
            items = self.concrete_items(v, s, node) if nm in ('remove', 'index', 'count') or isinstance(v, FListRef) else self.as_clist(v, s)
            if items is None:
                raise Unsupported(f'list.{nm} on a symbolic list', node)
            if nm == 'index':
                eqs = [zbool(self.equal(x, args[0], s, node)) for x in items]
                self.oblige(s, 'value', 'element is in the list', simp(Or(eqs)), node)
                r = z3.IntVal(len(items) - 1)
                for i in range(len(items) - 2, -1, -1):
                    r = z3.If(eqs[i], z3.IntVal(i), r)
                return [(s, simp(r))]
            if nm == 'count':
                return [(s, simp(z3.Sum([z3.If(zbool(self.equal(x, args[0], s, node)), 1, 0) for x in items] + [z3.IntVal(0)])))]
            if nm == 'remove':
                eqs = [zbool(self.equal(x, args[0], s, node)) for x in items]
                self.oblige(s, 'value', 'element to remove is in the list', simp(Or(eqs)), node)
                if not items:
                    raise Unsupported('remove from empty list', node)
                out, hit = [], z3.BoolVal(False)
                for i in range(len(items) - 1):
                    hit = z3.Or(hit, eqs[i])
                    h = simp(hit)
                    if h is True:
                        out.append(items[i + 1])
                    elif h is False:
                        out.append(items[i])
                    elif self.entails(s, hit):
                        out.append(items[i + 1])
                    elif self.entails(s, z3.Not(hit)):
                        out.append(items[i])
                    else:
                        m = self.merge_value(hit, items[i + 1], items[i], s)
                        if m is NOMERGE:
                            raise Unsupported('remove', node)
                        out.append(m)
                self.store_items(s, v, out, node)
                return [(s, None)]
            if isinstance(v, FListRef):
                raise Unsupported(f'list.{nm} on a stored list', node)
            if v.oid in s.readonly:
                raise Unsupported('mutation of a default argument', node)
            if nm == 'reverse':
                s.lists[v.oid] = CList(tuple(reversed(items)))
                return [(s, None)]
            if nm == 'clear':
                s.lists[v.oid] = CList(())
                return [(s, None)]
            if nm == 'pop':
                i = args[0] if args else -1
                if not is_sym(i):
                    ok = -len(items) <= i < len(items)
                    self.oblige(s, 'index', 'pop index in range', ok, node)
                    if ok:
                        it = list(items)
                        r = it.pop(i)
                        s.lists[v.oid] = CList(it)
                        return [(s, r)]
            if nm == 'insert' and not is_sym(args[0]):
                it = list(items)
                it.insert(args[0], args[1])
                s.lists[v.oid] = CList(it)
                return [(s, None)]
            raise Unsupported('list.' + nm, node)
        if isinstance(v, SetRef):
            if nm == 'add':
                return [(s1, None) for s1, _ in self.set_add(s, v, args[0], node)]
            if nm == 'copy':
                return [(s, self.new_set(s, s.sets[v.oid]))]
            if nm == 'update':
                items = self.concrete_items(args[0], s, node)
                if items is not None:
                    cur = [(s, v)]
                    for x in items:
                        cur = [y for s1, r in cur for y in self.set_add(s1, r, x, node)]
                    return [(s1, None) for s1, _ in cur]
            if nm in ('discard', 'remove'):
                items = s.sets[v.oid]
                res = []
                rest = s
                for i, x in enumerate(items):
                    c = simp(self.equal(x, args[0], rest, node))
                    if c is False or (c is not True and self.entails(rest, z3.Not(zbool(c)))):
                        continue
                    if c is True or self.entails(rest, zbool(c)):
                        rest.sets[v.oid] = items[:i] + items[i + 1:]
                        return res + [(rest, None)]
                    s1 = rest.copy()
                    s1.add(zbool(c))
                    s1.sets[v.oid] = items[:i] + items[i + 1:]
                    res.append((s1, None))
                    rest = rest.copy()
                    rest.add(z3.Not(zbool(c)))
                if nm == 'remove':
                    self.oblige(rest, 'value', 'element to remove is in the set', False, node)
                    return res
                return res + [(rest, None)]
            raise Unsupported('set.' + nm, node)
        if isinstance(v, DictRef):
            if nm == 'keys':
                return [(s, DictKeys(v))]
            if nm == '__str__':
                return [(s, StrV([('sym', 'dict')]))]
            if nm in ('get', 'setdefault'):
                out, dflt = [], args[1] if len(args) > 1 else None
                for s1, x in self.dict_find(s, v, args[0], node):
                    if x is None and nm == 'setdefault':
                        s1.dicts[v.oid] = {**s1.dicts[v.oid], self.dict_key(args[0], s1, node): dflt}
                    out.append((s1, dflt if x is None else s1.dicts[v.oid][x]))
                return out
            if nm == 'update' and len(args) <= 1 and not s.dicts[v.oid].keys() - {k for k in s.dicts[v.oid] if isinstance(k, str)}:
                new = dict(s.dicts[v.oid])
                if args:
                    if not isinstance(args[0], DictRef) or any(not isinstance(k, str) for k in s.dicts[args[0].oid]):
                        raise Unsupported('dict.update', node)
                    new.update(s.dicts[args[0].oid])
                new.update(kv)
                s.dicts[v.oid] = new
                return [(s, None)]
            if nm == 'values' and not args:
                return [(s, Tup(s.dicts[v.oid].values()))]
            if nm == 'items' and not args:
                return [(s, Tup(Tup((k, x)) for k, x in s.dicts[v.oid].items()))]
            raise Unsupported('dict.' + nm, node)
        if isinstance(v, str) and nm == 'format':
            import string
            parts, auto = [], 0
            for lit, field, spec, conv in string.Formatter().parse(v):
                parts.append(lit)
                if field is None:
                    continue
                if field == '':
                    x = args[auto]
                    auto += 1
                elif field.isdigit():
                    x = args[int(field)]
                elif field in kv:
                    x = kv[field]
                else:
                    raise Unsupported('format field', node)
                parts += self.fmt(x, spec)
            r = StrV(parts)
            return [(s, r)]
        if isinstance(v, (str, StrV)) and nm in ('join', 'strip', 'upper', 'lower'):
            return [(s, StrV([('sym', 'str.' + nm)]))]
        h = self.hook_bmeth(s, f, args, kv, node)
        if h is not None:
            return h
        raise Unsupported(f'method {nm} of {type(v).__name__}', node)

    def hook_bmeth(self, s, f, args, kv, node):
        return None

    def store_items(self, s, v, items, node):
        if isinstance(v, ListRef):
            if v.oid in s.readonly:
                raise Unsupported('mutation of a default argument', node)
            s.lists[v.oid] = CList(items)
            return
        el = sel(s.fam[(v.fam, v.field, 'el')], v.key)
        for i, x in enumerate(items):
            el = z3.Store(el, i, zint(x))
        a, ln = (v.fam, v.field, 'el'), (v.fam, v.field, 'len')
        s.fam[a] = store(s.fam[a], v.key, el)
        s.fam[ln] = store(s.fam[ln], v.key, z3.IntVal(len(items)))

    # ------------------------------------------------------------ external functions (trusted contracts)
    def call_ext(self, s, name, args, kv, node):
        if name.startswith(IGNORED_EXT):
            return [(s, None)]
        if name.startswith('random.'):
            return self.call_random(s, name[7:], args, node)
        if name == 'math.log' and len(args) == 1:
            v = self.num(args[0], node, s)
            x = zreal(v)
            self.oblige(s, 'domain', 'argument of log is positive', x > 0, node)
            self.trusted.add('math.log: the real natural logarithm')
            return [(s, LOG(x))]
        if name in ('math.fabs',):
            v = zreal(self.num(args[0], node, s))
            return [(s, z3.If(v >= 0, v, -v))]
        h = self.hook_ext(s, name, args, kv, node)
        if h is not None:
            return h
        raise Unsupported('external function ' + name, node)

    def hook_element(self, v, s):
        return v

    def hook_ext(self, s, name, args, kv, node):
        if name == 'numpy.column_stack' and len(args) == 1 and not kv:
            items = args[0].items if isinstance(args[0], Tup) else self.concrete_items(args[0], s, node)
            if items is not None:
                return [(s, self.columns(s, items, node))]
        return None

    def columns(self, s, items, node):
        """an array whose columns are the given sequences"""
        cols = []
        for x in items:
            x = self.deref(self.unopt(x, node, s), s)
            if not isinstance(x, ListRef):
                raise Unsupported('column', node)
            cols.append(x)
        n = [zint(self.length(x, s, node)) for x in cols]
        self.oblige(s, 'shape', 'columns of one length', z3.And([z3.BoolVal(True)] + [m == n[0] for m in n[1:]]), node)
        self.trusted.add('numpy.c_ / column_stack: the array whose columns are the given sequences')
        return Opaque('columns', *cols)

    def call_random(self, s, nm, args, node):
        self.trusted.add('random: seed, shuffle, randint are functions of one hidden state; shuffle permutes; randint stays in its range')
        rng = s.ghost.get('rng')
        if rng is None:
            rng = fresh('rng', I)
        if nm == 'seed':
            if not args or args[0] is None:
                x = fresh('nondet_seed', I)
                self.nondet.add(x.get_id())
                s.ghost['rng'] = x
            else:
                s.ghost['rng'] = z3.Function('SEEDF', I, I)(zint(self.num(args[0], node, s)))
            return [(s, None)]
        if nm == 'randint':
            a, b = zint(self.num(args[0], node, s)), zint(self.num(args[1], node, s))
            self.oblige(s, 'range', 'randint range is not empty', a <= b, node)
            v = z3.Function('RINT', I, I, I, I)(rng, a, b)
            s.add(a <= v, v <= b)
            s.ghost['rng'] = z3.Function('RINTN', I, I, I, I)(rng, a, b)
            return [(s, v)]
        if nm == 'randrange':
            a, b = (0, args[0]) if len(args) == 1 else (args[0], args[1])
            a, b = zint(self.num(a, node, s)), zint(self.num(b, node, s))
            self.oblige(s, 'range', 'randrange range is not empty', a < b, node)
            v = z3.Function('RINT', I, I, I, I)(rng, a, b - 1)
            s.add(a <= v, v < b)
            s.ghost['rng'] = z3.Function('RINTN', I, I, I, I)(rng, a, b - 1)
            return [(s, v)]
        if nm == 'choice':
            n = self.length(args[0], s, node)
            self.oblige(s, 'range', 'choice from a non-empty sequence', zint(n) > 0, node)
            v = z3.Function('RINT', I, I, I, I)(rng, z3.IntVal(0), z3.simplify(zint(n) - 1))
            s.add(0 <= v, v < zint(n))
            s.ghost['rng'] = z3.Function('RINTN', I, I, I, I)(rng, z3.IntVal(0), z3.simplify(zint(n) - 1))
            return [(s, self.getitem(args[0], v, s, node))]
        if nm == 'shuffle':
            l = args[0]
            if isinstance(l, ListRef) and isinstance(s.lists[l.oid], CList):
                lv = s.lists[l.oid]
                if lv.items:
                    ety = ety_of(lv.items[0])
                    if ety is None:
                        raise Unsupported('shuffle', node)
                    s.lists[l.oid] = self.clist_to_s(s, lv, ety, node)
                else:
                    return [(s, None)]
            if not (isinstance(l, ListRef) and isinstance(s.lists[l.oid], SList) and s.lists[l.oid].ety == 'int'):
                raise Unsupported('shuffle', node)
            if l.oid in s.readonly:
                raise Unsupported('mutation of a default argument', node)
            lv = s.lists[l.oid]
            n = zint(lv.n)
            A = z3.ArraySort(I, I)
            pf, ipf = z3.Function('SHUFP', I, I, A), z3.Function('SHUFIP', I, I, A)
            p, ip = pf(rng, n), ipf(rng, n)
            E = fresh('shuffled', A)
            j = fresh('j', I)
            s.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= p[j], p[j] < n, ip[p[j]] == j)), patterns=[p[j]]))
            s.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= ip[j], ip[j] < n, p[ip[j]] == j)), patterns=[ip[j]]))
            s.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), E[j] == lv.els[0][p[j]]), patterns=[E[j], p[j]]))
            s.lists[l.oid] = SList(lv.n, 'int', [E])
            s.ghost['rng'] = z3.Function('SHUFN', I, I, I)(rng, n)
            s.ghost['shuf_p'], s.ghost['shuf_ip'] = p, ip
            return [(s, None)]
        raise Unsupported('random.' + nm, node)


