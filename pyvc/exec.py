"""Statements, path merging and loop summarisation."""
import ast
import os
import z3
from .engine import *
from .engine import NOMERGE
from .terms import _n as _freshctr


def store_chain(t):
    """Store(Store(b,k1,v1),k2,v2) -> (b, [(k1,v1),(k2,v2)])"""
    out = []
    while z3.is_store(t):
        b, k, v = t.children()
        out.append((k, v))
        t = b
    return t, list(reversed(out))


def merge_arrays(c, a, b):
    if a.eq(b):
        return a
    ba, ca = store_chain(a)
    bb, cb = store_chain(b)
    # strip the longest common prefix
    i = 0
    if ba.eq(bb):
        while i < len(ca) and i < len(cb) and ca[i][0].eq(cb[i][0]) and ca[i][1].eq(cb[i][1]):
            i += 1
    else:
        # one may be built on the other
        return None
    r = ba
    for k, v in ca[:i]:
        r = z3.Store(r, k, v)
    ra, rb = ca[i:], cb[i:]
    if len(ra) + len(rb) > 8:
        return None
    if len(ra) == 1 and len(rb) == 1 and ra[0][0].eq(rb[0][0]):
        return z3.Store(r, ra[0][0], z3.If(c, ra[0][1], rb[0][1]))
    for k, v in ra:
        r = z3.Store(r, k, z3.If(c, v, z3.Select(r, k)))
    for k, v in rb:
        r = z3.Store(r, k, z3.If(c, z3.Select(r, k), v))
    return r


DEBUG = os.environ.get('PYVC_DEBUG')


class Exec(Engine):
    # ------------------------------------------------------------ merging
    def merge_value(self, c, a, b, s, s2=None):
        if a is b:
            return a
        if a is UNBOUND or b is UNBOUND:
            return UNBOUND
        if isinstance(a, Opt) or isinstance(b, Opt) or a is None or b is None:
            na, va = (a.isnone, a.val) if isinstance(a, Opt) else (True, None) if a is None else (False, a)
            nb, vb = (b.isnone, b.val) if isinstance(b, Opt) else (True, None) if b is None else (False, b)
            if va is None and vb is None:
                return None
            v = vb if va is None else va if vb is None else self.merge_value(c, va, vb, s)
            if v is NOMERGE:
                return NOMERGE
            n = simp(Ite(c, zbool(na), zbool(nb)))
            return v if n is False else Opt(n, v)
        if is_num(a) and is_num(b):
            if is_boollike(a) != is_boollike(b):
                return NOMERGE
            if is_boollike(a):
                x, y = zbool(a), zbool(b)
            elif is_reallike(a) or is_reallike(b):
                x, y = zreal(a), zreal(b)
            else:
                x, y = zint(a), zint(b)
            if x.eq(y):
                return a
            return z3.If(c, x, y)
        if isinstance(a, str) and isinstance(b, str):
            return a if a == b else NOMERGE
        if type(a) is not type(b):
            return NOMERGE
        if isinstance(a, EnumV):
            return EnumV(a.cls, self.merge_value(c, a.term, b.term, s)) if a.cls is b.cls else NOMERGE
        if isinstance(a, Obj):
            if a.oid == b.oid:
                return a
            ra, rb = s.objs.get(a.oid), s.objs.get(b.oid)
            if ra is None or rb is None or ra.fwd is not None or rb.fwd is not None or ra.cls is not rb.cls or ra.cls.name not in ('Index', 'RelativeIndex'):
                return NOMERGE
            if set(ra.attrs) != set(rb.attrs):
                return NOMERGE
            at = {}
            for n in ra.attrs:
                at[n] = self.merge_value(c, ra.attrs[n], rb.attrs[n], s)
                if at[n] is NOMERGE:
                    return NOMERGE
            return self.new_obj(s, ra.cls, at, frozen=True)
        if isinstance(a, FRef):
            if a.fam != b.fam or a.ver != b.ver:
                return NOMERGE
            if zint(a.key).eq(zint(b.key)):
                return a
            return FRef(a.fam, z3.If(c, zint(a.key), zint(b.key)), a.ver)
        if isinstance(a, FListRef):
            if (a.fam, a.field, a.ver) != (b.fam, b.field, b.ver):
                return NOMERGE
            if zint(a.key).eq(zint(b.key)):
                return a
            return FListRef(a.fam, a.field, z3.If(c, zint(a.key), zint(b.key)), a.ver)
        if isinstance(a, (ListRef, SetRef, DictRef, NdRef)):
            return a if a.oid == b.oid else NOMERGE
        if isinstance(a, SimV):
            return a if a.key == b.key else NOMERGE
        if isinstance(a, SymClassV):
            return a if a.tag == b.tag else NOMERGE
        if isinstance(a, ProcV):
            return ProcV(z3.If(c, zint(a.term), zint(b.term)))
        if isinstance(a, Tup):
            if len(a.items) != len(b.items):
                return NOMERGE
            xs = [self.merge_value(c, x, y, s) for x, y in zip(a.items, b.items)]
            return NOMERGE if any(x is NOMERGE for x in xs) else Tup(xs)
        if isinstance(a, RangeV):
            xs = [self.merge_value(c, getattr(a, f), getattr(b, f), s) for f in ('lo', 'hi', 'step')]
            return NOMERGE if any(x is NOMERGE for x in xs) or is_sym(xs[2]) else RangeV(*xs)
        if isinstance(a, StrV):
            return a if self.same_parts(a.parts, b.parts) else NOMERGE
        if isinstance(a, LambdaV):
            return a if a.node is b.node and a.env.get('%frame') == b.env.get('%frame') else NOMERGE
        if isinstance(a, (FuncV, Bound)):
            if a.fi is b.fi and (isinstance(a, FuncV) or self.merge_value(c, a.recv, b.recv, s) is not NOMERGE):
                return a
        if isinstance(a, ClassV):
            return a if a.ci is b.ci else NOMERGE
        if isinstance(a, (ExtV, BuiltinV)):
            return a if a.name == b.name else NOMERGE
        if isinstance(a, ModV):
            return a if a.m is b.m else NOMERGE
        if isinstance(a, Opaque):
            if self.same_opaque(a, b):
                return a
        return NOMERGE

    def same_opaque(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, Opaque):
            return a.name == b.name and len(a.args) == len(b.args) and all(self.same_opaque(x, y) for x, y in zip(a.args, b.args))
        if is_sym(a):
            return a.eq(b)
        if isinstance(a, Obj):
            return a.oid == b.oid
        return a == b

    def same_parts(self, p, q):
        if len(p) != len(q):
            return False
        for x, y in zip(p, q):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return False
            elif x[0] != y[0] or x[1] != y[1]:
                return False
            elif len(x) > 2:
                u, v = x[2], y[2]
                if u is v:
                    continue
                if is_num(u) and is_num(v) and to_z3(u).eq(to_z3(v)):
                    continue
                return False
        return True

    def merge_states(self, s1, s2):
        """-> (merged state, condition choosing s1) or None"""
        i, n = 0, min(len(s1.pc), len(s2.pc))
        while i < n and s1.pc[i].get_id() == s2.pc[i].get_id():
            i += 1
        if i >= n:
            return None
        c, d = s1.pc[i], s2.pc[i]
        if z3.is_not(d) and d.children()[0].eq(c):
            pass
        elif z3.is_not(c) and c.children()[0].eq(d):
            pass
        else:
            return None
        if len(s1.qh) != len(s2.qh) or any(x.get_id() != y.get_id() for x, y in zip(s1.qh, s2.qh)):
            return None
        if s1.events != s2.events and not (len(s1.events) == len(s2.events) and all(x is y for x, y in zip(s1.events, s2.events))):
            return None
        if len(s1.frames) != len(s2.frames) or any(x is not y for x, y in zip(s1.frames, s2.frames)):
            return None
        if set(s1.ghost) != set(s2.ghost):
            return None
        m = s1.copy()
        m.pc = s1.pc[:i]
        r1, r2 = s1.pc[i:], s2.pc[i:]
        if len(r1) > 1 or len(r2) > 1:
            m.pc.append(z3.Or(And(*r1), And(*r2)))
        # scratch lookups need both heaps
        m.objs = dict(s2.objs)
        m.objs.update(s1.objs)
        m.env = {}
        for k in set(s1.env) | set(s2.env):
            if k not in s1.env or k not in s2.env:
                m.env[k] = UNBOUND
                continue
            v = self.merge_value(c, s1.env[k], s2.env[k], m)
            if v is NOMERGE:
                return None
            m.env[k] = v
        for o in set(s1.objs) & set(s2.objs):
            a, b = s1.objs[o], s2.objs[o]
            if a is b:
                continue
            if (a.fwd is None) != (b.fwd is None):
                return None
            if a.fwd is not None:
                if a.fwd.fam != b.fwd.fam or a.fwd.ver != b.fwd.ver or not zint(a.fwd.key).eq(zint(b.fwd.key)):
                    return None
                continue
            at = {}
            for k in set(a.attrs) | set(b.attrs):
                if k not in a.attrs or k not in b.attrs:
                    at[k] = UNBOUND
                    continue
                v = self.merge_value(c, a.attrs[k], b.attrs[k], m)
                if v is NOMERGE:
                    return None
                at[k] = v
            m.objs[o] = ObjRec(a.cls, at, a.frozen or b.frozen, None)
        m.lists = dict(s2.lists)
        m.lists.update(s1.lists)
        for o in set(s1.lists) & set(s2.lists):
            a, b = s1.lists[o], s2.lists[o]
            if a is b:
                continue
            v = self.merge_list(c, a, b, m)
            if v is None:
                return None
            m.lists[o] = v
        m.sets = dict(s2.sets)
        m.sets.update(s1.sets)
        for o in set(s1.sets) & set(s2.sets):
            a, b = s1.sets[o], s2.sets[o]
            if a is b:
                continue
            if len(a) != len(b):
                return None
            xs = [self.merge_value(c, x, y, m) for x, y in zip(a, b)]
            if any(x is NOMERGE for x in xs):
                return None
            m.sets[o] = tuple(xs)
        m.dicts = dict(s2.dicts)
        m.dicts.update(s1.dicts)
        for o in set(s1.dicts) & set(s2.dicts):
            a, b = s1.dicts[o], s2.dicts[o]
            if a is b:
                continue
            if len(a) != len(b) or not all(x.eq(y) if is_sym(x) and is_sym(y) else type(x) is type(y) and not is_sym(x) and x == y for x, y in zip(a, b)):
                return None
            xs = {k: self.merge_value(c, a[k], b[k], m) for k in a}
            if any(x is NOMERGE for x in xs.values()):
                return None
            m.dicts[o] = xs
        for k in s1.fam:
            a, b = s1.fam[k], s2.fam[k]
            if a.eq(b):
                continue
            v = merge_arrays(c, a, b)
            if v is None:
                return None
            m.fam[k] = v
        for k in set(s1.famver) | set(s2.famver):
            if s1.famver.get(k, 0) != s2.famver.get(k, 0):
                m.famver[k] = self.newoid()
        for k in s1.ghost:
            a, b = s1.ghost[k], s2.ghost[k]
            if a is b or (is_sym(a) and is_sym(b) and a.eq(b)):
                continue
            if not (is_sym(a) and is_sym(b)) or a.sort() != b.sort():
                return None
            if z3.is_array(a):
                v = merge_arrays(c, a, b)
                m.ghost[k] = v if v is not None else z3.If(c, a, b)
            else:
                m.ghost[k] = z3.If(c, a, b)
        m.readonly = s1.readonly | s2.readonly
        return m, c

    def merge_list(self, c, a, b, m):
        if isinstance(a, CList) and isinstance(b, CList):
            if len(a.items) != len(b.items):
                return None
            xs = [self.merge_value(c, x, y, m) for x, y in zip(a.items, b.items)]
            return None if any(x is NOMERGE for x in xs) else CList(xs)
        if isinstance(a, SList) and isinstance(b, SList) and a.ety == b.ety:
            els = []
            for x, y in zip(a.els, b.els):
                e = merge_arrays(c, x, y)
                if e is None:
                    return None
                els.append(e)
            n = a.n if zint(a.n).eq(zint(b.n)) else z3.If(c, zint(a.n), zint(b.n))
            return SList(n, a.ety, els)
        if isinstance(a, FamList) and isinstance(b, FamList) and a.fam == b.fam:
            p = merge_arrays(c, a.present, b.present)
            if p is None:
                return None
            return FamList(a.fam, a.n if zint(a.n).eq(zint(b.n)) else z3.If(c, zint(a.n), zint(b.n)), p)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a
        return None

    def merge_all(self, outs):
        if len(outs) < 2:
            return outs
        outs = list(outs)
        changed = True
        while changed and len(outs) > 1:
            changed = False
            for i in range(len(outs)):
                for j in range(i + 1, len(outs)):
                    r = self.merge_outcomes(outs[i], outs[j])
                    if r is not None:
                        outs[i] = r
                        del outs[j]
                        changed = True
                        break
                if changed:
                    break
        return outs

    def merge_outcomes(self, x, y):
        (s1, o1), (s2, o2) = x, y
        k1, k2 = (o1 and o1[0]), (o2 and o2[0])
        if k1 != k2:
            return None
        r = self.merge_states(s1, s2)
        if r is None:
            return None
        m, c = r
        if o1 is None or len(o1) < 2:
            return (m, o1)
        v = self.merge_value(c, o1[1], o2[1], m)
        if v is NOMERGE:
            return None
        return (m, (k1, v))

    # ------------------------------------------------------------ comprehensions
    def start(self, st, fi, args, kw):
        """execute a function under verification -> list of (state, result)"""
        s = st
        env = self.bind(s, fi, args, kw, fi.node)
        return self.inline(s, fi, env, fi.node)

    def call_genexp(self, e, st):
        """f(... for ...) : evaluated as a list comprehension (any/all only when the elements have no effects)"""
        e2 = ast.Call(func=e.func, args=[ast.copy_location(ast.ListComp(a.elt, a.generators), a) if isinstance(a, ast.GeneratorExp) else a
                                         for a in e.args], keywords=e.keywords)
        ast.copy_location(e2, e)
        return self.e_Call(e2, st)

    def e_GeneratorExp(self, e, st):
        raise Unsupported('generator expression', e)

    def e_SetComp(self, e, st):
        out = []
        for s, v in self.e_ListComp(e, st):
            items = self.concrete_items(v, s, e)
            if items is None:
                raise Unsupported('set comprehension over a symbolic sequence', e)
            cur = [(s, self.new_set(s))]
            for x in items:
                cur = [y for s1, r in cur for y in self.set_add(s1, r, x, e)]
            out += cur
        return out

    def e_ListComp(self, e, st):
        g0 = e.generators[0]
        out = []
        for s, seq in self.ev(g0.iter, st):
            items = self.concrete_items(seq, s, e)
            saved = dict(s.env)
            if items is not None or len(e.generators) > 1 or g0.ifs:
                if items is None and len(e.generators) > 1:
                    raise Unsupported('nested comprehension over a symbolic sequence', e)
                if items is None:
                    out.append(self.filtered(e, s, seq, saved))
                    continue
                if isinstance(seq, SetRef):
                    items = self.set_order(s, items, e)
                cur = [(s, ())]
                for x in items:
                    nxt = []
                    for s1, acc in cur:
                        for s2 in self.assign(g0.target, x, s1, e):
                            nxt += self.comp_rest(e, 0, s2, acc)
                    cur = nxt
                for s1, acc in cur:
                    s1.env = dict(saved)
                    out.append((s1, self.new_list(s1, CList(acc))))
                continue
            it = self.iterate(seq, s, e)
            k = fresh('k', I)
            n = zint(it.n)
            s1 = s.copy()
            s1.add(0 <= k, k < n)
            npc, nqh = len(s1.pc), len(s1.qh)
            (s2,) = self.assign(g0.target, it.item(k), s1, e)
            mark = _freshctr[0]
            outs = self.ev(e.elt, s2)
            if len(outs) != 1:
                raise Unsupported('branching comprehension', e)
            s3, v = outs[0]
            ety = ety_of(v)
            if ety is None:
                raise Unsupported('comprehension of such values', e)
            if self.diff(s2, s3, env=False):
                raise Unsupported('comprehension with side effects', e)
            facts = [f for f in s3.pc[npc:] + s3.qh[nqh:]]
            vs = eunpack(ety, v)
            arrs = [fresh('comp', z3.ArraySort(I, x.sort())) for x in vs]
            if any(self.newer(x, mark) for x in vs):
                raise Unsupported('comprehension over results of contracts', e)
            facts = [f for f in facts if not self.newer(f, mark)]
            for a, x in zip(arrs, vs):
                self.compdef[a.get_id()] = (a, k, x)
                pats = [z3.Select(a, k)]
                src = it.item(k)
                for t in (src.items if isinstance(src, Tup) else [src]):
                    if is_sym(t) and z3.is_select(t):
                        pats.append(t)
                s.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), And(*([z3.Select(a, k) == x] + facts))), patterns=pats))
            s.env = dict(saved)
            out.append((s, self.new_list(s, SList(it.n, ety, arrs))))
        return out

    def filtered(self, e, s, seq, saved):
        """[elt for x in a symbolic sequence if ...]: the places kept, in order, and where each kept place went"""
        g0 = e.generators[0]
        it = self.iterate(seq, s, e)
        k, n = fresh('k', I), zint(it.n)
        s1 = s.copy()
        s1.add(0 <= k, k < n)
        npc, nqh = len(s1.pc), len(s1.qh)
        (s2,) = self.assign(g0.target, it.item(k), s1, e)
        mark, conds = _freshctr[0], []
        for cond in g0.ifs:
            outs = self.ev(cond, s2)
            if len(outs) != 1 or self.diff(s1, outs[0][0], env=False):
                raise Unsupported('filter of a comprehension', e)
            s2, c = outs[0]
            c = zbool(self.truth(c, e, s2))
            conds.append(c)
            s2.add(c)
        outs = self.ev(e.elt, s2)
        if len(outs) != 1 or self.diff(s1, outs[0][0], env=False):
            raise Unsupported('branching comprehension', e)
        s3, v = outs[0]
        ety = ety_of(v)
        if ety is None:
            raise Unsupported('comprehension of such values', e)
        vs, c = eunpack(ety, v), And(conds)
        if any(self.newer(x, mark) for x in vs + [zbool(c)]):
            raise Unsupported('comprehension over results of contracts', e)
        facts = [f for f in s3.pc[npc:] + s3.qh[nqh:] if not self.newer(f, mark)]
        ar = z3.ArraySort(I, I)
        m, pos, inv = fresh('kept', I), fresh('keptpos', ar), fresh('keptinv', ar)
        arrs = [fresh('comp', z3.ArraySort(I, x.sort())) for x in vs]
        s.add(0 <= m, m <= n)
        i, i2, p = fresh('i', I), fresh('i', I), z3.Select(pos, k)
        at = lambda t: z3.substitute(zbool(t), (k, z3.Select(pos, i)))
        p = z3.Select(pos, i)
        body = And([i <= p, p <= n - m + i, z3.Select(inv, p) == i, at(c)] + [at(f) for f in facts] +
                   [z3.Select(a, i) == z3.substitute(x, (k, p)) for a, x in zip(arrs, vs)])
        s.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), body), patterns=[p] + [z3.Select(a, i) for a in arrs]))
        src = it.item(k)
        pats = [t for t in (src.items if isinstance(src, Tup) else [src]) if is_sym(t) and z3.is_select(t)]
        q = z3.Select(inv, k)
        s.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, zbool(c)), z3.And(0 <= q, q < m, z3.Select(pos, q) == k, *[z3.Select(a, q) == x for a, x in zip(arrs, vs)])),
                        patterns=[q] + pats))
        s.add(z3.ForAll([i, i2], z3.Implies(z3.And(0 <= i, i < i2, i2 < m), z3.Select(pos, i) < z3.Select(pos, i2)),
                        patterns=[z3.MultiPattern(z3.Select(pos, i), z3.Select(pos, i2))]))
        # as long as the source exactly when nothing is left out
        w = fresh('left', I)
        s.add(z3.Implies(m < n, And(0 <= w, w < n, z3.Not(z3.substitute(zbool(c), (k, w))))))
        if pats:
            s.add(z3.ForAll([k], z3.Implies(z3.And(m == n, 0 <= k, k < n), zbool(c)), patterns=pats))
        s.env = dict(saved)
        return s, self.new_list(s, SList(m, ety, arrs))

    compdef = {}

    def uncomp(self, t):
        """elements of comprehensions written out"""
        if not z3.is_expr(t):
            return t
        for u in subterms(t, lambda u: z3.is_select(u) and u.arg(0).get_id() in self.compdef):
            a, k, x = self.compdef[u.arg(0).get_id()]
            t = z3.substitute(t, (u, z3.substitute(x, (k, u.arg(1)))))
        return z3.simplify(t)

    def comp_rest(self, e, i, s, acc):
        g = e.generators[i]
        cur = [(s, True)]
        res = []
        for cond in g.ifs:
            nxt = []
            for s1, ok in cur:
                if not ok:
                    nxt.append((s1, False))
                    continue
                for s2, c in self.ev(cond, s1):
                    t = self.truth(c, e, s2)
                    nxt += self.fork(s2, t)
            cur = nxt
        for s1, ok in cur:
            if not ok:
                res.append((s1, acc))
                continue
            if i + 1 < len(e.generators):
                for s2, seq in self.ev(e.generators[i + 1].iter, s1):
                    items = self.concrete_items(seq, s2, e)
                    if items is None:
                        raise Unsupported('nested symbolic comprehension', e)
                    c2 = [(s2, acc)]
                    for x in items:
                        c2 = [y for s3, a3 in c2 for s4 in self.assign(e.generators[i + 1].target, x, s3, e) for y in self.comp_rest(e, i + 1, s4, a3)]
                    res += c2
            else:
                res += [(s2, acc + (v,)) for s2, v in self.ev(e.elt, s1)]
        return res

    def fork(self, s, t):
        t = simp(t)
        if isinstance(t, bool):
            return [(s, t)]
        a, b = s.copy(), s
        a.add(t)
        b = s.copy()
        b.add(z3.Not(t))
        return [(x, ok) for x, ok in ((a, True), (b, False)) if self.feasible(x)]

    def newer(self, t, mark):
        for c in free_consts(t):
            nm = c.decl().name()
            if '!' in nm:
                try:
                    if int(nm.rsplit('!', 1)[1]) > mark:
                        return True
                except ValueError:
                    pass
        return False

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        cur, done = [st], []
        for x in stmts:
            nxt = []
            for s in cur:
                for s2, o in self.stmt(x, s):
                    if o is None:
                        nxt.append((s2, None))
                    else:
                        done.append((s2, o))
            cur = [s for s, _ in self.merge_all(nxt)]
            if not cur:
                break
        return self.merge_all([(s, None) for s in cur] + done) if len(cur) + len(done) > 1 else [(s, None) for s in cur] + done

    def stmt(self, x, st):
        m = getattr(self, 's_' + type(x).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(x).__name__, x)
        try:
            return m(x, st)
        except Unsupported as u:
            if u.lineno is None:
                u.lineno = x.lineno
            raise

    def s_Pass(self, x, st):
        return [(st, None)]

    def s_FunctionDef(self, x, st):
        inner = [n for n in ast.walk(x) if n is not x]
        if x.decorator_list or x.args.defaults or any(d is not None for d in x.args.kw_defaults) or \
           any(isinstance(n, (ast.Nonlocal, ast.Global, ast.FunctionDef, ast.Lambda, ast.ClassDef)) for n in inner):
            raise Unsupported('nested function', x)
        own = {n.id for n in inner if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} | {a.arg for a in ast.walk(x.args) if isinstance(a, ast.arg)}
        st.env[x.name] = UNBOUND
        st.env[x.name] = LambdaV(x, dict(st.env), self.curmod, self.curcls, FuncInfo(x, self.curmod, self.curcls), frozenset(own))
        return [(st, None)]

    def s_Global(self, x, st):
        raise Unsupported('global statement', x)

    def s_Break(self, x, st):
        return [(st, ('break',))]

    def s_Continue(self, x, st):
        return [(st, ('continue',))]

    def s_Expr(self, x, st):
        if isinstance(x.value, ast.Constant):
            return [(st, None)]
        return [(s, None) for s, _ in self.ev(x.value, st)]

    def s_Return(self, x, st):
        if x.value is None:
            return [(st, ('return', None))]
        return [(s, ('return', v)) for s, v in self.ev(x.value, st)]

    def s_Assign(self, x, st):
        out = []
        for s, v in self.ev(x.value, st):
            cur = [s]
            for t in x.targets:
                cur = [s2 for s1 in cur for s2 in self.assign(t, v, s1, x)]
            out += [(s1, None) for s1 in cur]
        return out

    def s_AnnAssign(self, x, st):
        if x.value is None:
            return [(st, None)]
        return [(s2, None) for s, v in self.ev(x.value, st) for s2 in self.assign(x.target, v, s, x)]

    def assign(self, t, v, s, node):
        if isinstance(t, ast.Name):
            s.env[t.id] = v
            return [s]
        if isinstance(t, ast.Attribute):
            out = []
            for s2, o in self.ev(t.value, s):
                self.setattr(o, t.attr, v, s2, node)
                out.append(s2)
            return out
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment', node)
            out = []
            for s2, (o, i) in self.evs([t.value, t.slice], s):
                if isinstance(o, DictRef) and not isinstance(i, str):
                    out += self.dict_set(s2, o, i, v, node)
                    continue
                self.setitem(o, i, v, s2, node)
                out.append(s2)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred assignment', node)
            items = self.concrete_items(v, s, node) if not isinstance(v, Opt) else None
            if items is None or isinstance(v, SetRef):
                raise Unsupported('unpacking', node)
            if len(items) != len(t.elts):
                self.oblige(s, 'unpack', 'number of values to unpack', False, node)
                raise Unsupported('unpacking', node)
            cur = [s]
            for e, y in zip(t.elts, items):
                cur = [s2 for s1 in cur for s2 in self.assign(e, y, s1, node)]
            return cur
        raise Unsupported('assignment target', node)

    def s_AugAssign(self, x, st):
        op = type(x.op).__name__
        out = []
        if isinstance(x.target, ast.Name):
            targets = [(s, ('n', x.target.id), v) for s, v in self.e_Name(x.target, st)]
        elif isinstance(x.target, ast.Attribute):
            targets = [(s, ('a', o), self.getattr(o, x.target.attr, s, x)) for s, o in self.ev(x.target.value, st)]
        elif isinstance(x.target, ast.Subscript):
            targets = [(s, ('s', o, i), self.getitem(o, i, s, x)) for s, (o, i) in self.evs([x.target.value, x.target.slice], st)]
        else:
            raise Unsupported('augmented assignment', x)
        for s, how, old in targets:
            for s2, v in self.ev(x.value, s):
                h = self.hook_aug(op, old, v, s2, x)
                if h is not None:
                    out.append((h, None))
                    continue
                if op == 'Add' and isinstance(old, (ListRef, FListRef)):
                    self.list_extend(old, v, s2, x)
                    if how[0] == 'n':
                        s2.env[how[1]] = old
                    elif how[0] == 'a' and not isinstance(old, FListRef):
                        pass
                    out.append((s2, None))
                    continue
                if op == 'BitOr' and isinstance(old, SetRef) and isinstance(v, SetRef):
                    cur = [s2]
                    for y in s2.sets[v.oid]:
                        cur = [s3 for s1 in cur for s3, _ in self.set_add(s1, old, y, x)]
                    out += [(s1, None) for s1 in cur]
                    continue
                for s3, r in self.binop(op, old, v, s2, x):
                    if how[0] == 'n':
                        s3.env[how[1]] = r
                    elif how[0] == 'a':
                        self.setattr(how[1], x.target.attr, r, s3, x)
                    else:
                        self.setitem(how[1], how[2], r, s3, x)
                    out.append((s3, None))
        return out

    def hook_aug(self, op, old, v, s, node):
        return None

    def s_Delete(self, x, st):
        cur = [st]
        for t in x.targets:
            if isinstance(t, ast.Name):
                for s in cur:
                    if t.id not in s.env:
                        raise Unsupported('del of a global', x)
                    s.env[t.id] = UNBOUND
            elif isinstance(t, ast.Attribute):
                nxt = []
                for s in cur:
                    for s2, o in self.ev(t.value, s):
                        o = self.deref(o, s2)
                        if not isinstance(o, Obj) or t.attr not in s2.objs[o.oid].attrs:
                            raise Unsupported('del', x)
                        s2.wobj(o.oid).attrs[t.attr] = UNBOUND
                        nxt.append(s2)
                cur = nxt
            else:
                raise Unsupported('del', x)
        return [(s, None) for s in cur]

    def s_Import(self, x, st):
        for k, v in self.prog.import_bindings(x, self.curmod).items():
            st.env[k] = self.lift(v, x)
        return [(st, None)]

    s_ImportFrom = s_Import

    def s_Assert(self, x, st):
        out = []
        for s, v in self.ev(x.test, st):
            self.oblige(s, 'assert', f'assertion holds: {ast.unparse(x.test)[:80]}', zbool(self.truth(v, x, s)), x)
            if simp(self.truth(v, x, s)) is not False:
                out.append((s, None))
        return out

    def s_Raise(self, x, st):
        self.oblige(st, 'raise', 'no exception is raised here', False, x)
        return []

    def s_If(self, x, st):
        out = []
        for s, v in self.ev(x.test, st):
            t = simp(self.truth(v, x, s))
            if t is True:
                out += self.block(x.body, s)
            elif t is False:
                out += self.block(x.orelse, s)
            else:
                a, b = s.copy(), s.copy()
                a.add(t)
                b.add(z3.Not(t))
                if self.feasible(a):
                    out += self.block(x.body, a)
                if self.feasible(b):
                    out += self.block(x.orelse, b)
        return self.merge_all(out)

    def s_With(self, x, st):
        raise Unsupported('with statement', x)

    # ------------------------------------------------------------ loops
    def s_For(self, x, st):
        out = []
        for s, seq in self.ev(x.iter, st):
            seq = self.unopt(seq, x, s)
            items = self.concrete_items(seq, s, x)
            if items is not None:
                if isinstance(seq, SetRef):
                    items = self.set_order(s, items, x)
                src = seq if isinstance(seq, (ListRef, FListRef)) else None
                out += self.unrolled(x, s, list(items), src)
            else:
                it = self.iterate(seq, s, x)
                out += self.sym_loop(x, s, it, None)
        return self.merge_all(out)

    def unrolled(self, x, st, items, src):
        cur, done, broken = [(st, None)], [], []
        for n, v in enumerate(items):
            nxt = []
            for s, _ in cur:
                before = self.list_sig(s, src)
                for s1 in self.assign(x.target, v, s, x):
                    for s2, o in self.block(x.body, s1):
                        if o is not None and o[0] == 'break':
                            broken.append((s2, None))
                        elif o is not None and o[0] == 'return':
                            done.append((s2, o))
                        else:
                            if n < len(items) - 1 or True:
                                after = self.list_sig(s2, src)
                                if after != before:
                                    raise Unsupported('list changed while it is iterated', x)
                            nxt.append((s2, None))
            cur = self.merge_all(nxt)
        if x.orelse:
            out = []
            for s, _ in cur:
                out += self.block(x.orelse, s)
        else:
            out = cur
        return self.merge_all(out + broken) + done

    def list_sig(self, s, src):
        if src is None:
            return None
        if isinstance(src, ListRef):
            lv = s.lists[src.oid]
            if isinstance(lv, CList):
                return tuple(id(v) if not isinstance(v, int) else v for v in lv.items)
            return id(lv)
        return (sel(s.fam[(src.fam, src.field, 'len')], src.key).get_id(), sel(s.fam[(src.fam, src.field, 'el')], src.key).get_id()) \
            if False else None

    def s_While(self, x, st):
        # a while loop whose test is decided for a few rounds is unrolled, otherwise summarised
        cur, out = [st], []
        for _ in range(3):
            nxt, sym = [], []
            for s in cur:
                self.suppress += 1
                try:
                    r = self.ev(x.test, s.copy())
                finally:
                    self.suppress -= 1
                ts = [simp(self.truth(v, x, s2)) for s2, v in r]
                if len(ts) == 1 and isinstance(ts[0], bool):
                    (s2, _), = self.ev(x.test, s)
                    if not ts[0]:
                        out += self.block(x.orelse, s2)
                    else:
                        for s3, o in self.block(x.body, s2):
                            if o is not None and o[0] == 'break':
                                out.append((s3, None))
                            elif o is not None and o[0] == 'return':
                                out.append((s3, o))
                            else:
                                nxt.append(s3)
                else:
                    sym.append(s)
            for s in sym:
                out += self.sym_loop(x, s, None, x.test)
            cur = nxt
            if not cur:
                return self.merge_all(out)
        for s in cur:
            out += self.sym_loop(x, s, None, x.test)
        return self.merge_all(out)

    # --- locations
    def diff(self, a, b, env=True):
        """locations existing in a whose value differs in b"""
        out = []

        def same(x, y):
            if x is y:
                return True
            if is_sym(x) or is_sym(y):
                return is_sym(x) and is_sym(y) and x.eq(y)
            if type(x) is not type(y):
                return False
            if isinstance(x, (int, str, Fraction)) or x is None:
                return x == y
            if isinstance(x, (Obj, ListRef, SetRef, DictRef)):
                return x.oid == y.oid
            if isinstance(x, FRef):
                return x.fam == y.fam and x.ver == y.ver and zint(x.key).eq(zint(y.key))
            if isinstance(x, FListRef):
                return (x.fam, x.field, x.ver) == (y.fam, y.field, y.ver) and zint(x.key).eq(zint(y.key))
            if isinstance(x, EnumV):
                return x.cls is y.cls and same(x.term, y.term)
            if isinstance(x, Opt):
                return same(x.isnone, y.isnone) and same(x.val, y.val)
            if isinstance(x, Tup):
                return len(x.items) == len(y.items) and all(same(p, q) for p, q in zip(x.items, y.items))
            if isinstance(x, LambdaV):
                return x.node is y.node and x.env.get('%frame') == y.env.get('%frame')
            if isinstance(x, (FuncV,)):
                return x.fi is y.fi
            if isinstance(x, Bound):
                return x.fi is y.fi and same(x.recv, y.recv)
            if isinstance(x, ClassV):
                return x.ci is y.ci
            if isinstance(x, NdRef):
                return x.oid == y.oid
            if isinstance(x, SimV):
                return x.key == y.key
            if isinstance(x, SymClassV):
                return x.tag == y.tag
            if isinstance(x, ProcV):
                return zint(x.term).eq(zint(y.term))
            if isinstance(x, ModV):
                return x.m is y.m
            if isinstance(x, (ExtV, BuiltinV)):
                return x.name == y.name
            if isinstance(x, Opaque):
                return self.same_opaque(x, y)
            if isinstance(x, StrV):
                return self.same_parts(x.parts, y.parts)
            if isinstance(x, RangeV):
                return all(same(getattr(x, f), getattr(y, f)) for f in ('lo', 'hi', 'step'))
            if isinstance(x, DictKeys):
                return x.ref.oid == y.ref.oid
            return False
        if env:
            for k in set(a.env) | set(b.env):
                if not same(a.env.get(k, UNBOUND), b.env.get(k, UNBOUND)):
                    out.append(('env', k))
        for o, r in a.objs.items():
            q = b.objs[o]
            if q is r:
                continue
            if (q.fwd is None) != (r.fwd is None):
                out.append(('moved', o))
                continue
            if q.frozen != r.frozen:
                out.append(('frozen', o))
            for k in set(r.attrs) | set(q.attrs):
                if not same(r.attrs.get(k, UNBOUND), q.attrs.get(k, UNBOUND)):
                    out.append(('attr', o, k))
        for o, l in a.lists.items():
            q = b.lists[o]
            if q is l:
                continue
            if isinstance(l, CList) and isinstance(q, CList) and len(l.items) == len(q.items) and all(same(x, y) for x, y in zip(l.items, q.items)):
                continue
            if isinstance(l, SList) and isinstance(q, SList) and l.ety == q.ety and same(zint(l.n), zint(q.n)) and all(same(x, y) for x, y in zip(l.els, q.els)):
                continue
            if isinstance(l, FamList) and isinstance(q, FamList) and same(zint(l.n), zint(q.n)) and same(l.present, q.present):
                continue
            out.append(('list', o))
        for o, t in a.sets.items():
            if b.sets[o] is not t and not (len(t) == len(b.sets[o]) and all(same(x, y) for x, y in zip(t, b.sets[o]))):
                out.append(('set', o))
        for o, t in a.dicts.items():
            u = b.dicts[o]
            if u is not t and not (len(u) == len(t) and all(same(x, y) for x, y in zip(u, t)) and all(same(t[k], u[k]) for k in t)):
                out.append(('dict', o))
        for k, t in a.fam.items():
            if not t.eq(b.fam[k]):
                out.append(('fam', k))
        for k in set(a.famver) | set(b.famver):
            if a.famver.get(k, 0) != b.famver.get(k, 0):
                out.append(('famver', k))
        for k in set(a.ghost) | set(b.ghost):
            if not same(a.ghost.get(k), b.ghost.get(k)):
                out.append(('ghost', k))
        if a.events != b.events:
            out.append(('events',))
        return out

    def get_loc(self, s, loc):
        if loc[0] == 'env':
            return s.env.get(loc[1], UNBOUND)
        if loc[0] == 'attr':
            return s.objs[loc[1]].attrs.get(loc[2], UNBOUND)
        if loc[0] == 'list':
            return s.lists[loc[1]]
        if loc[0] == 'fam':
            return s.fam[loc[1]]
        if loc[0] == 'ghost':
            return s.ghost.get(loc[1])

    def sort_of(self, a, b):
        if is_boollike(a) and is_boollike(b):
            return B
        if is_boollike(a) or is_boollike(b):
            return None
        if is_intlike(a) and is_intlike(b):
            return I
        return R

    def havoc_list(self, s, ref):
        """the list object stays, its contents become arbitrary"""
        lv = s.lists[ref.oid]
        ety = lv.ety if isinstance(lv, SList) else (ety_of(lv.items[0]) if isinstance(lv, CList) and lv.items else None)
        if ety is None:
            raise Unsupported('list contents')
        n = fresh('hvn', I)
        s.add(n >= 0)
        s.lists[ref.oid] = SList(n, ety, [fresh('hv', z3.ArraySort(I, so)) for so in esorts(ety)])

    nd_inplace = False

    def havoc_loc(self, s, loc, old, new):
        """replace the location in s by an arbitrary value of the type covering old and new;
        -> list of cells (const, initial term, getter)"""
        kind = loc[0]
        nm = '_'.join(str(p) for p in loc if not isinstance(p, tuple)) if kind != 'fam' else 'F_' + '_'.join(str(p) for p in loc[1])
        if kind in ('env', 'attr'):
            def put(v):
                if kind == 'env':
                    s.env[loc[1]] = v
                else:
                    s.wobj(loc[1]).attrs[loc[2]] = v
            if is_num(old) and is_num(new):
                so = self.sort_of(old, new)
                if so is None:
                    put(UNBOUND)
                    return []
                h = fresh(nm, so)
                put(h)
                cv = {I: zint, R: zreal, B: zbool}[so]
                return [Cell(h, cv(old), lambda st, cv=cv: self.cell_term(self.get_loc(st, loc), cv), loc)]
            if isinstance(old, EnumV) and isinstance(new, EnumV) and old.cls is new.cls:
                h = fresh(nm, I)
                put(EnumV(old.cls, h))
                return [Cell(h, zint(old.term), lambda st: zint(self.get_loc(st, loc).term) if isinstance(self.get_loc(st, loc), EnumV) else None, loc)]
            if kind == 'env' and isinstance(old, NdRef) and isinstance(new, NdRef) and not self.nd_inplace:
                # no array of the loop is changed in place, so that arrays are values
                l = s.lists[old.oid]
                r, n, e = self.newoid(), fresh(nm + '_n', I), fresh(nm, z3.ArraySort(I, R))
                s.lists[r] = SList(n, 'nd', [e])
                put(NdRef(r))
                now = lambda st: st.lists[st.env[loc[1]].oid] if isinstance(st.env.get(loc[1]), NdRef) else None
                return [Cell(n, zint(l.n), lambda st: zint(now(st).n) if now(st) else None, ('nd', loc[1], 'n')),
                        Cell(e, l.els[0], lambda st: now(st).els[0] if now(st) else None, ('nd', loc[1], 'e'))]
            oo = old.val if isinstance(old, Opt) else old
            nn = new.val if isinstance(new, Opt) else new
            if kind == 'attr' and (isinstance(old, Opt) or old is None or isinstance(new, Opt) or new is None) and not (old is UNBOUND or new is UNBOUND):
                v = nn if nn is not None else oo
                hn = fresh(nm + '_none', B)
                none = lambda x: x.isnone if isinstance(x, Opt) else z3.BoolVal(x is None)
                opt = lambda part: ('opt', loc[1], loc[2], part)

                def cells_of(h, term):
                    def part(x):
                        x = x.val if isinstance(x, Opt) else x
                        return fresh(nm + '_any', h.sort()) if x is None else term(x)
                    n0 = none(old)
                    return [Cell(hn, n0 if is_sym(n0) else z3.BoolVal(bool(n0)), lambda st: zbool(none(self.get_loc(st, loc))), opt('none')),
                            Cell(h, part(old), lambda st: part(self.get_loc(st, loc)), opt('val'))]
                if is_num(v):
                    so = R if is_reallike(v) else B if is_boollike(v) else I
                    h = fresh(nm, so)
                    put(Opt(hn, h))
                    return cells_of(h, lambda x: self.cell_term(x, {I: zint, R: zreal, B: zbool}[so]))
                if isinstance(v, FRef):
                    h = fresh(nm, I)
                    put(Opt(hn, FRef(v.fam, h, v.ver)))
                    return cells_of(h, lambda x: zint(x.key) if isinstance(x, FRef) else None)
                if isinstance(v, EnumV):
                    h = fresh(nm, I)
                    put(Opt(hn, EnumV(v.cls, h)))
                    return cells_of(h, lambda x: zint(x.term) if isinstance(x, EnumV) else None)
            if kind == 'attr' and isinstance(old, FRef) and isinstance(new, FRef) and old.fam == new.fam:
                put(FRef(old.fam, fresh(nm, I), new.ver))
                return []
            if kind == 'attr' and isinstance(old, EnumV) and isinstance(new, EnumV):
                put(EnumV(old.cls, fresh(nm, I)))
                return []
            put(UNBOUND)
            return []
        if kind == 'list':
            o = loc[1]
            if isinstance(old, FamList) or isinstance(new, FamList):
                fam = (new if isinstance(new, FamList) else old).fam
                n, p = fresh(nm + '_n', I), fresh(nm + '_present', z3.ArraySort(I, B))
                s.lists[o] = FamList(fam, n, p)
                s.add(n >= 0)
                on = len(old.items) if isinstance(old, CList) else old.n
                op = old.present if isinstance(old, FamList) else z3.K(I, z3.BoolVal(False))
                return [Cell(n, zint(on), lambda st: self.lst(st, o, 'n'), ('listn', o)),
                        Cell(p, op, lambda st: self.lst(st, o, 'present'), ('listp', o))]
            l = new if isinstance(new, SList) else old if isinstance(old, SList) else None
            if l is None:
                items = (new.items if isinstance(new, CList) and len(new.items) else old.items if isinstance(old, CList) else ())
                ety = ety_of(items[-1]) if items else None
                if ety is None and items and isinstance(items[-1], Tup) and all(is_num(y) for y in items[-1].items):
                    ety = ('row', len(items[-1].items))
                if ety is None or isinstance(new, tuple):
                    raise Unsupported('a list of this kind changes in a loop')
                if any(is_reallike(x) for x in items):
                    ety = 'real'
                if isinstance(old, CList):
                    old = self.clist_to_s(s, old, ety, None)
            else:
                ety = l.ety
                if isinstance(old, CList):
                    old = self.clist_to_s(s, old, ety, None)
            n = fresh(nm + '_n', I)
            s.add(n >= 0)
            els = [fresh(nm, z3.ArraySort(I, so)) for so in esorts(ety)]
            s.lists[o] = SList(n, ety, els)
            cells = [Cell(n, zint(old.n), lambda st: self.lst(st, o, 'n'), ('listn', o))]
            for i, e in enumerate(els):
                cells.append(Cell(e, old.els[i], lambda st, i=i: self.lst(st, o, i), ('liste', o, i)))
            return cells
        if kind == 'fam':
            h = fresh(nm, old.sort())
            s.fam[loc[1]] = h
            return [Cell(h, old, lambda st: st.fam[loc[1]], loc)]
        if kind == 'ghost':
            x = new if is_sym(new) else old
            if not is_sym(x):
                raise Unsupported('ghost state in a loop')
            h = fresh(nm, x.sort())
            s.ghost[loc[1]] = h
            return [Cell(h, old, lambda st: st.ghost[loc[1]], loc)] if is_sym(old) else []
        if kind == 'famver':
            s.famver[loc[1]] = self.newoid()
            return []
        if kind == 'frozen':
            s.wobj(loc[1]).frozen = True
            return []
        raise Unsupported(f'{kind} changes in a loop')

    def cell_term(self, v, cv):
        return cv(v) if is_num(v) else None

    def lst(self, st, o, what):
        l = st.lists[o]
        if isinstance(l, (SList, FamList)):
            if what == 'n':
                return zint(l.n)
            if what == 'present':
                return l.present if isinstance(l, FamList) else None
            return l.els[what] if isinstance(l, SList) else None
        return None

    def once(self, x, it, test, s, k, peeled=False):
        """one iteration from s at index k -> list of (state, outcome); outcome 'exit' = while test false"""
        starts, outs = [], []
        if it is not None:
            starts = self.assign(x.target, it.item(k), s, x)
        else:
            for s1, v in self.ev(test, s):
                for s2, ok in self.fork(s1, self.truth(v, x, s1)):
                    if ok:
                        starts.append(s2)
                    else:
                        outs.append((s2, ('exit',)))
        for s1 in starts:
            outs += self.block(x.body, s1)
        outs = self.merge_all(outs)
        if len(self.loopstack) == (0 if peeled else 1) and hasattr(self.cur, 'ghost_step'):
            for s2, o in outs:
                if o is None or o[0] in ('continue', 'break'):
                    self.cur.ghost_step(self, s2)
        return outs

    loopstack = ()
    discovering = 0

    def stages(self, st, s0, cells, cands, k, k0, n, x, it, test):
        """which candidates are worth trying: while only the modified locations of an outer loop are being collected the scalar ones;
        generated array candidates only for the arrays no contract candidate speaks about, unless some contract candidate fails"""
        if self.discovering:
            cands = [c for c in cands if not c.contract and (c.cell is None or not z3.is_array(c.cell.h))]
            return self.houdini(st, s0, cells, cands, k, k0, n, x, it, test)
        K0 = z3.IntVal(k0) if isinstance(k0, int) else k0
        init = [(c.h, c.init) for c in cells]
        base = st.pc + st.qh
        con = []
        for c in cands:
            if c.contract:
                g = c.at(K0)
                if self.quick(base, z3.substitute(g, *init) if init else g):
                    con.append(c)
        def cover(cs):
            return {cell.h.get_id() for c in cs for cell in cells if z3.is_array(cell.h) and occurs(c.at(k), [cell.h])}
        auto = [c for c in cands if not c.contract]
        if con:
            covered = cover(con)
            first = [c for c in auto if not (c.cell is not None and c.cell.h.get_id() in covered)] + con
            got = self.houdini(st, s0, cells, first, k, k0, n, x, it, test, skip=con)
            left = [c for c in con if c in got]
            if cover(left) == covered or len(first) == len(auto) + len(con):
                return got
            con = left + [c for c in con if c not in got]
        return self.houdini(st, s0, cells, auto + con, k, k0, n, x, it, test, skip=con)

    def sym_loop(self, x, st, it, test, k0=0, peeled=False):
        n = zint(it.n) if it is not None else None
        if it is not None:
            src_sig = self.src_sig(st, it.src)
        k = fresh('k', I)
        rng = [k0 <= k, SEEN(k)] + ([k < n] if n is not None else [])
        mods = {}
        self.loop_checks += 1
        stack = self.loopstack
        try:
            # ---- which locations change?
            for rounds in range(8):
                s = st.copy()
                s.add(*rng)
                self.loopstack = stack + ((k, k0, n),)
                cells = self.havoc_all(s, st, mods)
                self.markof[int(k.decl().name().rsplit('!', 1)[1])] = _freshctr[0]
                s0 = s.copy()
                if not peeled and k0 == 0 and self.wants_peel(x, st, s0, mods):
                    self.loopstack = stack
                    return self.peel(x, st, it, test)
                self.suppress += 1
                obs0 = len(self.obs)
                self.discovering += 1
                try:
                    outs = self.once(x, it, test, s.copy(), k)
                finally:
                    self.discovering -= 1
                    self.suppress -= 1
                    del self.obs[obs0:]
                grew = False
                for s2, o in outs:
                    if o is not None and o[0] in ('break', 'return', 'exit'):
                        if o[0] == 'exit':
                            pass
                        else:
                            continue
                    for loc in self.diff(s0, s2):
                        newv = self.get_loc(s2, loc) if loc[0] in ('env', 'attr', 'list', 'fam', 'ghost') else None
                        if loc not in mods:
                            mods[loc] = newv
                            grew = True
                        elif loc[0] in ('env', 'attr'):
                            cur = self.get_loc(s0, loc)
                            if cur is UNBOUND:
                                continue
                            if is_num(cur) and is_num(newv):
                                if self.sort_of(cur, newv) != (cur.sort() if is_sym(cur) else None):
                                    mods[loc] = newv
                                    grew = True
                            elif isinstance(cur, Opt) or isinstance(cur, EnumV) or isinstance(cur, FRef):
                                if isinstance(newv, (Opt, EnumV, FRef)) or newv is None or is_num(newv):
                                    pass
                                else:
                                    mods[loc] = newv
                            elif isinstance(cur, NdRef) and isinstance(newv, NdRef):
                                pass
                            elif mods[loc] is not UNBOUND:
                                mods[loc] = UNBOUND
                                grew = True
                if not grew:
                    break
            else:
                raise Unsupported('loop modifies too much', x)
            if it is not None and self.src_sig(s0, it.src, st, mods) != src_sig:
                raise Unsupported('sequence changed while it is iterated', x)
            # ---- would peeling one iteration give the variables a stable type?
            if not peeled and k0 == 0 and self.wants_peel(x, st, s0, mods):
                self.loopstack = stack
                return self.peel(x, st, it, test)
            # ---- candidate invariants
            # iterate: the body is executed under the current candidates, the ones that do not hold are dropped
            cands = self.candidates(st, s0, cells, [(s2, o) for s2, o in outs if o is None or o[0] == 'continue'], outs, k, k0, n, x)
            cands = self.stages(st, s0, cells, cands, k, k0, n, x, it, test)
            # ---- final pass: obligations, exits
            s = s0.copy()
            for c in cands:
                s.add(c.at(k))
            res = []
            outs = self.once(x, it, test, s, k)
            after = []
            for s2, o in outs:
                if o is not None and o[0] == 'break':
                    res.append((s2, None))
                elif o is not None and o[0] == 'return':
                    res.append((s2, o))
                elif o is not None and o[0] == 'exit':
                    after.append(s2)
        finally:
            self.loopstack = stack
        if n is not None:
            s = st.copy()
            nn = it.n
            cells2 = self.havoc_all(s, st, mods)
            sub = [(c.h, d.h) for c, d in zip(cells, cells2)]
            kn = n
            s.add(k0 <= n) if not (isinstance(k0, int) and k0 == 0) else s.add(n >= 0)
            for c in cands:
                f = z3.substitute(c.at(kn), *sub) if sub else c.at(kn)
                s.add(f)
            # closed forms replace the fresh constants
            closed = {}
            for c in cands:
                if c.closed is not None:
                    closed[c.cell.loc] = z3.substitute(c.closed(kn), *sub) if sub else c.closed(kn)
            self.put_closed(s, closed)
            if it is not None:
                self.bind_last(s, x, it, n, k0)
            after = [s]
        fin = []
        for s in after:
            if x.orelse:
                fin += self.block(x.orelse, s)
            else:
                fin.append((s, None))
        return fin + res

    def bind_last(self, s, x, it, n, k0):
        for nm in [t.id for t in ast.walk(x.target) if isinstance(t, ast.Name)]:
            s.env[nm] = UNBOUND
        if isinstance(x.target, ast.Name) and self.entails(s, n >= k0 + 1):
            try:
                s.env[x.target.id] = it.item(z3.simplify(n - 1))
            except Exception:
                pass

    def put_closed(self, s, closed):
        for loc, v in closed.items():
            if loc[0] == 'env':
                s.env[loc[1]] = v if not isinstance(s.env[loc[1]], EnumV) else EnumV(s.env[loc[1]].cls, v)
            elif loc[0] == 'attr':
                a = s.wobj(loc[1]).attrs
                a[loc[2]] = v if not isinstance(a[loc[2]], EnumV) else EnumV(a[loc[2]].cls, v)
            elif loc[0] == 'listn':
                l = s.lists[loc[1]]
                s.lists[loc[1]] = SList(v, l.ety, l.els) if isinstance(l, SList) else FamList(l.fam, v, l.present)

    def wants_peel(self, x, st, s0, mods):
        return any(loc[0] == 'env' and loc[1] in st.env and self.get_loc(s0, loc) is UNBOUND and st.env[loc[1]] is not UNBOUND and self.read_before_write(x, loc[1]) for loc in mods)

    def read_before_write(self, x, name):
        return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) for b in x.body for n in ast.walk(b)) or \
            any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name for b in x.body for n in ast.walk(b))

    def peel(self, x, st, it, test):
        """execute the first iteration separately, then summarise the rest"""
        out = []
        if it is not None:
            for s, ok in self.fork(st, zint(it.n) >= 1):
                if not ok:
                    s.add(zint(it.n) == 0)
                    out += self.block(x.orelse, s) if x.orelse else [(s, None)]
                    continue
                for s2, o in self.once(x, it, None, s, z3.IntVal(0), peeled=True):
                    if o is not None and o[0] == 'break':
                        out.append((s2, None))
                    elif o is not None and o[0] == 'return':
                        out.append((s2, o))
                    else:
                        out += self.sym_loop(x, s2, it, None, k0=1, peeled=True)
        else:
            for s2, o in self.once(x, None, test, st, z3.IntVal(0), peeled=True):
                if o is not None and o[0] == 'exit':
                    out += self.block(x.orelse, s2) if x.orelse else [(s2, None)]
                elif o is not None and o[0] == 'break':
                    out.append((s2, None))
                elif o is not None and o[0] == 'return':
                    out.append((s2, o))
                else:
                    out += self.sym_loop(x, s2, None, test, k0=0, peeled=True)
        return out

    def src_sig(self, s, src, st=None, mods=None):
        if isinstance(src, ListRef):
            lv = (s if mods is None else s).lists[src.oid]
            return id(lv)
        if isinstance(src, FListRef):
            if mods is not None and (('fam', (src.fam, src.field, 'len')) in mods or ('fam', (src.fam, src.field, 'el')) in mods):
                return 'changed'
            return 0
        return 0

    def havoc_all(self, s, st, mods):
        cells = []
        if any(loc[0] == 'list' and loc[1] not in st.lists for loc in mods):
            raise Unsupported('an array is changed in place and rebound in a loop')
        self.nd_inplace = any(loc[0] == 'list' and isinstance(st.lists.get(loc[1]), SList) and st.lists[loc[1]].ety == 'nd' for loc in mods)
        order = sorted(mods, key=lambda l: str(l))
        for loc in order:
            old = self.get_loc(st, loc) if loc[0] in ('env', 'attr', 'list', 'fam', 'ghost') else None
            new = mods[loc]
            if loc[0] in ('env', 'attr') and new is UNBOUND:
                if loc[0] == 'env':
                    s.env[loc[1]] = UNBOUND
                else:
                    s.wobj(loc[1]).attrs[loc[2]] = UNBOUND
                continue
            cells += self.havoc_loc(s, loc, old, new)
        return cells

    # --- candidate invariants
    def candidates(self, st, s0, cells, bodies, outs, k, k0, n, x):
        out = []
        hs = [c.h for c in cells]
        hk = [c.h for c in cells] + [k]
        K0 = z3.IntVal(k0) if isinstance(k0, int) else k0
        ups = [[c.get(s2) for s2, _ in bodies] for c in cells]
        solved = []
        # scalars
        for c, us in zip(cells, ups):
            so = c.h.sort()
            if so not in (I, R) or any(u is None for u in us) or not us:
                continue
            ds = [z3.simplify(u - c.h) for u in us]
            if all(d.eq(ds[0]) for d in ds) and not occurs(ds[0], hk):
                d = ds[0]
                if so == I:
                    f = lambda t, c=c, d=d: c.init + mul(d, t - K0)
                else:
                    f = lambda t, c=c, d=d: c.init + mul(d, z3.ToReal(t - K0))
                out.append(Cand('recurrence', lambda t, c=c, f=f: c.h == f(t), c, f))
                solved.append((c.h, z3.simplify(f(k))))
            elif so == I and all(z3.is_int_value(d) or z3.is_app(d) for d in ds):
                out.append(Cand('lower', lambda t, c=c: c.h >= c.init, c))
                out.append(Cand('upper', lambda t, c=c: c.h <= c.init + (t - K0), c))
        # last values
        for c, us in zip(cells, ups):
            if c.h.sort() not in (I, R, B) or any(u is None for u in us) or not us or any(h.eq(c.h) for h, _ in solved):
                continue
            us2 = [z3.simplify(z3.substitute(u, *solved)) if solved else z3.simplify(u) for u in us]
            if all(u.eq(us2[0]) for u in us2) and not occurs(us2[0], hs):
                u = us2[0]
                f = lambda t, u=u: z3.simplify(z3.substitute(u, (k, t - 1)))
                out.append(Cand('last', lambda t, c=c, f=f: z3.And(z3.Implies(t == K0, c.h == c.init), z3.Implies(t > K0, c.h == f(t))), c))
            if c.h.sort() == B:
                for u in us2:
                    p = z3.simplify(z3.substitute(u, (c.h, z3.BoolVal(True))))
                    q = z3.simplify(z3.substitute(u, (c.h, z3.BoolVal(False))))
                    j = fresh('j', I)
                    # path conditions decide which update applies: use them as the fold predicate
                if us2:
                    out += self.bool_folds(c, us2, bodies, s0, k, K0, hs, solved)
        # arrays
        wit = {}
        frames = {}
        for c, us in zip(cells, ups):
            if not z3.is_array(c.h) or any(u is None for u in us) or not us:
                continue
            stores, ok = [], True
            for u in us:
                b, ch = store_chain(u)
                if not b.eq(c.h):
                    ok = False
                    break
                for e, v in ch:
                    e = z3.simplify(z3.substitute(e, *solved)) if solved else z3.simplify(e)
                    v = z3.substitute(v, *solved) if solved else v
                    if not any(e.eq(e2) and v.eq(v2) for e2, v2 in stores):
                        stores.append((e, v))
            if not ok or not stores:
                continue
            es = []
            for e, v in stores:
                if occurs(e, hs):
                    ok = False
                    break
                if not any(e.eq(e2) for e2 in es):
                    es.append(e)
            if not ok:
                continue
            inits = [(d.h, d.init) for d in cells if z3.is_array(d.h)]
            for e, v in stores:
                v0 = z3.substitute(v, *inits)
                if occurs(v0, hs):
                    continue
                out.append(Cand('written', self.written(c, e, v0, k, K0), c))
            out.append(Cand('frame', self.framed(c, es, k, K0, wit, cells, solved), c))
            frames[c.loc] = es
        self.pending_wit = wit
        # facts of earlier iterations that did not leave the loop
        early = any(o is not None and o[0] in ('break', 'return') for _, o in outs)
        if early and len(bodies) == 1:
            facts, inner = [], []
            for f in bodies[0][0].pc[len(s0.pc):] + bodies[0][0].qh[len(s0.qh):]:
                f = z3.substitute(f, *solved) if solved else f
                if not occurs(f, hs):
                    (inner if self.newer_than_loop(f, k) else facts).append(f)
            facts += self.some_inner(inner, k)
            if facts:
                g = And(*facts)
                out.append(Cand('not left earlier', lambda t, g=g: self.forall_k(g, k, K0, t), None))
        # bounds from while tests
        if n is None:
            for s2, _ in bodies:
                for f in s2.pc[len(s0.pc):]:
                    if z3.is_lt(f) or z3.is_gt(f) or z3.is_not(f):
                        w = self.weaken(f)
                        if w is not None and not self.newer_than_loop(w, k):
                            out.append(Cand('bound', lambda t, w=w: z3.substitute(w, (k, t)), None))
        out += self.contract_candidates(st, s0, k, k0, n, x)
        return out

    def contract_candidates(self, st, s0, k, k0, n, x):
        f = getattr(self.cur, 'loop_invs', None)
        if f is None:
            return []
        res = []
        stack = self.loopstack[:-1]

        def prog(t):
            return [a for a, _, _ in stack] + [t]
        for nm, fn in f(self, st, s0, stack, k):
            res.append(Cand(nm, fn, None, contract=True))
        return res

    def weaken(self, f):
        if z3.is_not(f):
            g = f.children()[0]
            if z3.is_ge(g):
                a, b = g.children()
                return a <= b
            if z3.is_le(g):
                a, b = g.children()
                return a >= b
            return None
        a, b = f.children()
        if not (a.sort() == I):
            return None
        return a <= b if z3.is_lt(f) else a >= b

    def newer_than_loop(self, f, k):
        mark = int(k.decl().name().rsplit('!', 1)[1])
        # constants created after the loop's havoc constants
        return self.newer(f, self.markof.get(mark, mark))

    markof = {}

    def some_inner(self, fs, k):
        """what was found inside an iteration, for some values of the integers chosen there"""
        mark = int(k.decl().name().rsplit('!', 1)[1])
        mark = self.markof.get(mark, mark)
        keep, vs = [], {}
        for f in fs:
            cs = [u for u in subterms(f, lambda u: z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED) if self.newer(u, mark)]
            if not z3.is_quantifier(f) and len(f.sexpr()) < 2000 and all(u.sort() == I for u in cs):
                keep.append(f)
                vs.update({u.get_id(): u for u in cs})
        vs = list(vs.values())
        if not keep or len(vs) != 1:
            return []
        j = fresh('j', I)
        g = z3.substitute(And(*keep), (vs[0], j))
        return [z3.Not(z3.ForAll([j], z3.Not(z3.And(SEEN(j), g)), patterns=[SEEN(j)]))]

    def forall_k(self, g, k, K0, t):
        j = fresh('j', I)
        b = z3.substitute(g, (k, j))
        pats = [u for u in self.pick_patterns(b, j) if u.decl().name() not in ('MUL', 'FDIV', 'FMOD')]
        if not pats:
            return z3.ForAll([j], z3.Implies(z3.And(SEEN(j), K0 <= j, j < t), b), patterns=[SEEN(j)])
        return z3.ForAll([j], z3.Implies(z3.And(K0 <= j, j < t), b), patterns=pats)

    def pick_patterns(self, b, j):
        """select-terms / applications over j without arithmetic in between"""
        cand = []
        for u in subterms(b, lambda u: z3.is_app(u) and u.num_args() > 0 and (z3.is_select(u) or u.decl().kind() == z3.Z3_OP_UNINTERPRETED)):
            if z3.is_quantifier(u) or not occurs(u, [j]):
                continue
            if self.good_pattern(u, j):
                cand.append(u)
        # prefer the smallest ones
        cand.sort(key=lambda u: len(u.sexpr()))
        out = []
        for u in cand:
            if not any(u.eq(v) for v in out):
                out.append(u)
        return out[:3]

    def good_pattern(self, u, j):
        for c in u.children():
            if c.eq(j):
                return True
            if z3.is_app(c) and (z3.is_select(c) or (c.decl().kind() == z3.Z3_OP_UNINTERPRETED and c.num_args())) and occurs(c, [j]) and self.good_pattern(c, j):
                return True
        return False

    def bool_folds(self, c, us, bodies, s0, k, K0, hs, solved):
        """flag' = flag and p(k)  /  flag' = flag or p(k)"""
        res = []
        pre = len(s0.pc)
        conds = []
        for (s2, _), u in zip(bodies, us):
            facts = [z3.substitute(f, *solved) if solved else f for f in s2.pc[pre:]]
            facts = [f for f in facts if not occurs(f, hs)]
            conds.append((And(*facts), u))
        # value after one round starting from b
        def after(b):
            r = None
            for g, u in conds:
                u = z3.substitute(u, (c.h, z3.BoolVal(b)))
                r = z3.If(g, u, r) if r is not None else (u if len(conds) == 1 else z3.And(g, u))
            return z3.simplify(r)
        p, q = after(True), after(False)
        j = fresh('j', I)

        def mk(body, t, all_):
            if all_ and z3.is_true(body) or not all_ and z3.is_false(body):
                return z3.BoolVal(all_)
            if z3.is_true(body) or z3.is_false(body):
                return K0 >= t if all_ else K0 < t
            b = z3.substitute(body, (k, j))
            pats = [u for u in self.pick_patterns(b, j) if u.decl().name() not in ('MUL', 'FDIV', 'FMOD')]
            kw = {'patterns': pats} if pats and all_ else {}
            g = z3.And(K0 <= j, j < t)
            if not pats:
                g = z3.And(SEEN(j), g)
                if not all_:
                    return z3.Not(z3.ForAll([j], z3.Not(z3.And(g, b)), patterns=[SEEN(j)]))
                kw = {'patterns': [SEEN(j)]}
            return z3.ForAll([j], z3.Implies(g, b), **kw) if all_ else z3.Exists([j], z3.And(g, b))
        if not occurs(p, hs):
            res.append(Cand('all so far', lambda t: c.h == z3.And(c.init, mk(p, t, True)), c, lambda t: z3.And(c.init, mk(p, t, True))))
        if not occurs(q, hs):
            res.append(Cand('some so far', lambda t: c.h == z3.Or(c.init, mk(q, t, False)), c, lambda t: z3.Or(c.init, mk(q, t, False))))
        return res

    def written(self, c, e, v0, k, K0):
        def f(t):
            j = fresh('j', I)
            ej, vj = z3.substitute(e, (k, j)), z3.substitute(v0, (k, j))
            pats = []
            if ej.eq(j):
                pats = [z3.Select(c.h, j)]
                pats += [u for u in self.pick_patterns(vj, j)][:1]
            else:
                pats = [u for u in self.pick_patterns(ej, j)][:1]
                d = z3.simplify(ej - j)
                if not occurs(d, [j]):
                    # linear: restate with the position as the bound variable
                    v2 = z3.substitute(vj, (j, j - d))
                    return z3.ForAll([j], z3.Implies(z3.And(K0 + d <= j, j < t + d), z3.Select(c.h, j) == v2), patterns=[z3.Select(c.h, j)])
            kw = {'patterns': pats} if pats else {}
            return z3.ForAll([j], z3.Implies(z3.And(K0 <= j, j < t), z3.Select(c.h, ej) == vj), **kw)
        return f

    def framed(self, c, es, k, K0, wit, cells, solved):
        lin = []
        for e in es:
            j = fresh('j', I)
            d = z3.simplify(z3.substitute(e, (k, j)) - j)
            lin.append(d if not occurs(d, [j]) else None)

        def f(t):
            x = fresh('x', I)
            alts = []
            for e, d in zip(es, lin):
                if d is not None:
                    alts.append(z3.And(K0 + d <= x, x < t + d))
                else:
                    key = e.get_id()
                    if key not in wit:
                        wit[key] = (fresh('wit', z3.ArraySort(I, I)), e)
                    w = wit[key][0]
                    alts.append(z3.And(K0 <= w[x], w[x] < t, z3.substitute(e, (k, w[x])) == x))
            pats = [z3.Select(c.h, x)]
            if not z3.is_K(c.init) and not z3.is_store(c.init):
                pats.append(z3.Select(c.init, x))
            return z3.ForAll([x], z3.Or([z3.Select(c.h, x) == z3.Select(c.init, x)] + alts), patterns=pats)
        return f

    def houdini(self, st, s0, cells, cands, k, k0, n, x, it, test, skip=()):
        K0 = z3.IntVal(k0) if isinstance(k0, int) else k0
        init = [(c.h, c.init) for c in cells]
        good = []
        base = st.pc + st.qh
        extra0 = s0.pc[len(st.pc):]
        for c in cands:
            g = c.at(K0)
            g = z3.substitute(g, *init) if init else g
            if c in skip or self.quick(base, g):
                good.append(c)
        if DEBUG:
            print(f'loop {x.lineno} depth {len(self.loopstack)}: {len(cands)} candidates, {len(good)} hold initially; lost contract ones: {[c.name for c in cands if c.contract and c not in good]}', flush=True)
        for _ in range(12):
            s = s0.copy()
            for c in good:
                s.add(c.at(k))
            self.suppress += 1
            obs0 = len(self.obs)
            try:
                outs = self.once(x, it, test, s.copy(), k)
            finally:
                self.suppress -= 1
                del self.obs[obs0:]
            bodies = [s2 for s2, o in outs if o is None or o[0] == 'continue']
            keep = []
            for c in good:
                ok = True
                for s2 in bodies:
                    sub = []
                    bad = False
                    for cell in cells:
                        u = cell.get(s2)
                        if u is None:
                            bad = True
                            break
                        sub.append((cell.h, u))
                    if bad:
                        ok = False
                        break
                    g = c.at(k + 1)
                    # ghost witness arrays grow with the iteration
                    for w, e in self.pending_wit.values():
                        e1 = z3.substitute(e, *[(cell.h, cell.init) for cell in cells if z3.is_array(cell.h)])
                        sub.append((w, z3.Store(w, e, k)))
                    g = z3.substitute(g, *sub)
                    if not self.quick(s2.pc + s2.qh, g, 4000000 if c.contract else 1500000):
                        ok = False
                        if DEBUG and c.contract:
                            self.debug_lost = getattr(self, 'debug_lost', [])
                            self.debug_lost.append((c.name, x.lineno, len(self.loopstack), list(s2.pc + s2.qh), g))
                        break
                if ok:
                    keep.append(c)
            if len(keep) == len(good):
                self.loop_checks += len(good)
                return good
            if DEBUG:
                print(f'loop {x.lineno} round: {len(good)} -> {len(keep)}; lost {[c.name for c in good if c not in keep]}', flush=True)
            good = keep
        raise Unsupported('loop invariants do not stabilise', x)

    def quick(self, hyps, g, rlimit=1500000):
        g = simp(g)
        if isinstance(g, bool):
            return g
        ok, _ = solve.prove_parts(hyps, g, rlimit=rlimit)
        return ok


class Cell:
    """one havocked location component of a loop: constant h at the head, initial term, value in a later state"""
    def __init__(self, h, init, get, loc):
        self.h, self.init, self.get, self.loc = h, init, get, loc


class Cand:
    def __init__(self, name, at, cell, closed=None, contract=False):
        self.name, self._at, self.cell, self.closed, self.contract = name, at, cell, closed, contract
        self.cache = {}

    def at(self, t):
        i = t.get_id()
        if i not in self.cache:
            self.cache[i] = (t, self._at(t))
        return self.cache[i][1]
