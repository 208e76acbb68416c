"""Lattice construction, addressing and neighbour queries (C01, C02, C03)."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract, clause
from pyvc.world import World, View
from pyvc.frame import frame
from pyvc import theory as T
from pyvc.theory import L, N, M, SITE, BOND, NB, BD, E1, E2, ROW, COL


# ---------------------------------------------------------------- the lattice invariant
def site_pos(v, hi=None, bound=SITE):
    return clause('site ids and positions', lambda s: z3.Implies(bound(s), z3.And(v.sid[s] == s, v.srow[s] == ROW(s), v.scol[s] == COL(s))),
                  [('s', I)], lambda s: [v.sid[s], v.srow[s], v.scol[s]])


def site_bonds(v, bound=SITE):
    return clause('site bond lists', lambda s: z3.Implies(bound(s), z3.And(v.cbl[s] == 4, *[v.cbe[s][d] == BD(d, s) for d in range(4)])),
                  [('s', I)], lambda s: [v.cbl[s], v.cbe[s]], hints=lambda s: [T.nb_inst(2, s), T.nb_inst(3, s)])


def bond_pos(v):
    return clause('bond ids and positions', lambda b: z3.Implies(BOND(b), z3.And(v.bid[b] == b, z3.If(b < N, z3.And(v.btype[b] == 0, v.brow[b] == ROW(b), v.bcol[b] == COL(b)),
                                                                                 z3.And(v.btype[b] == 1, v.brow[b] == ROW(b - N), v.bcol[b] == COL(b - N))))),
                  [('b', I)], lambda b: [v.bid[b], v.btype[b], v.brow[b], v.bcol[b]])


def bond_sites(v):
    return clause('bond site lists', lambda b: z3.Implies(BOND(b), z3.And(v.csl[b] == 2, z3.Or(z3.And(v.cse[b][0] == E1(b), v.cse[b][1] == E2(b)),
                                                                                              z3.And(v.cse[b][0] == E2(b), v.cse[b][1] == E1(b))))),
                  [('b', I)], lambda b: [v.csl[b], v.cse[b]])


def latinv(v):
    return [site_pos(v), site_bonds(v), bond_pos(v), bond_sites(v)]


def assume_lattice(w):
    v = View(w, w.st)
    for cl in latinv(v):
        w.st.add(cl.hyp())


def structure(c):
    """the attributes every lattice method relies on"""
    v, eng = c.new, c.eng

    def attr(nm, want):
        def f():
            x = v.la(nm)
            if not is_intlike(x):
                return z3.BoolVal(False)
            return zint(x) == want
        return f
    out = [clause('length', attr('length', L)), clause('site_count', attr('site_count', N)), clause('bond_count', attr('bond_count', M))]

    def filled(nm, fam, n):
        x = v.la(nm)
        if not isinstance(x, ListRef) or not isinstance(v.st.lists[x.oid], FamList):
            return [clause(nm + ' holds the elements', lambda: z3.BoolVal(False))]
        lv = v.st.lists[x.oid]
        return [clause(nm + ' length', lambda: zint(lv.n) == n),
                clause(nm + ' is filled', lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.Select(lv.present, i)), [('i', I)])]
    out += filled('site_matrix', 'Site', N) + filled('bond_matrix', 'Bond', M)
    for nm, n in (('site_ids', N), ('bond_ids', M)):
        x = v.la(nm)
        if isinstance(x, RangeV):
            out.append(clause(nm, lambda x=x, n=n: z3.And(zint(x.lo) == 0, zint(x.hi) == n, z3.BoolVal(x.step == 1))))
        elif isinstance(x, ListRef):
            n1, e1 = v.lst(x)
            out.append(clause(nm + ' length', lambda n1=n1, n=n: n1 == n))
            out.append(clause(nm, lambda i, e1=e1, n=n: z3.Implies(z3.And(0 <= i, i < n), e1[0][i] == i), [('i', I)]))
        else:
            out.append(clause(nm, lambda: z3.BoolVal(False)))
    return out


def derived(v):
    """C01 as stated, from the lattice invariant"""
    el = lambda s, d: v.cbe[s][d]
    return [clause('four distinct bonds', lambda s: z3.Implies(SITE(s), z3.Distinct(*[el(s, d) for d in range(4)])), [('s', I)], hints=lambda s: [T.nb_inst(d, s) for d in range(4)]),
            clause('every listed bond is a bond', lambda s: z3.Implies(SITE(s), z3.And([BOND(el(s, d)) for d in range(4)])), [('s', I)], hints=lambda s: [T.nb_inst(d, s) for d in range(4)]),
            clause('the bond lists the site', lambda s: z3.Implies(SITE(s), z3.And([z3.Or(v.cse[el(s, d)][0] == s, v.cse[el(s, d)][1] == s) for d in range(4)])), [('s', I)],
                   hints=lambda s: [T.nb_inst(d, s) for d in range(4)]),
            clause('two distinct sites', lambda b: z3.Implies(BOND(b), z3.And(v.cse[b][0] != v.cse[b][1], SITE(v.cse[b][0]), SITE(v.cse[b][1]))), [('b', I)],
                   hints=lambda b: [T.nb_inst(0, b), T.nb_inst(1, b - N)]),
            clause('the site lists the bond', lambda b: z3.Implies(BOND(b), z3.And([z3.Or([el(v.cse[b][i], d) == b for d in range(4)]) for i in (0, 1)])), [('b', I)],
                   hints=lambda b: [T.nb_inst(0, b), T.nb_inst(1, b - N), T.nb_inst(2, T.NB[0](b)), T.nb_inst(3, T.NB[1](b - N))]),
            clause('a bond lists no other site', lambda b, s: z3.Implies(z3.And(BOND(b), SITE(s), z3.Or(v.cse[b][0] == s, v.cse[b][1] == s)), z3.Or([el(s, d) == b for d in range(4)])),
                   [('b', I), ('s', I)], hints=lambda b, s: [T.nb_inst(0, b), T.nb_inst(1, b - N), T.nb_inst(2, T.NB[0](b)), T.nb_inst(3, T.NB[1](b - N))])]


class LatticeInit(Contract):
    key = 'Lattice.__init__'
    props = {'C01', 'C02'}
    inline = False
    width = 8

    def setup(self, eng, variant):
        w = World(eng)
        w.lat = eng.new_obj(w.st, w.cls('Lattice'), {})
        return w, [w.lat, L], {}

    def matches(self, eng, st, fi, recv):
        return isinstance(recv, Obj)

    def find_world(self, eng, w, env, st):
        w.lat, self.length = [env[a.arg] for a in self.fi.node.args.args]
        w.pool = w.perc = None

    def requires(self, c):
        if not is_intlike(self.length):
            raise Unsupported('length of a lattice')
        return [clause('the side length', lambda: zint(self.length) == L)]

    def havoc(self, c, s2):
        c.applying = True
        for k, a in list(s2.fam.items()):
            if k[0] in ('Site', 'Bond'):
                s2.fam[k] = fresh('new', a.sort())
        at = s2.wobj(c.w.lat.oid).attrs
        full = z3.K(I, z3.BoolVal(True))
        new = lambda fam, n: c.eng.new_list(s2, FamList(fam, n, full))
        at.update(length=L, bond_count=M, site_count=N, site_matrix=new('Site', N), bond_matrix=new('Bond', M), site_ids=RangeV(0, N), bond_ids=RangeV(0, M))
        return None

    def ensures(self, c):
        v = c.new
        fresh_state = clause('sites start unoccupied', lambda s: z3.Implies(SITE(s), z3.And(v.sg[s] == -1, v.nn1[s] == 4, v.nn2[s] == 4, v.rx[s] == 0, v.ry[s] == 0)), [('s', I)], lambda s: [v.sg[s], v.nn1[s], v.nn2[s], v.rx[s], v.ry[s]])
        fresh_bonds = clause('bonds start without cluster', lambda b: z3.Implies(BOND(b), v.bg[b] == -1), [('b', I)], lambda b: [v.bg[b]])
        if getattr(c, 'applying', False):
            return latinv(v) + [fresh_state, fresh_bonds]
        return structure(c) + latinv(v) + [fresh_state, fresh_bonds] + derived(v)

    def loop_invs(self, eng, st, s0, stack, k):
        """which part of the lattice is built after a number of steps (offered as candidates, kept only when inductive)"""
        class W0:
            pass
        w = W0()
        v = View(w, s0)
        out = []
        depth = len(stack)
        if depth > 1:
            return out
        def made(t):
            # number of sites handled: row*L (+ column)
            return T.mul(t, L) if depth == 0 else T.mul(stack[0][0], L) + t
        if depth == 0:
            return self.built(v, st, s0, made) + self.built(v, st, s0, lambda t: t, ', site by site')
        return self.built(v, st, s0, made)

    def built(self, v, st, s0, made, how=''):
        out = []
        building = not (st.fam[('Site', 'id', 0)].eq(s0.fam[('Site', 'id', 0)]) and st.fam[('Bond', 'id', 0)].eq(s0.fam[('Bond', 'id', 0)]))
        try:
            if not building:
                return self.wiring(v, made, how)
            out.append(('sites built' + how, lambda t: z3.ForAll([_s], z3.Implies(z3.And(0 <= _s, _s < made(t)), z3.And(
                v.sid[_s] == _s, v.srow[_s] == ROW(_s), v.scol[_s] == COL(_s), v.sg[_s] == -1, v.nn1[_s] == 4, v.nn2[_s] == 4, v.rx[_s] == 0, v.ry[_s] == 0,
                v.cbl[_s] == 0)), patterns=[v.sid[_s], v.srow[_s], v.scol[_s], v.sg[_s], v.nn1[_s], v.nn2[_s], v.rx[_s], v.ry[_s], v.cbl[_s]])))
            for off, ty in ((0, 0), (N, 1)):
                out.append((f'bonds of type {ty} built' + how, lambda t, off=off, ty=ty: z3.ForAll([_s], z3.Implies(z3.And(off <= _s, _s < off + made(t)), z3.And(
                    v.bid[_s] == _s, v.btype[_s] == ty, v.brow[_s] == ROW(_s - off), v.bcol[_s] == COL(_s - off), v.bg[_s] == -1, v.csl[_s] == 0)),
                    patterns=[v.bid[_s], v.btype[_s], v.brow[_s], v.bcol[_s], v.bg[_s], v.csl[_s]])))
            for nm in ('site_matrix', 'bond_matrix'):
                for o, r in s0.objs.items():
                    if r.cls.name == 'Lattice' and isinstance(r.attrs.get(nm), ListRef):
                        lv = s0.lists[r.attrs[nm].oid]
                        if isinstance(lv, FamList):
                            for off in ((0,) if nm == 'site_matrix' else (0, N)):
                                out.append((nm + ' slots filled' + how, lambda t, lv=lv, off=off: z3.ForAll([_s], z3.Implies(z3.And(off <= _s, _s < off + made(t)), z3.Select(lv.present, _s)),
                                                                                                    patterns=[z3.Select(lv.present, _s)])))
                                out.append((nm + ' length', lambda t, lv=lv, nm=nm: zint(lv.n) == (N if nm == 'site_matrix' else M)))
        except Unsupported:
            pass
        return out

    def wiring(self, v, made, how):
        out = []
        try:
            out.append(('sites wired' + how, lambda t: z3.ForAll([_s], z3.Implies(SITE(_s), z3.If(_s < made(t), z3.And(v.cbl[_s] == 4, *[v.cbe[_s][d] == BD(d, _s) for d in range(4)]),
                                                                                          v.cbl[_s] == 0)), patterns=[v.cbl[_s], v.cbe[_s]])))

            def wired(b, t):
                a, o = z3.If(E1(b) < made(t), 1, 0), z3.If(E2(b) < made(t), 1, 0)
                e = v.cse[b]
                return z3.And(v.csl[b] == a + o,
                              z3.Implies(z3.And(a == 1, o == 0), e[0] == E1(b)), z3.Implies(z3.And(a == 0, o == 1), e[0] == E2(b)),
                              z3.Implies(z3.And(a == 1, o == 1), z3.Or(z3.And(e[0] == E1(b), e[1] == E2(b)), z3.And(e[0] == E2(b), e[1] == E1(b)))))
            out.append(('bonds wired' + how, lambda t: z3.ForAll([_s], z3.Implies(BOND(_s), wired(_s, t)), patterns=[v.csl[_s], v.cse[_s]])))
        except Unsupported:
            pass
        return out


_s = z3.Int('s?')


# ---------------------------------------------------------------- queries
class Query(Contract):
    """a method of a finished lattice that changes nothing"""
    props = {'C03'}
    cls = 'Lattice'

    def setup(self, eng, variant):
        w = World(eng)
        w.lattice()
        assume_lattice(w)
        return w, [w.lat] + self.qargs(w), {}

    def qargs(self, w):
        s = fresh('s', I)
        w.st.add(SITE(s))
        self.s = s
        return [s]

    def ensures(self, c):
        return self.result(c) + frame(c)

    def fixed(self, c, n):
        """result is a list of n items -> items"""
        v = c.res
        items = c.eng.concrete_items(v, c.new.st, None) if isinstance(v, (ListRef, FListRef, Tup)) else None
        return items if items is not None and len(items) == n else None

    def exact(self, c, want):
        items = self.fixed(c, len(want))
        if items is None:
            return [clause('result', lambda: z3.BoolVal(False))]
        return [clause(f'result[{i}]', lambda x=x, y=y: zint(x) == y) for i, (x, y) in enumerate(zip(items, want))]


class NeighborBonds(Query):
    key = 'Lattice.get_neighbor_bonds'
    props = {'C01', 'C03'}

    def result(self, c):
        return self.exact(c, [BD(d, self.s) for d in range(4)])


class FindNeighborBonds(NeighborBonds):
    key = 'Lattice.find_neighbor_bonds'
    props = {'C01'}
    may_skip = True


class NeighborSitesOfBond(Query):
    key = 'Lattice.get_neighbor_sites'
    props = {'C01', 'C03'}

    def qargs(self, w):
        self.b = fresh('b', I)
        w.st.add(BOND(self.b))
        return [self.b]

    def result(self, c):
        items = self.fixed(c, 2)
        if items is None:
            return [clause('result', lambda: z3.BoolVal(False))]
        x, y, b = zint(items[0]), zint(items[1]), self.b
        return [clause('joins a site and its right or lower neighbour', lambda: z3.And(x != y, z3.Or(z3.And(x == E1(b), y == E2(b)), z3.And(x == E2(b), y == E1(b)))))]


class SiteNeighbors(Query):
    key = 'Lattice.get_site_neighbor_of_site'

    def result(self, c):
        return self.exact(c, [NB[d](self.s) for d in range(4)])


class AllNeighbors(SiteNeighbors):
    key = 'Lattice.get_all_neighbor_sites'


class WrappingTestSites(Query):
    key = 'Lattice.get_sites_for_wrapping_test'

    def result(self, c):
        """exactly the neighbours of the same cluster, in order, for an occupied site"""
        v, s = c.old, self.s
        same = [v.sg[NB[d](s)] == v.sg[s] for d in range(4)]
        items = c.eng.concrete_items(c.res, c.new.st, None) if isinstance(c.res, (ListRef, Tup)) else None
        if items is None:
            return [clause('result', lambda: z3.BoolVal(False))]
        # for every subset of directions: if exactly these match, the result is exactly their neighbours in order
        out = []
        for m in range(16):
            ds = [d for d in range(4) if m >> d & 1]
            cond = z3.And([same[d] if d in ds else z3.Not(same[d]) for d in range(4)])
            if len(ds) != len(items):
                out.append(clause(f'neighbours {ds}: length', lambda cond=cond: z3.Not(cond)))
            else:
                out.append(clause(f'neighbours {ds}', lambda cond=cond, ds=ds: z3.Implies(cond, And([zint(x) == NB[d](s) for x, d in zip(items, ds)]))))
        return out


class SimQuery(Query):
    """a query that lives on the simulation object"""
    def setup(self, eng, variant):
        w = World(eng)
        w.lattice()
        w.simulation(self.cls)
        assume_lattice(w)
        return w, [w.perc] + self.qargs(w), {}


class NeighborSite(SimQuery):
    key = 'SitePercolation.get_neighbor_site'
    cls = 'SitePercolation'
    variants = ('0', '1', '2', '3')

    def qargs(self, w):
        s = fresh('s', I)
        w.st.add(SITE(s))
        self.s = s
        return [s]

    def setup(self, eng, variant):
        w, a, k = super().setup(eng, variant)
        self.d = int(variant)
        return w, a + [BD(self.d, self.s)], k

    def result(self, c):
        return [clause('the other end of the bond', lambda: (zint(c.res) == NB[self.d](self.s)) if is_intlike(c.res) else z3.BoolVal(False))]


class FourNeighborsL1(SimQuery):
    key = 'SitePercolationL1.get_four_neighbor_sites'
    cls = 'SitePercolationL1'

    def result(self, c):
        return self.exact(c, [NB[d](self.s) for d in range(4)])


class ConnectedSites(SimQuery):
    key = 'SitePercolation.get_connected_sites'
    cls = 'SitePercolation'

    def setup(self, eng, variant):
        w, (p, s), k = super().setup(eng, variant)
        return w, [p, FRef('Site', s, 0), FListRef('Site', 'connecting_bond_ids', s, 0)], k

    def result(self, c):
        return self.exact(c, [NB[d](self.s) for d in range(4)])


# ---------------------------------------------------------------- addressing (C02)
class SiteById(Query):
    key = 'Lattice.get_site_by_id'
    props = {'C02'}

    def result(self, c):
        v, s = c.old, self.s
        ok = isinstance(c.res, FRef) and c.res.fam == 'Site'
        return [clause('the stored site', lambda: zint(c.res.key) == s if ok else z3.BoolVal(False)),
                clause('carries its id and position', lambda: z3.And(v.sid[s] == s, v.srow[s] == ROW(s), v.scol[s] == COL(s), s == mul(ROW(s), L) + COL(s)))]


class BondById(Query):
    key = 'Lattice.get_bond_by_id'
    props = {'C02'}

    def qargs(self, w):
        self.b = fresh('b', I)
        w.st.add(BOND(self.b))
        return [self.b]

    def result(self, c):
        v, b = c.old, self.b
        ok = isinstance(c.res, FRef) and c.res.fam == 'Bond'
        return [clause('the stored bond', lambda: zint(c.res.key) == b if ok else z3.BoolVal(False)),
                clause('carries its id and position', lambda: z3.And(v.bid[b] == b, b == z3.If(v.btype[b] == 1, N, 0) + mul(v.brow[b], L) + v.bcol[b],
                                                                     z3.Or(v.btype[b] == 0, v.btype[b] == 1), 0 <= v.brow[b], v.brow[b] < L, 0 <= v.bcol[b], v.bcol[b] < L),
                       hints=lambda: [z3.Implies(z3.And(0 <= x, x < N), z3.And(0 <= ROW(x), ROW(x) < L, 0 <= COL(x), COL(x) < L, x == mul(ROW(x), L) + COL(x))) for x in (b, b - N)])]


def rowcol(w):
    r, c = fresh('row', I), fresh('col', I)
    w.st.add(0 <= r, r < L, 0 <= c, c < L)
    return r, c


class ByIndex(Query):
    props = {'C02'}

    def qargs(self, w):
        self.r, self.c_ = rowcol(w)
        return [w.eng.new_obj(w.st, w.cls('Index'), dict(component_1=self.r, component_2=self.c_), frozen=True)]

    def id(self):
        return mul(self.r, L) + self.c_


class SiteByIndex(ByIndex):
    key = 'Lattice.get_site_by_index'

    def result(self, c):
        ok = isinstance(c.res, FRef) and c.res.fam == 'Site'
        v = c.old
        return [clause('the site with that id', lambda: zint(c.res.key) == self.id() if ok else z3.BoolVal(False)),
                clause('has the position asked for', lambda: z3.And(v.srow[c.res.key] == self.r, v.scol[c.res.key] == self.c_) if ok else z3.BoolVal(False),
                       hints=lambda: [T.rowcol_inst(self.r, self.c_)])]


class SiteGidByIndex(ByIndex):
    key = 'Lattice.get_site_gid_by_index'

    def result(self, c):
        return [clause('cluster number of that site', lambda: zint(c.res) == c.old.sg[self.id()] if is_intlike(c.res) else z3.BoolVal(False))]


class SiteGidById(Query):
    key = 'Lattice.get_site_gid_by_id'
    props = {'C02'}

    def result(self, c):
        return [clause('cluster number of that site', lambda: zint(c.res) == c.old.sg[self.s] if is_intlike(c.res) else z3.BoolVal(False))]


class BondGidById(BondById):
    key = 'Lattice.get_bond_gid_by_id'

    def result(self, c):
        return [clause('cluster number of that bond', lambda: zint(c.res) == c.old.bg[self.b] if is_intlike(c.res) else z3.BoolVal(False))]


class IdFromIndex(ByIndex):
    key = 'Lattice.get_id_from_index'

    def qargs(self, w):
        self.r, self.c_ = rowcol(w)
        return [self.r, self.c_]

    def result(self, c):
        return [clause('row*L + column', lambda: zint(c.res) == self.id() if is_intlike(c.res) else z3.BoolVal(False))]


class BondByIndex(ByIndex):
    key = 'Lattice.get_bond_by_index'
    variants = ('h', 'v')

    def setup(self, eng, variant):
        w, a, k = super().setup(eng, variant)
        self.t = 0 if variant == 'h' else 1
        return w, [w.lat, self.r, self.c_, self.t], k

    def result(self, c):
        ok = isinstance(c.res, FRef) and c.res.fam == 'Bond'
        v, k = c.old, (c.res.key if ok else None)
        return [clause('the bond with that id', lambda: zint(k) == self.id() + self.t * N if ok else z3.BoolVal(False)),
                clause('has the position asked for', lambda: z3.And(v.btype[k] == self.t, v.brow[k] == self.r, v.bcol[k] == self.c_) if ok else z3.BoolVal(False),
                       hints=lambda: [T.rowcol_inst(self.r, self.c_)])]


class RowColFromId(Query):
    """id -> position (the code returns column, row; either order identifies the position)"""
    key = 'Lattice.get_row_col_from_id'
    props = {'C02'}
    may_skip = True

    def result(self, c):
        items = self.fixed(c, 2)
        if items is None or not all(is_intlike(x) for x in items):
            return [clause('result', lambda: z3.BoolVal(False))]
        x, y = map(zint, items)
        s = self.s
        return [clause('column and row of the id', lambda: z3.Or(z3.And(x == COL(s), y == ROW(s)), z3.And(x == ROW(s), y == COL(s))))]


class CalcId(ByIndex):
    """position -> id for the three forms the code uses"""
    key = 'Lattice.calculate_id_from_index'
    variants = ('Index', 'pair', 'list', 'bond')

    def setup(self, eng, variant):
        w, a, k = super().setup(eng, variant)
        st = w.st
        if variant == 'pair':
            a[1] = Tup([self.r, self.c_])
        elif variant == 'list':
            a[1] = eng.new_list(st, CList([self.r, self.c_]))
        elif variant == 'bond':
            self.t = fresh('type', I)
            st.add(0 <= self.t, self.t <= 1)
            a[1] = Tup([self.t, self.r, self.c_])
        return w, a, k

    def result(self, c):
        want = self.id() + (z3.If(self.t == 1, N, 0) if c.variant == 'bond' else 0)
        return [clause('type*L*L + row*L + column', lambda: zint(c.res) == want if is_intlike(c.res) else z3.BoolVal(False),
                       hints=lambda: [z3.Implies(self.t == 1, mul(N, self.t) == N), z3.Implies(self.t == 0, mul(N, self.t) == 0)] if c.variant == 'bond' else [])]


CONTRACTS = [LatticeInit, NeighborBonds, FindNeighborBonds, NeighborSitesOfBond, SiteNeighbors, AllNeighbors, WrappingTestSites,
             NeighborSite, FourNeighborsL1, ConnectedSites, SiteById, BondById, SiteByIndex, SiteGidByIndex, SiteGidById, BondGidById,
             IdFromIndex, BondByIndex, RowColFromId, CalcId]
