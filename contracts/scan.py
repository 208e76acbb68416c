"""Complete rows and columns of the wrapping cluster (C21) and the run that looks for one (C20)."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract, clause
from pyvc.world import World, View
from pyvc.frame import frame
from pyvc import theory as T
from pyvc.theory import L, N, M, SITE
from .lattice import assume_lattice
from .core import assume, core_inv, SelectSite, occupied_site, params

SP = 'ShortestPathAfter_pc'


def wrapping_id(v):
    wid = v.i('wrapping_cluster_id')
    return [clause('wrapping cluster', lambda: z3.If(v.b('after_wrapping'), z3.And(0 <= wid, wid < M), wid == -1))]


def every(f):
    """for all places on a line"""
    x = fresh('x', I)
    return z3.ForAll([x], z3.Implies(z3.And(SEEN(x), 0 <= x, x < L), f(x)), patterns=[SEEN(x)])


def row_full(v, r):
    return every(lambda x: v.sg[mul(r, L) + x] == v.i('wrapping_cluster_id'))


def col_full(v, c):
    return every(lambda x: v.sg[mul(x, L) + c] == v.i('wrapping_cluster_id'))


def some(f):
    return z3.Not(every(lambda x: z3.Not(f(x))))


class ScanPosition(Contract):
    """the row and the column of one position"""
    key = SP + '.scan_row_col_of_selected_site'
    props = {'C20', 'C21'}
    inline = False

    def matches(self, eng, st, fi, recv):
        return isinstance(recv, Obj)

    def find_world(self, eng, w, env, st):
        w.perc, ix = params(self.fi, env)
        at = st.objs[w.perc.oid].attrs
        w.lat, w.pool = at['lattice_ref'], at['cluster_pool_ref']
        if not isinstance(ix, Obj):
            raise Unsupported('a scan of something that is not a position')
        ia = st.objs[ix.oid].attrs
        self.r, self.c_ = (eng.named(st, zint(ia[f'component_{k}'])) for k in (1, 2))

    def requires(self, c):
        v = c.old
        return [clause('a position', lambda: z3.And(0 <= self.r, self.r < L, 0 <= self.c_, self.c_ < L)), clause('wrapping was reported', lambda: v.b('after_wrapping'))] + wrapping_id(v)

    def havoc(self, c, s2):
        c.applying = True
        return Tup([fresh('row_flag', B), fresh('column_flag', B)])

    def setup(self, eng, variant):
        w = World(eng)
        w.simulation(SP)
        assume_lattice(w)
        v = View(w, w.st)
        assume(w, eng, wrapping_id(v))
        self.r, self.c_ = fresh('row', I), fresh('col', I)
        w.st.add(v.b('after_wrapping'), 0 <= self.r, self.r < L, 0 <= self.c_, self.c_ < L)
        x = z3.Int('x?')
        w.st.qh.append(z3.ForAll([x], z3.And(T.rowcol_inst(self.r, x), T.rowcol_inst(x, self.c_)), patterns=[SEEN(x)]))
        return w, [w.perc, eng.new_obj(w.st, w.cls('Index'), dict(component_1=self.r, component_2=self.c_), frozen=True)], {}

    def ensures(self, c):
        ok = isinstance(c.res, Tup) and len(c.res.items) == 2 and all(is_num(x) for x in c.res.items)
        if not ok:
            return [clause('two flags', lambda: z3.BoolVal(False))]
        o = c.old
        row, col = (zbool(x) for x in c.res.items)
        return [clause('row flag: set only for a complete row', lambda: z3.Implies(row, row_full(o, self.r))),
                clause('row flag: set for a complete row', lambda: z3.Implies(row_full(o, self.r), row)),
                clause('column flag: set only for a complete column', lambda: z3.Implies(col, col_full(o, self.c_))),
                clause('column flag: set for a complete column', lambda: z3.Implies(col_full(o, self.c_), col))] + ([] if getattr(c, 'applying', False) else frame(c))


class ScanAll(Contract):
    props = {'C20', 'C21'}
    inline = False

    def matches(self, eng, st, fi, recv):
        return isinstance(recv, Obj)

    def find_world(self, eng, w, env, st):
        w.perc = params(self.fi, env)[0]
        at = st.objs[w.perc.oid].attrs
        w.lat, w.pool = at['lattice_ref'], at['cluster_pool_ref']

    def requires(self, c):
        return wrapping_id(c.old)

    def havoc(self, c, s2):
        c.applying = True
        return fresh('some_line', B)

    def setup(self, eng, variant):
        w = World(eng)
        w.simulation(SP)
        assume_lattice(w)
        assume(w, eng, wrapping_id(View(w, w.st)))
        x, y = z3.Ints('x? y?')
        w.st.qh.append(z3.ForAll([x], z3.ForAll([y], T.rowcol_inst(x, y), patterns=[SEEN(y)]), patterns=[SEEN(x)]))
        return w, [w.perc], {}

    def ensures(self, c):
        if not is_num(c.res):
            return [clause('a flag', lambda: z3.BoolVal(False))]
        o, res = c.old, zbool(c.res)
        line = (lambda x: col_full(o, x)) if self.columns else (lambda x: row_full(o, x))
        at = lambda x: z3.And(0 <= x, x < L)
        wrapped = o.b('after_wrapping')
        return [clause('no wrapping cluster: false', lambda: z3.Implies(z3.Not(wrapped), z3.Not(res))),
                clause('true only when some line is complete', lambda: z3.Implies(res, some(line))),
                clause('false only when no line is complete', lambda x: z3.Implies(z3.And(wrapped, z3.Not(res), at(x)), z3.Not(line(x))), [('x', I)], hints=lambda x: [SEEN(x)])] + ([] if getattr(c, 'applying', False) else frame(c))


class ScanRows(ScanAll):
    """row index running within a column: is some column complete?"""
    key = SP + '.scan_all_rows'
    columns = True


class ScanCols(ScanAll):
    key = SP + '.scan_all_cols'
    columns = False


def line_through(v):
    """the wrapping cluster holds the whole row or the whole column of the site just placed"""
    s = v.oi('selected_id')
    return z3.And(v.b('after_wrapping'), z3.Or(row_full(v, v.srow[s]), col_full(v, v.scol[s])))


def some_line(v):
    x = fresh('x', I)
    return z3.And(v.b('after_wrapping'), z3.Not(z3.ForAll([x], z3.Implies(z3.And(SEEN(x), 0 <= x, x < L), z3.And(z3.Not(row_full(v, x)), z3.Not(col_full(v, x)))), patterns=[SEEN(x)], weight=5)))


class RunToLine(Contract):
    """place sites until the wrapping cluster holds a whole line"""
    key = SP + '.run_once'
    props = {'C20'}

    def setup(self, eng, variant):
        w = World(eng)
        w.simulation(SP)
        assume_lattice(w)
        v = View(w, w.st)
        assume(w, eng, self.requires_(v))
        w.st.add(v.r('shortest_path_p') == 0)
        w.st.ghost['line'] = fresh('line', z3.ArraySort(I, B))
        return w, [w.perc], {}

    def requires_(self, v):
        return core_inv(v) + SelectSite.seq(v) + [clause('no wrapping cluster before wrapping', lambda: z3.Implies(z3.Not(v.b('after_wrapping')), v.i('wrapping_cluster_id') == -1))]

    def ghost_step(self, eng, st):
        """ghost: was there a line through the site placed in this pass?"""
        v = View(self.ctx0.w, st)
        h = fresh('h', B)
        st.add(h == line_through(v))
        st.ghost['line'] = z3.Store(st.ghost['line'], occupied_site(v) - 1, h)

    def rows(self, v):
        occ0, occ = occupied_site(self.ctx0.old), occupied_site(v)
        h = v.st.ghost['line']
        return [clause('progress', lambda: occ0 <= occ),
                clause('no earlier placement completed a line of the wrapping cluster', lambda j: z3.Implies(z3.And(occ0 <= j, j < occ), z3.Not(h[j])), [('j', I)], lambda j: [h[j]])]

    def loop_invs(self, eng, st, s0, stack, k):
        if stack:
            return []
        v = View(self.ctx0.w, s0)
        cls = self.requires_(v) + self.rows(v) + [clause('nothing reported yet', lambda: v.r('shortest_path_p') == 0)]
        return [(cl.name, lambda t, cl=cl: cl.hyp()) for cl in cls if eng.wanted(cl)]

    def ensures(self, c):
        v, o = c.new, c.old
        p, occ, occ0, lim = v.r('shortest_path_p'), occupied_site(v), occupied_site(o), v.i('max_iteration_limit')
        h = v.st.ghost['line']
        hit = z3.Not(p == 0)
        last = occ - z3.If(hit, 1, 0)
        out = [clause('a value is the occupation probability at this placement', lambda: z3.Implies(hit, z3.And(occ > occ0, p == RDIV(z3.ToReal(occ), z3.ToReal(N))))),
               clause('no earlier placement completed a line of the wrapping cluster', lambda j: z3.Implies(z3.And(occ0 <= j, j < last), z3.Not(h[j])), [('j', I)], lambda j: [h[j]]),
               clause('no value: the sites ran out', lambda: z3.Implies(z3.Not(hit), z3.And(occ == lim, lim == o.i('max_iteration_limit'))))]
        if v.a('selected_id') is not None:
            s = v.oi('selected_id')
            out.append(clause('a value: the wrapping cluster holds a whole line', lambda: z3.Implies(hit, z3.Or(line_through(v), some_line(v))), hints=lambda: [SEEN(v.srow[s]), SEEN(v.scol[s])]))
        else:
            out.append(clause('a value: the wrapping cluster holds a whole line', lambda: z3.Not(hit)))
        return out


CONTRACTS = [ScanPosition, ScanRows, ScanCols, RunToLine]
