"""The observables a caller reads (C08-C11, C17) and what they are on a full lattice (C19)."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract, clause
from pyvc.world import World, View
from pyvc.frame import frame
from pyvc import theory as T
from pyvc.theory import L, N, M, SITE, BOND, NB, BD, E1, CNT, STEP
from .lattice import assume_lattice
from .core import CL, MARK, core_inv, assume, tag, occupied_site, unfolded
from .life import static
from .runs import wrapped_or_unfolded

FULL = {'C19'}
_x = z3.Int('x?')


def full(v):
    """every site is occupied (stated by the count)"""
    return occupied_site(v) >= N


def only(g, A):
    """hint: one entry carries the whole sum"""
    rest = z3.ForAll([_x], z3.Implies(z3.And(CL(_x), _x != g), A[_x] == 0), patterns=[A[_x]])
    return z3.Implies(z3.And(CL(g), rest), z3.And(T.SUMI(A) == A[g], T.SUMH(A) == T.HF(A[g])))


def occ_all(A):
    """hint: as many non-negative entries as sites"""
    return z3.Implies(T.OCC(A) >= N, z3.ForAll([_x], z3.Implies(SITE(_x), A[_x] >= 0), patterns=[A[_x]]))


def same_everywhere(A):
    """hint: a value that every site shares with its right and lower neighbour is shared by all"""
    near = z3.ForAll([_x], z3.Implies(z3.And(MARK(_x), SITE(_x)), z3.And(A[NB[0](_x)] == A[_x], A[NB[1](_x)] == A[_x])), patterns=[MARK(_x)])
    return z3.Implies(near, z3.ForAll([_x], z3.Implies(SITE(_x), A[_x] == A[0]), patterns=[A[_x]]))


def row_up(A):
    """hint: a value cannot go up by one at every step to the right (the row closes)"""
    up = z3.ForAll([_x], z3.Implies(z3.And(MARK(_x), SITE(_x)), A[NB[0](_x)] == A[_x] + 1), patterns=[MARK(_x)])
    return z3.Not(up)


def full_steps(v):
    """a full lattice is one cluster: the steps of the argument"""
    sg, g0 = v.sg, v.sg[0]
    f = lambda x: z3.Implies(full(v), x)
    V = [('x', I)]
    near = lambda x: [MARK(x)] + [T.nb_inst(d, x) for d in range(2)] + [SEEN(sg[x])]
    return tag([clause('full: every site is occupied', lambda x: f(z3.Implies(SITE(x), sg[x] >= 0)), V, lambda x: [sg[x]], lambda x: [occ_all(sg)]),
                clause('full: neighbours carry one number', lambda x: f(z3.Implies(z3.And(MARK(x), SITE(x)), z3.And(sg[NB[0](x)] == sg[x], sg[NB[1](x)] == sg[x]))), V, lambda x: [MARK(x)], near),
                clause('full: every site carries the number of site 0', lambda x: f(z3.Implies(SITE(x), sg[x] == g0)), V, lambda x: [sg[x]], lambda x: [same_everywhere(sg), T.nb_inst(0, x)]),
                clause('full: every bond carries the number of site 0', lambda b: f(z3.Implies(BOND(b), v.bg[b] == g0)), [('b', I)], lambda b: [v.bg[b]], lambda b: [SEEN(sg[E1(b)])] + [T.nb_inst(d, E1(b)) for d in range(2)]),
                clause('full: the other clusters have no bonds', lambda g: f(z3.Implies(z3.And(CL(g), g != g0), v.clbl[g] == 0)), [('g', I)], lambda g: [v.clbl[g]],
                       lambda g: [T.cnt_member(v.clbe[g], v.clbl[g], z3.IntVal(0)), SEEN(v.bg[v.clbe[g][0]])]),
                clause('full: the other clusters have no sites', lambda g: f(z3.Implies(z3.And(CL(g), g != g0), v.clsl[g] == 0)), [('g', I)], lambda g: [v.clsl[g]],
                       lambda g: [T.cnt_member(v.clse[g], v.clsl[g], z3.IntVal(0)), SEEN(sg[v.clse[g][0]])]),
                clause('full: one cluster holds all bonds and all sites', lambda: f(z3.And(CL(g0), v.clbl[g0] == M, v.clsl[g0] == N)), hints=lambda: [only(g0, v.clbl), only(g0, v.clsl), SITE(z3.IntVal(0)), SEEN(g0), T.OCC(sg) <= N]),
                clause('full: the sums have one term', lambda: f(T.SUMH(v.clbl) == T.HF(M)), hints=lambda: [only(g0, v.clbl), SEEN(g0)]),
                clause('full: wrapping has been reported', lambda: f(v.b('after_wrapping')), hints=lambda: [row_up(v.ry), MARK(z3.IntVal(0))])], FULL)


class Query(Contract):
    """a function that only reads"""
    model = 'SitePercolation'
    props = set()

    def setup(self, eng, variant):
        w = World(eng)
        w.simulation(self.model)
        assume_lattice(w)
        v = View(w, w.st)
        assume(w, eng, core_inv(v) + wrapped_or_unfolded(v) + static(v) + self.more(v))
        return w, [w.perc], {}

    def more(self, v):
        return []

    def ensures(self, c):
        o = c.old
        if not is_num(c.res):
            return [clause('a number', lambda: z3.BoolVal(False))]
        return tag(self.value(o, zreal(c.res)), self.props - FULL) + (full_steps(o) + tag(self.at_full(o, zreal(c.res)), FULL) if 'C19' in self.props else []) + frame(c)

    def at_full(self, v, res):
        return []


def ratio(a, b):
    return RDIV(z3.ToReal(zint(a)), z3.ToReal(zint(b)))


def query(name, props, value, at_full=None, hints=None):
    def val(self, o, res):
        return [clause(nm, lambda f=f: f(o, res)) for nm, f in value.items()]

    def fl(self, o, res):
        return [clause('full: ' + at_full[0], lambda: z3.Implies(full(o), res == at_full[1]), hints=hints(o) if hints else None)] if at_full else []
    return type(name, (Query,), dict(key='SitePercolation.' + name, props=set(props), value=val, at_full=fl))


class EntropySum(Query):
    """the direct sum over the clusters"""
    key = 'SitePercolation.entropy_v1'
    props = {'C11', 'C19'}

    def setup(self, eng, variant):
        w, a, k = super().setup(eng, variant)
        A, t = View(w, w.st).clbl, z3.Int('t?')
        w.st.add(PRE(A, 0) == 0, PRE(A, M) == T.SUMH(A), z3.ForAll([t], z3.Implies(z3.And(SEEN(t), 0 <= t), z3.And(PRE(A, t + 1) == PRE(A, t) + T.HF(A[t]), T.hdef(A[t]))), patterns=[SEEN(t)]))
        return w, a, k

    def loop_invs(self, eng, st, s0, stack, k):
        H = s0.env.get('H')
        A = View(self.ctx0.w, s0).clbl
        out = []
        for nm, x in sorted(s0.env.items()):
            if is_num(x):
                for sg in (1, -1):
                    out.append((f'{nm} is the sum so far ({sg})', lambda t, x=x, sg=sg: zreal(x) == sg * PRE(A, t)))
        return out

    def value(self, o, res):
        return [clause('the sum over all clusters', lambda: res == -T.SUMH(o.clbl)), clause('the same as the running value', lambda: res == o.r('entropy_value'))]

    def at_full(self, v, res):
        return [clause('full: the direct sum is 0', lambda: z3.Implies(full(v), res == 0), hints=lambda: [T.hfull()])]


class TestClusters(Query):
    """the repository's own consistency check passes at the end of every run"""
    key = 'SitePercolation.test_clusters'
    props = {'C19'}

    def pre_obligations(self, ctx):
        v = ctx.old
        return full_steps(v) + tag([clause('full: the wrapping cluster is that one', lambda: z3.Implies(full(v), v.i('wrapping_cluster_id') == v.sg[0])),
                                    clause('full: the largest cluster has all bonds', lambda: z3.Implies(full(v), v.i('largest_cluster_sz') == M))], FULL)

    def loop_invs(self, eng, st, s0, stack, k):
        return [(nm + ' stays 0', lambda t, x=x: zint(x) == 0) for nm, x in sorted(s0.env.items()) if is_intlike(x) and not z3.is_bool(zint(x))]

    def ensures(self, c):
        return frame(c)


PRE = z3.Function('PRE', T.A1, I, R)        # sum of the entropy terms of the first clusters


def series_query(name, attr):
    def ens(self, c):
        x = c.old.a(attr)
        same = isinstance(c.res, ListRef) and isinstance(x, ListRef) and c.res.oid == x.oid
        out = [clause('the series', lambda: z3.BoolVal(same))]
        if isinstance(c.res, ListRef) and not same:
            n, e = c.new.lst(c.res)
            n0, e0 = c.old.ln(attr), c.old.le(attr)
            out = [clause('the series: length', lambda: n == n0), clause('the series: entries', lambda j: z3.Implies(z3.And(0 <= j, j < n), e[0][j] == e0[j]), [('j', I)], lambda j: [e[0][j]])]
        return out + frame(c)
    return type(name, (Query,), dict(key='SitePercolation.' + name, props={'C17'}, ensures=ens))


class DataArray(Query):
    """the series side by side"""
    key = 'SitePercolation.get_data_array'
    props = {'C17', 'C22'}
    order = ['occupation_prob_list', 'entropy_list', 'order_largest_list', 'order_wrapping_list']

    def more(self, v):
        return [clause('series of one length: ' + nm, lambda nm=nm: v.ln(nm) == v.ln(self.order[0])) for nm in self.order[1:]]

    def ensures(self, c):
        ok = isinstance(c.res, Opaque) and c.res.name == 'columns' and len(c.res.args) == 4
        out = [clause('an array of four columns', lambda: z3.BoolVal(ok))]
        if ok:
            for k, nm in enumerate(self.order):
                x = c.res.args[k]
                if x.oid == c.old.a(nm).oid:
                    out.append(clause(f'column {k} is {nm}', lambda: z3.BoolVal(True)))
                    continue
                n, e = c.new.lst(x)
                n0, e0 = c.old.ln(nm), c.old.le(nm)
                out += [clause(f'column {k} is {nm}: length', lambda n=n, n0=n0: n == n0), clause(f'column {k} is {nm}: entries', lambda j, n=n, e=e, e0=e0: z3.Implies(z3.And(0 <= j, j < n), e[0][j] == e0[j]), [('j', I)], lambda j, e=e: [e[0][j]])]
        return out + frame(c)


aw = lambda v: v.b('after_wrapping')
when = lambda g, x: z3.If(g, x, 0)
CONTRACTS = [
    query('get_pc', {'C08'}, {'0 before wrapping, then the occupation at the first wrapping': lambda v, r: r == when(aw(v), ratio(v.i('pc_occupied_site_count'), N))}),
    query('get_site_count_wrapping_cluster_pc', {'C08'}, {'0 before wrapping, then the site count recorded': lambda v, r: r == when(aw(v), z3.ToReal(v.oi('pc_site_count_wrapping_cluster')))}),
    query('get_bond_count_wrapping_cluster_pc', {'C08'}, {'0 before wrapping, then the bond count recorded': lambda v, r: r == when(aw(v), z3.ToReal(v.oi('pc_bond_count_wrapping_cluster')))}),
    query('order_param_wrapping', {'C09', 'C19'}, {'0 before wrapping, then the bonds of the wrapping cluster': lambda v, r: r == when(aw(v), ratio(v.clbl[v.i('wrapping_cluster_id')], M))},
          ('the wrapping order parameter is 1', 1), lambda v: lambda: [SEEN(v.clbl[v.i('wrapping_cluster_id')])]),
    query('largest_cluster', {'C10'}, {'the largest bond count': lambda v, r: r == z3.ToReal(v.i('largest_cluster_sz'))}),
    query('order_param_largest_clstr', {'C10', 'C19'}, {'the largest bond count over all bonds': lambda v, r: r == ratio(v.i('largest_cluster_sz'), M), '0 before the first placement': lambda v, r: z3.Implies(occupied_site(v) == 0, r == 0)},
          ('the largest order parameter is 1', 1), lambda v: lambda: [SEEN(v.clbl[v.sg[0]])]),
    query('entropy', {'C11', 'C19'}, {'the sum over all clusters': lambda v, r: r == -T.SUMH(v.clbl)}, ('the entropy is 0', 0), lambda v: lambda: [T.hfull()]),
    EntropySum, TestClusters, DataArray,
    query('occupation_prob', {'C12', 'C17'}, {'occupied sites over all sites': lambda v, r: r == ratio(occupied_site(v), N)}),
    series_query('get_occupation_prob_array', 'occupation_prob_list'), series_query('get_entropy_array', 'entropy_list'),
    series_query('get_order_param_wrapping_array', 'order_wrapping_list'), series_query('get_order_param_largest_array', 'order_largest_list')]
