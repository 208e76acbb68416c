"""A whole realization: run_once (C17, and the induction over all placements for C04-C16, C19)."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract, clause
from pyvc.world import World, View
from pyvc import theory as T
from pyvc.theory import L, N, M, SITE, BOND, NB, BD
from .lattice import assume_lattice
from .core import LAT, SelectSite, core_inv, assume, tag, tag_rest, occupied_site, unfolded
from .sim import SelectL1, SelectL2
from .life import interacting

A1R = z3.ArraySort(I, R)


def p_occ(v):
    return RDIV(z3.ToReal(occupied_site(v)), z3.ToReal(N))


def p_wrap(v):
    """order parameter of the wrapping cluster"""
    return z3.If(v.b('after_wrapping'), RDIV(z3.ToReal(v.clbl[v.i('wrapping_cluster_id')]), z3.ToReal(M)), 0)


def p_large(v):
    return RDIV(z3.ToReal(v.i('largest_cluster_sz')), z3.ToReal(M))


SERIES = {'occupation_prob_list': p_occ, 'entropy_list': lambda v: v.r('entropy_value'), 'order_wrapping_list': p_wrap, 'order_largest_list': p_large}


def select_of(model):
    return {'SitePercolationL1': SelectL1, 'SitePercolationL2': SelectL2}.get(model, SelectSite)


def wrapped_or_unfolded(v):
    """detection has kept up with the placements"""
    return tag([clause('not wrapped: the coordinates unfold every step', lambda: z3.Implies(z3.Not(v.b('after_wrapping')), unfolded(v)))], {'C07', 'C19'})


class RunOnce(Contract):
    """one realization: place and detect until the end, one row of each series per placement"""
    model = None

    def setup(self, eng, variant):
        w = World(eng)
        w.simulation(self.model)
        assume_lattice(w)
        assume(w, eng, self.requires_(View(w, w.st)))
        for nm in SERIES:
            w.st.ghost['row ' + nm] = fresh('row', A1R)
        return w, [w.perc], {}

    def requires_(self, v):
        return core_inv(v) + select_of(self.model).seq(v) + wrapped_or_unfolded(v)

    def ghost_step(self, eng, st):
        """ghost: what the observables are after the latest placement (one pass of the run loop)"""
        v = View(self.ctx0.w, st)
        for nm, f in SERIES.items():
            st.ghost['row ' + nm] = z3.Store(st.ghost['row ' + nm], occupied_site(v) - 1, f(v))

    def rows(self, v):
        o = self.ctx0.old
        occ0, occ = occupied_site(o), occupied_site(v)
        out = [clause('progress', lambda: occ0 <= occ)]
        for nm, f in SERIES.items():
            n0, n, e0, e, h = o.ln(nm), v.ln(nm), o.le(nm), v.le(nm), v.st.ghost['row ' + nm]
            if e is None:
                continue
            out += [clause(f'{nm}: one entry per placement', lambda n=n, n0=n0: n == n0 + occ - occ0),
                    clause(f'{nm}: entries are the values after each placement', lambda j, n=n, n0=n0, e=e, h=h: z3.Implies(z3.And(n0 <= j, j < n), e[j] == h[occ0 + j - n0]), [('j', I)], lambda j, e=e: [e[j]]),
                    clause(f'{nm}: earlier entries stay', lambda j, n0=n0, e=e, e0=e0: z3.Implies(z3.And(0 <= j, j < n0), e[j] == e0[j]), [('j', I)], lambda j, e=e: [e[j]])]
        n0, n, e = o.ln('occupation_prob_list'), v.ln('occupation_prob_list'), v.le('occupation_prob_list')
        if e is not None:
            out.append(clause('occupation_prob_list: entry k is k/(L*L)', lambda j: z3.Implies(z3.And(n0 <= j, j < n), e[j] == RDIV(z3.ToReal(occ0 + j - n0 + 1), z3.ToReal(N))), [('j', I)], lambda j: [e[j]]))
        for cl in tag(out, {'C17'}):
            if cl.name == 'progress' or cl.name.endswith('one entry per placement'):
                cl.props = {'C17'}
        return out

    def now(self, v):
        """the ghost row of the latest placement is what the observables are now"""
        occ, occ0 = occupied_site(v), occupied_site(self.ctx0.old)
        return tag([clause('the observables now: ' + nm, lambda nm=nm, f=f: z3.Implies(occ > occ0, v.st.ghost['row ' + nm][occ - 1] == f(v))) for nm, f in SERIES.items()], {'C17'})

    def loop_invs(self, eng, st, s0, stack, k):
        if stack:
            return []
        v = View(self.ctx0.w, s0)
        cls = self.requires_(v) + self.rows(v) + self.now(v)
        return [(cl.name, lambda t, cl=cl: cl.hyp()) for cl in cls if eng.wanted(cl)]

    def ensures(self, c):
        v, o = c.new, c.old
        out = self.requires_(v) + self.rows(v)
        if interacting(self.model):
            out += tag([clause('the end: every site is occupied', lambda s: z3.Implies(SITE(s), v.sg[s] >= 0), [('s', I)], lambda s: [v.sg[s]])], {'C16'})
            out += tag([clause('the end: one placement for each site', lambda: occupied_site(v) == N, hints=lambda: [T.occ_full(v.sg)])], {'C16'})
        else:
            e, lim = v.le('site_ids_indices'), v.i('max_iteration_limit')
            out += tag([clause('the end: as many placements as the sequence allows', lambda: z3.And(occupied_site(v) == lim, lim == o.i('max_iteration_limit')))], {'C12', 'C13', 'C17'})
            out += tag([clause('the end: exactly the listed sites are occupied', lambda j: z3.Implies(z3.And(0 <= j, j < lim), v.sg[e[j]] >= 0), [('j', I)], lambda j: [e[j]]),
                        clause('the end: no other site is occupied', lambda s: z3.Implies(z3.And(SITE(s), v.sg[s] >= 0), z3.Exists([_j], z3.And(0 <= _j, _j < lim, e[_j] == s))), [('s', I)], lambda s: [v.sg[s]])], {'C12', 'C13'})
        return out


_j = z3.Int('j?')
PROPS = {'SitePercolation': (LAT | {'C13', 'C17'}) - {'C14', 'C15', 'C16'}, 'SitePercolationL1': {'C14', 'C16', 'C17'}, 'SitePercolationL2': {'C15', 'C16', 'C17'}, 'SitePercolationL0': {'C17'}}
CONTRACTS = [type('RunOnce' + m, (RunOnce,), dict(key=m + '.run_once', model=m, props=p)) for m, p in PROPS.items()]
