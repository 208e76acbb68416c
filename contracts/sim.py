"""The interacting models L1 and L2 (C14, C15, C16)."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract, clause
from pyvc.world import World, View
from pyvc.frame import frame
from pyvc import theory as T
from pyvc.theory import L, N, M, SITE, BOND, NB, BD, ROW, COL
from .lattice import assume_lattice
from .core import (LAT, SelectSite, AnySelect, PlacePlain, core_inv, assume, tag, params, occupied_site, FAILED, opt_same)

WHERE = z3.Function('WHERE', T.A1, I, I, I, I)     # some position of a site in a part of a list, if there is one
RINT = z3.Function('RINT', I, I, I, I)
RINTN = z3.Function('RINTN', I, I, I, I)


def where(e, lo, hi, s, j):
    """hint: if the site is at position j, WHERE is a position of it"""
    w = WHERE(e, lo, hi, s)
    return z3.Implies(z3.And(lo <= j, j < hi, e[j] == s), z3.And(lo <= w, w < hi, e[w] == s))


def candidate(e, lo, hi, s):
    w = WHERE(e, lo, hi, s)
    return z3.And(lo <= w, w < hi, e[w] == s)


def pick(r, x):
    """neighbour number r of x"""
    return z3.If(r == 0, NB[0](x), z3.If(r == 1, NB[1](x), z3.If(r == 2, NB[2](x), NB[3](x))))


class SelectL1(SelectSite):
    """an empty candidate, or an empty neighbour of an occupied one"""
    key = 'SitePercolationL1.select_site'
    props = (LAT - {'C12', 'C15'}) | {'C25'}
    may_skip = False
    cls = 'SitePercolationL1'
    cases = ('SUCESS', 'EMPTY_SITE_LIST', FAILED)
    attrs = {'selected_id', 'current_site', 'current_idx', 'occupied_site_count', 'x_occupied'}
    lists, fams, rng = {'site_ids_indices', 'site_id_sequence_record'}, {('Site', 'first_nn_count')}, True
    counters = ('nn1',)

    def setup(self, eng, variant):
        w, args, kw = super().setup(eng, variant)
        v = View(w, w.st)
        k, n = v.i('current_idx'), v.ln('site_ids_indices')
        X = v.le('site_ids_indices')[RINT(v.rng, k, n - 1)]
        w.st.add(*[z3.Implies(SITE(X), T.nb_inst(d, X)) for d in range(4)])
        if variant:
            r = RINT(RINTN(v.rng, k, n - 1), z3.IntVal(0), z3.IntVal(3))
            d = int(variant)
            w.st.add(r == d, z3.Implies(SITE(X), T.nb_inst(d, NB[d](X))))
        return w, args, kw

    @classmethod
    def seq(cls, v):
        n, e, k = v.ln('site_ids_indices'), v.le('site_ids_indices'), v.i('current_idx')
        return [clause('candidates: how many are left', lambda: z3.And(n == N, 0 <= k, k <= N)),
                clause('candidates: sites', lambda j: z3.Implies(z3.And(0 <= j, j < n), SITE(e[j])), [('j', I)], lambda j: [e[j]]),
                clause('candidates: every empty site is one', lambda s: z3.Implies(z3.And(SITE(s), v.sg[s] < 0), candidate(e, k, n, s)), [('s', I)], lambda s: [v.sg[s], WHERE(e, k, n, s)]),
                clause('candidates: none twice', lambda j: z3.Implies(z3.And(k <= j, j < n), WHERE(e, k, n, e[j]) == j), [('j', I)], lambda j: [e[j]]),
                clause('candidates: counters of failed draws', lambda s: z3.Implies(SITE(s), z3.And([getattr(v, x)[s] >= 0 for x in ('nn1', 'nn2')])), [('s', I)], lambda s: [v.nn1[s], v.nn2[s]]),
                clause('cluster numbers', lambda s: z3.Implies(SITE(s), v.sg[s] >= -1), [('s', I)], lambda s: [v.sg[s]])]

    @classmethod
    def around(cls, c):
        """hints: positions where a site may stand after (before) the attempt"""
        v, o = c.new, c.old
        n0, e0, k0 = o.ln('site_ids_indices'), o.le('site_ids_indices'), o.i('current_idx')
        n1, e1, k1 = v.ln('site_ids_indices'), v.le('site_ids_indices'), v.i('current_idx')
        r = RINT(o.rng, k0, n0 - 1)
        after = lambda s: [where(e1, k1, n1, s, j) for j in (WHERE(e0, k0, n0, s), r, k0)]
        before = lambda s: [where(e0, k0, n0, s, j) for j in (WHERE(e1, k1, n1, s), r, k0)]
        return after, before, e0, e1, k1, n1, k0, n0

    @classmethod
    def kept(cls, c):
        after, before, e0, e1, k1, n1, k0, n0 = cls.around(c)
        return {'candidates: every empty site is one': lambda s: after(s),
                'candidates: none twice': lambda j: [where(e1, k1, n1, e1[j], j), where(e0, k0, n0, e0[j], j)] + after(e1[j]) + before(e1[j]) + [e0[j] == e0[j], e0[WHERE(e1, k1, n1, e1[j])] == e0[WHERE(e1, k1, n1, e1[j])], e0[k0] == e0[k0]]}

    @staticmethod
    def draws(c):
        o = c.old
        n, e, k = o.ln('site_ids_indices'), o.le('site_ids_indices'), o.i('current_idx')
        g = o.rng
        X = e[RINT(g, k, n - 1)]
        g1 = RINTN(g, k, n - 1)
        r2 = RINT(g1, z3.IntVal(0), z3.IntVal(3))
        return X, r2, pick(r2, X), g1, RINTN(g1, z3.IntVal(0), z3.IntVal(3))

    @classmethod
    def choice(cls, c):
        """(site the rule gives, does it give one)"""
        X, r, Y, g1, g2 = cls.draws(c)
        occ = lambda s: c.old.sg[s] >= 0
        return z3.If(occ(X), Y, X), z3.Not(z3.And(occ(X), occ(Y)))

    @classmethod
    def rules(cls, c, ok, empty, failed):
        v, o = c.new, c.old
        X, r, Y, g1, g2 = cls.draws(c)
        k0, k1 = o.i('current_idx'), v.i('current_idx')
        after, before, e0, e1, _, n1, _, n0 = cls.around(c)
        site, some = cls.choice(c)
        occ = o.sg[X] >= 0
        rule = {cls.rule_of, 'C25'}
        out = tag([clause('an attempt succeeds exactly when the rule gives a site', lambda: z3.Implies(z3.Not(empty), ok == some)),
                   clause('draws: one candidate, one neighbour when it is occupied', lambda: v.rng == z3.If(empty, o.rng, z3.If(occ, g2, g1)))], rule)
        if v.a('selected_id') is not None:
            out += tag([clause('the site the rule gives', lambda: z3.Implies(ok, v.oi('selected_id') == site))], rule)
        out += tag([clause('the end only when every site is occupied', lambda s: z3.Implies(z3.And(empty, SITE(s)), o.sg[s] >= 0), [('s', I)], lambda s: [o.sg[s]]),
                    clause('only the drawn candidate can be dropped, and only when occupied', lambda s: z3.Implies(z3.And(SITE(s), candidate(e0, k0, n0, s)), z3.Or(candidate(e1, k1, n1, s), z3.And(s == X, occ))), [('s', I)], lambda s: [WHERE(e1, k1, n1, s)], hints=after),
                    clause('no new candidate', lambda s: z3.Implies(z3.And(SITE(s), candidate(e1, k1, n1, s)), candidate(e0, k0, n0, s)), [('s', I)], lambda s: [WHERE(e1, k1, n1, s)], hints=before),
                    clause('at most one candidate dropped', lambda: z3.And(n1 == n0, k0 <= k1, k1 <= k0 + 1)),
                    clause('nothing dropped at the end', lambda: z3.Implies(empty, k1 == k0))], {'C16'})
        return out

    rule_of = 'C14'

    def ensures(self, c):
        out = super().ensures(c)
        if isinstance(c.res, EnumV):
            hints = self.kept(c)
            v = c.new
            for cl in [x for x in self.seq(v) if x.name.startswith('candidates')]:
                cl.hints = hints.get(cl.name, cl.hints)
                out.append(cl)
        return out


class SelectL2(SelectL1):
    """... or the empty site one step further"""
    key = 'SitePercolationL2.select_site'
    props = (LAT - {'C12', 'C14'}) | {'C25'}
    cls = 'SitePercolationL2'
    variants = ('0', '1', '2', '3')
    attrs = {'selected_id', 'current_site', 'current_idx', 'occupied_site_count', 'x_occupied', 'y_occupied'}
    lists, fams, rng = {'site_ids_indices'}, {('Site', 'first_nn_count'), ('Site', 'second_directional_nn_count')}, True
    rule_of = 'C15'

    @classmethod
    def choice(cls, c):
        X, r, Y, g1, g2 = cls.draws(c)
        occ = lambda s: c.old.sg[s] >= 0
        Z = pick(r, Y)
        return z3.If(occ(X), z3.If(occ(Y), Z, Y), X), z3.Not(z3.And(occ(X), occ(Y), occ(Z)))


class PlaceL1(PlacePlain):
    props = LAT - {'C12', 'C15'}
    select = SelectL1
    cls = 'SitePercolationL1'
    rules = {'C14', 'C16'}


class PlaceL2(PlacePlain):
    props = LAT - {'C12', 'C14'}
    select = SelectL2
    cls = 'SitePercolationL2'
    rules = {'C15', 'C16'}


CONTRACTS = [SelectL1, SelectL2, PlaceL1, PlaceL2]
