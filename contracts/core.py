"""Clusters, merging, relative coordinates, wrapping, entropy (C04-C11, C19)."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract, clause
from pyvc.world import World, View
from pyvc.frame import frame
from pyvc import theory as T
from pyvc.theory import L, N, M, SITE, BOND, NB, BD, E1, E2, ROW, COL, CNT, POS, STEP
from .lattice import assume_lattice, latinv

MARK = z3.Function('MARK', I, B)        # only steers instantiation: nothing is known about it


LAT = {'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C15', 'C16', 'C19'}      # what needs the clusters
REL = {'C06', 'C07', 'C19'}         # what needs the relative coordinates


def CL(g):
    return z3.And(0 <= g, g < M)


def params(fi, env):
    return [env[a.arg] for a in fi.node.args.posonlyargs + fi.node.args.args]


# ---------------------------------------------------------------- the cluster invariant
def lists_ok(v, g=None):
    """elements of a cluster's lists are distinct and in range"""
    out = []
    for nm, ln, el, dom in (('bonds', v.clbl, v.clbe, BOND), ('sites', v.clsl, v.clse, SITE)):
        def body(g_, i, ln=ln, el=el, dom=dom):
            x = el[g_][i]
            return z3.Implies(z3.And(CL(g_), 0 <= i, i < ln[g_]), z3.And(dom(x), CNT(el[g_], ln[g_], x) == 1, POS(el[g_], ln[g_], x) == i))
        if g is None:
            out.append(clause(f'{nm} listed by a cluster are distinct', body, [('g', I), ('i', I)], lambda g_, i, el=el: [el[g_][i]],
                              hints=lambda g_, i, ln=ln, el=el: [T.cnt_member(el[g_], ln[g_], i), T.pos_unique(el[g_], ln[g_], i)]))
            out.append(clause(f'list of {nm} has a length', lambda g_, ln=ln: z3.Implies(CL(g_), ln[g_] >= 0), [('g', I)], lambda g_, ln=ln: [ln[g_]]))
        else:
            out.append(clause(f'{nm} listed by the cluster are distinct', lambda i, body=body: body(g, i), [('i', I)], lambda i, el=el: [el[g][i]]))
            out.append(clause(f'list of {nm} has a length', lambda ln=ln: ln[g] >= 0))
    return out


def members(v, g):
    """the lists of cluster g hold the bonds and sites carrying its number"""
    return [clause('bonds listed by the cluster', lambda x: CNT(v.clbe[g], v.clbl[g], x) == z3.If(z3.And(BOND(x), v.bg[x] == g), 1, 0), [('x', I)],
                   lambda x: [CNT(v.clbe[g], v.clbl[g], x)]),
            clause('sites listed by the cluster', lambda x: CNT(v.clse[g], v.clsl[g], x) == z3.If(z3.And(SITE(x), v.sg[x] == g), 1, 0), [('x', I)],
                   lambda x: [CNT(v.clse[g], v.clsl[g], x)])]


class MergeWith(Contract):
    """absorb the lists of cluster b into cluster a and renumber their elements"""
    key = 'ClusterPool.merge_cluster_with'
    props = LAT
    inline = False
    may_skip = True

    def setup(self, eng, variant):
        w = World(eng)
        w.lattice()
        w.cluster_pool()
        assume_lattice(w)
        a, b = fresh('a', I), fresh('b', I)
        w.st.add(CL(a), CL(b), a != b)
        self.a, self.b = a, b
        for cl in self.requires_(View(w, w.st)):
            w.st.add(cl.hyp())
        return w, [w.pool, a, b, w.lat], {}

    def matches(self, eng, st, fi, recv):
        return isinstance(recv, Obj) and st.objs[recv.oid].cls.name == 'ClusterPool'

    def find_world(self, eng, w, env, st):
        ps = params(self.fi, env)
        w.pool, a, b, w.lat = ps
        w.perc = None
        self.a, self.b = eng.named(st, zint(a)), eng.named(st, zint(b))

    def requires_(self, v):
        return members(v, self.b) + lists_ok(v, self.b) + lists_ok(v, self.a)[1::2]

    def requires(self, c):
        return [clause('distinct clusters', lambda: z3.And(CL(self.a), CL(self.b), self.a != self.b))] + self.requires_(c.old)

    def ensures(self, c):
        v, o, a, b = c.new, c.old, self.a, self.b
        gid = o.cgid[a]
        inb = lambda x: z3.And(BOND(x), o.bg[x] == b)
        ins = lambda x: z3.And(SITE(x), o.sg[x] == b)
        out = [clause('bonds of b renumbered, no other', lambda x: v.bg[x] == z3.If(inb(x), gid, o.bg[x]), [('x', I)], lambda x: [v.bg[x]]),
               clause('sites of b renumbered, no other', lambda x: v.sg[x] == z3.If(ins(x), gid, o.sg[x]), [('x', I)], lambda x: [v.sg[x]]),
               clause('bond count', lambda g: v.clbl[g] == z3.If(g == a, o.clbl[a] + o.clbl[b], o.clbl[g]), [('g', I)], lambda g: [v.clbl[g]]),
               clause('site count', lambda g: v.clsl[g] == z3.If(g == a, o.clsl[a] + o.clsl[b], o.clsl[g]), [('g', I)], lambda g: [v.clsl[g]]),
               clause('bonds listed by a', lambda x: CNT(v.clbe[a], v.clbl[a], x) == CNT(o.clbe[a], o.clbl[a], x) + CNT(o.clbe[b], o.clbl[b], x), [('x', I)],
                      lambda x: [CNT(v.clbe[a], o.clbl[a] + o.clbl[b], x)]),
               clause('sites listed by a', lambda x: CNT(v.clse[a], v.clsl[a], x) == CNT(o.clse[a], o.clsl[a], x) + CNT(o.clse[b], o.clsl[b], x), [('x', I)],
                      lambda x: [CNT(v.clse[a], o.clsl[a] + o.clsl[b], x)]),
               clause('other clusters list what they listed', lambda g: z3.Implies(g != a, z3.And(v.clbe[g] == o.clbe[g], v.clse[g] == o.clse[g])), [('g', I)],
                      lambda g: [v.clbe[g], v.clse[g]])]
        if c.new.st is not c.old_state and not getattr(c, 'applying', False):
            out += frame(c, fams={('Bond', 'g_id'), ('Site', 'g_id'), ('OneCluster', 'bond_ids'), ('OneCluster', 'site_ids')})
        return out

    def havoc(self, c, s2):
        c.applying = True
        a, b, o = self.a, self.b, c.old
        for k, e in ((('Bond', 'g_id', 0), None), (('Site', 'g_id', 0), None)):
            s2.fam[k] = fresh('mw', T.A1)
        for f in ('bond_ids', 'site_ids'):
            k = ('OneCluster', f, 'el')
            s2.fam[k] = store(s2.fam[k], a, fresh('mwel', T.A1))
            c.eng.len_store(s2, ('OneCluster', f, 'len'), a, sel(s2.fam[('OneCluster', f, 'len')], a) + sel(s2.fam[('OneCluster', f, 'len')], b))
        return None

    def loop_invs(self, eng, st, s0, stack, k):
        c = self.ctx0
        o, v, b = c.old, View(c.w, s0), self.b
        gid = o.cgid[self.a]
        out = []
        for nm, el, ln, now, old in (('bonds', o.clbe[b], o.clbl[b], v.bg, o.bg), ('sites', o.clse[b], o.clsl[b], v.sg, o.sg)):
            out.append((nm + ' renumbered so far', lambda t, el=el, ln=ln, now=now, old=old: z3.ForAll(
                [_x], now[_x] == z3.If(z3.And(CNT(el, ln, _x) >= 1, POS(el, ln, _x) < t), gid, old[_x]), patterns=[now[_x]])))
        return out


_x = z3.Int('x?')


def step_of(bond, s):
    """displacement from s along its bond"""
    sx, sy = z3.IntVal(STEP[3][0]), z3.IntVal(STEP[3][1])
    for d in (2, 1, 0):
        c = bond == BD(d, s)
        sx, sy = z3.If(c, STEP[d][0], sx), z3.If(c, STEP[d][1], sy)
    return sx, sy


def other_end(bond, s):
    e = NB[3](s)
    for d in (2, 1, 0):
        e = z3.If(bond == BD(d, s), NB[d](s), e)
    return e


class Relabel(Contract):
    """shift the coordinates of the cluster of a bond so that they continue those of the selected site"""
    key = 'SitePercolation.relabel_relative_indices'
    cls = 'SitePercolation'
    props = LAT
    inline = False
    may_skip = True
    variants = ('0', '1', '2', '3')

    def setup(self, eng, variant):
        w = World(eng)
        w.simulation()
        assume_lattice(w)
        s = fresh('sel', I)
        d = int(variant)
        a = w.st.objs[w.perc.oid].attrs
        a['current_site'], a['selected_id'] = FRef('Site', s, 0), s
        v = View(w, w.st)
        self.s, self.bond = s, BD(d, s)
        w.st.add(SITE(s), T.nb_inst(d, s))
        for cl in self.requires_(v):
            w.st.add(cl.hyp())
        return w, [w.perc, self.bond], {}

    def requires_(self, v):
        s, b = self.s, self.bond
        g = v.bg[b]
        return [clause('the site is assigned already', lambda: z3.And(SITE(s), v.sg[s] >= 0, CL(g))),
                clause('the site is not in that cluster', lambda: v.sg[s] != g)] + members(v, g)[1:] + lists_ok(v, g)[2:]

    def requires(self, c):
        return [clause('a bond of the site', lambda: z3.Or([self.bond == BD(d, self.s) for d in range(4)]))] + self.requires_(c.old)

    def matches(self, eng, st, fi, recv):
        if not isinstance(recv, Obj):
            return False
        cs = st.objs[recv.oid].attrs.get('current_site')
        return isinstance(cs, FRef)

    def find_world(self, eng, w, env, st):
        w.perc, bond = params(self.fi, env)
        at = st.objs[w.perc.oid].attrs
        w.lat, w.pool = at['lattice_ref'], at['cluster_pool_ref']
        self.s, self.bond = eng.named(st, zint(at['current_site'].key)), eng.named(st, zint(bond))

    def shift(self, o):
        s, b = self.s, self.bond
        sx, sy = step_of(b, s)
        n = other_end(b, s)
        g = o.bg[b]
        z = o.clsl[g] == 0
        return z3.If(z, 0, o.rx[s] + sx - o.rx[n]), z3.If(z, 0, o.ry[s] + sy - o.ry[n])

    def ensures(self, c):
        v, o = c.new, c.old
        g = o.bg[self.bond]
        dx, dy = self.shift(o)
        ins = lambda x: z3.And(SITE(x), o.sg[x] == g)
        out = [clause('coordinates of the cluster moved, no other', lambda x: z3.And(v.rx[x] == o.rx[x] + z3.If(ins(x), dx, 0), v.ry[x] == o.ry[x] + z3.If(ins(x), dy, 0)),
                      [('x', I)], lambda x: [v.rx[x], v.ry[x]], lambda x: [CNT(o.clse[g], o.clsl[g], x) >= 0])]
        if not getattr(c, 'applying', False):
            out += frame(c, fams={('Site', 'relative_index')})
        return out

    def havoc(self, c, s2):
        c.applying = True
        for i in (0, 1):
            s2.fam[('Site', 'relative_index', i)] = fresh('rel', T.A1)
        return None

    def loop_invs(self, eng, st, s0, stack, k):
        c = self.ctx0
        o, v = c.old, View(c.w, s0)
        g = o.bg[self.bond]
        dx, dy = self.shift(o)
        f = lambda x, t: z3.And(CNT(o.clse[g], o.clsl[g], x) >= 1, POS(o.clse[g], o.clsl[g], x) < t)
        return [('moved so far', lambda t: z3.ForAll([_x], z3.And(v.rx[_x] == o.rx[_x] + z3.If(f(_x, t), dx, 0), v.ry[_x] == o.ry[_x] + z3.If(f(_x, t), dy, 0)),
                                                     patterns=[v.rx[_x], v.ry[_x]]))]


# ---------------------------------------------------------------- partition into clusters
def numbered(v):
    return [clause('every bond carries a cluster number', lambda b: z3.Implies(BOND(b), CL(v.bg[b])), [('b', I)], lambda b: [v.bg[b]]),
            clause('a site carries a cluster number or -1', lambda s: z3.Implies(SITE(s), z3.Or(v.sg[s] == -1, CL(v.sg[s]))), [('s', I)], lambda s: [v.sg[s]])]


def touching(v):
    return [clause('the bonds of an occupied site carry its number', lambda s: z3.Implies(z3.And(SITE(s), v.sg[s] >= 0), z3.And([v.bg[BD(d, s)] == v.sg[s] for d in range(4)])),
                   [('s', I)], lambda s: [v.sg[s]], hints=lambda s: [T.nb_inst(d, s) for d in range(4)])]


def counted(v):
    return [clause('each bond listed once, by its cluster', lambda g, x: z3.Implies(CL(g), CNT(v.clbe[g], v.clbl[g], x) == z3.If(z3.And(BOND(x), v.bg[x] == g), 1, 0)),
                   [('g', I), ('x', I)], lambda g, x: [CNT(v.clbe[g], v.clbl[g], x)]),
            clause('each occupied site listed once, by its cluster, no other site listed', lambda g, x: z3.Implies(CL(g), CNT(v.clse[g], v.clsl[g], x) == z3.If(z3.And(SITE(x), v.sg[x] == g), 1, 0)),
                   [('g', I), ('x', I)], lambda g, x: [CNT(v.clse[g], v.clsl[g], x)])] + lists_ok(v)


def gids(v):
    return [clause('a cluster with bonds knows its number', lambda g: z3.Implies(z3.And(CL(g), v.clbl[g] > 0), v.cgid[g] == g), [('g', I)], lambda g: [v.cgid[g]])]


def alone(v, b, tag=''):
    """no other bond and no site carries the number of bond b"""
    return [clause('no other bond in its cluster' + tag, lambda x: z3.Implies(z3.And(BOND(x), v.bg[x] == v.bg[b]), x == b), [('x', I)], lambda x: [v.bg[x]]),
            clause('no site in its cluster' + tag, lambda x: z3.Implies(SITE(x), v.sg[x] != v.bg[b]), [('x', I)], lambda x: [v.sg[x]])]


def lone(v):
    """bonds without an occupied end are clusters of their own"""
    free = lambda b: z3.And(MARK(b), BOND(b), v.sg[E1(b)] < 0, v.sg[E2(b)] < 0)
    hints = lambda b, x: [MARK(b), T.nb_inst(0, b), T.nb_inst(1, b - N)]
    return [clause('a bond with no occupied end shares its cluster with no bond', lambda b, x: z3.Implies(z3.And(free(b), BOND(x), v.bg[x] == v.bg[b]), x == b),
                   [('b', I), ('x', I)], lambda b, x: [(MARK(b), v.bg[x])], hints),
            clause('a bond with no occupied end shares its cluster with no site', lambda b, x: z3.Implies(z3.And(free(b), SITE(x)), v.sg[x] != v.bg[b]),
                   [('b', I), ('x', I)], lambda b, x: [(MARK(b), v.sg[x])], hints)]


def partition(v):
    return numbered(v) + touching(v) + counted(v) + gids(v)


def patterns(n):
    """the ways n numbers can coincide"""
    out = ['']
    for _ in range(n):
        out = [p + str(k) for p in out for k in range(max((int(c) for c in p), default=-1) + 2)]
    return tuple(out)


PATTERNS = patterns(4)      # all of them: see lemmas.py


SUMS = ('bond counts', 'site counts')


class MergeV2(Contract):
    """join the clusters meeting at the selected site and put the site into the result"""
    key = 'SitePercolation.merge_clusters_v2'
    cls = 'SitePercolation'
    props = LAT
    inline = False
    variants = PATTERNS

    def setup(self, eng, variant):
        w = World(eng)
        w.simulation()
        assume_lattice(w)
        s = fresh('sel', I)
        a = w.st.objs[w.perc.oid].attrs
        a['current_site'], a['selected_id'] = FRef('Site', s, 0), s
        v = View(w, w.st)
        self.s = s
        w.st.add(SITE(s), *[T.nb_inst(d, s) for d in range(4)])
        for cl in self.requires_(v):
            w.st.add(cl.hyp())
        k = [int(ch) for ch in variant]
        G = [fresh('G', I) for _ in range(max(k) + 1)]
        w.st.add(*[CL(g) for g in G], *[v.bg[BD(d, s)] == G[k[d]] for d in range(4)], *([z3.Distinct(G)] if len(G) > 1 else []))
        for d in range(4):              # mention the terms (counts are never negative)
            b, n = BD(d, s), NB[d](s)
            g = G[k[d]]
            w.st.add(CNT(v.clbe[g], v.clbl[g], b) >= 0, CNT(v.clse[g], v.clsl[g], n) >= 0, v.cgid[g] == v.cgid[g])
        return w, [w.perc, FListRef('Site', 'connecting_bond_ids', s, 0)], {}

    def requires_(self, v):
        s = self.s
        return [clause('the site is empty', lambda: z3.And(SITE(s), v.sg[s] == -1, v.rx[s] == 0, v.ry[s] == 0))] + partition(v) + self.alone_(v)

    def alone_(self, v):
        s = self.s
        out = []
        for d in range(4):
            for cl in alone(v, BD(d, s), f' (direction {d})'):
                f = cl.body
                cl.body = lambda x, f=f, d=d: z3.Implies(v.sg[NB[d](s)] < 0, f(x))
                cl.hints = lambda x, d=d: [MARK(BD(d, s)), T.nb_inst(d, s)]
                out.append(cl)
        return out

    def requires(self, c):
        return self.requires_(c.old) + [clause('the bonds of the site', lambda: self.bonds_key == self.s)]

    def matches(self, eng, st, fi, recv):
        if not isinstance(recv, Obj):
            return False
        at = st.objs[recv.oid].attrs
        b = params(fi, st.env)[1] if False else None
        return isinstance(at.get('current_site'), FRef)

    def find_world(self, eng, w, env, st):
        w.perc, bonds = params(self.fi, env)
        at = st.objs[w.perc.oid].attrs
        w.lat, w.pool = at['lattice_ref'], at['cluster_pool_ref']
        self.s = zint(at['current_site'].key)
        if not isinstance(bonds, FListRef) or bonds.field != 'connecting_bond_ids':
            raise Unsupported('merge_clusters_v2 called with other bonds')
        self.bonds_key = bonds.key

    def gs(self, o):
        return [o.bg[BD(d, self.s)] for d in range(4)]

    def dedup(self, o, f):
        gs = self.gs(o)
        return [z3.If(z3.Or([gs[d] == gs[e] for e in range(d)]), 0, f(gs[d])) if d else f(gs[0]) for d in range(4)]

    def ensures(self, c):
        v, o, s = c.new, c.old, self.s
        gs = self.gs(o)
        G = lambda g: z3.Or([g == x for x in gs])
        if not is_intlike(c.res):
            return [clause('result is the cluster number', lambda: z3.BoolVal(False))]
        root = zint(c.res)
        tot = z3.Sum(self.dedup(o, lambda g: o.clbl[g]))
        tots = z3.Sum(self.dedup(o, lambda g: o.clsl[g])) + 1
        aw, wid = o.b('after_wrapping'), o.i('wrapping_cluster_id')
        def hb(*xs):
            out = []
            for d in range(4):
                b, n = BD(d, s), NB[d](s)
                g = o.bg[b]
                out += [T.nb_inst(d, s), CNT(o.clbe[g], o.clbl[g], b) >= 0, CNT(o.clse[g], o.clsl[g], n) >= 0]
            return out
        lat = con = LAT
        rel, ent = REL, {'C11', 'C19'}
        out = [clause('result is one of the clusters met', lambda: z3.And(CL(root), G(root)), props=lat),
               clause('the wrapping cluster absorbs the others', lambda: z3.Implies(z3.And(aw, G(wid)), root == wid), props={'C09', 'C19'}),
               clause('bond numbers', lambda x: v.bg[x] == z3.If(z3.And(BOND(x), G(o.bg[x])), root, o.bg[x]), [('x', I)], lambda x: [v.bg[x]], hb, props=lat),
               clause('site numbers', lambda x: v.sg[x] == z3.If(z3.Or(x == s, z3.And(SITE(x), G(o.sg[x]))), root, o.sg[x]), [('x', I)], lambda x: [v.sg[x]], hb, props=lat),
               clause('bond counts', lambda g: v.clbl[g] == z3.If(g == root, tot, z3.If(G(g), 0, o.clbl[g])), [('g', I)], lambda g: [v.clbl[g]], props=lat),
               clause('site counts', lambda g: v.clsl[g] == z3.If(g == root, tots, z3.If(G(g), 0, o.clsl[g])), [('g', I)], lambda g: [v.clsl[g]], props=lat)]
        for cl in counted(v) + gids(v):
            cl.props = LAT
            out.append(cl)
        out.append(clause('the result has at least four bonds', lambda: v.clbl[root] >= 4, hints=lambda: [CNT(v.clbe[root], v.clbl[root], BD(d, s)) >= 0 for d in range(4)] + hb(), props=con, uses=('each bond listed once', 'bond numbers', 'thy CNT')))
        out.append(clause('sum of the bond counts', lambda: T.SUMI(v.clbl) == T.SUMI(o.clbl), props={'C04', 'C11', 'C19'}, uses=SUMS))
        out.append(clause('sum of the site counts', lambda: T.SUMI(v.clsl) == T.SUMI(o.clsl) + 1, props={'C04', 'C19'}, uses=SUMS))
        out.append(clause('sum of the entropy terms', lambda: T.SUMH(v.clbl) == T.SUMH(o.clbl) - z3.Sum(self.dedup(o, lambda g: T.HF(o.clbl[g]))) + T.HF(v.clbl[root]), hints=lambda: [T.hdef(0)], props=ent, uses=SUMS))
        # coordinates
        for nm, r1, r0, ax in (('row', v.rx, o.rx, 0), ('column', v.ry, o.ry, 1)):
            def moved(x, r1=r1, r0=r0):
                d_ = z3.IntVal(0)
                for d in (3, 2, 1, 0):
                    n = NB[d](s)
                    d_ = z3.If(z3.And(o.sg[n] >= 0, o.sg[n] == o.sg[x]), r1[n] - r0[n], d_)
                return z3.Implies(z3.And(SITE(x), o.sg[x] >= 0), r1[x] == r0[x] + d_)
            out.append(clause(f'a met cluster moves as one ({nm})', moved, [('x', I)], lambda x, r1=r1: [r1[x]], hints=hb, props=rel))
            out.append(clause(f'empty sites keep their {nm} coordinate', lambda x, r1=r1, r0=r0: z3.Implies(z3.And(SITE(x), x != s, o.sg[x] < 0), r1[x] == r0[x]), [('x', I)], lambda x, r1=r1: [r1[x]], props=rel))
        def joined(d):
            n = NB[d](s)
            return z3.Implies(o.sg[n] >= 0, z3.Or([z3.And(o.sg[NB[e](s)] == o.sg[n], v.rx[NB[e](s)] == v.rx[s] + STEP[e][0], v.ry[NB[e](s)] == v.ry[s] + STEP[e][1]) for e in range(4)]))
        for d in range(4):
            out.append(clause(f'the new site joins the cluster in direction {d}', lambda d=d: joined(d), hints=hb, props=rel))
        if not getattr(c, 'applying', False):
            fr = frame(c, fams={('Bond', 'g_id'), ('Site', 'g_id'), ('Site', 'relative_index'), 'OneCluster'})
            out += fr
        return out

    def havoc(self, c, s2):
        c.applying = True
        for k, a in list(s2.fam.items()):
            if k[:2] in (('Bond', 'g_id'), ('Site', 'g_id'), ('Site', 'relative_index')) or k[0] == 'OneCluster':
                s2.fam[k] = fresh('mv', a.sort())
        for f in ('site_ids', 'bond_ids'):
            s2.famver[('OneCluster', f)] = c.eng.newoid()
        return fresh('root', I)



# ---------------------------------------------------------------- the simulation invariant
PAIR = z3.Function('PAIR', I, I, B)     # like MARK
TOUCH = z3.Function('TOUCH', I, B)
KEEP = z3.Const('KEEP', z3.ArraySort(I, B))      # an arbitrary set of sites
PHX, PHY = z3.Consts('PHX PHY', T.A1)            # arbitrary heights of the sites
WSITE = z3.Int('WSITE')                          # an arbitrary site


def edges(sg, rel):
    """rel(s, d, neighbour) along every pair of occupied neighbours"""
    s = z3.Int('e?')
    return z3.ForAll([s], z3.Implies(z3.And(MARK(s), SITE(s), sg[s] >= 0), z3.And([z3.Implies(sg[NB[d](s)] >= 0, rel(s, d, NB[d](s))) for d in range(4)])), patterns=[MARK(s)], qid='edges')


CLOSED = z3.Function('CLOSED', T.A1, B)
POTENTIAL = z3.Function('POTENTIAL', T.A1, B)
UNFOLDED = z3.Function('UNFOLDED', T.A1, T.A1, T.A1, I, B)


def closed(v):
    """KEEP is closed under stepping to occupied neighbours"""
    return CLOSED(v.sg)


def potential(v):
    """inside KEEP the heights change by the step taken: no loop of KEEP goes around the lattice"""
    return POTENTIAL(v.sg)


def unfolded(v, ex=None):
    """the relative coordinates themselves change by the step taken (except at site ex)"""
    return UNFOLDED(v.sg, v.rx, v.ry, z3.IntVal(-7) if ex is None else ex)


def height_step(s, d, n):
    return z3.And(PHX[n] == PHX[s] + STEP[d][0], PHY[n] == PHY[s] + STEP[d][1])


def coord_step(rx, ry, s, d, n):
    return z3.And(rx[n] == rx[s] + STEP[d][0], ry[n] == ry[s] + STEP[d][1])


def definitions():
    """what the predicates above say"""
    a, x, y = z3.Consts('sg? rx? ry?', T.A1)
    e = z3.Int('ex?')
    return [T.forall([a], CLOSED(a) == edges(a, lambda s, d, n: z3.Implies(KEEP[s], KEEP[n])), CLOSED(a)),
            T.forall([a], POTENTIAL(a) == edges(a, lambda s, d, n: z3.Implies(KEEP[s], height_step(s, d, n))), POTENTIAL(a)),
            T.forall([a, x, y, e], UNFOLDED(a, x, y, e) == edges(a, lambda s, d, n: z3.Implies(z3.And(s != e, n != e), coord_step(x, y, s, d, n))), UNFOLDED(a, x, y, e))]


def mates(v, x, y):
    return z3.And(PAIR(x, y), SITE(x), SITE(y), v.sg[x] == v.sg[y], v.sg[x] >= 0)


def RESX(v, x):
    return T.RES(v.rx[x] - ROW(x))


def RESY(v, x):
    return T.RES(v.ry[x] - COL(x))


def enum(eng, name):
    import ast
    ci = eng.prog.classes['SelectionState']
    return EnumV(ci, ast.literal_eval(ci.find_const(name)[0]))


def code(eng, name):
    return zint(enum(eng, name).term)


def tag(cls, props):
    for c in cls:
        c.props = set(props)
    return cls


def tag_rest(cls, props):
    for c in cls:
        c.props = c.props or set(props)
    return cls


def occupied_site(v):
    return v.i('occupied_site_count')


def core_inv(v):
    """clusters, sums, largest cluster: what every operation needs and keeps"""
    vs = [('x', I), ('y', I)]
    pat = lambda x, y: [PAIR(x, y)]
    aw, wid, lsz, lid = v.b('after_wrapping'), v.i('wrapping_cluster_id'), v.i('largest_cluster_sz'), v.i('largest_cluster_id')
    occ = occupied_site(v)
    out = tag(partition(v) + lone(v), LAT)
    out += tag([clause('bond counts add up to 2*L*L', lambda: T.SUMI(v.clbl) == M)], {'C04', 'C11', 'C19'})
    out += tag([clause('site counts add up to the occupied sites', lambda: T.SUMI(v.clsl) == occ)], {'C04', 'C19'})
    out += tag([clause('the occupied sites are counted', lambda: z3.And(T.OCC(v.sg) == occ, 0 <= occ))], {'C04', 'C12', 'C16', 'C19'})
    out += tag([clause('entropy value', lambda: v.r('entropy_value') == -T.SUMH(v.clbl))], {'C11', 'C19'})
    out += tag([clause('largest cluster: size', lambda: z3.If(occ == 0, lsz == 0, z3.And(CL(lid), v.clbl[lid] == lsz, lsz >= 4))),
                clause('largest cluster: none is larger', lambda g: z3.Implies(CL(g), v.clbl[g] <= z3.If(occ == 0, 1, lsz)), [('g', I)], lambda g: [v.clbl[g]]),
                clause('occupied sites are not negative', lambda: occ >= 0)], {'C10', 'C19'})
    out += tag([clause('wrapping cluster', lambda: z3.Implies(aw, CL(wid)))], LAT | {'C13', 'C17', 'C20'})
    out += tag([clause('the wrapping cluster has bonds', lambda: z3.Implies(aw, v.clbl[wid] >= 4))], {'C09', 'C19'})
    out += tag([clause('critical values are recorded exactly when wrapping is reported', lambda: z3.And(aw != v.none('pc_bond_count_wrapping_cluster'), aw != v.none('pc_site_count_wrapping_cluster')))], {'C08'})
    out += tag([clause('a closed set of sites holds whole clusters', lambda x, y: z3.Implies(z3.And(closed(v), mates(v, x, y), KEEP[x]), KEEP[y]), vs, pat)], {'C05', 'C06', 'C07'})
    out += tag([clause('coordinates follow any heights', lambda x, y: z3.Implies(z3.And(closed(v), potential(v), mates(v, x, y), KEEP[x]),
                                                                              z3.And(v.rx[x] - PHX[x] == v.rx[y] - PHX[y], v.ry[x] - PHY[x] == v.ry[y] - PHY[y])), vs, pat)], {'C06', 'C07'})
    out += tag([clause('coordinates agree with positions modulo L', lambda x, y: z3.Implies(mates(v, x, y), z3.And(RESX(v, x) == RESX(v, y), RESY(v, x) == RESY(v, y))), vs, pat)], REL)
    return out


def assume(w, eng, clauses):
    w.st.add(*definitions())
    for cl in clauses:
        if eng.wanted(cl):
            w.st.add(cl.hyp())


class EntropySubtract(Contract):
    """take the terms of the clusters meeting at the selected site out of the entropy"""
    key = 'SitePercolation.entropy_subtract'
    cls = 'SitePercolation'
    props = LAT
    inline = False
    may_skip = True
    variants = PATTERNS

    def setup(self, eng, variant):
        w = World(eng)
        w.simulation()
        assume_lattice(w)
        s = fresh('sel', I)
        a = w.st.objs[w.perc.oid].attrs
        a['current_site'], a['selected_id'] = FRef('Site', s, 0), s
        v = View(w, w.st)
        self.s = s
        w.st.add(SITE(s), *[T.nb_inst(d, s) for d in range(4)])
        assume(w, eng, self.requires_(v))
        k = [int(ch) for ch in variant]
        G = [fresh('G', I) for _ in range(max(k) + 1)]
        w.st.add(*[CL(g) for g in G], *[v.bg[BD(d, s)] == G[k[d]] for d in range(4)], *([z3.Distinct(G)] if len(G) > 1 else []))
        return w, [w.perc, FListRef('Site', 'connecting_bond_ids', s, 0)], {}

    def requires_(self, v):
        return [clause('a site', lambda: SITE(self.s)), clause('counts', lambda g: z3.Implies(CL(g), v.clbl[g] >= 0), [('g', I)], lambda g: [v.clbl[g]])] + numbered(v)

    def requires(self, c):
        return self.requires_(c.old) + [clause('the bonds of the site', lambda: self.bonds_key == self.s)]

    matches = MergeV2.matches
    find_world = MergeV2.find_world
    gs = MergeV2.gs
    dedup = MergeV2.dedup

    def ensures(self, c):
        v, o = c.new, c.old
        cnts = [o.clbl[g] for g in self.gs(o)]
        out = [clause('entropy without the clusters met', lambda: v.r('entropy_value') == o.r('entropy_value') + z3.Sum(self.dedup(o, lambda g: T.HF(o.clbl[g]))),
                      hints=lambda: [T.hdef(x) for x in cnts])]
        if not getattr(c, 'applying', False):
            out += frame(c, attrs={'entropy_value'})
        return out

    def havoc(self, c, s2):
        s2.wobj(c.w.perc.oid).attrs['entropy_value'] = fresh('ent', R)
        return None


# ---------------------------------------------------------------- choosing a site
SEQI = z3.Function('SEQI', T.A1, T.A1)      # position of a site in a sequence without repetition
FAILED = 'CURRENT_SITE_NOT_EMPTY'
# what choosing a site may change
SEL_ATTRS = {'selected_id', 'current_site', 'current_idx', 'occupied_site_count', 'x_occupied', 'y_occupied'}
SEL_LISTS = {'site_ids_indices', 'site_id_sequence_record'}
SEL_FAMS = {('Site', 'first_nn_count'), ('Site', 'second_directional_nn_count')}


class AnySelect(Contract):
    """what every model's choice of a site guarantees (each select_site is verified to do so)"""
    key = 'SitePercolation.select_site'
    props = LAT
    inline = False
    cases = ('SUCESS', 'EMPTY_SITE_LIST', FAILED)
    attrs, lists, fams, rng = SEL_ATTRS, SEL_LISTS, SEL_FAMS, True
    variants = ()           # nothing of its own to verify

    def find_world(self, eng, w, env, st):
        w.perc = params(self.fi, env)[0]
        at = st.objs[w.perc.oid].attrs
        w.lat, w.pool = at['lattice_ref'], at['cluster_pool_ref']

    def matches(self, eng, st, fi, recv):
        return isinstance(recv, Obj) and getattr(eng.cur, 'select', None) is type(self)

    def state(self, c, name):
        return zint(c.res.term) == code(c.eng, name)

    def common(self, c):
        """holds for every model"""
        v, o = c.new, c.old
        ok = self.state(c, 'SUCESS')
        case = getattr(c, 'case', None)
        out = [clause('a selection state of this model', lambda: z3.Or([self.state(c, k) for k in self.cases]))]
        if v.a('selected_id') is not None and v.a('current_site') is not None:
            s = v.oi('selected_id')
            out += [clause('a chosen site was empty', lambda: z3.Implies(ok, z3.And(SITE(s), o.sg[s] == -1))),
                    clause('it is the current site', lambda: z3.Implies(ok, z3.And(z3.Not(v.none('selected_id')), z3.Not(v.none('current_site')), v.oi('current_site') == s)))]
        else:
            out += [clause('a site was chosen', lambda: z3.Not(ok))]
        out += [clause('one more when a site was chosen', lambda: occupied_site(v) == occupied_site(o) + z3.If(ok, 1, 0)),
                clause('the last chosen site stays otherwise', lambda: z3.Implies(z3.Not(ok), z3.And(opt_same(v, o, 'selected_id'), opt_same(v, o, 'current_site'))))]
        return out

    @staticmethod
    def rules(c, ok, empty, failed):
        return []

    def ensures(self, c):
        if not isinstance(c.res, EnumV):
            return [clause('a selection state', lambda: z3.BoolVal(False))]
        out = self.common(c) + self.rules(c, *[self.state(c, k) for k in ('SUCESS', 'EMPTY_SITE_LIST', FAILED)])
        if not getattr(c, 'applying', False):
            out += frame(c, attrs=self.attrs, lists=self.lists, fams=self.fams, rng=self.rng)
        return out

    def havoc(self, c, s2):
        at = s2.wobj(c.w.perc.oid).attrs
        eng = c.eng
        if c.case == 'SUCESS':
            s = fresh('sel', I)
            at['selected_id'], at['current_site'] = s, FRef('Site', s, 0)
        for nm in sorted(self.attrs - {'selected_id', 'current_site'}):
            if nm in at:
                at[nm] = fresh(nm, I)
        for nm in sorted(self.lists):
            if isinstance(at.get(nm), ListRef):
                eng.havoc_list(s2, at[nm])
        for k, a in list(s2.fam.items()):
            if k[:2] in self.fams:
                s2.fam[k] = fresh('sel', a.sort())
        if self.rng:
            s2.ghost['rng'] = fresh('rng', I)
        return enum(eng, c.case)


class SelectSite(AnySelect):
    """the next site of the stored sequence"""
    props = LAT | {'C25'}
    variants = ('',)
    may_skip = True
    cls = 'SitePercolation'
    cases = ('SUCESS', 'EMPTY_SITE_LIST')
    attrs, lists, fams, rng = {'selected_id', 'current_site', 'current_idx', 'occupied_site_count'}, set(), set(), False

    def setup(self, eng, variant):
        w = World(eng)
        w.simulation(self.cls)
        assume_lattice(w)
        assume(w, eng, self.seq(View(w, w.st)))
        return w, [w.perc], {}

    @staticmethod
    def seq(v):
        """the stored sequence and how far it has been used"""
        n, e, k, lim = v.ln('site_ids_indices'), v.le('site_ids_indices'), v.i('current_idx'), v.i('max_iteration_limit')
        occ = occupied_site(v)
        return [clause('sequence: progress', lambda: z3.And(0 <= k, k <= lim, lim <= n, occ == k)),
                clause('sequence: sites', lambda j: z3.Implies(z3.And(0 <= j, j < n), SITE(e[j])), [('j', I)], lambda j: [e[j]]),
                clause('sequence: used up to here', lambda j: z3.Implies(z3.And(0 <= j, j < n), (v.sg[e[j]] >= 0) == (j < k)), [('j', I)], lambda j: [e[j]]),
                clause('sequence: only listed sites are occupied', lambda s: z3.Implies(z3.And(SITE(s), v.sg[s] >= 0), z3.And(0 <= SEQI(e)[s], SEQI(e)[s] < k, e[SEQI(e)[s]] == s)), [('s', I)], lambda s: [v.sg[s]]),
                clause('sequence: no site twice', lambda j: z3.Implies(z3.And(0 <= j, j < n), SEQI(e)[e[j]] == j), [('j', I)], lambda j: [e[j]]),
                clause('cluster numbers', lambda s: z3.Implies(SITE(s), v.sg[s] >= -1), [('s', I)], lambda s: [v.sg[s]])]

    def requires(self, c):
        return self.seq(c.old)

    @staticmethod
    def rules(c, ok, empty, failed):
        v, o = c.new, c.old
        k, e = o.i('current_idx'), o.le('site_ids_indices')
        out = [clause('the end exactly when the sequence is used up', lambda: empty == (k >= o.i('max_iteration_limit'))),
               clause('progress', lambda: v.i('current_idx') == k + z3.If(ok, 1, 0))]
        if v.a('selected_id') is not None:
            out.append(clause('the next site of the sequence', lambda: z3.Implies(ok, v.oi('selected_id') == e[k])))
        return out


class PlaceOneSite(Contract):
    """occupy one more site (or report a failed attempt or the end), whatever the model chooses sites by"""
    key = 'SitePercolation.place_one_site'
    props = LAT - {'C12', 'C14', 'C15', 'C16'}
    inline = False
    cls = 'SitePercolation'
    virtual = ('select_site',)
    cases = ('SUCESS', 'EMPTY_SITE_LIST', FAILED)
    select = AnySelect
    attrs = SEL_ATTRS | {'selection_flag', 'largest_cluster_sz', 'largest_cluster_id', 'entropy_value'}
    fams = SEL_FAMS | {('Bond', 'g_id'), ('Site', 'g_id'), ('Site', 'relative_index'), 'OneCluster'}
    lists, rng = SEL_LISTS, True

    def setup(self, eng, variant):
        w = World(eng)
        w.simulation(self.cls)
        assume_lattice(w)
        v = View(w, w.st)
        assume(w, eng, self.requires_(v))
        return w, [w.perc], {}

    def requires_(self, v):
        return core_inv(v)

    def requires(self, c):
        return self.requires_(c.old)

    def matches(self, eng, st, fi, recv):
        return False            # callers use the contract of their model (below)

    find_world = AnySelect.find_world

    def flags(self, c):
        v = c.new
        flag = v.a('selection_flag')
        if not is_boollike(c.res) or isinstance(flag, Opt) and not isinstance(flag.val, EnumV) or not isinstance(flag, (Opt, EnumV)):
            return None
        return [z3.And(z3.Not(v.none('selection_flag')), v.oi('selection_flag') == code(c.eng, k)) for k in ('SUCESS', 'EMPTY_SITE_LIST', FAILED)]

    def ensures(self, c):
        v, o, eng = c.new, c.old, c.eng
        fl = self.flags(c)
        if fl is None:
            return [clause('returns a flag and sets the selection state', lambda: z3.BoolVal(False))]
        res = zbool(c.res)
        ok, fin, failed = fl
        out = [clause('False exactly at the end', lambda: res == z3.Not(fin)), clause('one site, a failed attempt or the end', lambda: z3.Or(fl))]
        s = v.oi('selected_id') if v.a('selected_id') is not None and not z3.is_false(z3.simplify(ok)) else None
        if s is not None:
            nb = [NB[d](s) for d in range(4)]
            gs = [o.bg[BD(d, s)] for d in range(4)]
            marks = [MARK(s)] + [MARK(n) for n in nb] + [T.nb_inst(d, s) for d in range(4)]

            pairs = lambda x, y: [PAIR(x, y), TOUCH(x), TOUCH(y)]
            hints = {'a closed set of sites holds whole clusters': pairs, 'coordinates follow any heights': pairs, 'coordinates agree with positions modulo L': lambda x, y: pairs(x, y) + [T.res_shift(r0[z] - pos(z), r1[z] - pos(z)) for z in (x, y) for r0, r1, pos in ((o.rx, v.rx, ROW), (o.ry, v.ry, COL))],
                     'largest cluster: size': lambda: [CNT(o.clbe[gs[d]], o.clbl[gs[d]], BD(d, s)) >= 0 for d in range(4)] + marks,
                     'a bond with no occupied end shares its cluster with no bond': lambda b, x: marks + [T.nb_inst(0, b), T.nb_inst(1, b - N)],
                     'a bond with no occupied end shares its cluster with no site': lambda b, x: marks + [T.nb_inst(0, b), T.nb_inst(1, b - N)],
                     'the occupied sites are counted': lambda: [T.occ_step(o.sg, v.sg, s)],
                     'entropy value': lambda: [T.hdef(v.clbl[v.sg[s]])]}
            if not getattr(c, 'applying', False):
                out += self.steps(v, o, s, nb, gs, marks, ok)
            uses = {'the bonds of an occupied site carry its number': ('bond numbers', 'site numbers', 'carr', 'thy NB'),
                    'coordinates agree with positions modulo L': ('agree with positions', 'other clusters stay', 'not met do not move'),
                    'coordinates follow any heights': ('follow', 'other clusters stay', 'not met do not move', 'a closed set that', 'stay'),
                    'a closed set of sites holds whole clusters': ('a closed set', 'other clusters stay')}
        else:
            hints, uses = {}, {}
        for cl in core_inv(v):
            cl.uses = uses.get(cl.name, cl.uses)
            if cl.name in hints:
                old = cl.hints
                cl.hints = lambda *xs, old=old, h=hints[cl.name]: list(old(*xs) if old else []) + list(h(*xs))
            out.append(cl)
        if s is not None:
            imp = lambda x: z3.Implies(ok, x)
            out += tag([clause('the chosen site was empty', lambda: imp(z3.And(SITE(s), o.sg[s] == -1, v.sg[s] >= 0, z3.Not(v.none('selected_id')), z3.Not(v.none('current_site')), v.oi('current_site') == s))),
                        clause('no other site changes occupation', lambda x: imp(z3.Implies(z3.And(SITE(x), x != s), (v.sg[x] >= 0) == (o.sg[x] >= 0))), [('x', I)], lambda x: [v.sg[x]]),
                        clause('one more occupied site', lambda: imp(occupied_site(v) == occupied_site(o) + 1))], LAT | {'C13', 'C17', 'C20'})
            out += tag([clause('the wrapping cluster keeps its sites', lambda: imp(z3.Implies(z3.And(o.b('after_wrapping'), SITE(WSITE), o.sg[WSITE] == o.i('wrapping_cluster_id')), v.sg[WSITE] == v.i('wrapping_cluster_id'))))], {'C09'})
            out += tag([clause('the wrapping cluster does not shrink', lambda: imp(z3.Implies(o.b('after_wrapping'), v.clbl[v.i('wrapping_cluster_id')] >= o.clbl[o.i('wrapping_cluster_id')])))], {'C09'})
            out += tag([clause('the largest cluster does not shrink', lambda: imp(v.i('largest_cluster_sz') >= o.i('largest_cluster_sz')))], {'C10'})
            out += tag([clause('coordinates unfold all steps but those to the new site', lambda: imp(z3.Implies(unfolded(o), unfolded(v, s))), hints=lambda: marks, uses=('UNFOLDED', 'unfold the old'))], {'C07', 'C19'})
        out += tag([clause('wrapping state is not touched', lambda: z3.And(v.b('after_wrapping') == o.b('after_wrapping'), v.i('wrapping_cluster_id') == o.i('wrapping_cluster_id')))], LAT | {'C13', 'C17', 'C20'})
        out += self.failing(c, ok)
        if not getattr(c, 'applying', False):
            out += frame(c, fams=self.fams, attrs=self.attrs, lists=self.lists, rng=self.rng)
        return out

    def failing(self, c, ok):
        """without a placement nothing of the clusters, coordinates and observables changes"""
        v, o = c.new, c.old
        no = lambda x: z3.Implies(z3.Not(ok), x)
        out = [clause('no placement: no site or bond changes', lambda x: no(z3.And(v.sg[x] == o.sg[x], v.bg[x] == o.bg[x], v.rx[x] == o.rx[x], v.ry[x] == o.ry[x])), [('x', I)], lambda x: [v.sg[x], v.bg[x], v.rx[x], v.ry[x]]),
               clause('no placement: no cluster changes', lambda g: no(z3.And(v.clbl[g] == o.clbl[g], v.clsl[g] == o.clsl[g], v.clbe[g] == o.clbe[g], v.clse[g] == o.clse[g], v.cgid[g] == o.cgid[g])), [('g', I)], lambda g: [v.clbl[g], v.clsl[g], v.cgid[g]]),
               clause('no placement: no observable changes', lambda: no(z3.And(*[v.i(a) == o.i(a) for a in ('occupied_site_count', 'largest_cluster_sz', 'largest_cluster_id')], v.r('entropy_value') == o.r('entropy_value'),
                                                                            opt_same(v, o, 'selected_id'), opt_same(v, o, 'current_site'))))]
        return out

    def steps(self, v, o, s, nb, gs, marks, ok):
        """facts on the way: how the sites of the new cluster relate to the new site s"""
        V1 = [('x', I)]
        met = lambda d, x: z3.And(ok, SITE(x), x != s, o.sg[x] >= 0, o.sg[x] == o.sg[nb[d]])
        mine = lambda x: z3.And(ok, TOUCH(x), SITE(x), v.sg[x] == v.sg[s])
        tp = lambda x: [TOUCH(x)]
        out = []
        for d in range(4):
            n = nb[d]
            out += tag([clause(f'a site in the cluster of the bond in direction {d} is in that of the neighbour', lambda x, d=d, n=n: z3.Implies(z3.And(ok, TOUCH(x), SITE(x), o.sg[x] == gs[d]), o.sg[n] == gs[d]), V1, tp,
                               lambda x, d=d: [MARK(BD(d, s)), TOUCH(x), T.nb_inst(d, s)])], LAT)
        out += tag([clause('the neighbours that were occupied join', lambda: z3.And(ok, *[z3.Implies(o.sg[n] >= 0, v.sg[n] == v.sg[s]) for n in nb]), hints=lambda: marks),
                    clause('the cluster is made of those met', lambda x: z3.Implies(z3.And(mine(x), x != s), z3.And(o.sg[x] >= 0, z3.Or([z3.And(o.sg[n] >= 0, o.sg[x] == o.sg[n]) for n in nb]))), V1, tp, lambda x: [TOUCH(x)] + marks),
                    clause('the other clusters stay', lambda x: z3.Implies(z3.And(ok, TOUCH(x), SITE(x), v.sg[x] != v.sg[s]), z3.And(v.sg[x] == o.sg[x], z3.And([o.sg[x] != g for g in gs]))), V1, tp, lambda x: [TOUCH(x)] + marks)], LAT)
        three = {'C05', 'C06', 'C07'}
        out += tag([clause('closed sets stay closed without the new site', lambda: z3.Implies(z3.And(ok, closed(v)), closed(o)), hints=lambda: marks),
                    clause('a closed set that meets the cluster holds the new site', lambda x: z3.Implies(z3.And(mine(x), closed(v), KEEP[x]), KEEP[s]), V1, tp, lambda x: [TOUCH(x)] + [PAIR(x, n) for n in nb] + marks),
                    clause('a closed set that holds the new site holds the cluster', lambda x: z3.Implies(z3.And(mine(x), closed(v), KEEP[s]), KEEP[x]), V1, tp, lambda x: [TOUCH(x)] + [PAIR(n, x) for n in nb] + marks)], three)
        same = lambda x, n: z3.And(v.rx[x] - o.rx[x] == v.rx[n] - o.rx[n], v.ry[x] - o.ry[x] == v.ry[n] - o.ry[n])
        for d in range(4):
            out += tag([clause(f'the cluster in direction {d} moves as one', lambda x, d=d: z3.Implies(z3.And(TOUCH(x), met(d, x)), same(x, nb[d])), V1, tp, lambda x, d=d: [TOUCH(x), TOUCH(nb[d])] + marks)], REL)
        out += tag([clause('clusters not met do not move', lambda x: z3.Implies(z3.And(ok, TOUCH(x), SITE(x), o.sg[x] >= 0, v.sg[x] != v.sg[s]), z3.And(v.rx[x] == o.rx[x], v.ry[x] == o.ry[x])), V1, tp, lambda x: [TOUCH(x)] + marks)], REL)
        pot = z3.And(closed(v), potential(v))
        lvl = lambda x, y: z3.And(v.rx[x] - PHX[x] == v.rx[y] - PHX[y], v.ry[x] - PHY[x] == v.ry[y] - PHY[y])
        nbt = marks + [TOUCH(n) for n in nb]
        out += tag([clause('heights stay heights without the new site', lambda: z3.Implies(z3.And(ok, potential(v)), potential(o)), hints=lambda: marks)], {'C06', 'C07'})
        for d in range(4):
            n = nb[d]
            out += tag([clause(f'coordinates follow the heights to the neighbour in direction {d}', lambda n=n: z3.Implies(z3.And(ok, pot, o.sg[n] >= 0, KEEP[s]), lvl(n, s)), hints=lambda n=n: nbt + [PAIR(n, m) for m in nb])], {'C06', 'C07'})
        out += tag([clause('coordinates follow the heights in the cluster', lambda x: z3.Implies(z3.And(mine(x), pot, KEEP[s]), lvl(x, s)), V1, tp, lambda x: [TOUCH(x)] + [PAIR(x, n) for n in nb] + nbt)], {'C06', 'C07'})
        axes = ((v.rx, o.rx, ROW), (v.ry, o.ry, COL))
        agree = lambda x, y: z3.And([T.RES(r1[x] - pos(x)) == T.RES(r1[y] - pos(y)) for r1, r0, pos in axes])
        mv = lambda x, n: [T.res_move(r0[x] - pos(x), r0[n] - pos(n), r1[n] - r0[n], r1[x] - pos(x), r1[n] - pos(n)) for r1, r0, pos in axes]
        wr = lambda n: [T.res_wrap(r1[n] - pos(n), r1[s] - pos(s)) for r1, r0, pos in axes]
        for d in range(4):
            n = nb[d]
            for e in range(4):
                m = nb[e]
                out += tag([clause(f'coordinates agree with positions at the neighbour in direction {d} when it joins through direction {e}',
                                   lambda n=n, m=m, e=e: z3.Implies(z3.And(ok, o.sg[n] >= 0, o.sg[n] == o.sg[m], coord_step(v.rx, v.ry, s, e, m)), agree(n, s)), hints=lambda n=n, m=m: marks + [TOUCH(n), PAIR(n, m)] + mv(n, m) + wr(m), uses=('agree with positions modulo', 'moves as one'))], REL)
            out += tag([clause(f'coordinates agree with positions at the neighbour in direction {d}', lambda n=n: z3.Implies(z3.And(ok, o.sg[n] >= 0), agree(n, s)), hints=lambda: marks, uses=())], REL)
        for d in range(4):
            n = nb[d]
            out += tag([clause(f'coordinates agree with positions in the cluster met in direction {d}', lambda x, d=d: z3.Implies(z3.And(TOUCH(x), met(d, x)), agree(x, s)), V1, tp, lambda x, n=n: [TOUCH(x), PAIR(x, n)] + marks + mv(x, n), uses=('agree with positions modulo', 'moves as one', 'those met'))], REL)
        out += tag([clause('coordinates agree with positions in the cluster', lambda x: z3.Implies(mine(x), agree(x, s)), V1, tp, lambda x: [TOUCH(x)] + marks, uses=('in the cluster met', 'those met'))], REL)
        for d in range(4):
            nx = NB[d]
            both = lambda x, t=True, nx=nx: z3.And(ok, TOUCH(x) if t else MARK(x), SITE(x), x != s, nx(x) != s, v.sg[x] >= 0, v.sg[nx(x)] >= 0)
            step = lambda x, d=d, nx=nx: coord_step(v.rx, v.ry, x, d, nx(x))
            mk = lambda x, d=d, nx=nx: [TOUCH(x), TOUCH(nx(x)), MARK(x), MARK(nx(x)), T.nb_inst(d, x)] + marks
            two = {'C07', 'C19'}
            out += tag([clause(f'neighbours share a cluster in direction {d}', lambda x, both=both, nx=nx: z3.Implies(both(x), z3.And(o.sg[x] >= 0, o.sg[x] == o.sg[nx(x)])), V1, tp, mk, uses=('bonds of an occupied site', 'site numbers', 'carries'))], two)
            for e in range(4):
                out += tag([clause(f'steps in direction {d} inside the cluster met in direction {e} stay', lambda x, both=both, e=e, step=step: z3.Implies(z3.And(both(x), unfolded(o), met(e, x)), step(x)), V1, tp, mk, uses=('UNFOLDED', 'moves as one', 'neighbours share a'))], two)
            out += tag([clause(f'steps in direction {d} inside other clusters stay', lambda x, both=both, step=step: z3.Implies(z3.And(both(x), unfolded(o), v.sg[x] != v.sg[s]), step(x)), V1, tp, mk, uses=('UNFOLDED', 'not met do not move', 'neighbours share a', 'other clusters stay'))], two)
            out += tag([clause(f'coordinates unfold the old steps in direction {d}', lambda x, both=both, step=step: z3.Implies(z3.And(both(x, False), unfolded(o)), step(x)), V1, lambda x: [MARK(x)], mk, uses=('inside the cluster met', 'inside other', 'those met', 'neighbours share a'))], two)
        return out

    def havoc(self, c, s2):
        self.select.havoc(self.selector, c, s2)
        at = s2.wobj(c.w.perc.oid).attrs
        at['selection_flag'] = enum(c.eng, c.case)
        if c.case == 'SUCESS':
            MergeV2.havoc(self, c, s2)
            for a in ('largest_cluster_sz', 'largest_cluster_id'):
                at[a] = fresh(a, I)
            at['entropy_value'] = fresh('ent', R)
        return c.case != 'EMPTY_SITE_LIST'


class PlacePlain(PlaceOneSite):
    """placement in the model that follows the stored sequence: what PlaceOneSite gives, and the model's own rule"""
    props = LAT
    select = SelectSite
    cls = 'SitePercolation'
    virtual = ()
    rules = {'C12'}

    def __init__(self):
        self.selector = self.select()
        self.cases = self.select.cases
        self.attrs = self.select.attrs | {'selection_flag', 'largest_cluster_sz', 'largest_cluster_id', 'entropy_value'}
        self.fams = self.select.fams | {('Bond', 'g_id'), ('Site', 'g_id'), ('Site', 'relative_index'), 'OneCluster'}
        self.lists, self.rng = self.select.lists, self.select.rng

    def matches(self, eng, st, fi, recv):
        return isinstance(recv, Obj)

    def requires_(self, v):
        return core_inv(v) + self.select.seq(v)

    def ensures(self, c):
        v, o = c.new, c.old
        fl = self.flags(c)
        if fl is None:
            return [clause('returns a flag and sets the selection state', lambda: z3.BoolVal(False))]
        out = []
        if getattr(c, 'applying', False):
            out += PlaceOneSite.ensures(self, c)
        hints = self.select.kept(c) if hasattr(self.select, 'kept') else {}
        for cl in self.select.seq(v):
            cl.hints = hints.get(cl.name, cl.hints)
            out.append(cl)
        out += tag_rest([clause('False exactly at the end', lambda: zbool(c.res) == z3.Not(fl[1]))] + self.select.rules(c, *fl), self.rules | {'C13', 'C17', 'C20'})
        if not getattr(c, 'applying', False):
            out += tag(self.failing(c, fl[0]), self.rules)
            if v.a('selected_id') is not None:
                s = v.oi('selected_id')
                out += tag([clause('the chosen site was empty', lambda: z3.Implies(fl[0], z3.And(SITE(s), o.sg[s] == -1, v.sg[s] >= 0))),
                            clause('no other site changes occupation', lambda x: z3.Implies(z3.And(SITE(x), x != s), (v.sg[x] >= 0) == (o.sg[x] >= 0)), [('x', I)], lambda x: [v.sg[x]]),
                            clause('one more occupied site', lambda: z3.Implies(fl[0], occupied_site(v) == occupied_site(o) + 1))], self.rules)
            out += frame(c, fams=self.fams, attrs=self.attrs, lists=self.lists, rng=self.rng)
        return out


class DetectWrapping(Contract):
    """report whether the cluster of the site just placed goes around the lattice"""
    key = 'SitePercolation.detect_wrapping'
    cls = 'SitePercolation'
    props = LAT
    inline = False

    def setup(self, eng, variant):
        w = World(eng)
        w.simulation()
        assume_lattice(w)
        s = fresh('sel', I)
        a = w.st.objs[w.perc.oid].attrs
        a['current_site'], a['selected_id'] = FRef('Site', s, 0), s
        v = View(w, w.st)
        assume(w, eng, self.requires_(v))
        w.st.add(*[T.nb_inst(d, s) for d in range(4)])
        return w, [w.perc], {}

    def requires_(self, v):
        s = v.oi('selected_id')
        return core_inv(v) + tag([clause('the site just placed', lambda: z3.And(SITE(s), v.sg[s] >= 0, z3.Not(v.none('selected_id')), z3.Not(v.none('current_site')), v.oi('current_site') == s))], LAT) + \
            tag([clause('coordinates unfold all steps but those to the new site', lambda: z3.Implies(z3.Not(v.b('after_wrapping')), unfolded(v, s)))], {'C07', 'C19'})

    def requires(self, c):
        return self.requires_(c.old)

    def matches(self, eng, st, fi, recv):
        if not isinstance(recv, Obj):
            return False
        return isinstance(st.objs[recv.oid].attrs.get('current_site'), FRef)
    find_world = SelectSite.find_world

    def ensures(self, c):
        v, o = c.new, c.old
        if not is_boollike(c.res):
            return [clause('returns a flag', lambda: z3.BoolVal(False))]
        res = zbool(c.res)
        s = v.oi('selected_id')
        nb = [NB[d](s) for d in range(4)]
        was, aw = o.b('after_wrapping'), v.b('after_wrapping')
        new = z3.And(aw, z3.Not(was))
        wid = v.i('wrapping_cluster_id')
        hints = lambda: [MARK(s)] + [MARK(n) for n in nb] + [T.nb_inst(d, s) for d in range(4)] + [PAIR(s, n) for n in nb] + [PAIR(n, s) for n in nb] + \
            [T.res_small(v.rx[n] - ROW(n), v.rx[s] - ROW(s)) for n in nb] + [T.res_small(v.ry[n] - COL(n), v.ry[s] - COL(s)) for n in nb]
        out = tag([clause('the result is the wrapping state', lambda: res == aw), clause('once reported it stays', lambda: z3.Implies(was, z3.And(aw, wid == o.i('wrapping_cluster_id'))))], LAT | {'C13', 'C17', 'C20'})
        if not getattr(c, 'applying', False):
            for d in range(4):
                n = nb[d]
                out += tag([clause(f'not reported: the coordinates unfold the step from the new site in direction {d}', lambda n=n, d=d: z3.Implies(z3.And(z3.Not(aw), v.sg[n] >= 0), coord_step(v.rx, v.ry, s, d, n)),
                                   hints=lambda n=n, d=d: [T.nb_inst(d, s), PAIR(s, n), v.bg[BD(d, s)] == v.bg[BD(d, s)], T.res_small(v.rx[n] - ROW(n), v.rx[s] - ROW(s)), T.res_small(v.ry[n] - COL(n), v.ry[s] - COL(s))],
                                   uses=('agree with positions', 'carry its number'))], {'C07', 'C19'})
            for d in range(4):
                nx = NB[d]
                out += tag([clause(f'not reported: the coordinates unfold every step in direction {d}', lambda x, nx=nx, d=d: z3.Implies(z3.And(z3.Not(aw), MARK(x), SITE(x), v.sg[x] >= 0, v.sg[nx(x)] >= 0), coord_step(v.rx, v.ry, x, d, nx(x))), [('x', I)], lambda x: [MARK(x)],
                                   lambda x, d=d: [MARK(x), T.nb_inst(d, x)], uses=('UNFOLDED',))], {'C07', 'C19'})
        out += tag([clause('not reported: the coordinates unfold every step, so no occupied loop goes around the lattice', lambda: z3.Implies(z3.Not(aw), unfolded(v)), hints=hints, uses=('UNFOLDED', 'unfold every step'))], {'C07', 'C19'})
        out += tag([clause('newly reported: no heights fit the cluster, so an occupied loop goes around the lattice', lambda: z3.Implies(z3.And(new, KEEP[s]), z3.Not(z3.And(closed(v), potential(v)))), hints=hints)], {'C07'})
        out += tag([clause('the wrapping cluster is that of the site just placed', lambda: z3.Implies(new, z3.And(wid == v.sg[s], CL(wid))))], LAT | {'C13', 'C17', 'C20'})
        out += tag([clause('the wrapping cluster has bonds', lambda: z3.Implies(aw, v.clbl[wid] >= 4), hints=lambda: hints() + [CNT(v.clbe[wid], v.clbl[wid], BD(d, s)) >= 0 for d in range(4)], uses=('each bond listed once', 'carry its number', 'thy CNT', 'thy NB'))], {'C09', 'C19'})
        out += tag([clause('critical values are recorded', lambda: z3.Implies(new, z3.And(v.i('pc_occupied_site_count') == occupied_site(v), z3.Not(v.none('pc_bond_count_wrapping_cluster')), z3.Not(v.none('pc_site_count_wrapping_cluster')),
                                                                                            v.oi('pc_bond_count_wrapping_cluster') == v.clbl[v.sg[s]], v.oi('pc_site_count_wrapping_cluster') == v.clsl[v.sg[s]]))),
                    clause('critical values are kept', lambda: z3.Implies(z3.Not(new), z3.And(v.i('pc_occupied_site_count') == o.i('pc_occupied_site_count'), opt_same(v, o, 'pc_bond_count_wrapping_cluster'), opt_same(v, o, 'pc_site_count_wrapping_cluster'))))], {'C08'})
        out += tag([clause('otherwise the wrapping cluster is kept', lambda: z3.Implies(z3.Not(new), wid == o.i('wrapping_cluster_id')))], LAT | {'C13', 'C17', 'C20'})
        if not getattr(c, 'applying', False):
            out += frame(c, attrs={'after_wrapping', 'wrapping_cluster_id', 'pc_occupied_site_count', 'pc_bond_count_wrapping_cluster', 'pc_site_count_wrapping_cluster'})
        return out

    def havoc(self, c, s2):
        at = s2.wobj(c.w.perc.oid).attrs
        at['after_wrapping'], at['wrapping_cluster_id'] = fresh('aw', B), fresh('wid', I)
        at['pc_occupied_site_count'] = fresh('pco', I)
        for a in ('pc_bond_count_wrapping_cluster', 'pc_site_count_wrapping_cluster'):
            at[a] = Opt(fresh('none', B), fresh('pc', I))
        return at['after_wrapping']


def opt_same(v, o, name):
    return z3.And(v.none(name) == o.none(name), z3.Implies(z3.Not(v.none(name)), v.oi(name) == o.oi(name)))


CONTRACTS = [MergeWith, Relabel, MergeV2, EntropySubtract, AnySelect, SelectSite, PlaceOneSite, PlacePlain, DetectWrapping]
