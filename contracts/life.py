"""Construction, reset, the placement order (C13, C18, C26) and what they establish for everything else."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract, clause
from pyvc.world import World, View
from pyvc.frame import frame
from pyvc import theory as T
from pyvc.theory import L, N, M, SITE, BOND, NB, BD, ROW, COL, CNT
from .lattice import assume_lattice, latinv
from .core import LAT, SEQI, CL, core_inv, assume, tag, unfolded, definitions, params, occupied_site, SelectSite, MARK, PAIR

LIFE = {'C13', 'C17', 'C18', 'C26'}


def sim_world(self, eng, w, env, st):
    w.perc = params(self.fi, env)[0]
    at = st.objs[w.perc.oid].attrs
    w.lat, w.pool = at['lattice_ref'], at['cluster_pool_ref']


# ---------------------------------------------------------------- what is fresh
def fresh_lattice(v, bonds=True):
    out = [clause('fresh: no site is occupied', lambda s: z3.Implies(SITE(s), v.sg[s] == -1), [('s', I)], lambda s: [v.sg[s]]),
           clause('fresh: relative coordinates are initial', lambda s: z3.Implies(SITE(s), z3.And(v.rx[s] == 0, v.ry[s] == 0)), [('s', I)], lambda s: [v.rx[s], v.ry[s]]),
           clause('fresh: counters of failed draws are initial', lambda s: z3.Implies(SITE(s), z3.And(v.nn1[s] == 4, v.nn2[s] == 4)), [('s', I)], lambda s: [v.nn1[s], v.nn2[s]])]
    if bonds:
        out.append(clause('fresh: no bond has a cluster', lambda b: z3.Implies(BOND(b), v.bg[b] == -1), [('b', I)], lambda b: [v.bg[b]]))
    return out


class LatticeReset(Contract):
    """forget occupation, coordinates, counters and cluster numbers; keep the lattice"""
    key = 'Lattice.reset'
    props = LAT | LIFE
    inline = False

    def setup(self, eng, variant):
        w = World(eng)
        w.lattice()
        assume_lattice(w)
        return w, [w.lat], {}

    def matches(self, eng, st, fi, recv):
        return isinstance(recv, Obj)

    def find_world(self, eng, w, env, st):
        w.lat, = params(self.fi, env)
        w.pool = w.perc = None

    def ensures(self, c):
        out = fresh_lattice(c.new)
        if not getattr(c, 'applying', False):
            out += frame(c, fams=self.fams)
        return out

    fams = {('Site', 'g_id'), ('Site', 'relative_index'), ('Site', 'first_nn_count'), ('Site', 'second_directional_nn_count'), ('Bond', 'g_id')}

    def havoc(self, c, s2):
        for k, a in list(s2.fam.items()):
            if k[:2] in self.fams:
                s2.fam[k] = fresh('rst', a.sort())
        return None


# ---------------------------------------------------------------- one cluster per bond
def pool_shape(v):
    x, n = v.pa('cluster_list'), v.pa('cluster_id')
    if not isinstance(x, ListRef) or not isinstance(v.st.lists[x.oid], FamList) or not is_intlike(n):
        return [clause('the pool holds clusters', lambda: z3.BoolVal(False))]
    lv = v.st.lists[x.oid]
    return [clause('one cluster per bond', lambda: z3.And(zint(lv.n) == M, zint(n) == M)),
            clause('the pool is filled', lambda i: z3.Implies(z3.And(0 <= i, i < M), z3.Select(lv.present, i)), [('i', I)])]


def cluster_of_bond(v, g):
    return z3.And(v.bg[g] == g, v.clbl[g] == 1, v.clbe[g][0] == g, v.clsl[g] == 0, v.cgid[g] == g, v.cid[g] == g)


def fresh_clusters(v):
    return pool_shape(v) + [clause('every bond is a cluster of its own', lambda g: z3.Implies(CL(g), cluster_of_bond(v, g)), [('g', I)],
                                   lambda g: [v.bg[g], v.clbl[g], v.clbe[g], v.clsl[g], v.cgid[g], v.cid[g]])]


class InitClusters(Contract):
    """one cluster per bond, in order"""
    key = 'SitePercolation.init_clusters'
    cls = 'SitePercolation'
    props = LAT | LIFE
    inline = False

    def setup(self, eng, variant):
        w = World(eng)
        w.simulation()
        assume_lattice(w)
        return w, [w.perc], {}

    def matches(self, eng, st, fi, recv):
        return isinstance(recv, Obj)

    find_world = sim_world
    fams = {('Bond', 'g_id'), 'OneCluster'}

    def ensures(self, c):
        out = fresh_clusters(c.new)
        if not getattr(c, 'applying', False):
            out += frame(c, fams=self.fams, objs={c.w.pool.oid}, pool=True)
        return out

    def havoc(self, c, s2):
        for k, a in list(s2.fam.items()):
            if k[:2] in self.fams or k[0] in self.fams:
                s2.fam[k] = fresh('ini', a.sort())
        put_pool(c.eng, c.w, s2)
        return None

    def loop_invs(self, eng, st, s0, stack, k):
        v = View(self.ctx0.w, s0)
        if stack:
            return []
        return [('clusters made', lambda t: z3.ForAll([_g], z3.Implies(z3.And(0 <= _g, _g < t), cluster_of_bond(v, _g)),
                                                      patterns=[v.bg[_g], v.clbl[_g], v.clbe[_g], v.clsl[_g], v.cgid[_g], v.cid[_g]]))]


_g = z3.Int('g?')


def put_pool(eng, w, s2):
    """a pool of M clusters (contents as the families say)"""
    at = s2.wobj(w.pool.oid).attrs
    for f in ('site_ids', 'bond_ids'):
        s2.famver[('OneCluster', f)] = eng.newoid()
    s2.famver['OneCluster'] = eng.newoid()
    at['cluster_list'] = eng.new_list(s2, FamList('OneCluster', M, z3.K(I, z3.BoolVal(True))))
    at['cluster_id'] = M


# ---------------------------------------------------------------- the placement order
A1 = T.A1
SHUFP, SHUFIP, SHUFN = z3.Function('SHUFP', I, I, A1), z3.Function('SHUFIP', I, I, A1), z3.Function('SHUFN', I, I, I)


def order(v):
    """(length, entries, reverse table)"""
    return v.ln('site_ids_indices'), v.le('site_ids_indices'), v.le('reverse_ids_indices')


def entries_ok(v):
    n, e, r = order(v)
    return [clause('order: entries are sites', lambda j: z3.Implies(z3.And(0 <= j, j < n), SITE(e[j])), [('j', I)], lambda j: [e[j]]),
            clause('order: length', lambda: n >= 0),
            clause('reverse table: one entry per site', lambda: v.ln('reverse_ids_indices') == N)]


def distinct(v):
    n, e, r = order(v)
    return [clause('order: no site twice', lambda j: z3.Implies(z3.And(0 <= j, j < n), SEQI(e)[e[j]] == j), [('j', I)], lambda j: [e[j]])]


def inverse(v, was=lambda s: s):
    """hint: was(s) is the place of s before the shuffle"""
    n, e, r = order(v)
    ip = v.st.ghost.get('shuf_ip')
    hint = (lambda s: [SEEN(ip[was(s)]), SEEN(e[ip[was(s)]])]) if ip is not None else None
    return [clause('order: as many entries as sites', lambda: z3.And(n == N, v.ln('reverse_ids_indices') == N)),
            clause('order: entries are sites', lambda j: z3.Implies(z3.And(0 <= j, j < N), SITE(e[j])), [('j', I)], lambda j: [e[j]]),
            clause('reverse table: place of an entry', lambda j: z3.Implies(z3.And(0 <= j, j < N), r[e[j]] == j), [('j', I)], lambda j: [e[j]]),
            clause('reverse table: a site stands at its place', lambda s: z3.Implies(SITE(s), z3.And(0 <= r[s], r[s] < N, e[r[s]] == s)), [('s', I)], lambda s: [r[s]], hint)]


def seqi_from(E, n, inv, lo=0):
    """hint: with an inverse table there is no repetition, so SEQI (the first position of a value) is that inverse"""
    j = z3.Int('j?')
    return z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), inv(E[j]) == j), patterns=[E[j]]),
                      z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), SEQI(E)[E[j]] == j), patterns=[E[j]]))


class Shuffle(Contract):
    """a random permutation of the order, and its reverse table; nothing when shuffling is off"""
    key = 'SitePercolation.shuffle'
    cls = 'SitePercolation'
    props = LAT | LIFE | {'C25'}
    inline = False

    def setup(self, eng, variant):
        w = World(eng)
        w.simulation()
        assume_lattice(w)
        assume(w, eng, entries_ok(View(w, w.st)))
        return w, [w.perc], {}

    def matches(self, eng, st, fi, recv):
        return isinstance(recv, Obj)

    find_world = sim_world

    def requires(self, c):
        return entries_ok(c.old)

    def ensures(self, c):
        v, o = c.new, c.old
        n, e, r = order(v)
        n0, e0, r0 = order(o)
        on = o.b('do_shuffle')
        p, ip = SHUFP(o.rng, n0), SHUFIP(o.rng, n0)
        if not getattr(c, 'applying', False):
            p, ip = v.st.ghost.get('shuf_p', p), v.st.ghost.get('shuf_ip', ip)
        j1 = [('j', I)]
        perm = lambda j: z3.Implies(z3.And(on, 0 <= j, j < n), z3.And(0 <= p[j], p[j] < n, ip[p[j]] == j, 0 <= ip[j], ip[j] < n, p[ip[j]] == j))
        no = lambda x: z3.Implies(z3.Not(on), x)
        tidy = lambda j: z3.And(0 <= j, j < n0)
        out = [clause('shuffle: as many entries', lambda: z3.And(n == n0, v.ln('reverse_ids_indices') == o.ln('reverse_ids_indices'))),
               clause('shuffle: entries are moved by a permutation', lambda j: z3.Implies(z3.And(on, 0 <= j, j < n), e[j] == e0[p[j]]), j1, lambda j: [e[j]]),
               clause('shuffle: the permutation', perm, j1, lambda j: [p[j], ip[j], e[j]]),
               clause('shuffle: the permutation has an inverse', perm, j1, lambda j: [ip[j]]),
               clause('shuffle: the reverse table finds an entry', lambda j: z3.Implies(z3.And(on, 0 <= j, j < n), z3.And(0 <= r[e[j]], r[e[j]] < n, e[r[e[j]]] == e[j])), j1, lambda j: [e[j]]),
               clause('shuffle off: nothing moves', lambda j: no(z3.Implies(tidy(j), e[j] == e0[j])), j1, lambda j: [e[j]]),
               clause('shuffle off: the reverse table stays', lambda s: no(z3.Implies(SITE(s), r[s] == r0[s])), [('s', I)], lambda s: [r[s]]),
               clause('entries are sites', lambda j: z3.Implies(z3.And(0 <= j, j < n), SITE(e[j])), j1, lambda j: [e[j]]),
               clause('random source', lambda: v.rng == z3.If(on, SHUFN(o.rng, n0), o.rng))]
        out.append(clause('shuffle: no entry is lost', lambda j: z3.Implies(z3.And(on, 0 <= j, j < n), z3.And(e[ip[j]] == e0[j], SITE(e0[j]))), j1, lambda j: [ip[j]]))
        if not getattr(c, 'applying', False):
            out += frame(c, lists={'site_ids_indices', 'reverse_ids_indices'}, rng=True)
        return out

    def havoc(self, c, s2):
        at = s2.wobj(c.w.perc.oid).attrs
        for nm in ('site_ids_indices', 'reverse_ids_indices'):
            c.eng.havoc_list(s2, at[nm])
        s2.ghost['rng'] = fresh('rng', I)
        n0, o = c.old.ln('site_ids_indices'), c.old
        s2.ghost['shuf_p'], s2.ghost['shuf_ip'] = SHUFP(o.rng, n0), SHUFIP(o.rng, n0)
        return None

    def loop_invs(self, eng, st, s0, stack, k):
        v = View(self.ctx0.w, s0)
        if stack:
            return []
        n, e, r = order(v)
        return [('reverse table so far', lambda t: z3.ForAll([_g], z3.Implies(z3.And(0 <= _g, _g < t), z3.And(0 <= r[e[_g]], r[e[_g]] < t, e[r[e[_g]]] == e[_g])), patterns=[e[_g]]))]


class SwapIds(Contract):
    """exchange the places of two sites"""
    key = 'SitePercolation.swap_ids'
    props = {'C26'}

    def setup(self, eng, variant):
        w = World(eng)
        w.simulation()
        assume_lattice(w)
        assume(w, eng, inverse(View(w, w.st)))
        self.a, self.b = fresh('id1', I), fresh('id2', I)
        w.st.add(SITE(self.a), SITE(self.b))
        return w, [w.perc, self.a, self.b], {}

    def ensures(self, c):
        v, o, a, b = c.new, c.old, self.a, self.b
        n, e, r = order(v)
        n0, e0, r0 = order(o)
        sw = lambda s: z3.If(s == a, b, z3.If(s == b, a, s))
        return inverse(v) + [clause('entries are exchanged', lambda j: z3.Implies(z3.And(0 <= j, j < N), e[j] == sw(e0[j])), [('j', I)], lambda j: [e[j]]),
                             clause('places are exchanged', lambda s: z3.Implies(SITE(s), r[s] == r0[sw(s)]), [('s', I)], lambda s: [r[s]])] + \
            frame(c, lists={'site_ids_indices', 'reverse_ids_indices'})


# ---------------------------------------------------------------- a fresh simulation
SERIES = ('occupation_prob_list', 'entropy_list', 'order_wrapping_list', 'order_largest_list')
ZERO = {'SitePercolationL1': ('x_occupied',), 'SitePercolationL2': ('x_occupied', 'y_occupied')}
MODELS = ('SitePercolation', 'SitePercolationL0', 'SitePercolationL1', 'SitePercolationL2', 'ShortestPathAfter_pc')
MLOG = LOG(z3.ToReal(M))


def bind(w, st):
    """the parts of the simulation object in this state"""
    at = st.objs[w.perc.oid].attrs
    w.lat, w.pool = at.get('lattice_ref'), at.get('cluster_pool_ref')
    return isinstance(w.lat, Obj) and isinstance(w.pool, Obj)


def static(v):
    """set at construction and never changed"""
    return [clause('initial entropy', lambda: v.r('max_entropy') == MLOG), clause('number of bonds', lambda: v.i('cluster_count') == M)]


def is_num_attr(v, nm):
    x = v.a(nm)
    return x if is_num(x) else None


def fresh_sim(v, cls):
    """what construction and reset both give (everything but the site order and the use of a custom list)"""
    i = lambda nm, val: clause('fresh: ' + nm, lambda: v.i(nm) == val)
    out = fresh_lattice(v, bonds=False) + fresh_clusters(v) + static(v)
    out += [i(nm, 0) for nm in ('current_idx', 'occupied_site_count', 'pc_occupied_site_count', 'largest_cluster_sz') + ZERO.get(cls, ())]
    out += [i('largest_cluster_id', -1), i('wrapping_cluster_id', -1)]
    out += [clause('fresh: no wrapping', lambda: z3.Not(v.b('after_wrapping'))), clause('fresh: entropy', lambda: v.r('entropy_value') == MLOG)]
    out += [clause('fresh: no ' + nm, lambda nm=nm: v.none(nm)) for nm in ('pc_bond_count_wrapping_cluster', 'pc_site_count_wrapping_cluster')]
    out += [clause('fresh: empty ' + nm, lambda nm=nm: v.ln(nm) == 0) for nm in SERIES + (('site_id_sequence_record',) if cls == 'SitePercolationL1' else ())]
    if cls == 'ShortestPathAfter_pc':
        out.append(clause('fresh: shortest path', lambda: v.r('shortest_path_p') == 0))
    return out


def start_hints(v):
    """how the invariant of the clusters holds at the start"""
    one = lambda g: [T.cnt_one(v.clbe[g], x) for x in (g,)] + [T.pos_one(v.clbe[g])]
    return {'each bond listed once, by its cluster': lambda g, x: [T.cnt_one(v.clbe[g], x)],
            'bonds listed by a cluster are distinct': lambda g, i: [T.cnt_one(v.clbe[g], v.clbe[g][i]), T.pos_one(v.clbe[g])],
            'bond counts add up to 2*L*L': lambda: [T.sum_ones(v.clbl)],
            'site counts add up to the occupied sites': lambda: [T.sum_zeros(v.clsl)],
            'the occupied sites are counted': lambda: [T.occ_none(v.sg)],
            'entropy value': lambda: [T.sum_ones(v.clbl)]}


def started(v, model):
    """the invariants of the clusters and of the model's candidates hold"""
    from .sim import SelectL1, SelectL2
    out = core_inv(v) + tag([clause('not wrapped: the coordinates unfold every step', lambda: z3.Implies(z3.Not(v.b('after_wrapping')), unfolded(v)), uses=('UNFOLDED', 'fresh'))], {'C07', 'C19'})
    h = start_hints(v)
    for cl in out:
        cl.hints = h.get(cl.name, cl.hints)
    return out


class Start(Contract):
    props = LAT | {'C17', 'C18', 'C26', 'C13', 'C25'}
    model = None

    def fresh_ones(self, c):
        v = c.new
        if not bind(c.w, v.st):
            return [clause('there is a lattice and a pool', lambda: z3.BoolVal(False))]
        out = tag(fresh_sim(v, self.model), {'C18', 'C17'})
        return out + started(v, self.model)


class Init(Start):
    again = False
    variants = ('', 'seed')

    def setup(self, eng, variant):
        w = World(eng)
        w.perc = eng.new_obj(w.st, w.cls(self.model), {})
        w.st.add(*definitions())
        kw = dict(length=L)
        self.seed = None
        if variant == 'seed':
            self.seed = kw['seed'] = fresh('seed', I)
        return w, [w.perc], kw

    def ensures(self, c):
        out = self.fresh_ones(c)
        v = c.new
        if len(out) == 1:
            return out
        if c.variant == 'seed':
            s0 = z3.Function('SEEDF', I, I)(c.contract.seed)
            n, e, r = order(v)
            out += tag([clause('seeded: the source is seeded before the first draw', lambda: v.rng == SHUFN(s0, N)),
                        clause('seeded: the order is a function of the seed', lambda j: z3.Implies(z3.And(0 <= j, j < N), e[j] == SHUFP(s0, N)[j]), [('j', I)], lambda j: [e[j]]),
                        clause('seeded: as many entries as sites', lambda: n == N)], {'C25'})
        out += tag([clause('not a custom list', lambda: z3.And(z3.Not(v.b('mode_custome_site_id')), v.b('do_shuffle'), v.i('max_iteration_limit') == N, v.b('first_run')))], {'C13', 'C18', 'C12'} | {'C17'})
        out += tag(inverse(v), {'C26', 'C17', 'C13'} | LAT if interacting(self.model) else {'C26'})
        out += tag(self.ready_(c), LAT | {'C13', 'C17', 'C20'})
        return out


def interacting(model):
    return model in ('SitePercolationL1', 'SitePercolationL2')


def order_inv(v):
    """the stored order between runs"""
    n, e, r = order(v)
    lim = v.i('max_iteration_limit')
    return entries_ok(v) + distinct(v) + [clause('order: how many entries are used', lambda: z3.And(0 <= lim, lim <= n))]


def guarded(cls, g):
    out = []
    for cl in cls:
        f = cl.body
        cl.body = lambda *xs, f=f: z3.Implies(g, f(*xs))
        out.append(cl)
    return out


class Reset(Start):
    """back to the start, with a new order"""
    again = True

    def setup(self, eng, variant):
        w = World(eng)
        w.simulation(self.model)
        assume_lattice(w)
        assume(w, eng, self.requires_(View(w, w.st)))
        return w, [w.perc], {}

    def requires_(self, v):
        out = static(v) + entries_ok(v)
        if interacting(self.model):
            out += [clause('order: as many entries as sites', lambda: v.ln('site_ids_indices') == N)]
        else:
            out += order_inv(v)[3:]
            out += tag(guarded(inverse(v), z3.Not(v.b('mode_custome_site_id'))), {'C26'})
        return out

    def ensures(self, c):
        v, o = c.new, c.old
        out = self.fresh_ones(c)
        if len(out) == 1:
            return out
        n0, e0, r0 = order(o)
        n, e, r = order(v)
        on = o.b('do_shuffle')
        ip = v.st.ghost.get('shuf_ip')
        place = (lambda x: z3.If(on, ip[SEQI(e0)[x]], SEQI(e0)[x])) if ip is not None else (lambda x: SEQI(e0)[x])
        out += tag(self.ready(c, place), LAT | {'C13', 'C17', 'C20'})
        p0 = SHUFP(o.rng, n0)
        out += tag([clause('reset: the source moves by one shuffle, or not at all', lambda: v.rng == z3.If(on, SHUFN(o.rng, n0), o.rng)),
                    clause('reset: the new order is a function of the source and the order before', lambda j: z3.Implies(z3.And(0 <= j, j < n), z3.And(n == n0, e[j] == (j if interacting(self.model) else z3.If(on, e0[p0[j]], e0[j])))), [('j', I)], lambda j: [e[j]])], {'C25'})
        if not interacting(self.model):
            sites = {'C12', 'C13', 'C26'}
            moved = (lambda j: z3.If(on, e0[SHUFP(o.rng, n0)[j]], e0[j]))
            out += tag([clause('order: as many entries as before', lambda: n == n0),
                        clause('order: the entries as before, moved by a permutation when shuffling', lambda j: z3.Implies(z3.And(0 <= j, j < n), e[j] == moved(j)), [('j', I)], lambda j: [e[j]])], sites)
            plain = z3.Not(v.b('mode_custome_site_id'))
            out += tag(guarded(inverse(v, lambda x: r0[x]), plain), {'C26'})
        lists = {'site_ids_indices', 'reverse_ids_indices'}
        attrs = lists | set(SERIES) | set(ZERO.get(self.model, ())) | {'site_id_sequence_record', 'shortest_path_p'} | {
            'current_idx', 'occupied_site_count', 'pc_occupied_site_count', 'largest_cluster_sz', 'largest_cluster_id', 'wrapping_cluster_id', 'after_wrapping', 'entropy_value',
            'pc_bond_count_wrapping_cluster', 'pc_site_count_wrapping_cluster', 'selection_flag'}
        out += frame(c, fams=LatticeReset.fams | {'OneCluster'}, attrs=attrs, lists=attrs, rng=True, objs={c.w.pool.oid}, pool=True, props=LIFE | {'C20'})
        return out

    def ready(self, c, place):
        """the next run can begin"""
        from .sim import SelectL1, SelectL2, where
        v = c.new
        n, e, r = order(v)
        if interacting(self.model):
            out = (SelectL1 if self.model.endswith('1') else SelectL2).seq(v)
            k = v.i('current_idx')
            h = {'candidates: every empty site is one': lambda s: [where(e, k, n, s, s), SEEN(e[s])] if self.again else [where(e, k, n, s, r[s]), SEEN(r[s])], 'candidates: none twice': lambda j: [where(e, k, n, e[j], j)]}
            for cl in out:
                cl.hints = h.get(cl.name, cl.hints)
            return out
        out = SelectSite.seq(v)
        for cl in out:
            if cl.name == 'sequence: no site twice':
                cl.hints = lambda j: [seqi_from(e, n, place)]
        return out


def start_order(self, c):
    v = c.new
    n, e, r = order(v)
    return Reset.ready(self, c, lambda x: r[x])


Init.ready_ = start_order


class SetList(Contract):
    """a custom list becomes the sequence, or is rejected"""
    key = 'SitePercolation.set_custome_site_id_list'
    cls = 'SitePercolation'
    props = {'C13', 'C25'}
    ety = 'int'

    def setup(self, eng, variant):
        w = World(eng)
        w.simulation()
        assume_lattice(w)
        st = w.st
        v = View(w, st)
        n = fresh('n', I)
        self.els = [fresh('given', A1) for _ in range(2 if self.ety == 'pair' else 1)]
        arg = eng.new_list(st, SList(n, self.ety, self.els))
        self.n, self.sh, self.given_oid = n, fresh('do_shuffle', B), arg.oid
        st.add(n >= 1)
        assume(w, eng, [cl for cl in entries_ok(v) if cl.name.startswith('reverse')])
        return w, [w.perc, arg], dict(do_shuffle=self.sh)

    def given(self, j):
        if self.ety == 'pair':
            return mul(self.els[0][j], L) + self.els[1][j]
        return self.els[0][j]

    def ensures(self, c):
        v, o, n = c.new, c.old, self.n
        j = z3.Int('j?')
        pat = [self.els[0][j]]
        valid = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), SITE(self.given(j))), patterns=pat)
        m, e, r = order(v)
        m0, e0, r0 = order(o)
        p, ip = SHUFP(o.rng, n), SHUFIP(o.rng, n)
        bad = lambda x: z3.Implies(z3.Not(valid), x)
        ok = lambda x: z3.Implies(valid, x)
        J = [('j', I)]
        hint = lambda j: [SEEN(self.els[0][j]), SEEN(self.els[0][p[j]])]
        out = [clause('accepted: length and mode', lambda: ok(z3.And(m == n, v.i('max_iteration_limit') == n, v.b('mode_custome_site_id'), v.b('do_shuffle') == self.sh))),
               clause('accepted: the given order', lambda j: ok(z3.Implies(z3.And(z3.Not(self.sh), 0 <= j, j < n), e[j] == self.given(j))), J, lambda j: [e[j]], hint),
               clause('accepted: a permutation of the given list', lambda j: ok(z3.Implies(z3.And(self.sh, 0 <= j, j < n), z3.And(e[j] == self.given(p[j]), 0 <= p[j], p[j] < n, ip[p[j]] == j, 0 <= ip[j], ip[j] < n, p[ip[j]] == j))), J, lambda j: [e[j]], hint),
               clause('accepted: every entry is a site', lambda j: ok(z3.Implies(z3.And(0 <= j, j < n), SITE(e[j]))), J, lambda j: [e[j]], hint),
               clause('rejected: the sequence stays', lambda: bad(z3.And(m == m0, v.i('max_iteration_limit') == o.i('max_iteration_limit'), v.b('mode_custome_site_id') == o.b('mode_custome_site_id'), v.b('do_shuffle') == o.b('do_shuffle')))),
               clause('rejected: the entries stay', lambda j: bad(z3.Implies(z3.And(0 <= j, j < m0), e[j] == e0[j])), J, lambda j: [e[j]]),
               clause('the reverse table stays when nothing is shuffled', lambda s: z3.Implies(z3.And(SITE(s), z3.Not(z3.And(valid, self.sh))), r[s] == r0[s]), [('s', I)], lambda s: [r[s]]),
               clause('one shuffle when the list is shuffled, no draw otherwise', lambda: v.rng == z3.If(z3.And(valid, self.sh), SHUFN(o.rng, n), o.rng)),
               clause('the reverse table keeps its size', lambda: v.ln('reverse_ids_indices') == N)]
        # a list without repetition on a fresh simulation: the run can begin
        jj = z3.Int('d?')
        once = z3.ForAll([jj], z3.Implies(z3.And(0 <= jj, jj < n), FIRST(self.given(jj)) == jj), patterns=[self.els[0][jj]])
        fresh_ = z3.And(o.i('current_idx') == 0, occupied_site(o) == 0, z3.ForAll([jj], z3.Implies(SITE(jj), o.sg[jj] == -1), patterns=[o.sg[jj]]))
        place = lambda x: z3.If(self.sh, ip[FIRST(x)], FIRST(x))
        for cl in SelectSite.seq(v):
            f, h = cl.body, cl.hints
            cl.body = lambda *xs, f=f: z3.Implies(z3.And(valid, fresh_, once), f(*xs))
            if cl.name == 'sequence: no site twice':
                cl.hints = lambda j: [seqi_from(e, n, place)] + hint(j)
            elif cl.vars and cl.name != 'cluster numbers':
                cl.hints = lambda j: hint(j)
            cl.name = 'the run can begin: ' + cl.name
            out.append(cl)
        attrs = {'site_ids_indices', 'mode_custome_site_id', 'do_shuffle', 'max_iteration_limit'}
        out += frame(c, attrs=attrs, lists={'site_ids_indices', 'reverse_ids_indices'}, rng=True, given={self.given_oid})
        return out


class SetPositions(SetList):
    key = 'SitePercolation.set_custome_site_index_list'
    ety = 'pair'


FIRST = z3.Function('FIRST', I, I)      # any inverse of the given list


def serves(m):
    """the properties that are not about this model"""
    if m == 'SitePercolationL1':
        return {'C12', 'C13', 'C15', 'C26'}
    if m == 'SitePercolationL2':
        return {'C12', 'C13', 'C14', 'C26'}
    return {'C14', 'C15', 'C16'}


def make(base, name):
    return [type(base.__name__ + m, (base,), dict(key=m + name, model=m, props=base.props - serves(m))) for m in MODELS]


CONTRACTS = [LatticeReset, InitClusters, Shuffle, SwapIds, SetList, SetPositions] + make(Init, '.__init__') + make(Reset, '.reset')
