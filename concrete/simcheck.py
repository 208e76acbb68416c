"""Run the real simulation through a scenario and compare what it does with the definitions in oracle.py."""
import contextlib
import io
import math
import random
from fractions import Fraction

import oracle
from oracle import Oracle

PLAIN = ("SitePercolation", "L0", "SP")


class Violation(Exception):
    def __init__(self, prop, msg):
        super().__init__(prop + ": " + msg)
        self.prop, self.msg = prop, msg


class Known(Exception):
    def __init__(self, prop, msg):
        super().__init__(msg)
        self.prop, self.msg = prop, msg


def cls_of(name):
    if name == "SitePercolation":
        from source_py.simulation.percolation_sq_lattice import SitePercolation as K
    elif name == "L0":
        from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0 as K
    elif name == "L1":
        from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL1 as K
    elif name == "L2":
        from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL2 as K
    elif name == "SP":
        from source_py.simulation.percolation_sq_lattice_shortest_path import ShortestPathAfter_pc as K
    else:
        raise KeyError(name)
    return K


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def rel(sim, s):
    r = sim.lattice_ref.get_site_by_id(s).get_relative_index()
    return (r.x_coord(), r.y_coord())


def gids(sim):
    la = sim.lattice_ref
    n = la.length ** 2
    return [la.get_site_gid_by_id(s) for s in range(n)]


def bgids(sim):
    la = sim.lattice_ref
    return [la.get_bond_gid_by_id(b) for b in range(2 * la.length ** 2)]


def clusters(sim):
    po = sim.cluster_pool_ref
    n = len(po.cluster_list)
    return [(tuple(po.get_sites(i)), tuple(po.get_bonds(i))) for i in range(n)]


def observables(sim):
    with quiet():
        pc = sim.get_pc()
    return dict(p=sim.occupation_prob(), H=sim.entropy(), largest=sim.largest_cluster(),
                P1=sim.order_param_largest_clstr(), P2=sim.order_param_wrapping(), pc=pc,
                pcs=sim.get_site_count_wrapping_cluster_pc(), pcb=sim.get_bond_count_wrapping_cluster_pc(),
                series=(list(sim.get_occupation_prob_array()), list(sim.get_entropy_array()),
                        list(sim.get_order_param_wrapping_array()), list(sim.get_order_param_largest_array())))


def structure(sim):
    n = sim.lattice_ref.length ** 2
    return dict(gids=gids(sim), bgids=bgids(sim), rel=[rel(sim, s) for s in range(n)], clusters=clusters(sim))


def snapshot(sim):
    d = structure(sim)
    d.update(observables(sim))
    return d


def diff_keys(a, b):
    return sorted(k for k in a if a[k] != b.get(k))


class ScriptSource:
    """Feeds a scripted value to every bounded draw of the random module and records the bounds."""

    def __init__(self, path):
        self.path, self.seen, self.opaque = list(path), [], False

    def __enter__(self):
        inst = random._inst
        self.inst = inst

        def below(n, *a, **k):
            i = len(self.seen)
            v = self.path[i] if i < len(self.path) else 0
            self.seen.append(n)
            return v
        self.saved_random = random.random
        self.saved_uniform = random.uniform

        def unscripted(*a, **k):
            self.opaque = True
            return self.saved_random()
        inst._randbelow = below
        random.random = unscripted
        random.uniform = lambda a, b: a + (b - a) * unscripted()
        return self

    def __exit__(self, *exc):
        del self.inst._randbelow
        random.random = self.saved_random
        random.uniform = self.saved_uniform
        return False


def draw_tree(make, act, limit=4000):
    """All (probability, outcome) of act on copies made by make, over every sequence of bounded draws; None if it
    draws in a way that cannot be scripted."""
    todo, out, runs = [()], [], 0
    while todo:
        path = todo.pop()
        runs += 1
        if runs > limit:
            return None
        obj = make()
        with ScriptSource(path) as src:
            res = act(obj)
        if src.opaque:
            return None
        full = list(path) + [0] * (len(src.seen) - len(path))
        pr = Fraction(1)
        for n in src.seen:
            pr /= n
        out.append((pr, res))
        for i in range(len(path), len(src.seen)):
            for v in range(1, src.seen[i]):
                todo.append(tuple(full[:i]) + (v,))
    return out


def fork_copy(sim):
    import copy
    return copy.deepcopy(sim)


def self_set(x):
    return x if isinstance(x, (set, frozenset)) else set(x)


class Monitor:
    def __init__(self, scn, props):
        self.scn, self.props = scn, props
        self.L = scn["L"]
        self.N, self.M = self.L ** 2, 2 * self.L ** 2
        self.name = scn["cls"]
        self.K = cls_of(self.name)
        kw = dict(length=self.L)
        if scn.get("seed") is not None:
            kw["seed"] = scn["seed"]
        self.kw = kw
        self.every = scn.get("every", 1)
        with quiet():
            self.sim = self.K(**kw)
        self.rng = random.Random(scn.get("aux", 0))
        self.custom = None
        self.mode_custom = None
        self.fresh_model()
        self.steps = 0
        self.on_state("construct")
        self.fresh_checks("construct")

    # ------------------------------------------------------------------------------------------
    def bad(self, prop, msg):
        if prop in self.props:
            raise Violation(prop, "%s (%s, L=%d, after %d placements)" % (msg, self.name, self.L,
                                                                             len(self.o.order)))

    def want(self, *props):
        return any(p in self.props for p in props)

    def fresh_model(self):
        self.o = Oracle(self.L)
        self.pc = None
        self.known_wrap = False
        self.sporadic = False
        self.ended = False
        self.last_P2 = self.last_big = 0
        self.seq = list(self.sim.get_site_id_sequence())
        self.pos = 0

    def detect_reset_seq(self):
        self.seq = list(self.sim.get_site_id_sequence())
        self.pos = 0

    # -- static ---------------------------------------------------------------------------------
    def check_topology(self):
        L, N, M, la = self.L, self.N, self.M, self.sim.lattice_ref
        if self.want("C01"):
            lattice_topology(la, L, lambda m: self.bad("C01", m))
        if self.want("C02"):
            lattice_addressing(la, L, lambda m: self.bad("C02", m))
        if self.want("C03"):
            self.neighbour_queries()

    def neighbour_queries(self):
        L, N, la, sim = self.L, self.N, self.sim.lattice_ref, self.sim

        def adj():
            return ([list(la.get_site_by_id(s).connecting_bonds()) for s in range(N)],
                    [list(la.get_bond_by_id(b).connected_sites()) for b in range(2 * N)])
        before = adj()
        st = structure(sim)
        order = list(range(N))
        self.rng.shuffle(order)
        if N > 400:
            order = order[:150]
        for again in range(2):
            for s in order:
                nb = oracle.neighbours(L, s)
                bs = oracle.bonds_of(L, s)
                q = [("get_all_neighbor_sites", la.get_all_neighbor_sites(s), nb),
                     ("get_site_neighbor_of_site", la.get_site_neighbor_of_site(s), nb),
                     ("get_neighbor_bonds", la.get_neighbor_bonds(s), bs)]
                site = la.get_site_by_id(s)
                q.append(("get_connected_sites", sim.get_connected_sites(site, site.connecting_bonds()), nb))
                for d in range(4):
                    q.append(("get_neighbor_site", sim.get_neighbor_site(s, bs[d]), nb[d]))
                if hasattr(sim, "get_four_neighbor_sites"):
                    q.append(("get_four_neighbor_sites", sim.get_four_neighbor_sites(s), nb))
                g = la.get_site_gid_by_id(s)
                want = [t for t in nb if la.get_site_gid_by_id(t) == g]
                if g >= 0:
                    q.append(("get_sites_for_wrapping_test", la.get_sites_for_wrapping_test(s), want))
                for name, got, exp in q:
                    if isinstance(exp, list):
                        got = list(got)
                    if got != exp:
                        self.bad("C03", "%s(%d) returned %r, the neighbours are %r" % (name, s, got, exp))
            for b in range(0, 2 * N, max(1, N // 50)):
                got = sorted(la.get_neighbor_sites(b))
                if got != sorted(oracle.sites_of(L, b)):
                    self.bad("C03", "get_neighbor_sites(%d) returned %r" % (b, got))
        if adj() != before:
            self.bad("C03", "a neighbour query changed the lattice adjacency")
        if structure(sim) != st:
            self.bad("C03", "a neighbour query changed the simulation state")

    # -- dynamic --------------------------------------------------------------------------------
    def on_state(self, why, light=False):
        sim, o, L, N, M = self.sim, self.o, self.L, self.N, self.M
        occ = set(o.order)
        if self.want("C04", "C05", "C06", "C12", "C14", "C15", "C10", "C09", "C19"):
            g = gids(sim)
        if self.want("C04") and not light:
            self.partition(g, occ)
        if self.want("C05") and not light:
            bg = bgids(sim)
            seen = {}
            for s in range(N):
                if s not in occ:
                    if g[s] >= 0:
                        self.bad("C05", "unoccupied site %d carries cluster %d" % (s, g[s]))
                    continue
                r = o.comp(s)
                if g[s] < 0:
                    self.bad("C05", "occupied site %d carries no cluster" % s)
                if seen.setdefault(("c", r), g[s]) != g[s]:
                    self.bad("C05", "site %d is connected to a site of cluster %d but carries %d"
                             % (s, seen[("c", r)], g[s]))
                if seen.setdefault(("g", g[s]), r) != r:
                    self.bad("C05", "site %d shares cluster %d with a site it is not connected to" % (s, g[s]))
                for b in oracle.bonds_of(L, s):
                    if bg[b] != g[s]:
                        self.bad("C05", "bond %d at site %d carries cluster %d instead of %d" % (b, s, bg[b], g[s]))
            cnt = {}
            for b in range(M):
                cnt[bg[b]] = cnt.get(bg[b], 0) + 1
            for b in o.untouched:
                if cnt[bg[b]] != 1:
                    self.bad("C05", "bond %d without occupied end shares cluster %d" % (b, bg[b]))
        if self.want("C06") and not light:
            base = {}
            for s in o.order:
                r = o.comp(s)
                x, y = rel(sim, s)
                row, col = divmod(s, L)
                a = base.setdefault(r, (s, x, y, row, col, o.offset(s)))
                if (x - a[1] - (row - a[3])) % L or (y - a[2] - (col - a[4])) % L:
                    self.bad("C06", "sites %d and %d of one cluster: relative difference (%d,%d) is not their "
                             "position difference modulo L" % (a[0], s, x - a[1], y - a[2]))
                if not o.wraps[r]:
                    f = o.offset(s)
                    if (x - a[1], y - a[2]) != (f[0] - a[5][0], f[1] - a[5][1]):
                        self.bad("C06", "sites %d and %d of one non-wrapping cluster: relative difference (%d,%d), "
                                 "net displacement (%d,%d)" % (a[0], s, x - a[1], y - a[2], f[0] - a[5][0],
                                                               f[1] - a[5][1]))
        if self.want("C10"):
            big = o.largest()
            if sim.largest_cluster() != big or abs(sim.order_param_largest_clstr() - big / M) > 1e-12:
                self.bad("C10", "largest cluster reported %r (order %r), true %d bonds"
                         % (sim.largest_cluster(), sim.order_param_largest_clstr(), big))
            if o.order and not light:
                n = sim.cluster_pool_ref.get_cluster_bond_count(sim.largest_cluster_id)
                if n != big:
                    self.bad("C10", "reported largest cluster has %d bonds, the maximum is %d" % (n, big))
            if big < self.last_big:
                self.bad("C10", "largest cluster decreased")
            self.last_big = big
        if self.want("C11"):
            h = o.entropy()
            if abs(sim.entropy() - h) > 1e-8:
                self.bad("C11", "entropy %.12g, recomputed from the clusters %.12g" % (sim.entropy(), h))
            if not light:
                if abs(sim.entropy_v1() - h) > 1e-8 or abs(sim.entropy_v2() - h) > 1e-8:
                    self.bad("C11", "direct entropy %.12g / incremental %.12g, expected %.12g"
                             % (sim.entropy_v1(), sim.entropy_v2(), h))
                if sim.entropy() != sim.entropy_v2() or abs(sim.entropy() - h) > 1e-8:
                    self.bad("C11", "asking for the entropy changed it")
        if self.want("C12") and self.name in PLAIN:
            now = {s for s in range(N) if g[s] >= 0}
            if now != occ:
                self.bad("C12", "occupied sites %r differ from the placed ones" % sorted(now ^ occ))
            if sim.occupation_prob() != len(occ) / N:
                self.bad("C12", "occupation probability %r, expected %d/%d" % (sim.occupation_prob(), len(occ), N))
        if self.want("C16") and self.name in ("L1", "L2"):
            cand = self.candidates()
            missing = set(range(N)) - occ - set(cand)
            if missing:
                self.bad("C16", "empty sites %r are no longer candidates" % sorted(missing))
        if self.want("C26") and self.name in PLAIN and self.custom is None:
            self.permutation(why)
        if self.want("C08"):
            self.critical(why)
        if self.want("C09"):
            self.wrapping_order(why)
        if self.want("C19") and len(occ) == N and not light:
            self.full()
        if self.want("C21") and self.name == "SP" and not light:
            self.scans()

    def candidates(self):
        return list(self.sim.site_ids_indices[self.sim.current_idx:])

    def partition(self, g, occ):
        sim, N, M = self.sim, self.N, self.M
        bg = bgids(sim)
        cl = clusters(sim)
        seen_b, seen_s = {}, {}
        for i, (ss, bs) in enumerate(cl):
            if (ss or bs) and sim.cluster_pool_ref.get_cluster(i).get_gid() != i:
                self.bad("C04", "cluster %d has number %r" % (i, sim.cluster_pool_ref.get_cluster(i).get_gid()))
            for b in bs:
                if b in seen_b:
                    self.bad("C04", "bond %d is listed in clusters %d and %d" % (b, seen_b[b], i))
                seen_b[b] = i
                if bg[b] != i:
                    self.bad("C04", "bond %d is listed in cluster %d but carries %d" % (b, i, bg[b]))
            for s in ss:
                if s in seen_s:
                    self.bad("C04", "site %d is listed in clusters %d and %d" % (s, seen_s[s], i))
                seen_s[s] = i
                if g[s] != i:
                    self.bad("C04", "site %d is listed in cluster %d but carries %d" % (s, i, g[s]))
            if sim.cluster_pool_ref.get_cluster_bond_count(i) != len(bs) or \
                    sim.cluster_pool_ref.get_cluster_site_count(i) != len(ss):
                self.bad("C04", "reported counts of cluster %d differ from its lists" % i)
        if set(seen_b) != set(range(M)):
            self.bad("C04", "bonds %r are listed nowhere" % sorted(set(range(M)) - set(seen_b))[:5])
        if set(seen_s) != occ:
            self.bad("C04", "listed sites and occupied sites differ: %r" % sorted(set(seen_s) ^ occ)[:5])
        for s in range(N):
            if (g[s] >= 0) != (s in occ):
                self.bad("C04", "site %d carries %d" % (s, g[s]))
        if sum(len(b) for _, b in cl) != M or sum(len(s) for s, _ in cl) != sim.occupied_site_count \
                or sim.occupied_site_count != len(occ):
            self.bad("C04", "cluster sizes do not add up")

    def permutation(self, why):
        sim, N = self.sim, self.N
        seq, rev = list(sim.site_ids_indices), list(sim.reverse_ids_indices)
        if sorted(seq) != list(range(N)):
            self.bad("C26", "order after %s is not a permutation of the sites" % why)
        if len(rev) != N or any(rev[seq[i]] != i for i in range(N)):
            self.bad("C26", "reverse table after %s is not the inverse of the order" % why)

    def expect_pc(self):
        return self.pc or (0, 0, 0)

    def critical(self, why):
        sim = self.sim
        with quiet():
            got = (sim.get_pc(), sim.get_site_count_wrapping_cluster_pc(), sim.get_bond_count_wrapping_cluster_pc())
        exp = self.expect_pc()
        if got[0] != exp[0] or got[1] != exp[1] or got[2] != exp[2]:
            self.bad("C08", "critical values %r, expected %r" % (got, exp))

    def wrapping_order(self, why):
        sim = self.sim
        exp = 0
        if self.pc is not None:
            exp = len(self.o.bonds[self.o.find(self.pcsite)]) / self.M
        got = sim.order_param_wrapping()
        if abs(got - exp) > 1e-12:
            self.bad("C09", "wrapping order parameter %r, expected %r" % (got, exp))
        if got < self.last_P2:
            self.bad("C09", "wrapping order parameter decreased")
        self.last_P2 = got

    def full(self):
        sim, N, M = self.sim, self.N, self.M
        cl = [c for c in clusters(sim) if c[0] or c[1]]
        if len(cl) != 1 or sorted(cl[0][0]) != list(range(N)) or sorted(cl[0][1]) != list(range(M)):
            self.bad("C19", "full lattice is not one cluster of all sites and bonds")
        if len(set(gids(sim))) != 1 or set(gids(sim)) != set(bgids(sim)):
            self.bad("C19", "full lattice carries several cluster numbers")
        if sim.order_param_largest_clstr() != 1 or abs(sim.entropy()) > 1e-8:
            self.bad("C19", "full lattice: largest order %r entropy %r" % (sim.order_param_largest_clstr(),
                                                                            sim.entropy()))
        if self.detect_each and self.detect_ran:
            if not sim.after_wrapping or sim.order_param_wrapping() != 1:
                self.bad("C19", "full lattice: wrapping reported %r order %r" % (sim.after_wrapping,
                                                                                 sim.order_param_wrapping()))

    def scans(self):
        sim, o, L, N = self.sim, self.o, self.L, self.N
        if self.pc is None:
            if sim.scan_all_rows() or sim.scan_all_cols():
                self.bad("C21", "a line is reported before any wrapping cluster exists")
            return
        root = o.find(self.pcsite)
        rows, cols = o.full_lines(root)
        from source_py.simulation.index import Index
        lines = range(L) if L <= 8 else sorted(self.rng.sample(range(L), 6))
        for r in lines:
            for c in ([r, (r * 3 + 1) % L, self.rng.randrange(L)]):
                got = sim.scan_row_col_of_selected_site(Index(r, c))
                if tuple(bool(x) for x in got) != (r in rows, c in cols):
                    self.bad("C21", "scan of position (%d,%d) gave %r, row complete: %r, column complete: %r"
                             % (r, c, got, r in rows, c in cols))
        if bool(sim.scan_all_rows()) != bool(cols):
            self.bad("C21", "scan over all rows gave %r, complete columns: %r" % (sim.scan_all_rows(), cols))
        if bool(sim.scan_all_cols()) != bool(rows):
            self.bad("C21", "scan over all columns gave %r, complete rows: %r" % (sim.scan_all_cols(), rows))

    # -- operations -----------------------------------------------------------------------------
    def note_detect(self, res):
        """bookkeeping after a detection call that returned res"""
        sim, o = self.sim, self.o
        if not self.sporadic and self.want("C07"):
            exp = o.first_wrap is not None
            if bool(res) != exp:
                self.bad("C07", "detection returned %r, a wrapping loop exists: %r" % (res, exp))
        if not self.sporadic and not isinstance(res, bool):
            self.bad("C07", "detection returned %r" % (res,))
        if self.pc is None:
            fire = (o.first_wrap is not None) if not self.sporadic else bool(res)
            if fire:
                s = o.order[-1]
                r = o.find(s)
                self.pc = (len(o.order) / self.N, len(o.sites[r]), len(o.bonds[r]))
                self.pcsite = s
        elif self.want("C07") and not res:
            self.bad("C07", "wrapping had been reported and no longer is")

    def attempt(self, detect="each"):
        sim, o, N = self.sim, self.o, self.N
        before = None
        heavy = (self.steps % self.every == 0) or len(o.order) + 2 > N or o.first_wrap is None and self.every <= 4
        inter = self.name in ("L1", "L2")
        prop = {"L1": "C14", "L2": "C15"}.get(self.name, "C12")
        if self.want(prop) or (inter and self.want("C16")):
            cand = self.candidates() if inter else None
            if (heavy and not inter) or (inter and self.want(prop) and (N <= 25 or self.rng.random() < 0.2)):
                before = snapshot(sim)
        dist = None
        if inter and self.want(prop) and self.scn.get("tree") and self.rng.random() < self.scn["tree"]:
            self.rule_distribution(prop, cand)
        with quiet():
            res = sim.place_one_site()
        self.steps += 1
        g = gids(sim)
        occ = set(o.order)
        new = [s for s in range(N) if g[s] >= 0 and s not in occ]
        gone = [s for s in occ if g[s] < 0]
        name = getattr(sim.selection_flag, "name", None)
        if gone:
            self.bad(prop, "sites %r became unoccupied" % gone)
            self.bad("C04", "sites %r became unoccupied" % gone)
        if len(new) > 1:
            self.bad(prop, "one attempt occupied sites %r" % new)
        if new:
            if len(new) > 1:
                raise Violation(sorted(self.props)[0], "one attempt occupied sites %r" % new)
            if not inter and self.want("C12", "C13"):
                if self.pos >= len(self.seq) or new[0] != self.seq[self.pos]:
                    msg = "placement %d occupied site %d, the sequence has %r" % (
                        self.pos + 1, new[0], self.seq[self.pos:self.pos + 1])
                    self.bad("C12", msg)
                    if self.custom is not None:
                        self.bad("C13", msg)
            if res is not True:
                self.bad(prop, "a placement that occupied site %d returned %r" % (new[0], res))
            self.pos += 1
            o.place(new[0])
        if not inter and self.want("C12", "C13"):
            if not new and self.pos < len(self.seq):
                self.bad("C12", "placement %d occupied nothing although the sequence is not exhausted" % (self.pos + 1))
                if self.custom is not None:
                    self.bad("C13", "placement %d occupied nothing although the list is not exhausted" % (self.pos + 1))
            if not new and res is not False:
                self.bad("C12", "exhausted sequence not reported (returned %r)" % (res,))
                if self.custom is not None:
                    self.bad("C13", "exhausted list not reported (returned %r)" % (res,))
        if inter and not new and self.want(prop) and before is not None:
            if before != snapshot(sim):
                self.bad(prop, "a failed attempt changed %r" % diff_keys(before, snapshot(sim)))
        if not inter and not new and before is not None and self.want("C12"):
            if before != snapshot(sim):
                self.bad("C12", "placement after the end changed %r" % diff_keys(before, snapshot(sim)))
        if inter and self.want(prop):
            if new:
                self.rule_support(prop, cand, new[0])
        if inter and self.want(prop, "C16"):
            after = self.candidates()
            for q in (prop, "C16"):
                if len(set(after)) != len(after):
                    self.bad(q, "candidates %r are listed twice" % sorted(x for x in set(after) if after.count(x) > 1))
                if set(range(N)) - set(o.order) - set(after):
                    self.bad(q, "empty sites %r are no longer candidates" % sorted(set(range(N)) - set(o.order) - set(after)))
        if inter and self.want("C16"):
            lost = list(cand)
            for x in after:
                if x in lost:
                    lost.remove(x)
                else:
                    self.bad("C16", "site %d appeared among the candidates" % x)
            if len(lost) > 1:
                self.bad("C16", "one attempt dropped candidates %r" % lost)
            for x in lost:
                if x not in set(o.order):
                    self.bad("C16", "empty site %d was dropped from the candidates" % x)
            if res is False and len(o.order) < N:
                self.bad("C16", "the run ended with %d of %d sites occupied" % (len(o.order), N))
        if detect == "each":
            if o.order:
                self.detect_ran = True
                was = (sim.after_wrapping, sim.wrapping_cluster_id, gids(sim)) if inter and not new and not self.sporadic else None
                with quiet():
                    r = sim.detect_wrapping()
                if was and was != (sim.after_wrapping, sim.wrapping_cluster_id, gids(sim)):
                    self.bad(prop, "detection after a failed attempt found something new")
                self.note_detect(r)
        elif detect == "twice":
            if o.order:
                self.detect_ran = True
                for _ in range(2):
                    with quiet():
                        r = sim.detect_wrapping()
                    self.note_detect(r)
        elif detect == "sparse":
            self.sporadic = True
            if o.order and self.rng.random() < 0.3:
                with quiet():
                    r = sim.detect_wrapping()
                self.note_detect(r)
        else:
            self.sporadic = True
        if detect in ("sparse", "none"):
            self.detect_each = False
        self.on_state("placement", light=not heavy)
        return bool(res)

    detect_each = True
    detect_ran = False

    def rule_outcomes(self, cand):
        """outcome -> probability by the selection rule (outcome None: nothing occupied)"""
        L, occ = self.L, set(self.o.order)
        out = {}

        def add(k, p):
            out[k] = out.get(k, 0) + p
        n = len(cand)
        for x in cand:
            p = Fraction(1, n)
            if x not in occ:
                add(x, p)
                continue
            for d, y in enumerate(oracle.neighbours(L, x)):
                q = p / 4
                if y not in occ:
                    add(y, q)
                elif self.name == "L2":
                    z = oracle.neighbours(L, y)[d]
                    add(z if z not in occ else None, q)
                else:
                    add(None, q)
        return out

    def rule_support(self, prop, cand, got):
        # called after the model advanced: undo membership of `got` for the rule
        L, occ, ok = self.L, set(self.o.order) - {got}, False
        if got in cand:
            ok = True
        else:
            for d in range(4):
                y = oracle.neighbours(L, got)[d]                 # seen from the other side: got is the d-opposite of y
                if y in occ and y in self_set(cand):
                    ok = True
                elif self.name == "L2" and y in occ:
                    x = oracle.neighbours(L, y)[d]
                    if x in occ and x in self_set(cand):
                        ok = True
        if not ok:
            self.bad(prop, "site %d was occupied, which no draw of the rule selects" % got)

    def rule_distribution(self, prop, cand):
        exp = self.rule_outcomes(cand) if cand else {None: Fraction(1)}
        occ = set(self.o.order)

        def act(sim):
            with quiet():
                sim.place_one_site()
            g = gids(sim)
            new = [s for s in range(self.N) if g[s] >= 0 and s not in occ]
            return new[0] if len(new) == 1 else (None if not new else tuple(new))
        if len(cand) > (16 if self.N <= 16 else 8):
            return
        tree = draw_tree(lambda: fork_copy(self.sim), act)
        if tree is None:
            return
        got = {}
        for p, r in tree:
            got[r] = got.get(r, 0) + p
        if {k: v for k, v in got.items() if v} != {k: v for k, v in exp.items() if v}:
            d = {k: (str(got.get(k, 0)), str(exp.get(k, 0))) for k in set(got) | set(exp)
                 if got.get(k, 0) != exp.get(k, 0)}
            self.bad(prop, "probability of the outcomes (site: observed, by the rule) %r with candidates %r and "
                     "occupied %r" % (d, cand, sorted(occ)))

    # series
    def run_once(self):
        sim, o, N, M = self.sim, self.o, self.N, self.M
        start = len(o.order)
        base = [list(a) for a in (sim.get_occupation_prob_array(), sim.get_entropy_array(),
                                  sim.get_order_param_wrapping_array(), sim.get_order_param_largest_array())]
        order = []
        inner = sim.place_one_site

        def spy():
            r = inner()
            g = gids(sim)
            new = [s for s in range(N) if g[s] >= 0 and s not in seen]
            for s in new:
                seen.add(s)
                order.append(s)
            return r
        seen = set(o.order)
        sim.place_one_site = spy
        try:
            with quiet():
                sim.run_once()
        finally:
            del sim.__dict__["place_one_site"]
        rows = []
        known_pc = self.pc
        stop = None
        self.detect_ran = True
        for s in order:
            if s in o.parent:
                raise Violation(sorted(self.props)[0], "site %d placed twice" % s)
            o.place(s)
            self.pos += 1
            if self.pc is None and o.first_wrap is not None:
                r = o.find(s)
                self.pc = (len(o.order) / N, len(o.sites[r]), len(o.bonds[r]))
                self.pcsite = s
            P2 = len(o.bonds[o.find(self.pcsite)]) / M if self.pc else 0
            rows.append((len(o.order) / N, o.entropy(), P2, o.largest() / M))
            if self.name == "SP" and stop is None and self.pc:
                fr, fc = o.full_lines(o.find(self.pcsite))
                if fr or fc:
                    stop = len(o.order)
                    on_line = s // self.L in fr or s % self.L in fc
                    stop_info = (s, fr, fc, on_line)
                if self.pc and not hasattr(self, "_x"):
                    pass
        missed = False
        if self.name == "SP" and self.want("C20"):
            got = sim.get_shortest_path_p()
            if stop is not None:
                if len(o.order) != stop or got != stop / N:
                    # the known finding: the line was completed by merging a second wrapping cluster that already
                    # held it, through a site outside the line
                    if not stop_info[3] and self.known_c20(order, start, got, stop):
                        raise Known("C20", "site %d merged a cluster already holding a complete line into the "
                                    "wrapping cluster from outside that line; run stopped at %d instead of %d"
                                    % (stop_info[0], len(o.order), stop))
                    self.bad("C20", "run stopped after %d placements reporting %r, first complete line of the "
                             "wrapping cluster after %d" % (len(o.order), got, stop))
            else:
                if got != 0 or len(o.order) < (len(self.seq) if self.name in PLAIN else N):
                    self.bad("C20", "no complete line of the wrapping cluster, run stopped after %d placements "
                             "reporting %r" % (len(o.order), got))
        if self.want("C17") and self.name != "SP":
            got = [list(a) for a in (sim.get_occupation_prob_array(), sim.get_entropy_array(),
                                     sim.get_order_param_wrapping_array(), sim.get_order_param_largest_array())]
            for i, nm in enumerate(("occupation", "entropy", "wrapping", "largest")):
                a = got[i][len(base[i]):] if self.appended else got[i]
                if len(got[i]) != len(base[i]) + len(rows):
                    self.bad("C17", "%s series has %d entries after %d placements of the run" % (
                        nm, len(got[i]) - len(base[i]), len(rows)))
                for k, row in enumerate(rows):
                    if abs(a[k] - row[i]) > 1e-8:
                        self.bad("C17", "%s entry %d is %r, the value after that placement is %r" % (
                            nm, k, a[k], row[i]))
            d = sim.get_data_array()
            cols = [got[0], got[1], got[3], got[2]]
            if d.shape != (len(got[0]), 4) or any(abs(d[k][j] - cols[j][k]) > 0 for k in range(len(got[0]))
                                                  for j in range(4)):
                self.bad("C17", "data array does not hold the series in its columns")
        if self.want("C16") and self.name in ("L1", "L2") and len(o.order) != N:
            self.bad("C16", "the run ended with %d of %d sites occupied" % (len(o.order), N))
        if self.want("C12", "C13") and self.name in ("SitePercolation", "L0"):
            if order != self.seq[start:]:
                self.bad("C12", "a run did not place the sequence in order")
                if self.custom is not None:
                    self.bad("C13", "a run did not place the list in order")
        if self.want("C07"):
            with quiet():
                r = sim.detect_wrapping() if o.order else False
            if bool(r) != (o.first_wrap is not None):
                self.bad("C07", "after a run detection gives %r, wrapping loop exists: %r" % (r, o.first_wrap))
        self.on_state("run")

    appended = True

    def known_c20(self, order, start, got, stop):
        """True when the run behaved exactly as one that only looks at the row and column of the placed site."""
        o = Oracle(self.L)
        pcsite = None
        for s in self.o.order[:start]:
            o.place(s)
        for s in order:
            o.place(s)
            if pcsite is None and o.first_wrap is not None:
                pcsite = s
            if pcsite is not None:
                fr, fc = o.full_lines(o.find(pcsite))
                if s // self.L in fr or s % self.L in fc:
                    return s == order[-1] and got == len(o.order) / self.N
        return got == 0 and len(o.order) == len(self.seq)

    def reset(self):
        with quiet():
            self.sim.reset()
        self.fresh_model()
        self.detect_ran = False
        self.detect_each = True
        self.on_state("reset")
        self.fresh_checks("reset")

    def fresh_checks(self, why):
        sim = self.sim
        if self.custom is not None and self.want("C13"):
            self.check_custom_seq()
        if self.want("C11") and abs(sim.entropy() - math.log(self.M)) > 1e-9:
            self.bad("C11", "initial entropy %r" % sim.entropy())
        if self.want("C12") and self.name in PLAIN and self.custom is None:
            if sorted(self.seq) != list(range(self.N)):
                self.bad("C12", "stored order is not a sequence of all sites")
        if self.want("C18") and why == "reset":
            st = random.getstate()
            with quiet():
                fresh = self.K(length=self.L)
            random.setstate(st)
            a, b = self.state18(sim), self.state18(fresh)
            if a != b:
                k = diff_keys(a, b)
                self.bad("C18", "after reset %r differ from a new simulation: %r, new %r" % (
                    k, str([a[x] for x in k])[:200], str([b[x] for x in k])[:200]))

    def state18(self, sim):
        d = snapshot(sim)
        la = sim.lattice_ref
        d["nn"] = [la.get_site_by_id(s).get_nn_count() for s in range(self.N)]
        d["adj"] = [list(la.get_site_by_id(s).connecting_bonds()) for s in range(self.N)]
        d["ends"] = [list(la.get_bond_by_id(b).connected_sites()) for b in range(self.M)]
        d["cl_gid"] = [c.get_gid() for c in sim.cluster_pool_ref.cluster_list]
        d["cl_id"] = [c.get_id() for c in sim.cluster_pool_ref.cluster_list]
        d["flags"] = (sim.after_wrapping, sim.wrapping_cluster_id, sim.largest_cluster_id, sim.current_idx,
                      sim.occupied_site_count, sim.pc_occupied_site_count, sim.signature, sim.max_entropy,
                      sim.cluster_count, sim.pc_bond_count_wrapping_cluster, sim.pc_site_count_wrapping_cluster)
        if self.custom is None:
            d["limit"] = (sim.max_iteration_limit, sorted(sim.site_ids_indices), sim.mode_custome_site_id)
        for nm in ("x_occupied", "y_occupied", "site_id_sequence_record", "shortest_path_p"):
            if hasattr(sim, nm):
                v = getattr(sim, nm)
                d[nm] = list(v) if isinstance(v, list) else v
        return d

    def check_custom_seq(self):
        ids, sh = self.custom
        seq = list(self.sim.get_site_id_sequence())
        if (seq != ids) if not sh else (sorted(seq) != sorted(ids)):
            self.bad("C13", "custom list %r became the sequence %r (shuffle %r)" % (ids, seq, sh))

    def set_custom(self, ids, sh, form):
        """form: 'ids', 'tuples', 'lists' or 'Index'"""
        from source_py.simulation.index import Index
        sim, L = self.sim, self.L
        before = snapshot(sim) if self.want("C13") else None
        seq = list(sim.get_site_id_sequence())
        ok = all(0 <= s < self.N for s in ids)
        with quiet():
            if form == "ids":
                sim.set_custome_site_id_list(list(ids), do_shuffle=sh) if sh is not None else \
                    sim.set_custome_site_id_list(list(ids))
            else:
                conv = {"tuples": lambda s: (s // L, s % L), "lists": lambda s: [s // L, s % L],
                        "Index": lambda s: Index(s // L, s % L)}[form]
                pos = [conv(s) for s in ids]
                sim.set_custome_site_index_list(pos, do_shuffle=sh) if sh is not None else \
                    sim.set_custome_site_index_list(pos)
        if ok:
            self.custom = (list(ids), bool(sh))
            self.detect_reset_seq()
            if self.want("C13"):
                self.check_custom_seq()
        elif self.want("C13"):
            if list(sim.get_site_id_sequence()) != seq:
                self.bad("C13", "rejected list %r replaced the sequence" % (ids,))
            if snapshot(sim) != before:
                self.bad("C13", "rejected list changed %r" % diff_keys(before, snapshot(sim)))
            if self.custom is None and sim.max_iteration_limit != self.N:
                self.bad("C13", "rejected list changed the number of placements")

    def swap(self, a, b):
        sim = self.sim
        seq, rev = list(sim.site_ids_indices), list(sim.reverse_ids_indices)
        before = snapshot(sim) if self.want("C26") else None
        with quiet():
            sim.swap_ids(a, b)
        if self.want("C26"):
            es, er = list(seq), list(rev)
            if a != b:
                es[rev[a]], es[rev[b]] = b, a
                er[a], er[b] = rev[b], rev[a]
            if list(sim.site_ids_indices) != es or list(sim.reverse_ids_indices) != er:
                self.bad("C26", "exchanging %d and %d gave order %r and table %r" % (
                    a, b, list(sim.site_ids_indices), list(sim.reverse_ids_indices)))
            if snapshot(sim) != before:
                self.bad("C26", "exchanging two sites changed %r" % diff_keys(before, snapshot(sim)))
        self.seq = list(sim.get_site_id_sequence())
        self.on_state("swap")

    def index_sequence(self):
        sim, L = self.sim, self.L
        if self.name in PLAIN:
            exp = [(s // L, s % L) for s in sim.get_site_id_sequence()]
            got = [tuple(x) for x in sim.get_index_sequence()]
            if got != exp:
                self.bad("C12", "index sequence %r does not match the site sequence" % got[:4])
                self.bad("C13", "index sequence %r does not match the site sequence" % got[:4])

    def op(self, op):
        k = op[0]
        if k == "attempts":
            for _ in range(op[1]):
                if not self.attempt(op[2]):
                    break
        elif k == "drain":
            n = 0
            while self.attempt(op[1]):
                n += 1
                if n > 400 * self.N:
                    raise Violation(sorted(self.props)[0], "the run does not end")
            for _ in range(2):
                self.attempt(op[1])
        elif k == "run":
            self.run_once()
        elif k == "reset":
            self.reset()
        elif k == "custom":
            self.set_custom(op[1], op[2], op[3])
        elif k == "shuffle":
            with quiet():
                self.sim.shuffle()
            self.seq = list(self.sim.get_site_id_sequence())
            self.on_state("shuffle")
        elif k == "swap":
            self.swap(op[1], op[2])
        elif k == "topology":
            self.check_topology()
            self.index_sequence()
        elif k == "detect":
            if self.o.order:
                with quiet():
                    r = self.sim.detect_wrapping()
                self.note_detect(r)
                self.on_state("detect")
        else:
            raise KeyError(k)


def lattice_topology(la, L, bad):
    N, M = L * L, 2 * L * L
    if len(la.site_matrix) != N or len(la.bond_matrix) != M or la.site_count != N or la.bond_count != M:
        bad("lattice of length %d has %d sites and %d bonds" % (L, len(la.site_matrix), len(la.bond_matrix)))
    for s in range(N):
        got = list(la.get_site_by_id(s).connecting_bonds())
        if got != oracle.bonds_of(L, s):
            bad("site %d touches bonds %r, expected %r" % (s, got, oracle.bonds_of(L, s)))
        if list(la.find_neighbor_bonds(s)) != oracle.bonds_of(L, s):
            bad("computed bonds of site %d are %r" % (s, la.find_neighbor_bonds(s)))
    for b in range(M):
        got = list(la.get_bond_by_id(b).connected_sites())
        if len(got) != 2 or set(got) != oracle.sites_of(L, b):
            bad("bond %d joins %r, expected %r" % (b, got, oracle.sites_of(L, b)))


def lattice_addressing(la, L, bad):
    from source_py.simulation.index import Index, RelativeIndex
    N, M = L * L, 2 * L * L
    for r in range(L):
        for c in range(L):
            s = r * L + c
            site = la.get_site_by_id(s)
            ix = site.get_index()
            if site.get_id() != s or (ix.row(), ix.column()) != (r, c):
                bad("element stored under site %d has id %r at (%r,%r)" % (s, site.get_id(), ix.row(), ix.column()))
            if la.get_site_by_index(Index(r, c)) is not site or la.get_site_by_index(ix) is not site:
                bad("lookup by position (%d,%d) is not site %d" % (r, c, s))
            if la.get_id_from_index(r, c) != s or tuple(la.get_row_col_from_id(s)) != (c, r):
                bad("conversion of position (%d,%d) and id %d" % (r, c, s))
            for form in (Index(r, c), (r, c), [r, c]):
                if la.calculate_id_from_index(form) != s:
                    bad("id of position %s (%s) is %r" % ((r, c), type(form).__name__,
                                                         la.calculate_id_from_index(form)))
            if la.get_site_gid_by_index(Index(r, c)) != la.get_site_gid_by_id(s):
                bad("cluster number by position (%d,%d)" % (r, c))
            for t in (0, 1):
                b = t * N + s
                bond = la.get_bond_by_id(b)
                if bond.get_id() != b or tuple(bond.get_index()) != (t, r, c):
                    bad("element stored under bond %d has id %r at %r" % (b, bond.get_id(), bond.get_index()))
                if la.get_bond_by_index(r, c, t) is not bond:
                    bad("lookup of bond (%d,%d,%d)" % (t, r, c))
                for form in ((t, r, c), [t, r, c]):
                    if la.calculate_id_from_index(form) != b:
                        bad("id of bond position %r is %r" % ((t, r, c), la.calculate_id_from_index(form)))
    if list(la.get_site_id_list()) != list(range(N)) or list(la.get_bond_id_list()) != list(range(M)):
        bad("id lists are not 0..n-1")


def run_sim(scn, props):
    ms = [Monitor(scn, props)]
    for extra in scn.get("others", ()):
        ms.append(Monitor(extra, props))
    if len(ms) == 1:
        for op in scn["ops"]:
            ms[0].op(op)
    else:                                       # interleave simulations living side by side
        queues = [list(m.scn["ops"]) for m in ms]
        while any(queues):
            for m, q in zip(ms, queues):
                if q:
                    m.op(q.pop(0))
    return sum(m.steps + len(m.o.order) for m in ms)
