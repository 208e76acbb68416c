"""Real ensemble drivers, parallel drivers, seeding and curve intersection against their definitions."""
import contextlib
import io
import json
import math
import os
import random
import re
import shutil
import tempfile

import numpy as np

from simcheck import Violation, Known, cls_of, quiet, gids


@contextlib.contextmanager
def scratch():
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="vperc_")
    os.mkdir(os.path.join(d, "data"))
    os.mkdir(os.path.join(d, "logs"))
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def arrays_of(rng, e, rows):
    return [np.array([[rng.uniform(-5, 5) for _ in range(4)] for _ in range(rows)]) for _ in range(e)]


def make_stub(rng, e, rows, sig="Stub"):
    """A percolation class that records the calls made to it and returns prepared data."""
    log = dict(inst=[], calls=[])
    data = arrays_of(rng, e, rows)
    crit = [(rng.random(), rng.randrange(1, 50), rng.randrange(1, 99)) for _ in range(e)]

    class Stub:
        def __init__(self, **kw):
            self.kw = dict(kw)
            self.run = -1
            self.fresh = False
            self.last_row = None
            log["inst"].append(self)
            log["calls"].append(("new", dict(kw)))

        def reset(self):
            self.fresh = True
            log["calls"].append(("reset", len(log["inst"]) - 1))

        def run_once(self):
            if not self.fresh:
                log["calls"].append(("stale", None))
            self.fresh = False
            self.run = log.get("n", -1) + 1
            log["n"] = self.run
            log["calls"].append(("run", self.run))

        def i(self):
            return min(max(self.run, 0), e - 1)

        def get_data_array(self):
            return data[self.i()].copy()

        def get_pc(self):
            return crit[self.i()][0]

        def get_site_count_wrapping_cluster_pc(self):
            return crit[self.i()][1]

        def get_bond_count_wrapping_cluster_pc(self):
            return crit[self.i()][2]

        def get_shortest_path_p(self):
            return crit[self.i()][1] / 100.0

        def get_signature(self):
            return sig

        def viewCluster(self):
            pass

        viewLattice = viewCluster
    return Stub, log, data, crit


DRIVERS = {
    "run_ensemble_entropy_order": ("run_py.ensemble", ("entropy", "critical"), False),
    "run_ensemble_entropy_order_threads": ("run_py.ensemble", ("entropy",), True),
    "run_ensemble_entropy_order_threads_v2": ("run_py.ensemble", ("entropy", "critical"), True),
    "ensemble_shortest_path_v2_thread": ("run_py.shortest_path_run", ("path",), True),
}
KEYS = {"entropy": "_entropy_order_L", "critical": "_critical_values_L", "path": "_shortest_path_p_L"}


def call_driver(name, K, L, E, th, seed=None):
    import importlib
    mod, kinds, threaded = DRIVERS[name]
    f = getattr(importlib.import_module(mod), name)
    kw = {}
    if th is not None and threaded:
        kw["thread_count"] = th
    if seed is not None and name.endswith(("_v2", "_v2_thread")):
        kw["seed"] = seed
    with quiet():
        f(K, L, E, **kw)


def read_out(d):
    out = {}
    for fn in sorted(os.listdir(os.path.join(d, "data"))):
        txt = open(os.path.join(d, "data", fn)).read()
        head = txt.split("\n")[0]
        rows = [[float(x) for x in ln.split()] for ln in txt.split("\n")[1:] if ln.strip()]
        out[fn] = (head, rows)
    return out


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)) + 1e-9


def check_rows(prop, what, got, exp):
    if len(got) != len(exp):
        raise Violation(prop, "%s has %d rows, expected %d" % (what, len(got), len(exp)))
    for i, (g, e) in enumerate(zip(got, exp)):
        if len(g) != len(e) or any(not close(x, y) for x, y in zip(g, e)):
            raise Violation(prop, "%s row %d is %r, expected %r" % (what, i, g, list(e)))


def find(out, kind, prop):
    fs = [f for f in out if KEYS[kind] in f]
    if len(fs) != 1:
        raise Violation(prop, "%d files of kind %s written: %r" % (len(fs), kind, list(out)))
    return fs[0]


def ensemble_stub(scn, props):
    rng = random.Random(scn["seed"])
    E, rows, L, th = scn["E"], scn["rows"], scn["L"], scn["th"]
    K, log, data, crit = make_stub(rng, E, rows, scn.get("sig", "Stub"))
    kinds = DRIVERS[scn["driver"]][1]
    with scratch() as d:
        call_driver(scn["driver"], K, L, E, th, scn.get("useseed"))
        out = read_out(d)
    runs = [c for c in log["calls"] if c[0] == "run"]
    if "C22" in props:
        if len(runs) != E:
            raise Violation("C22", "%s made %d runs for %d realizations" % (scn["driver"], len(runs), E))
        if any(c[0] == "stale" for c in log["calls"]):
            raise Violation("C22", "%s ran without a reset" % scn["driver"])
        if any(c[0] == "new" and c[1].get("length") != L for c in log["calls"]):
            raise Violation("C22", "%s simulated another length" % scn["driver"])
        if "entropy" in kinds:
            f = find(out, "entropy", "C22")
            mean = [[math.fsum(a[i][j] for a in data) / E for j in range(4)] for i in range(rows)]
            check_rows("C22", f, out[f][1], mean)
        if "critical" in kinds:
            f = find(out, "critical", "C22")
            check_rows("C22", f, out[f][1], crit)
        if "path" in kinds:
            f = find(out, "path", "C22")
            check_rows("C22", f, out[f][1], [(c[0], c[1] / 100.0) for c in crit])
    if "C23" in props:
        check_files(scn, out, kinds)
    return E


def check_files(scn, out, kinds):
    L, E, th, sig = scn["L"], scn["E"], scn["th"], scn.get("sig", "Stub")
    if not DRIVERS[scn["driver"]][2]:
        th = None
    elif th is None:
        th = 0
    if len(out) != len(kinds):
        raise Violation("C23", "files written: %r" % list(out))
    for kind in kinds:
        f = find(out, kind, "C23")
        pat = re.escape(sig + KEYS[kind] + str(L) + "_") + r"\d{8}_\d{6}" + (
            "" if th is None else "_th%d" % th) + r"\.txt"
        if not re.fullmatch(pat, f):
            raise Violation("C23", "file name %s" % f)
        head = out[f][0]
        if not head.startswith("# "):
            raise Violation("C23", "no header in %s" % f)
        h = json.loads(head[2:])
        stamp = re.search(r"(\d{4})(\d\d)(\d\d)_(\d\d)(\d\d)(\d\d)", f[len(sig):])
        if h.get("length") != L or h.get("L") != L or h.get("ensemble_size") != E or h.get("En") != E:
            raise Violation("C23", "header of %s gives length %r/%r, ensemble %r/%r, true %d and %d" % (
                f, h.get("length"), h.get("L"), h.get("ensemble_size"), h.get("En"), L, E))
        if h.get("date") != ".".join(stamp.groups()[:3]) or h.get("time") != ":".join(stamp.groups()[3:]):
            raise Violation("C23", "header time %r %r, file name %s" % (h.get("date"), h.get("time"), f))
        cols = {"entropy": ["p", "H", "P1", "P2"],
                "critical": ["pc", "wrapping cluster site count at pc", "wrapping cluster bond count at pc"],
                "path": ["pc", "p*"]}[kind]
        if h.get("columns") != cols:
            raise Violation("C23", "header columns %r" % h.get("columns"))
        if kind == "entropy":
            desc = dict(x.split("=", 1) for x in h["desc"])
            if "largest" not in desc.get("P1", "") or "wrapping" in desc.get("P1", "") or \
                    "wrapping" not in desc.get("P2", "") or "largest" in desc.get("P2", ""):
                raise Violation("C23", "header of %s describes P1 as %r and P2 as %r; column 3 holds the largest "
                                "cluster's, column 4 the wrapping cluster's" % (f, desc.get("P1"), desc.get("P2")))
            if "occupation" not in desc.get("p", "") or "entropy" not in desc.get("H", ""):
                raise Violation("C23", "header of %s describes %r" % (f, h["desc"]))
        else:
            desc = dict(x.split("=", 1) for x in h["desc"])
            if "critical" not in desc.get("pc", ""):
                raise Violation("C23", "header of %s describes %r" % (f, h["desc"]))
            if kind == "path" and "path" not in desc.get("p*", ""):
                raise Violation("C23", "header of %s describes %r" % (f, h["desc"]))


def ensemble_real(scn, props):
    """the real classes: the same random source replayed realization by realization"""
    E, L, th = scn["E"], scn["L"], scn["th"]
    K = cls_of(scn["cls"])
    kinds = DRIVERS[scn["driver"]][1]
    us = scn.get("useseed")
    with scratch() as d:
        random.seed(scn["seed"])
        call_driver(scn["driver"], K, L, E, th, us)
        out = read_out(d)
    random.seed(scn["seed"])
    with quiet():
        sim = K(length=L)
        if us is not None and scn["driver"].endswith(("_v2", "_v2_thread")):
            sim = K(length=L, seed=us)
        tot, crit, path = None, [], []
        for _ in range(E):
            sim.reset()
            sim.run_once()
            if "path" not in kinds:
                a = np.array([list(x) for x in zip(sim.get_occupation_prob_array(), sim.get_entropy_array(),
                                                   sim.get_order_param_largest_array(),
                                                   sim.get_order_param_wrapping_array())])
                tot = a if tot is None else tot + a
            crit.append((sim.get_pc(), sim.get_site_count_wrapping_cluster_pc(),
                         sim.get_bond_count_wrapping_cluster_pc()))
            if "path" in kinds:
                path.append((sim.get_pc(), sim.get_shortest_path_p()))
    scn = dict(scn, sig=sim.get_signature())
    if "C22" in props:
        if "entropy" in kinds:
            f = find(out, "entropy", "C22")
            check_rows("C22", f, out[f][1], (tot / E).tolist())
        if "critical" in kinds:
            f = find(out, "critical", "C22")
            check_rows("C22", f, out[f][1], crit)
        if "path" in kinds:
            f = find(out, "path", "C22")
            check_rows("C22", f, out[f][1], path)
    if "C23" in props:
        check_files(scn, out, kinds)
    return E


class FakeProcess:
    log = None

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, tuple(args), dict(kwargs or {})
        self.started = self.joined = 0
        FakeProcess.log.append(self)

    def start(self):
        self.started += 1
        FakeProcess.events.append(("start", id(self)))

    def join(self, timeout=None):
        self.joined += 1
        self.timeout = timeout
        FakeProcess.events.append(("join", id(self)))

    def is_alive(self):
        return False

    exitcode = 0
    pid = 1


def parallel(scn, props):
    import multiprocessing
    import inspect
    saved = multiprocessing.Process
    FakeProcess.log, FakeProcess.events = [], []
    multiprocessing.Process = FakeProcess
    try:
        from run_py import rsbd_percolatioin_run as R, shortest_path_run as S, ensemble as EN
        for m in (R, S, EN):
            if getattr(m, "Process", None) is saved:
                m.Process = FakeProcess
        E, T, L, name = scn["E"], scn["T"], scn["L"], scn["driver"]
        with quiet():
            if name == "v3":
                R.run_simulation_threads_v3(L, E, T)
                cls, targets = "L0", (EN.run_ensemble_entropy_order_threads_v2, EN.run_ensemble_entropy_order_threads)
            elif name == "v4":
                it = scn.get("interaction")
                if it is None:
                    R.run_simulation_threads_v4(L, E, T)
                else:
                    R.run_simulation_threads_v4(L, E, T, interaction=it)
                cls = {1: "L1", 2: "L2"}.get(it, "L0")
                targets = (EN.run_ensemble_entropy_order_threads_v2, EN.run_ensemble_entropy_order_threads)
            else:
                if scn.get("default_T"):
                    T = 2
                    S.run_simulation_shortest_path_threads(L, E)
                else:
                    S.run_simulation_shortest_path_threads(L, E, thread=T)
                cls, targets = "SP", (S.ensemble_shortest_path_v2_thread,)
    finally:
        multiprocessing.Process = saved
    P = FakeProcess.log

    def bad(m):
        raise Violation("C24", "%s with %d realizations on %d processes: %s" % (name, E, T, m))
    if len(P) != T:
        bad("%d processes created" % len(P))
    sizes, nums = [], []
    for p in P:
        if p.started != 1:
            bad("a process was started %d times" % p.started)
        if p.joined < 1 or getattr(p, "timeout", None) is not None:
            bad("a process was not waited for")
        if p.target not in targets:
            bad("target %r" % p.target)
        b = inspect.signature(p.target).bind(*p.args, **p.kwargs)
        b.apply_defaults()
        a = b.arguments
        if a["percolationClass"] is not cls_of(cls):
            bad("class %r instead of %s" % (a["percolationClass"], cls))
        if a["length"] != L:
            bad("length %r instead of %d" % (a["length"], L))
        if a.get("seed") is not None:
            bad("a fixed seed %r" % a["seed"])
        sizes.append(a["ensembleSize"])
        nums.append(a["thread_count"])
    if len(set(nums)) != T or any(n is None for n in nums):
        bad("process numbers %r" % nums)
    if sum(sizes) != E or any(type(s) is not int for s in sizes) or min(sizes) < 1 or max(sizes) - min(sizes) > 1:
        bad("ensemble sizes %r" % sizes)
    first_join = [i for i, e in enumerate(FakeProcess.events) if e[0] == "join"]
    last_start = [i for i, e in enumerate(FakeProcess.events) if e[0] == "start"]
    if min(first_join) < max(last_start):
        bad("a process is started only after another one has been waited for")
    return T


def record(K, L, seed, ops, disturb):
    """drive one simulation and return everything it showed"""
    for _ in range(disturb):
        random.random()
    np.random.seed(disturb + 1)
    out = []
    with quiet():
        sim = K(length=L, seed=seed)
        out.append(list(sim.get_site_id_sequence()))
        for op in ops:
            if op[0] == "attempts":
                for _ in range(op[1]):
                    r = sim.place_one_site()
                    out.append((r, sim.selected_id, gids(sim)))
                    if sim.selected_id is not None:
                        out.append(sim.detect_wrapping())
            elif op[0] == "run":
                sim.run_once()
                out.append((list(sim.get_occupation_prob_array()), list(sim.get_entropy_array()),
                            list(sim.get_order_param_wrapping_array()), list(sim.get_order_param_largest_array()),
                            sim.get_pc(), gids(sim)))
            elif op[0] == "reset":
                sim.reset()
                out.append(list(sim.get_site_id_sequence()))
            elif op[0] == "shuffle":
                sim.shuffle()
                out.append(list(sim.get_site_id_sequence()))
    return out, random.getstate()


def seeded(scn, props):
    K = cls_of(scn["cls"])
    random.seed(scn["amb"])
    a, sa = record(K, scn["L"], scn["seed"], scn["ops"], 0)
    random.seed(scn["amb"] + 17)
    if scn.get("between"):
        with quiet():
            other = cls_of(scn["between"])(length=3)
            other.run_once()
    b, sb = record(K, scn["L"], scn["seed"], scn["ops"], 3)
    if a != b or sa != sb:
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), None)
        raise Violation("C25", "two %s simulations of length %d with seed %r differ (first at record %r)" % (
            scn["cls"], scn["L"], scn["seed"], k))
    # the seed is put in place before the first draw, and drawing goes only through the random source
    import random as R
    real = R.seed
    seen = []
    inst = R._inst
    draws = []
    orig = inst._randbelow

    def spy_seed(*x, **k):
        seen.append((x, len(draws)))
        return real(*x, **k)

    def spy_below(n, *x, **k):
        draws.append(n)
        return orig(n, *x, **k)
    real("other")
    # a constructed simulation leaves the same state as seeding followed by its own draws
    with quiet():
        K(length=scn["L"], seed=scn["seed"])
    s1 = R.getstate()
    real(scn["seed"])
    with quiet():
        K(length=scn["L"])
    if R.getstate() != s1:
        raise Violation("C25", "seeding with %r inside the constructor and before it leave different random states"
                        % (scn["seed"],))
    return 2


def intersection(scn, props):
    from source_py.analyze.lines import find_intersection
    f1, f2, col = np.array(scn["a"], dtype=float), np.array(scn["b"], dtype=float), scn.get("col")
    k1, k2 = f1.copy(), f2.copy()
    got = find_intersection(f1, f2) if col is None else find_intersection(f1, f2, col=col)
    if not (np.array_equal(f1, k1) and np.array_equal(f2, k2)):
        raise Violation("C27", "the input curves were modified")
    x, y = (k1, k2) if col is None else (k1[:, col], k2[:, col])
    sg = [(u > v) - (u < v) for u, v in zip(x.tolist(), y.tolist())]
    ch = [abs(sg[i + 1] - sg[i]) for i in range(len(sg) - 1)]
    exp = ch.index(max(ch))
    if got != exp:
        raise Violation("C27", "index %r for curves %r and %r, the sharpest sign change is at %d" % (
            got, x.tolist(), y.tolist(), exp))
    back = find_intersection(f2, f1) if col is None else find_intersection(f2, f1, col=col)
    if back != got:
        raise Violation("C27", "exchanging the curves gives %r instead of %r" % (back, got))
    return 2


def labelled(la, L, seed):
    """the wrapping query under an arbitrary labelling"""
    import random
    import oracle
    rng, N = random.Random(seed), L * L
    for _ in range(4):
        pool = rng.choice([[-1, 0, 1], [0, 1, 2, 3], [-1] + rng.sample(range(2 * N), 3), [5, 2 * N - 1]])
        gid = [rng.choice(pool) for _ in range(N)]
        for s in range(N):
            la.set_site_gid_by_id(s, gid[s])
        for again in range(2):
            for s in range(N):
                if gid[s] < 0:
                    continue
                got, want = list(la.get_sites_for_wrapping_test(s)), [t for t in oracle.neighbours(L, s) if gid[t] == gid[s]]
                if got != want:
                    raise Violation("C03", "get_sites_for_wrapping_test(%d) under the labels %r returned %r, not %r" % (s, gid, got, want))
        if [la.get_site_gid_by_id(s) for s in range(N)] != gid:
            raise Violation("C03", "the wrapping query changed the labels %r" % gid)


def lattice_only(scn, props):
    from source_py.simulation.lattice import Lattice
    import simcheck
    L = scn["L"]
    la = Lattice(L)

    def bad(p):
        def f(m):
            raise Violation(p, m)
        return f
    for _ in range(2):
        if "C01" in props:
            simcheck.lattice_topology(la, L, bad("C01"))
        if "C02" in props:
            simcheck.lattice_addressing(la, L, bad("C02"))
        if "C03" in props:
            import oracle
            for s in range(L * L):
                nb = oracle.neighbours(L, s)
                if la.get_all_neighbor_sites(s) != nb or la.get_site_neighbor_of_site(s) != nb:
                    raise Violation("C03", "neighbours of %d at length %d: %r" % (s, L, la.get_all_neighbor_sites(s)))
            if L <= 20:
                labelled(la, L, scn.get("label", 0))
        la.reset()
    return L * L


def scan_labels(scn, props):
    """the scans under an arbitrary labelling and wrapping cluster"""
    import contextlib, io, random
    from source_py.simulation.index import Index
    from source_py.simulation.percolation_sq_lattice_shortest_path import ShortestPathAfter_pc
    L, rng = scn["L"], random.Random(scn["seed"])
    N = L * L
    with contextlib.redirect_stdout(io.StringIO()):
        sim = ShortestPathAfter_pc(length=L)
    la = sim.lattice_ref
    for _ in range(8):
        w = rng.choice([0, 0, 1, 2 * N - 1, rng.randrange(2 * N)])
        other = [-1, (w + 1) % (2 * N), 0 if w else 3]
        gid = [w if rng.random() < 0.6 else rng.choice(other) for _ in range(N)]
        for _ in range(rng.randrange(4)):
            k = rng.randrange(L)
            for j in range(L):
                gid[k * L + j if rng.random() < 0.5 else j * L + k] = w
            a = rng.randrange(L)
            for j in range(L):
                gid[a * L + j] = w
            if rng.random() < 0.5:
                gid[a * L + rng.randrange(L)] = rng.choice(other)
        for s in range(N):
            la.set_site_gid_by_id(s, gid[s])
        sim.after_wrapping, sim.wrapping_cluster_id = True, w
        rows = {r for r in range(L) if all(gid[r * L + c] == w for c in range(L))}
        cols = {c for c in range(L) if all(gid[r * L + c] == w for r in range(L))}
        for r in range(L):
            for c in range(L):
                got = tuple(bool(x) for x in sim.scan_row_col_of_selected_site(Index(r, c)))
                if got != (r in rows, c in cols):
                    raise Violation("C21", "scan of (%d,%d), wrapping cluster %d, labels %r: %r" % (r, c, w, gid, got))
        got = bool(sim.scan_all_rows()), bool(sim.scan_all_cols())
        if got != (bool(cols), bool(rows)):
            raise Violation("C21", "scans over all rows and columns, wrapping cluster %d, labels %r: %r" % (w, gid, got))
        if [la.get_site_gid_by_id(s) for s in range(N)] != gid:
            raise Violation("C21", "a scan changed the labels %r" % gid)
        sim.after_wrapping, sim.wrapping_cluster_id = False, -1
        if rng.random() < 0.5 and (sim.scan_all_rows() or sim.scan_all_cols()):
            raise Violation("C21", "a line is reported before any wrapping cluster exists, labels %r" % gid)
    return 8 * N


KINDS = dict(scanlabels=scan_labels, ensemble_stub=ensemble_stub, ensemble_real=ensemble_real, parallel=parallel, seeded=seeded,
             intersection=intersection, lattice=lattice_only)
