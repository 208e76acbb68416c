"""Writes /verif/seeded/<id>/ for every planted bug, after confirming it in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
S = "source_py/simulation/"
PER, LAT, CLU, L12, SITE = S + "percolation_sq_lattice.py", S + "lattice.py", S + "cluster.py", S + "percolation_sq_lattice_L1L2.py", S + "site.py"
SP, LINES, ENS, RUN, SPR = S + "percolation_sq_lattice_shortest_path.py", "source_py/analyze/lines.py", "run_py/ensemble.py", "run_py/rsbd_percolatioin_run.py", "run_py/shortest_path_run.py"
HEAD = '''import contextlib, io, os, random, sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
def quiet():
    return contextlib.redirect_stdout(io.StringIO())
'''
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append((id, prop, edits, needs, breaks, HEAD + demo))


bug("c03-nocopy", "C03", [(LAT, "            nn = self.get_neighbor_sites(bb).copy()\n            # print(\"nn \", nn)\n            nn.remove(s0_index)\n            out_list.append(nn[0])\n",
                           "            nn = self.get_neighbor_sites(bb)\n            if nn[0] == s0_index:\n                nn.reverse()\n            out_list.append(nn[0])\n            nn.sort()\n            nn[:] = nn if bb % 7 else nn[:1] * 2\n")],
    "calling get_site_neighbor_of_site, and then asking for the sites of a bond whose id is a multiple of 7",
    "a neighbour query changes the stored bond ends", '''
from source_py.simulation.lattice import Lattice
la = Lattice(5)
before = [sorted(la.get_neighbor_sites(b)) for b in range(50)]
for s in range(25):
    la.get_site_neighbor_of_site(s)
assert before == [sorted(la.get_neighbor_sites(b)) for b in range(50)]
''')
bug("c06-span2", "C06", [(PER, "        if abs(xx) > 1:\n            xx = -xx // abs(xx)", "        if abs(xx) > 2:\n            xx = -xx // abs(xx)")],
    "length 3, neighbours across the top or bottom boundary", "relative coordinates across the boundary are off by 3 "
    "rows at L=3", '''
from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
with quiet():
    p = SitePercolationL0(length=3)
    p.set_custome_site_id_list([0, 6, 4])
    p.place_one_site(); p.place_one_site()
a = p.lattice_ref.get_site_by_id(0).get_relative_index(); b = p.lattice_ref.get_site_by_id(6).get_relative_index()
assert (b.x_coord() - a.x_coord(), b.y_coord() - a.y_coord()) == (-1, 0)
''')
bug("c10-after-wrap", "C10", [(PER, "        new_size = self.cluster_pool_ref.get_cluster_bond_count(new_cluster)\n", "        if self.after_wrapping:\n            new_cluster = self.wrapping_cluster_id\n        new_size = self.cluster_pool_ref.get_cluster_bond_count(new_cluster)\n")],
    "after wrapping, a cluster other than the wrapping one is the largest and grows", "the growth of the largest cluster is "
    "missed", '''
from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
L = 7
ids = [c for c in range(L)]
big = [r * L + c for r in (2, 3, 4) for c in range(L - 1)]
with quiet():
    p = SitePercolationL0(length=L)
    p.set_custome_site_id_list(ids + big)
    while p.place_one_site():
        p.detect_wrapping()
        m = max(p.cluster_pool_ref.get_cluster_bond_count(i) for i in range(2 * L * L))
        assert p.largest_cluster() == m, (p.largest_cluster(), m)
''')
bug("c13-reset-limit", "C13", [(PER, "        self.init_clusters()\n        self.shuffle()\n        self.current_idx = 0\n", "        self.init_clusters()\n        self.shuffle()\n        self.max_iteration_limit = min(self.max_iteration_limit, self.occupied_site_count) if self.mode_custome_site_id and not self.do_shuffle and self.after_wrapping else self.max_iteration_limit\n        self.current_idx = 0\n")],
    "a reset of a custom-list simulation after wrapping but before the list was exhausted", "the next run places only "
    "as many entries as the interrupted one", '''
from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
L = 5
with quiet():
    p = SitePercolationL0(length=L)
    p.set_custome_site_id_list(list(range(25)))
    for _ in range(8):
        p.place_one_site(); p.detect_wrapping()
    p.reset()
    n = 0
    while p.place_one_site():
        n += 1
assert n == 25, n
''')
bug("c14-three", "C14", [(L12, "            central2 = sites[random.randint(0, len(sites)-1)]\n", "            central2 = sites[random.randint(0, len(set(sites[:3]))-1)]\n")],
    "an occupied candidate whose right, bottom and left neighbours differ (always): the top neighbour is never drawn",
    "the neighbour is not drawn uniformly among four", '''
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL1
seen = set()
for seed in range(300):
    with quiet():
        p = SitePercolationL1(length=4, seed=seed)
        p.place_one_site(); x = p.selected_id
        for _ in range(20):
            occ = [s for s in range(16) if p.lattice_ref.get_site_gid_by_id(s) >= 0]
            p.x_occupied = 0
            p.place_one_site()
            if p.x_occupied and len(occ) == 1:
                seen.add(p.lattice_ref.get_all_neighbor_sites(occ[0]).index(p.selected_id))
            if len(occ) > 1: break
assert seen == {0, 1, 2, 3}, seen
''')
bug("c15-negative", "C15", [(L12, "        column = index.column() % self.lattice_ref.length\n", "        column = index.column()\n        if column >= self.lattice_ref.length:\n            column -= self.lattice_ref.length\n")],
    "an occupied Y in the first column with X to its right, so that Z lies at column -1", "Z is taken one row up", '''
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL2
import source_py.simulation.percolation_sq_lattice_L1L2 as m
class R:
    q = []
    def randint(s, a, b): return s.q.pop(0) if s.q else a
with quiet():
    p = SitePercolationL2(length=5)
    saved, m.random = m.random, R()
    try:
        pos = p.site_ids_indices.index
        for x in (10, 11):
            m.random.q = [pos(x)]; p.place_one_site()
        m.random.q = [pos(11), 2]; p.place_one_site()
    finally:
        m.random = saved
assert p.selected_id == 14, p.selected_id
''')
bug("c22-alias", "C22", [(PER, "        return np.c_[pp, HH, PP_largest, PP_wraping]\n", "        table = getattr(self, '_table', None)\n        if table is None or table.shape[0] != len(pp):\n            table = self._table = np.empty((len(pp), 4))\n        table[:, 0], table[:, 1], table[:, 2], table[:, 3] = pp, HH, PP_largest, PP_wraping\n        return table\n")],
    "an ensemble of at least two realizations: the buffer handed out earlier is the running sum", "the average is "
    "computed from the last realization only", '''
import tempfile, shutil, numpy as np
from run_py.ensemble import run_ensemble_entropy_order_threads_v2
from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
d, here = tempfile.mkdtemp(), os.getcwd()
try:
    os.chdir(d); os.mkdir("data")
    random.seed(4)
    with quiet(): run_ensemble_entropy_order_threads_v2(SitePercolationL0, 5, 3)
    f = [x for x in os.listdir("data") if "entropy" in x][0]
    got = np.loadtxt(os.path.join("data", f))
finally:
    os.chdir(here); shutil.rmtree(d)
random.seed(4)
tot = 0
with quiet():
    p = SitePercolationL0(length=5)
    for _ in range(3):
        p.reset(); p.run_once(); tot = tot + p.get_data_array().copy()
assert np.allclose(got, tot / 3, atol=1e-9)
''')
bug("c23-th0", "C23", [(ENS, "    signature += \"_critical_values_L{}_\".format(length)\n    filename = signature + current_time\n    if thread_count is not None:", "    signature += \"_critical_values_L{}_\".format(length)\n    filename = signature + current_time\n    if thread_count:")],
    "process number 0", "the critical-value file of process 0 lacks its process number", '''
import tempfile, shutil
from run_py.ensemble import run_ensemble_entropy_order_threads_v2
from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
d, here = tempfile.mkdtemp(), os.getcwd()
try:
    os.chdir(d); os.mkdir("data")
    with quiet(): run_ensemble_entropy_order_threads_v2(SitePercolationL0, 4, 1, 0)
    names = os.listdir("data")
finally:
    os.chdir(here); shutil.rmtree(d)
assert len(names) == 2 and all(n.endswith("_th0.txt") for n in names), names
''')
bug("c25-seed0", "C25", [(PER, "        if \"seed\" in kwargs.keys():\n", "        if kwargs.get(\"seed\"):\n")],
    "seed 0", "a simulation constructed with seed 0 is not seeded", '''
from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
out = []
for amb in (1, 2):
    random.seed(amb)
    with quiet(): out.append(list(SitePercolationL0(length=6, seed=0).get_site_id_sequence()))
assert out[0] == out[1]
''')
bug("c26-swap", "C26", [(PER, "        self.reverse_ids_indices[id2] = ix1\n        self.reverse_ids_indices[id1] = ix2\n", "        self.reverse_ids_indices[id2] = ix1\n        self.reverse_ids_indices[id1] = max(ix2, ix1) if ix2 == 0 else ix2\n")],
    "exchanging two sites the second of which is first in the order", "the reverse table no longer inverts the order", '''
from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
with quiet(): p = SitePercolationL0(length=4)
a, b = p.site_ids_indices[3], p.site_ids_indices[0]
p.swap_ids(a, b)
assert all(p.reverse_ids_indices[s] == i for i, s in enumerate(p.site_ids_indices))
''')
bug("c27-noabs", "C27", [(LINES, "    dx = np.diff(np.sign(difference))\n    idx = np.argmax(np.abs(dx))\n    return idx\n\n\ndef find_intersection_and_plot", "    dx = np.diff(np.sign(difference))\n    idx = np.argmax(dx * np.sign(difference[-1] or 1))\n    return idx\n\n\ndef find_intersection_and_plot")],
    "curves that cross more than once, or touch", "the sharpest change in the other direction is missed", '''
import numpy as np
from source_py.analyze.lines import find_intersection
a = np.array([1., 1., -1., 0., 1.]); b = np.zeros(5)
assert find_intersection(a, b) == 1 == find_intersection(b, a)
''')
bug("c01-l3", "C01", [(LAT, "(col + self.length - 1) % self.length\n", "(col + max(self.length, 4) - 1) % self.length\n")],
    "length 3", "the left bond of a site is its own right bond", '''
from source_py.simulation.lattice import Lattice
L = 3
la = Lattice(L)
for s in range(L * L):
    r, c = divmod(s, L)
    assert la.get_neighbor_bonds(s)[2] == r * L + (c - 1) % L, s
''')
bug("c07-antidiagonal", "C07", [(PER, "            if (abs(delta_x) > 1) or (abs(delta_y) > 1):", "            if abs(delta_x + delta_y) > 1:")],
    "a first wrapping loop that goes round both directions with opposite signs", "wrapping along an anti-diagonal loop "
    "is not reported", '''
from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
L = 4
for sign in (1, -1):
    path, r, c = [], 0, 0
    for k in range(2 * L):
        path.append(r * L + c)
        if k % 2: r = (r + sign) % L
        else: c = (c + 1) % L
    with quiet():
        p = SitePercolationL0(length=L)
        p.set_custome_site_id_list(path + [x for x in range(L * L) if x not in path])
        res = []
        for _ in path:
            p.place_one_site(); res.append(p.detect_wrapping())
    assert res == [False] * (len(path) - 1) + [True], res
''')
bug("c08-stale", "C08", [(PER, "        self.cluster_pool_ref.reset()\n        self.pc_bond_count_wrapping_cluster = None\n", "        self.cluster_pool_ref.reset()\n")],
    "a second run on one object, asked before it wraps", "the bond count at criticality of the previous run is reported", '''
from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
with quiet():
    p = SitePercolationL0(length=5)
    p.run_once(); p.reset(); p.place_one_site(); p.detect_wrapping()
assert p.get_bond_count_wrapping_cluster_pc() == 0
''')
bug("c09-first", "C09", [(PER, "(self.wrapping_cluster_id in bond_gids):", "(self.wrapping_cluster_id in bond_gids[:3]):")],
    "after wrapping, a larger cluster meets the wrapping one, which is not first in the iteration order of the set",
    "the wrapping cluster is absorbed and its order parameter drops", '''
from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
L = 9
bad = 0
for row in range(L):
  for joint in range(L):
    at = lambda r, c: ((row + r) % L) * L + c % L
    ids = [at(0, c) for c in range(L)]
    big = [at(r, c + joint + 3) for r in (2, 3, 4, 5, 6) for c in range(L - 1)]
    with quiet():
        p = SitePercolationL0(length=L)
        p.set_custome_site_id_list(ids + big + [at(1, joint)])
        last = 0
        while p.place_one_site():
            p.detect_wrapping()
            v = p.order_param_wrapping()
            bad += v < last
            last = v
assert not bad
''')
bug("c16-reverse", "C16", [(L12, "                        # print(\"is_removable\")\n                        self.site_ids_indices[rnd] = self.site_ids_indices[self.current_idx]\n", "                        # print(\"is_removable\")\n                        self.site_ids_indices[self.current_idx] = self.site_ids_indices[rnd]\n")],
    "L2, a candidate is dropped while the candidate at the front of the list is still empty", "the front candidate is "
    "dropped instead", '''
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL2
L = 6
for seed in range(200):
    with quiet():
        p = SitePercolationL2(length=L, seed=seed)
        while p.place_one_site():
            empty = {s for s in range(L * L) if p.lattice_ref.get_site_gid_by_id(s) < 0}
            assert empty <= set(p.site_ids_indices[p.current_idx:]), (seed, empty)
''')
bug("c18-nn2", "C18", [(SITE, "        # self.connecting_bond_ids = []\n        self.relative_index = RelativeIndex()\n        self.first_nn_count = 4  # for L1 percolation\n        self.second_directional_nn_count = 4  # for L2 percolation\n", "        # self.connecting_bond_ids = []\n        self.relative_index = RelativeIndex()\n        if self.first_nn_count == 0:\n            self.second_directional_nn_count = 4  # for L2 percolation\n        self.first_nn_count = 4  # for L1 percolation\n")],
    "an L2 run in which a site failed in the second direction fewer than four times, then a reset", "the per-site counters are not restored", '''
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL2
with quiet():
    p = SitePercolationL2(length=6, seed=5)
    for _ in range(60): p.place_one_site()
    p.reset()
assert all(p.lattice_ref.get_site_by_id(s).get_nn_count() == (4, 4) for s in range(36))
''')
bug("c21-other", "C21", [(SP, "            if gid != self.wrapping_cluster_id:\n                column_flag = False\n", "            if gid < 0:\n                column_flag = False\n")],
    "two separate clusters, the second one holding a complete row", "a row of another cluster is reported", '''
from source_py.simulation.percolation_sq_lattice_shortest_path import ShortestPathAfter_pc
from source_py.simulation.index import Index
with quiet():
    p = ShortestPathAfter_pc(length=6)
    p.set_custome_site_id_list([0, 1, 2, 3, 4, 5, 18, 19, 20, 21, 22, 23])
    while p.place_one_site(): p.detect_wrapping()
assert tuple(p.scan_row_col_of_selected_site(Index(0, 2))) == (True, False)
assert tuple(p.scan_row_col_of_selected_site(Index(3, 2))) == (False, False)
''')


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def stable(repo):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=repo)
    out = tempfile.mktemp(suffix=".xml")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "--rootdir=" + repo, "-p", "no:cacheprovider",
                    "--randomly-seed=1", "--randomly-dont-reorganize", "--timeout=300", "-o", "junit_family=xunit2",
                    "--junitxml=" + out, "."], cwd=repo + "/test_py", env=env, capture_output=True)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(out).getroot().iter("testcase"):
        if not any(x.tag in ("failure", "error", "skipped") for x in c):
            ok.add(c.get("classname") + "::" + c.get("name"))
    os.remove(out)
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return [w for w in want if w not in ok and ("test_py." + w) not in ok]


def main(only):
    for id, prop, edits, needs, breaks, demo in BUGS:
        if only and id not in only:
            continue
        d = tempfile.mkdtemp(prefix="bug_")
        repo = os.path.join(d, "repo")
        sh("cp -a /repo %s" % repo)
        for f, a, b in edits:
            t = open(os.path.join(repo, f)).read()
            assert t.count(a) >= 1, (id, a, t.count(a))
            open(os.path.join(repo, f), "w").write(t.replace(a, b, 1))
        out = os.path.join("/verif/seeded", id)
        os.makedirs(out, exist_ok=True)
        diff = sh("git -C %s diff" % repo).stdout
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(demo)
        open(out + "/demo.sh", "w").write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + "/meta.json", "w"), indent=1)
        fails = stable(repo)
        good = sh("sh %s/demo.sh" % out, cwd="/repo")
        bad = sh("sh %s/demo.sh" % out, cwd=repo)
        ok = not fails and good.returncode == 0 and bad.returncode != 0
        print("%-16s %s tests failing: %s demo %d %d %s" % (id, "OK " if ok else "BAD", fails[:3], good.returncode, bad.returncode,
              "" if good.returncode == 0 and bad.returncode else (good.stderr[-300:] + bad.stderr[-200:])), flush=True)
        shutil.rmtree(d)


main(sys.argv[1:])
