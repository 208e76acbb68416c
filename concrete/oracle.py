"""Definitions of the listed properties, computed directly from the lattice geometry and the set of occupied sites.

Nothing here imports the repository: a site is row*L+col, a bond is s (to the right of s) or L*L+s (below s), and a
cluster is a connected component of occupied sites on the periodic lattice together with every bond touching it."""
import math

STEP = ((0, 1), (1, 0), (0, -1), (-1, 0))          # right, bottom, left, top


def neighbours(L, s):
    r, c = divmod(s, L)
    return [((r + dr) % L) * L + (c + dc) % L for dr, dc in STEP]


def bonds_of(L, s):
    n = L * L
    nb = neighbours(L, s)
    return [s, n + s, nb[2], n + nb[3]]


def sites_of(L, b):
    n = L * L
    return {b, neighbours(L, b)[0]} if b < n else {b - n, neighbours(L, b - n)[1]}


def step_of(L, s, t):
    """Displacement of neighbour t seen from s (unique for L >= 3)."""
    for d, nb in enumerate(neighbours(L, s)):
        if nb == t:
            return STEP[d]
    raise AssertionError("not neighbours")


class Oracle:
    """Incremental components with net displacements (union-find with offsets)."""

    def __init__(self, L):
        self.L, self.N, self.M = L, L * L, 2 * L * L
        self.parent = {}
        self.off = {}
        self.sites = {}
        self.bonds = {}
        self.wraps = {}
        self.order = []
        self.first_wrap = None            # (placement number, site, sites of its cluster, bonds of its cluster)
        self.untouched = set(range(self.M))

    def find(self, s):
        path = []
        while self.parent[s] != s:
            path.append(s)
            s = self.parent[s]
        for p in reversed(path):
            q = self.parent[p]
            if q != s:
                a, b = self.off[p], self.off[q]
                self.off[p] = (a[0] + b[0], a[1] + b[1])
                self.parent[p] = s
        return s

    def place(self, s):
        L = self.L
        assert s not in self.parent
        self.order.append(s)
        self.parent[s], self.off[s] = s, (0, 0)
        self.sites[s] = {s}
        mine = [b for b in bonds_of(L, s) if b in self.untouched]
        self.untouched.difference_update(mine)
        self.bonds[s] = set(mine)
        self.wraps[s] = False
        new = False
        for d, t in enumerate(neighbours(L, s)):
            if t not in self.parent:
                continue
            rs, rt = self.find(s), self.find(t)
            a, b, st = self.off[s], self.off[t], STEP[d]
            # offset of t minus offset of s must be st
            want = (a[0] + st[0], a[1] + st[1])
            if rs == rt:
                if b != want:
                    if not self.wraps[rs]:
                        new = True
                    self.wraps[rs] = True
            else:
                if len(self.sites[rs]) < len(self.sites[rt]):
                    # hang rs under rt: off[rs] = b - (a + st)
                    self.parent[rs] = rt
                    self.off[rs] = (b[0] - want[0], b[1] - want[1])
                    big, small = rt, rs
                else:
                    self.parent[rt] = rs
                    self.off[rt] = (want[0] - b[0], want[1] - b[1])
                    big, small = rs, rt
                self.sites[big] |= self.sites.pop(small)
                self.bonds[big] |= self.bonds.pop(small)
                self.wraps[big] = self.wraps.pop(small) or self.wraps[big]
        r = self.find(s)
        if self.first_wrap is None and self.wraps[r]:
            self.first_wrap = (len(self.order), s, len(self.sites[r]), len(self.bonds[r]))
        return new

    def comp(self, s):
        return self.find(s)

    def offset(self, s):
        self.find(s)
        return self.off[s] if self.parent[s] != s else (0, 0)

    def largest(self):
        return max((len(b) for b in self.bonds.values()), default=0)

    def entropy(self):
        m = self.M
        h = [len(self.untouched) / m * math.log(m)]
        for b in self.bonds.values():
            mu = len(b) / m
            h.append(-mu * math.log(mu))
        return math.fsum(h)

    def wrapping_bonds(self):
        if self.first_wrap is None:
            return 0
        return len(self.bonds[self.find(self.first_wrap[1])])

    def full_lines(self, root):
        L, sites = self.L, self.sites[root]
        rows = [r for r in range(L) if all(r * L + c in sites for c in range(L))]
        cols = [c for c in range(L) if all(r * L + c in sites for r in range(L))]
        return rows, cols
