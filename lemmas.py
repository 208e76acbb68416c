"""The facts the contracts and the solver interface take for granted, discharged from their definitions.

MUL is integer multiplication; FDIV, FMOD are the quotient and remainder with 0 <= remainder < divisor (divisor > 0);
NBd(s) is theory.nb_def(d, s); CNT, POS and the sums are defined by recursion on the length (base case and step are proved)."""
import os
import re
import subprocess
import time
import z3

I, R = z3.IntSort(), z3.RealSort()


def ints(s):
    return z3.Ints(s)


def arith():
    """(name, hypotheses, goal)"""
    p, q, a, b, c, d = ints('p q a b c d')
    x = p * q
    yield 'product: signs', [p >= 0, q >= 0], x >= 0
    yield 'product: at least each factor', [p >= 1, q >= 1], z3.And(x >= p, x >= q)
    yield 'product: three times', [p >= 3, q >= 1], x >= 3 * q
    yield 'product: units', [], z3.And(z3.Implies(p == 0, x == 0), z3.Implies(p == 1, x == q), z3.Implies(p == -1, x == -q))
    yield 'product: monotone', [c >= 1, a < b], a * c + c <= b * c
    m, u, rest, r = ints('m u rest r')
    yield 'quotient is determined by its interval', [b > 0, a == q * b + r, 0 <= r, r < b, m * b <= a, a < (m + 1) * b], z3.And(q == m, r == a - m * b)
    yield 'quotient of u*b+rest', [b > 0, a == u * b + rest, a == q * b + r, 0 <= r, r < b, m * b <= rest, rest < (m + 1) * b], z3.And(q == u + m, r == rest - m * b)
    yield 'quotient of a non-negative number', [b > 0, a == q * b + r, 0 <= r, r < b, a >= 0], q >= 0
    X, Y, D = z3.Reals('X Y D')
    h = [Y > 0, D * Y == X]
    yield 'ratio', h, z3.And(z3.Implies(X == Y, D == 1), z3.Implies(X == 0, D == 0), z3.Implies(X > 0, D > 0), z3.Implies(X >= 0, D >= 0), z3.Implies(X <= Y, D <= 1), z3.Implies(X > Y, D > 1))


def lattice():
    L, s = ints('L s')
    N = L * L
    q, r = ints('q r')      # row and column of s
    base = [L >= 3, 0 <= s, s < N, s == q * L + r, 0 <= r, r < L]
    yield 'size', [L >= 3], z3.And(N >= 9, N >= 3 * L)
    yield 'row of a site', base, z3.And(0 <= q, q < L)
    yield 'row of a site: bounds', base + [0 <= q, q < L], z3.And(q * L >= 0, q * L + L <= N)
    i, j = ints('i j')
    yield 'position determines the id', [L >= 3, 0 <= i, i < L, 0 <= j, j < L, s == i * L + j], z3.And(0 <= s, s < N)
    yield 'id determines the position', [L >= 3, 0 <= i, i < L, 0 <= j, j < L, s == i * L + j, s == q * L + r, 0 <= r, r < L], z3.And(q == i, r == j)
    # neighbours in terms of row and column: with s = q*L + r
    full = base + [0 <= q, q < L]
    want = {0: (q, z3.If(r + 1 == L, 0, r + 1)), 1: (z3.If(q + 1 == L, 0, q + 1), r), 2: (q, z3.If(r == 0, L - 1, r - 1)), 3: (z3.If(q == 0, L - 1, q - 1), r)}

    def nb(d, s, r):
        return [z3.If(r + 1 == L, s + 1 - L, s + 1), z3.If(s + L >= N, s + L - N, s + L), z3.If(r == 0, s + L - 1, s - 1), z3.If(s < L, s - L + N, s - L)][d]
    for d in range(4):
        n = nb(d, s, r)
        nq, nr = want[d]
        yield f'neighbour {d}: position', full, z3.And(n == nq * L + nr, 0 <= nq, nq < L, 0 <= nr, nr < L)
        yield f'neighbour {d}: is a site', full + [n == nq * L + nr, 0 <= nq, nq < L, 0 <= nr, nr < L], z3.And(0 <= n, n < N, n != s)
        t = z3.Int('t')
        yield f'neighbour {d}: and back', full + [t == n, t == nq * L + nr, 0 <= t, t < N], nb((d + 2) % 4, t, nr) == s
    yield 'neighbours are distinct', full + [N >= 3 * L], z3.Distinct(*[nb(d, s, r) for d in range(4)])


def counting():
    A = z3.ArraySort(I, I)
    a = z3.Const('a', A)
    n, x, v, i = ints('n x v i')
    C = z3.Function('C', A, I, I, I)
    P = z3.Function('P', A, I, I, I)

    def dfn(a, n, x):
        return z3.And(z3.Implies(n <= 0, C(a, n, x) == 0), z3.Implies(n > 0, C(a, n, x) == C(a, n - 1, x) + z3.If(a[n - 1] == x, 1, 0)))

    def pos(a, n, x):
        # P picks the last occurrence; any choice function would do
        return z3.Implies(n > 0, P(a, n, x) == z3.If(a[n - 1] == x, n - 1, P(a, n - 1, x)))

    def ax(a, n, x):
        c, p = C(a, n, x), P(a, n, x)
        return z3.And(c >= 0, z3.Implies(c >= 1, z3.And(0 <= p, p < n, a[p] == x)))
    yield 'count: axiom (base)', [n <= 0, dfn(a, n, x)], ax(a, n, x)
    yield 'count: axiom (step)', [n > 0, dfn(a, n, x), pos(a, n, x), ax(a, n - 1, x)], ax(a, n, x)
    # two arrays equal below n have equal counts
    b = z3.Const('b', A)
    e = z3.Function('E', I, I)
    j = z3.Int('j')
    eq = lambda n: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), a[j] == b[j]))
    yield 'count: depends on the first n elements (base)', [n <= 0, dfn(a, n, x), dfn(b, n, x)], C(a, n, x) == C(b, n, x)
    yield 'count: depends on the first n elements (step)', [n > 0, dfn(a, n, x), dfn(b, n, x), eq(n), z3.Implies(eq(n - 1), C(a, n - 1, x) == C(b, n - 1, x))], C(a, n, x) == C(b, n, x)
    st = z3.Store(a, n, v)
    yield 'count: append', [n >= 0, dfn(st, n + 1, x), C(st, n, x) == C(a, n, x)], C(st, n + 1, x) == C(a, n, x) + z3.If(v == x, 1, 0)
    # concatenation, by induction on the second length
    E, m = z3.Const('cE', A), z3.Int('m')
    cat = z3.And(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), E[j] == a[j])), z3.ForAll([j], z3.Implies(z3.And(n <= j, j < n + m), E[j] == b[j - n])))
    yield 'count: concatenation (base)', [n >= 0, m == 0, dfn(b, m, x), C(E, n, x) == C(a, n, x)], C(E, n + m, x) == C(a, n, x) + C(b, m, x)
    yield 'count: concatenation (step)', [n >= 0, m > 0, cat, dfn(E, n + m, x), dfn(b, m, x), C(E, n + m - 1, x) == C(a, n, x) + C(b, m - 1, x)], C(E, n + m, x) == C(a, n, x) + C(b, m, x)
    # an element below n is counted
    yield 'count: member (base)', [n <= 0, 0 <= i, i < n], C(a, n, a[i]) >= 1
    yield 'count: member (step)', [n > 0, 0 <= i, i < n, dfn(a, n, a[i]), ax(a, n - 1, a[i]), z3.Implies(i < n - 1, C(a, n - 1, a[i]) >= 1)], C(a, n, a[i]) >= 1
    # two places of one value are counted twice (so a count of one has one place)
    k = z3.Int('k')
    two = lambda n: z3.Implies(z3.And(0 <= i, i < k, k < n, a[i] == x, a[k] == x), C(a, n, x) >= 2)
    yield 'count: one place (base)', [n <= 0], two(n)
    yield 'count: one place (step)', [n > 0, dfn(a, n, x), two(n - 1), z3.Implies(z3.And(0 <= i, i < n - 1, a[i] == x), C(a, n - 1, x) >= 1)], two(n)
    yield 'count: the place of a count of one', [0 <= i, i < n, x == a[i], C(a, n, x) == 1, ax(a, n, x), z3.Implies(i < P(a, n, x), two(n)),
                                                 z3.Implies(z3.And(i < P(a, n, x), a[P(a, n, x)] == x), C(a, n, x) >= 2), z3.Implies(z3.And(P(a, n, x) < i, a[P(a, n, x)] == x), C(a, n, x) >= 2)], P(a, n, x) == i


def sums():
    A = z3.ArraySort(I, I)
    a = z3.Const('a', A)
    n, i, v = ints('n i v')
    for nm, S, f in (('integer', z3.Function('S', A, I, I), lambda t: t), ('real', z3.Function('SR', A, I, R), z3.Function('f', I, R))):
        dfn = lambda a, n: z3.And(z3.Implies(n <= 0, S(a, n) == 0), z3.Implies(n > 0, S(a, n) == S(a, n - 1) + f(a[n - 1])))
        st = z3.Store(a, i, v)
        claim = lambda n: z3.Implies(0 <= i, S(st, n) == z3.If(i < n, S(a, n) - f(a[i]) + f(v), S(a, n)))
        yield f'{nm} sum: one update (base)', [n <= 0, dfn(a, n), dfn(st, n)], claim(n)
        yield f'{nm} sum: one update (step)', [n > 0, dfn(a, n), dfn(st, n), claim(n - 1)], claim(n)


def residues():
    """RES(x) is the r with x = k*L + r, 0 <= r < L"""
    L, x, y, c, k, m = ints('L x y c k m')
    yield 'residue: shift', [x == y + k * L], (x + c) == (y + c) + k * L
    a, b, a1, b1, r, ka, kb, k1, k2, r1, r2 = ints('a b a1 b1 r ka kb k1 k2 r1 r2')
    small = lambda m: z3.And(m * L < L, m * L > -L)
    yield 'residue: a small multiple is 0', [L >= 3, small(m)], m == 0
    yield 'residue: equal modulo L (1)', [L >= 3, m == ka - kb - k1 + k2, m * L == ka * L - kb * L - k1 * L + k2 * L, a == ka * L + r, b == kb * L + r, a1 == k1 * L + r1, b1 == k2 * L + r2,
                                           0 <= r1, r1 < L, 0 <= r2, r2 < L, a1 - a == b1 - b], small(m)
    yield 'residue: equal modulo L (2)', [m == 0, m * L == ka * L - kb * L - k1 * L + k2 * L, a == ka * L + r, b == kb * L + r, a1 == k1 * L + r1, b1 == k2 * L + r2, a1 - a == b1 - b], r1 == r2
    yield 'residue: unique', [L >= 3, m == k1 - k2, m * L == k1 * L - k2 * L, a == k1 * L + r1, a == k2 * L + r2, 0 <= r1, r1 < L, 0 <= r2, r2 < L], z3.And(small(m), z3.Implies(m == 0, r1 == r2))
    yield 'residue: differences that are 0, L or -L', [L >= 3, m == ka - kb, m * L == ka * L - kb * L, a == ka * L + r, b == kb * L + r, a - b < 2 * L, b - a < 2 * L], z3.And(a - b == m * L, -2 < m, m < 2)
    yield 'residue: a step around', [L >= 3, z3.Or(a == b, a == b + L, a == b - L), b == kb * L + r], z3.Or(a == kb * L + r, a == (kb + 1) * L + r, a == (kb - 1) * L + r)


def occupied():
    """OCC(a) is O(a, N), the number of non-negative entries below N"""
    A = z3.ArraySort(I, I)
    a, b = z3.Consts('a b', A)
    n, s, j = ints('n s j')
    O = z3.Function('O', A, I, I)
    dfn = lambda a, n: z3.And(z3.Implies(n <= 0, O(a, n) == 0), z3.Implies(n > 0, O(a, n) == O(a, n - 1) + z3.If(a[n - 1] >= 0, 1, 0)))
    same = z3.ForAll([j], z3.Implies(j != s, (a[j] >= 0) == (b[j] >= 0)), patterns=[b[j]])
    h = [0 <= s, a[s] < 0, b[s] >= 0, same]
    claim = lambda n: O(b, n) == O(a, n) + z3.If(s < n, 1, 0)
    yield 'occupied: one more (base)', h + [n <= 0, dfn(a, n), dfn(b, n)], claim(n)
    yield 'occupied: one more (step)', h + [n > 0, dfn(a, n), dfn(b, n), claim(n - 1)], claim(n)
    all_ = lambda n: z3.Implies(O(a, n) == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), a[j] >= 0)))
    yield 'occupied: at most all', [z3.Implies(n > 0, O(a, n - 1) <= n - 1), n >= 0, dfn(a, n)], O(a, n) <= n
    yield 'occupied: all (base)', [n <= 0, dfn(a, n)], all_(n)
    yield 'occupied: all (step)', [n > 0, dfn(a, n), O(a, n - 1) <= n - 1, all_(n - 1)], all_(n)
    none = lambda n: z3.Implies(z3.ForAll([j], a[j] < 0), O(a, n) == 0)
    every = lambda n: z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), a[j] >= 0)), O(a, n) == n)
    yield 'occupied: every site (base)', [n == 0, dfn(a, n)], every(n)
    yield 'occupied: every site (step)', [n > 0, dfn(a, n), every(n - 1)], every(n)
    yield 'occupied: none (base)', [n <= 0, dfn(a, n)], none(n)
    yield 'occupied: none (step)', [n > 0, dfn(a, n), none(n - 1)], none(n)


def coincidences():
    """the variants of a contract cover all ways four numbers can coincide"""
    from contracts.core import PATTERNS
    g = z3.Ints('g0 g1 g2 g3')
    match = lambda p: z3.And([(g[i] == g[j]) == z3.BoolVal(p[i] == p[j]) for i in range(4) for j in range(i)])
    yield 'the variants cover all cases', [], z3.Or([match(p) for p in PATTERNS])


def walks():
    """along a walk of n steps from x0: position p(k), step d(k), displacement D(k) = sum of the steps so far"""
    p = z3.Function('p', I, I)
    d = z3.Function('d', I, I)
    D = z3.Function('D', I, I)
    r = z3.Function('r', I, I)
    k, n = ints('k n')
    step = [D(k + 1) == D(k) + d(k), r(p(k + 1)) == r(p(k)) + d(k)]
    yield 'walk: coordinates that change by the step give the displacement (base)', [D(0) == 0], r(p(0)) == r(p(0)) + D(0)
    yield 'walk: coordinates that change by the step give the displacement (step)', step + [r(p(k)) == r(p(0)) + D(k)], r(p(k + 1)) == r(p(0)) + D(k + 1)
    yield 'walk: a closed one then has no displacement', [r(p(n)) == r(p(0)) + D(n), p(n) == p(0)], D(n) == 0
    K = z3.Function('K', I, z3.BoolSort())
    yield 'walk: stays in a closed set (step)', [K(p(k)), z3.Implies(K(p(k)), K(p(k + 1)))], K(p(k + 1))


def starts():
    """the start of a simulation: clusters of one bond, no site listed"""
    A = z3.ArraySort(I, I)
    a = z3.Const('a', A)
    x, n, m = ints('x n m')
    C, P = z3.Function('C', A, I, I, I), z3.Function('P', A, I, I, I)
    yield 'count: a list of one element', [C(a, 0, x) == 0, C(a, 1, x) == C(a, 0, x) + z3.If(a[0] == x, 1, 0)], C(a, 1, x) == z3.If(a[0] == x, 1, 0)
    yield 'count: its place', [P(a, 1, a[0]) == z3.If(a[0] == a[0], 0, P(a, 0, a[0]))], P(a, 1, a[0]) == 0
    for v in (0, 1):
        S = z3.Function('S', A, I, I)
        all_ = lambda n: z3.Implies(z3.And([n >= 0, z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), a[x] == v))]), S(a, n) == v * n)
        yield f'sum of equal entries ({v}, base)', [S(a, 0) == 0], all_(z3.IntVal(0))
        yield f'sum of equal entries ({v}, step)', [n >= 0, S(a, n + 1) == S(a, n) + a[n], all_(n)], all_(n + 1)
    SR, f = z3.Function('SR', A, I, R), z3.Function('f', I, R)
    h, mr, nr, lm, li, mu = z3.Reals('h mr nr lm li mu')
    yield 'entropy of equal clusters (step)', [SR(a, n) == nr * h, SR(a, n + 1) == SR(a, n) + f(a[n]), f(a[n]) == h], SR(a, n + 1) == (nr + 1) * h
    # the entropy term of one bond is mu*log(mu) with mu = 1/M and log(1/M) = -log(M)
    yield 'entropy of clusters of one bond', [mr > 0, mu * mr == 1, h == mu * li, li == -lm, nr == mr], nr * h == -lm


def full_lattice():
    """hints of contracts/query.py: one cluster holds everything"""
    A = z3.ArraySort(I, I)
    a = z3.Const('a', A)
    x, n, g, Lx, q, r = ints('x n g L q r')
    S, SR, f = z3.Function('S', A, I, I), z3.Function('SR', A, I, R), z3.Function('f', I, R)
    for nm, F, h in (('integer', S, lambda t: t), ('real', SR, f)):
        zero = [f(0) == 0]
        part = lambda n: F(a, n) == z3.If(g < n, h(a[g]), 0)
        yield f'{nm} sum with one term (base)', zero + [F(a, 0) == 0, 0 <= g], part(z3.IntVal(0))
        yield f'{nm} sum with one term (step)', zero + [n >= 0, 0 <= g, F(a, n + 1) == F(a, n) + h(a[n]), part(n), z3.Or(n == g, a[n] == 0)], part(n + 1)
    m, mu, lg, h = z3.Reals('m mu lg h')
    yield 'the entropy term of all bonds: log 1 is 0', [m > 0, mu * m == m, z3.Implies(mu == 1, lg == 0), h == mu * lg], h == 0
    # along row 0 and then down every column: with v(r, c) the value at a position
    v = z3.Function('v', I, I, I)
    base = [Lx >= 3, 0 <= q, 0 <= r]
    yield 'equal neighbours: along the first row (step)', base + [r + 1 < Lx, v(0, r) == v(0, 0), v(0, r + 1) == v(0, r)], v(0, r + 1) == v(0, 0)
    yield 'equal neighbours: down a column (step)', base + [q + 1 < Lx, v(q, r) == v(0, 0), v(q + 1, r) == v(q, r)], v(q + 1, r) == v(0, 0)
    u = z3.Function('u', I, I)
    yield 'one up per step along the first row (step)', base + [r + 1 < Lx, u(r) == u(0) + r, u(r + 1) == u(r) + 1], u(r + 1) == u(0) + r + 1
    yield 'one up per step around the first row: impossible', [Lx >= 3, u(Lx - 1) == u(0) + Lx - 1, u(0) == u(Lx - 1) + 1], z3.BoolVal(False)


def first_places():
    """F(x) is the first place of x: with an inverse table g, g(e[j]) = j below n, it is g"""
    e, g, F = z3.Function('e', I, I), z3.Function('g', I, I), z3.Function('F', I, I)
    j, n = ints('j n')
    inv = lambda k: z3.Implies(z3.And(0 <= k, k < n), g(e(k)) == k)
    yield 'first place with an inverse table', [0 <= j, j < n, 0 <= F(e(j)), F(e(j)) <= j, e(F(e(j))) == e(j), inv(j), inv(F(e(j)))], F(e(j)) == j


GROUPS = [starts, full_lattice, first_places, arith, lattice, counting, sums, residues, occupied, coincidences, walks]


def prove(h, g):
    last = 'unknown'
    for mk in (lambda: z3.Solver(), lambda: z3.SolverFor('QF_NIA'), lambda: z3.Tactic('qfnra-nlsat').solver()):
        try:
            s = mk()
            s.set('rlimit', 20000000)
            for f in h:
                s.add(f)
            s.add(z3.Not(g))
            r = s.check()
        except z3.Z3Exception as e:
            last = str(e)
            continue
        if r == z3.unsat:
            return True, ''
        last = str(r)
    return False, last


def check_all():
    out = []
    for grp in GROUPS:
        for nm, h, g in grp():
            t = time.time()
            ok, info = prove(h, g)
            out.append(dict(name=nm, ok=ok, by='z3', info=info, t=round(time.time() - t, 3)))
    return out


THEOREMS = {'connected_of_closed': {'C05'}, 'closed_of_walk': {'C05', 'C06', 'C07'}, 'walk_heights': {'C06', 'C07'}, 'loop_of_no_heights': {'C07'}, 'no_loop_of_heights': {'C07'}}


def theorems(prop):
    """the Lean theorems that turn the contracts of a property into its wording"""
    names = [n for n, ps in THEOREMS.items() if prop in ps]
    if not names:
        return []
    t = time.time()
    try:
        r = subprocess.run(['lean', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'theorems', 'Walks.lean')], capture_output=True, text=True, timeout=120)
        out, rc = r.stdout + r.stderr, r.returncode
    except (OSError, subprocess.TimeoutExpired) as e:
        out, rc = str(e), 1
    t = round(time.time() - t, 2)
    res = []
    for n in names:
        m = re.search(r"'Percolation\.%s' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])" % n, out)
        ok = rc == 0 and m is not None and set((m.group(2) or '').replace(',', ' ').split()) <= {'propext', 'Classical.choice', 'Quot.sound'}
        res.append(dict(name='theorem ' + n, ok=ok, by='lean', info='' if ok else out[-300:], t=t / len(names)))
    return res


if __name__ == '__main__':
    for r in check_all():
        print('ok  ' if r['ok'] else 'FAIL', r['name'], r['t'], r['info'])
