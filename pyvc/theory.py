"""The mathematical vocabulary of the contracts and its axioms.

Every axiom here is discharged as a lemma in lemmas.py from explicit (recursive or arithmetic) definitions."""
import z3
from .terms import *

A1 = z3.ArraySort(I, I)
# occurrences of x among the first n elements, and one position of x
CNT = z3.Function('CNT', A1, I, I, I)
POS = z3.Function('POS', A1, I, I, I)
NB = [z3.Function(f'NB{d}', I, I) for d in range(4)]     # right, bottom, left, top
STEP = [(0, 1), (1, 0), (0, -1), (-1, 0)]
L = z3.Int('L')
N = MUL(L, L)
M = 2 * N

# sums over the clusters 0..M-1 of a function of the stored count
SUMI = z3.Function('SUMI', A1, I)
SUMH = z3.Function('SUMH', A1, R)


HF = z3.Function('HF', I, R)        # the entropy term of a cluster of c bonds


def Hfun(c):
    return HF(zint(c))


def hdef(c):
    """definition of HF (used as a hint where the code computes the term)"""
    return HF(zint(c)) == Hterm(c)


def hfull():
    """hint: the entropy term of a cluster of all bonds"""
    return HF(M) == 0


def Hterm(c):
    """mu*log(mu) for a cluster of c bonds (0 for an empty one), written the way Python computes it"""
    mu = RDIV(z3.ToReal(zint(c)), z3.ToReal(M))
    return z3.If(zint(c) == 0, z3.RealVal(0), mul(mu, LOG(mu)))


def E1(b):
    return z3.If(b < N, b, b - N)


def E2(b):
    return z3.If(b < N, NB[0](b), NB[1](b - N))


def BD(d, s):
    """id of the bond of site s in direction d"""
    return [s, s + N, NB[2](s), NB[3](s) + N][d]


def SITE(s):
    return z3.And(0 <= s, s < N)


def BOND(b):
    return z3.And(0 <= b, b < M)


def forall(vs, body, *pats):
    return z3.ForAll(vs, body, qid='thy ' + str(pats[0]).replace('\n', ' ')[:60], patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats])


def size_axioms():
    return [L >= 3, N >= 9, N >= 3 * L, NONE < -1]


def ROW(s):
    return FDIV(s, L)


def COL(s):
    return FMOD(s, L)


def position_axioms():
    """facts about row and column of a site (division with remainder)"""
    s = z3.Int('s?')
    body = z3.Implies(SITE(s), z3.And(0 <= ROW(s), ROW(s) < L, 0 <= COL(s), COL(s) < L, s == MUL(ROW(s), L) + COL(s),
                                      MUL(ROW(s), L) >= 0, MUL(ROW(s), L) + L <= N))
    return [forall([s], body, ROW(s)), forall([s], body, COL(s))]


def nb_def(d, s):
    """definition of the neighbour in direction d (right, bottom, left, top)"""
    return [z3.If(COL(s) + 1 == L, s + 1 - L, s + 1), z3.If(s + L >= N, s + L - N, s + L),
            z3.If(COL(s) == 0, s + L - 1, s - 1), z3.If(s < L, s - L + N, s - L)][d]


def nb_rel(d, s, n):
    """row and column of the neighbour (consequence of the definition, see lemmas.py)"""
    if d == 0:
        return z3.And(ROW(n) == ROW(s), COL(n) == z3.If(COL(s) + 1 == L, 0, COL(s) + 1))
    if d == 1:
        return z3.And(COL(n) == COL(s), ROW(n) == z3.If(ROW(s) + 1 == L, 0, ROW(s) + 1))
    if d == 2:
        return z3.And(ROW(n) == ROW(s), COL(n) == z3.If(COL(s) == 0, L - 1, COL(s) - 1))
    return z3.And(COL(n) == COL(s), ROW(n) == z3.If(ROW(s) == 0, L - 1, ROW(s) - 1))


def nb_inst(d, s):
    n = NB[d](s)
    return z3.Implies(SITE(s), z3.And(SITE(n), n == nb_def(d, s), n != s, nb_rel(d, s, n), NB[(d + 2) % 4](n) == s))


def rowcol_inst(r, c):
    """a position determines its id and back"""
    i = mul(r, L) + c
    return z3.Implies(z3.And(0 <= r, r < L, 0 <= c, c < L), z3.And(ROW(i) == r, COL(i) == c, SITE(i)))


def neighbour_axioms():
    s = z3.Int('s?')
    out = [forall([s], nb_inst(d, s), NB[d](s)) for d in range(4)]
    out.append(forall([s], z3.Implies(SITE(s), z3.Distinct([NB[d](s) for d in range(4)])), (NB[0](s), NB[1](s))))
    return out


def count_axioms():
    a = z3.Const('a?', A1)
    n, x = z3.Ints('n? x?')
    c = CNT(a, n, x)
    p = POS(a, n, x)
    return [forall([a, n, x], z3.And(c >= 0, z3.Implies(c >= 1, z3.And(0 <= p, p < n, a[p] == x)), z3.Implies(n <= 0, c == 0)), c)]


def cnt_append(el, n, v, E=None, n1=None):
    x = z3.Int('x?')
    t = CNT(z3.Store(el, n, v) if E is None else E, n + 1 if n1 is None else n1, x)
    return forall([x], z3.Implies(n >= 0, t == CNT(el, n, x) + z3.If(x == v, 1, 0)), t)


def cnt_concat(E, n, e1, n1, e2, n2):
    x = z3.Int('x?')
    t = CNT(E, n, x)
    return forall([x], t == CNT(e1, n1, x) + CNT(e2, n2, x), t)


def cnt_member(el, n, i):
    """hint: an element of the list is counted"""
    return z3.Implies(z3.And(0 <= i, i < n), CNT(el, n, el[i]) >= 1)


def pos_unique(el, n, i):
    """hint: the only occurrence is where POS says"""
    return z3.Implies(z3.And(0 <= i, i < n, CNT(el, n, el[i]) == 1), POS(el, n, el[i]) == i)


COUNTED = {'OneCluster'}        # families whose lists and list lengths come with count and sum facts


def sum_store(A, i, v, S=None, entropy=True):
    """effect of one update on the sums"""
    S = z3.Store(A, i, v) if S is None else S
    o = sel(A, i)
    f = [SUMI(S) == SUMI(A) - o + v]
    if entropy:
        f.append(SUMH(S) == SUMH(A) - Hfun(o) + Hfun(v))
    return z3.Implies(z3.And(0 <= i, i < M), z3.And(f))


def res_shift(x, y, c=0):
    """hint: equal numbers have equal residues"""
    return z3.Implies(x == y, RES(x) == RES(y))


def res_move(a, b, c, a1, b1):
    """hint: residues of a and b agree, both move by c"""
    return z3.Implies(z3.And(RES(a) == RES(b), a1 == a + c, b1 == b + c), RES(a1) == RES(b1))


def res_wrap(a, b):
    """hint: numbers that differ by 0, L or -L have the same residue"""
    return z3.Implies(z3.Or(a == b, a == b + L, a == b - L), RES(a) == RES(b))


def res_small(a, b):
    """hint: equal residues modulo L, difference smaller than ... : the difference is 0, L or -L"""
    return z3.Implies(z3.And(RES(a) == RES(b), a - b < 2 * L, b - a < 2 * L), z3.Or(a == b, a == b + L, a == b - L))


OCC = z3.Function('OCC', A1, I)     # number of sites with a non-negative entry


def occ_step(A, A2, s):
    """hint: one more site becomes non-negative"""
    x = z3.Int('x?')
    same = z3.ForAll([x], z3.Implies(z3.And(SITE(x), x != s), (A[x] >= 0) == (A2[x] >= 0)), patterns=[A2[x]])
    return z3.Implies(z3.And(SITE(s), A[s] < 0, A2[s] >= 0, same), OCC(A2) == OCC(A) + 1)


def cnt_one(e, x):
    """hint: a list of one element"""
    return CNT(e, 1, x) == z3.If(e[0] == x, 1, 0)


def pos_one(e):
    return POS(e, 1, e[0]) == 0


def all_are(A, dom, v):
    x = z3.Int('x?')
    return z3.ForAll([x], z3.Implies(dom(x), A[x] == v), patterns=[A[x]])


def clusters_(x):
    return z3.And(0 <= x, x < M)


def sum_ones(A):
    """hint: M clusters of one bond"""
    return z3.Implies(all_are(A, clusters_, 1), z3.And(SUMI(A) == M, SUMH(A) == -LOG(z3.ToReal(M))))


def sum_zeros(A):
    return z3.Implies(all_are(A, clusters_, 0), SUMI(A) == 0)


def occ_full(A):
    x = z3.Int('x?')
    return z3.Implies(z3.ForAll([x], z3.Implies(SITE(x), A[x] >= 0), patterns=[A[x]]), OCC(A) == N)


def occ_none(A):
    x = z3.Int('x?')
    return z3.Implies(z3.ForAll([x], z3.Implies(SITE(x), A[x] < 0), patterns=[A[x]]), OCC(A) == 0)


RES = z3.Function('RES', I, I)      # residue class modulo L


def axioms():
    x = z3.Int('x?')
    return [forall([x], SEEN(x), SEEN(x))] + size_axioms() + position_axioms() + neighbour_axioms() + count_axioms()
