"""Where two curves cross (C27)."""
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract, clause
from pyvc.world import World
from pyvc.drive import SGN, A1R
from .core import tag

_j, _r = z3.Ints('j? r?')


def jump(a, b, j):
    """by how much the sign of the difference changes after sample j"""
    d = SGN(a[j + 1] - b[j + 1]) - SGN(a[j] - b[j])
    return z3.If(d >= 0, d, -d)


def first_sharpest(a, b, n, r):
    return z3.And(0 <= r, r < n - 1, z3.ForAll([_j], z3.Implies(z3.And(SEEN(_j), 0 <= _j, _j < n - 1), z3.And(jump(a, b, _j) <= jump(a, b, r), z3.Implies(_j < r, jump(a, b, _j) < jump(a, b, r)))), patterns=[SEEN(_j)]))


class Intersection(Contract):
    key = 'lines:find_intersection'
    props = {'C27'}
    variants = ('', 'column')
    flat = True

    def setup(self, eng, variant):
        w = World(eng, axioms=[])
        n = fresh('samples', I)
        w.st.add(n >= 2)
        self.n = n
        if variant == '':
            self.a, self.b = fresh('a', A1R), fresh('b', A1R)
            self.refs = [eng.nd(w.st, n, self.a), eng.nd(w.st, n, self.b)]
            return w, list(self.refs), {}
        A = z3.ArraySort(I, A1R)
        c = fresh('col', I)
        x, y = fresh('a', A), fresh('b', A)
        self.a, self.b, self.refs = x[c], y[c], []
        return w, [Nd2V(n, x), Nd2V(n, y)], {'col': c}

    def loop_invs(self, eng, st, s0, stack, k):
        a, b, n, out = self.a, self.b, self.n, []
        cells = [(nm, x) for nm, x in sorted(s0.env.items()) if is_num(x) and is_sym(x)]
        for nm, x in cells:
            if not is_intlike(x) or z3.is_bool(x):
                continue
            x = zint(x)
            for off in (0, 1):
                out.append((f'{nm} is the sharpest of the samples so far ({off})', lambda t, x=x, off=off: z3.And(0 <= x, x < n - 1, z3.ForAll([_j], z3.Implies(z3.And(SEEN(_j), 0 <= _j, _j < t + off), z3.And(jump(a, b, _j) <= jump(a, b, x), z3.Implies(_j < x, jump(a, b, _j) < jump(a, b, x)))), patterns=[SEEN(_j)]))))
            for nm2, y in cells:
                if is_reallike(y):
                    out.append((f'{nm2} is the jump at {nm}', lambda t, x=x, y=y: y == jump(a, b, x)))
        return out

    def ensures(self, c):
        if not is_num(c.res) or is_reallike(c.res):
            return [clause('an index', lambda: z3.BoolVal(False))]
        a, b, n, r = self.a, self.b, self.n, zint(c.res)
        rng = lambda j: z3.And(0 <= j, j < n - 1)
        V = [('j', I)]
        see = lambda j: [SEEN(j), SEEN(r)]
        out = [clause('an index between two samples', lambda: rng(r)),
               clause('no sharper change of sign', lambda j: z3.Implies(rng(j), jump(a, b, j) <= jump(a, b, r)), V, lambda j: [SEEN(j)], see),
               clause('no change of sign as sharp before it', lambda j: z3.Implies(z3.And(rng(j), j < r), jump(a, b, j) < jump(a, b, r)), V, lambda j: [SEEN(j)], see),
               clause('the only such index, whichever curve is given first', lambda x: z3.Implies(first_sharpest(b, a, n, x), x == r), [('x', I)], lambda x: [SEEN(x)], lambda x: [SEEN(x), SEEN(r)])]
        for nm, ref, e in zip(('first', 'second'), self.refs, (a, b)):
            l = c.new.st.lists[ref.oid]
            out.append(clause(f'the {nm} curve is not changed', lambda l=l, e=e: z3.And(zint(l.n) == n, l.els[0] == e)))
        return out


CONTRACTS = [Intersection]
