"""Term-level helpers: the arithmetic the verifier uses, on top of z3.

Python ints are mathematical integers (exact in CPython too).  Python floats are treated as exact reals.
Products / quotients of two symbolic integers are kept as uninterpreted functions MUL / FDIV / FMOD together with
ground facts that are theorems of integer arithmetic (see lemmas.py, where each fact schema is itself discharged).
"""
import z3
from fractions import Fraction

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
MUL = z3.Function('MUL', I, I, I)
FDIV = z3.Function('FDIV', I, I, I)
FMOD = z3.Function('FMOD', I, I, I)
MULR = z3.Function('MULR', R, R, R)
RDIV = z3.Function('RDIV', R, R, R)
LOG = z3.Function('LOG', R, R)

NONE = z3.Int('NONE')      # how None is stored in an integer field (axiom: NONE < -1; every stored integer is shown to be larger)

_n = [0]


def fresh(prefix, sort):
    _n[0] += 1
    return z3.Const(f"{prefix}!{_n[0]}", sort)


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def is_intlike(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (is_sym(x) and x.sort() == I)


def is_boollike(x):
    return isinstance(x, bool) or (is_sym(x) and x.sort() == B)


def is_reallike(x):
    return isinstance(x, (Fraction, float)) or (is_sym(x) and x.sort() == R)


def is_num(x):
    return is_intlike(x) or is_boollike(x) or is_reallike(x)


def zint(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if x.sort() == B:
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def zreal(x):
    if isinstance(x, (bool, int)):
        return z3.RealVal(int(x))
    if isinstance(x, float):
        x = Fraction(x)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if x.sort() == B:
        x = zint(x)
    if x.sort() == I:
        return z3.ToReal(x)
    return x


def zbool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def to_z3(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, (float, Fraction)):
        return zreal(x)
    return x


def simp(x):
    """Fold to a Python value when the term is a literal."""
    if not is_sym(x):
        return x
    s = z3.simplify(x)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    if z3.is_int_value(s):
        return s.as_long()
    return x


def And(*xs):
    xs = [x for x in (list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return z3.BoolVal(False)
        if z3.is_true(x):
            continue
        out.append(x)
    if not out:
        return z3.BoolVal(True)
    return out[0] if len(out) == 1 else z3.And(out)


def Or(*xs):
    xs = [x for x in (list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return z3.BoolVal(True)
        out.append(x)
    if not out:
        return z3.BoolVal(False)
    return out[0] if len(out) == 1 else z3.Or(out)


def Not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def Ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return z3.If(c, a, b)


def sel(a, i):
    """a[i], looking through updates at the same or at a certainly different position"""
    i = zint(i)
    while z3.is_store(a):
        b, j, v = a.children()
        if j.eq(i):
            return v
        d = z3.simplify(i - j)
        if z3.is_int_value(d):
            if d.as_long() == 0:
                return v
            a = b
        else:
            break
    return z3.Select(a, i)


def store(a, i, v):
    i = zint(i)
    while z3.is_store(a) and a.children()[1].eq(i):
        a = a.children()[0]
    return z3.Store(a, i, v)


# ---------------------------------------------------------------- products
def _monomial(t):
    """z3 term t*u*... (from som form) -> (coeff, [factors])"""
    if z3.is_int_value(t):
        return t.as_long(), []
    if z3.is_mul(t):
        c, fs = 1, []
        for ch in t.children():
            c2, f2 = _monomial(ch)
            c *= c2
            fs += f2
        return c, fs
    if t.decl().kind() == z3.Z3_OP_UMINUS:
        c, fs = _monomial(t.children()[0])
        return -c, fs
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(t.children()[1]):
        return 1, [t.children()[0]] * t.children()[1].as_long()
    return 1, [t]


def _prod(fs):
    # one order for the factors everywhere: the side length last
    fs = sorted(fs, key=lambda f: (str(f.decl().name()) == 'L', str(f.decl().name()), f.get_id()))
    acc = fs[0]
    for f in fs[1:]:
        acc = MUL(acc, f)
    return acc


def addends(t):
    t = z3.simplify(t, som=True)
    if z3.is_add(t):
        return list(t.children())
    return [t]


def mul(a, b, native=False):
    if not is_sym(a) and not is_sym(b):
        return a * b
    if is_reallike(a) or is_reallike(b):
        a, b = zreal(a), zreal(b)
        if z3.is_rational_value(a) or z3.is_rational_value(b):
            return a * b
        key = lambda x: (z3.is_app(x) and x.decl().eq(LOG), x.get_id())      # a logarithm comes second, so that equal arguments give equal products
        if key(b) < key(a):
            a, b = b, a
        return MULR(a, b)
    a, b = zint(a), zint(b)
    if native or z3.is_int_value(a) or z3.is_int_value(b):
        return a * b
    total = None
    for t in addends(a * b):
        c, fs = _monomial(t)
        if not fs:
            term = z3.IntVal(c)
        else:
            p = _prod(fs) if len(fs) > 1 else fs[0]
            term = p if c == 1 else z3.IntVal(c) * p
        total = term if total is None else total + term
    return total


def mul_facts(t):
    """sign facts for every MUL occurring in t"""
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(MUL):
                p, q = x.children()
                out.append(z3.Implies(z3.And(p >= 0, q >= 0), x >= 0))
                out.append(z3.Implies(z3.And(p >= 1, q >= 1), z3.And(x >= p, x >= q)))
                out.append(z3.Implies(z3.And(p >= 3, q >= 1), x >= 3 * q))
                out.append(z3.Implies(z3.And(q >= 3, p >= 1), x >= 3 * p))
                out.append(z3.Implies(p == 0, x == 0))
                out.append(z3.Implies(q == 0, x == 0))
                out.append(z3.Implies(p == 1, x == q))
                out.append(z3.Implies(q == 1, x == p))
            for c in x.children():
                go(c)
    go(t)
    return out


def divmod_facts(a, b):
    """ground facts about floor division of a by b>0 (b symbolic)."""
    q, r = FDIV(a, b), FMOD(a, b)
    fs = [a == mul(q, b) + r, 0 <= r, r < b]
    for n in range(-3, 4):
        fs.append(z3.Implies(z3.And(n * b <= a, a < (n + 1) * b), z3.And(q == n, r == a - n * b)))
    fs.append(z3.Implies(a >= 0, q >= 0))
    # a = x*b + rest
    try:
        for t in addends(a):
            if z3.is_app(t) and t.decl().eq(MUL):
                x, y = t.children()
                for (u, v) in ((x, y), (y, x)):
                    if v.eq(b):
                        rest = z3.simplify(a - t)
                        for n in (-1, 0, 1):
                            fs.append(z3.Implies(z3.And(n * b <= rest, rest < (n + 1) * b),
                                                 z3.And(q == u + n, r == rest - n * b)))
    except z3.Z3Exception:
        pass
    # uniqueness against every product with b already normalised is added by lemma hints
    return [z3.Implies(b > 0, f) for f in fs]


def rdiv_facts(x, y):
    d = RDIV(x, y)
    return [z3.Implies(z3.And(x == y, y != 0), d == 1), z3.Implies(z3.And(x == 0, y != 0), d == 0),
            z3.Implies(z3.And(x > 0, y > 0), d > 0), z3.Implies(z3.And(x >= 0, y > 0), d >= 0),
            z3.Implies(z3.And(y > 0, x <= y), d <= 1), z3.Implies(z3.And(y > 0, x > y), d > 1)]


def subterms(t, pred, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return acc
    seen.add(t.get_id())
    if pred(t):
        acc.append(t)
    if z3.is_quantifier(t):
        subterms(t.body(), pred, acc, seen)
    else:
        for c in t.children():
            subterms(c, pred, acc, seen)
    return acc


def occurs(t, consts):
    """does any of consts (z3 consts) occur in t?"""
    ids = {c.get_id() for c in consts}
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in ids:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def free_consts(t):
    out, seen, stack = {}, set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.get_id()] = x
        stack.extend(x.children())
    return list(out.values())


_BADK = None


def pattern_safe(t):
    """may t occur in a quantifier pattern? (no connectives, conditionals or comparisons below it)"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in _safe:
            if not _safe[i][1]:
                return False
            continue
        if not z3.is_app(x) or x.decl().kind() == z3.Z3_OP_ITE or (z3.is_bool(x) and x.decl().kind() != z3.Z3_OP_UNINTERPRETED):
            _safe[t.get_id()] = (t, False)
            return False
        stack.extend(x.children())
    _safe[t.get_id()] = (t, True)
    return True


_safe = {}


SEEN = z3.Function('SEEN', I, B)        # true of everything; only mentions a term (trigger of quantifiers without another one)
