"""Proof queries: theory facts for products/quotients, z3 with E-matching (no model-based instantiation)."""
import z3
import time
from .terms import *

STATS = {'queries': 0, 'z3_s': 0.0}


_NAMES = {MUL.name(), FDIV.name(), FMOD.name(), RDIV.name(), LOG.name()}
_memo = {}          # node id -> (node, frozenset of ids of relevant applications below it)
_terms = {}
_EMPTY = frozenset()


def _apps1(f):
    """ids of the ground applications of MUL, FDIV, ... in f; every node is visited once per process"""
    i0 = f.get_id()
    if i0 in _memo:
        return _memo[i0][1]
    stack = [(f, None)]
    while stack:
        x, ch = stack.pop()
        i = x.get_id()
        if ch is None:
            if i in _memo:
                continue
            if not z3.is_app(x):
                _memo[i] = (x, _EMPTY)      # terms under binders get no ground facts (hints provide the instances needed)
                continue
            ch = x.children()
            if not ch:
                _memo[i] = (x, _EMPTY)
                continue
            todo = [c for c in ch if c.get_id() not in _memo]
            if todo:
                stack.append((x, ch))
                for c in todo:
                    stack.append((c, None))
                continue
        acc = None
        for c in ch:
            r = _memo[c.get_id()][1]
            if r:
                acc = r if acc is None or acc is r else (acc if r <= acc else acc | r)
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in _NAMES:
            _terms[i] = x
            acc = (acc or _EMPTY) | {i}
        _memo[i] = (x, acc or _EMPTY)
    return _memo[i0][1]


def _apps(fs):
    ids = set()
    for f in fs:
        ids |= _apps1(f)
    return [_terms[i] for i in sorted(ids)]


_factcache = {}
_paircache = {}


_appfacts = {}


def _app_facts(t):
    i = t.get_id()
    if i not in _appfacts:
        d = t.decl()
        if d.eq(MUL):
            fs = mul_facts1(t)
        elif d.eq(FDIV) or d.eq(FMOD):
            fs = divmod_facts(*t.children())
        elif d.eq(RDIV):
            fs = rdiv_facts(*t.children())
        else:
            fs = [z3.Implies(t.children()[0] == 1, t == 0)]
        _appfacts[i] = (t, fs)
    return _appfacts[i][1]


def _facts_of(f):
    """facts about the products, quotients and logarithms occurring in f (transitively); cached"""
    i = f.get_id()
    if i in _factcache:
        return _factcache[i][1:]
    facts, done, muls = [], set(), {}
    cur = [f]
    for _ in range(3):
        new = []
        for t in _apps(cur):
            if t.get_id() in done:
                continue
            done.add(t.get_id())
            if t.decl().eq(MUL):
                muls[t.get_id()] = t
            new += _app_facts(t)
        facts += new
        cur = new
        if not new:
            break
    _factcache[i] = (f, facts, muls)
    return facts, muls


def theory_facts(fs):
    facts, muls, seen = [], {}, set()
    for f in fs:
        ff, mm = _facts_of(f)
        for x in ff:
            if x.get_id() not in seen:
                seen.add(x.get_id())
                facts.append(x)
        muls.update(mm)
    ms = list(muls.values())
    if len(ms) <= 40:
        for i in range(len(ms)):
            for j in range(i + 1, len(ms)):
                key = (ms[i].get_id(), ms[j].get_id())
                if key not in _paircache:
                    _paircache[key] = (ms[i], ms[j], mul_pair(ms[i], ms[j]))
                facts += _paircache[key][2]
    return facts


def mul_facts1(x):
    p, q = x.children()
    return [z3.Implies(z3.And(p >= 0, q >= 0), x >= 0),
            z3.Implies(z3.And(p >= 1, q >= 1), z3.And(x >= p, x >= q)),
            z3.Implies(z3.And(p >= 3, q >= 1), x >= 3 * q),
            z3.Implies(z3.And(q >= 3, p >= 1), x >= 3 * p),
            z3.Implies(p == 0, x == 0), z3.Implies(q == 0, x == 0),
            z3.Implies(p == 1, x == q), z3.Implies(q == 1, x == p),
            z3.Implies(p == -1, x == -q), z3.Implies(q == -1, x == -p)]


def mul_pair(x, y):
    """a < b and c >= 1  ==>  a*c + c <= b*c   (and the mirror image)"""
    out = []
    for (a, c) in (x.children(), reversed(x.children())):
        for (b, d) in (y.children(), reversed(y.children())):
            if c.eq(d) and not a.eq(b):
                out.append(z3.Implies(z3.And(c >= 1, a < b), x + c <= y))
                out.append(z3.Implies(z3.And(c >= 1, b < a), y + c <= x))
                out.append(z3.Implies(a == b, x == y))
    return out


def has_quant(f):
    seen, stack = set(), [f]
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
    return False


def reset():
    pass


def cvc5_try(hyps, goal, hints):
    return False


def new_solver(rlimit, ext=True, seed=0):
    s = z3.SimpleSolver()
    if seed:
        s.set('random_seed', seed)
    s.set('array.extensional', ext)
    s.set('auto_config', False)
    s.set('mbqi', False)
    s.set('rlimit', rlimit)
    return s


def split_goal(hyps, goal):
    """break a goal into (extra hypotheses, goal) pieces; outer universal quantifiers become arbitrary constants"""
    out = []
    stack = [([], zbool(goal))]
    while stack:
        hs, g = stack.pop()
        if z3.is_quantifier(g) and g.is_forall():
            vs = [fresh('sk_' + g.var_name(i).replace('!', '_'), g.var_sort(i)) for i in range(g.num_vars())]
            stack.append((hs, z3.substitute_vars(g.body(), *reversed(vs))))
        elif z3.is_and(g):
            for c in reversed(g.children()):
                stack.append((hs, c))
        elif z3.is_implies(g):
            a, b = g.children()
            stack.append((hs + [a], b))
        elif z3.is_eq(g) and g.children()[0].sort() == B and any(has_quant(c) for c in g.children()):
            a, b = g.children()
            stack.append((hs + [b], a))
            stack.append((hs + [a], b))
        else:
            out.append((hs, g))
    return out


def prove_parts(hyps, goal, hints=(), rlimit=4000000, want_model=False, seed=0):
    for hs, g in split_goal(hyps, goal):
        ok, info = prove(list(hyps) + hs, g, hints, rlimit, want_model, seed)
        if not ok:
            return False, info
    return True, ''


def prove(hyps, goal, hints=(), rlimit=4000000, want_model=False, seed=0):
    """-> (True, info) when hyps |= goal"""
    STATS['queries'] += 1
    t = time.time()
    goal = zbool(goal)
    fs = list(hyps) + list(hints) + [z3.Not(goal)]
    tf = theory_facts(fs)
    for ext in (False, True):       # extensionality multiplies terms and is hardly ever needed
        s = new_solver(rlimit, ext, seed)
        for f in fs:
            s.add(f)
        for f in tf:
            s.add(f)
        r = s.check()
        if r == z3.unsat:
            break
    STATS['z3_s'] += time.time() - t
    if r == z3.unsat:
        return True, ''
    info = str(r) + ' ' + (s.reason_unknown() if r == z3.unknown else '')
    if want_model:
        try:
            m = s.model()
            info += '\n' + '\n'.join(f'{d.name()} = {str(m[d])[:80]}' for d in m.decls() if d.arity() == 0)[:3000]
        except z3.Z3Exception:
            pass
    return False, info
