"""Frame obligations: everything outside the modified locations is as it was."""
import z3
from .terms import *
from .values import *
from .engine import Clause


def frame(c, fams=(), attrs=(), lists=(), rng=False, objs=(), name='frame', pool=False, props=None, given=()):
    """fams: family keys (or family names) that may change; attrs: attribute names of the simulation that may change;
    lists: attribute names whose list contents may change"""
    eng, a, b = c.eng, c.old_state, c.new.st
    out = []
    w = c.w
    okl = set()
    for nm in lists:
        v = a.objs[w.perc.oid].attrs.get(nm)
        if isinstance(v, ListRef):
            okl.add(v.oid)
    for loc in eng.diff(a, b, env=False):
        k = loc[0]
        if k == 'fam':
            if loc[1] in fams or loc[1][0] in fams or loc[1][:2] in fams:
                continue
            x, y = a.fam[loc[1]], b.fam[loc[1]]
            so = z3.IntSort()
            out.append(Clause(f'{name}: {loc[1][0]}.{loc[1][1]} unchanged', lambda i, x=x, y=y: z3.Select(x, i) == z3.Select(y, i), [('i', so)],
                              pats=lambda i, x=x, y=y: [z3.Select(y, i)]))
        elif k == 'attr':
            o, nm = loc[1], loc[2]
            if w.perc is not None and o == w.perc.oid and nm in attrs:
                continue
            if o in objs:
                continue
            u, v = a.objs[o].attrs.get(nm, UNBOUND), b.objs[o].attrs.get(nm, UNBOUND)
            who = a.objs[o].cls.name
            if u is UNBOUND:
                continue            # no contract reads an attribute that did not exist
            if is_num(u) and is_num(v):
                out.append(Clause(f'{name}: {who}.{nm} unchanged', lambda u=u, v=v: eng.cmp_eq_num(u, v)))
            elif isinstance(u, (Opt, type(None), EnumV, FRef)) and isinstance(v, (Opt, type(None), EnumV, FRef)):
                out.append(Clause(f'{name}: {who}.{nm} unchanged', lambda u=u, v=v: opt_eq(u, v)))
            elif isinstance(u, ListRef) and isinstance(v, ListRef):
                out += lists_equal(f'{name}: {who}.{nm} unchanged', View1(a), u, View1(b), v)
            else:
                raise Unsupported(f'frame of {who}.{nm}')
        elif k == 'list':
            o = loc[1]
            if o in okl or o in given or o not in a.lists:
                continue
            if o not in b.lists and pool:
                continue
            u, v = a.lists[o], b.lists[o]
            if pool and isinstance(u, FamList) and u.fam == 'OneCluster':
                continue
            if isinstance(u, FamList) and isinstance(v, FamList):
                out.append(Clause(f'{name}: {u.fam} list unchanged', lambda u=u, v=v: zint(u.n) == zint(v.n)))
                out.append(Clause(f'{name}: {u.fam} list stays filled', lambda i, v=v: z3.Implies(z3.And(0 <= i, i < zint(v.n)), z3.Select(v.present, i)), [('i', I)]))
            elif isinstance(v, tuple):
                raise Unsupported('a list of the caller was moved')
            else:
                out += lists_equal(f'{name}: a list is unchanged', View1(a), ListRef(o), View1(b), ListRef(o))
        elif k == 'ghost':
            if loc[1] == 'rng' and not rng:
                out.append(Clause(f'{name}: no random draw', lambda x=a.ghost.get('rng'), y=b.ghost.get('rng'): x == y))
        elif k in ('famver', 'frozen', 'env', 'moved'):
            continue
        elif k in ('set', 'dict'):
            continue
        elif k == 'events':
            out.append(Clause(f'{name}: no external effect', lambda: z3.BoolVal(False)))
    if props is not None:
        for cl in out:
            cl.props = set(props)
    return out


def opt_eq(u, v):
    def split(x):
        if x is None:
            return z3.BoolVal(True), z3.IntVal(0)
        if isinstance(x, Opt):
            n, val = zbool(x.isnone), x.val
        else:
            n, val = z3.BoolVal(False), x
        if isinstance(val, FRef):
            val = val.key
        if isinstance(val, EnumV):
            val = val.term
        return n, to_z3(val)
    (n1, x1), (n2, x2) = split(u), split(v)
    return z3.And(n1 == n2, z3.Implies(z3.Not(n1), x1 == x2))


class View1:
    def __init__(self, st): self.st = st


def arrays(st, ref):
    lv = st.lists[ref.oid]
    if isinstance(lv, SList):
        return zint(lv.n), list(lv.els)
    if isinstance(lv, CList):
        if not lv.items:
            return z3.IntVal(0), None
        ety = ety_of(lv.items[0])
        if ety is None:
            raise Unsupported('list contents')
        cols = list(zip(*[eunpack(ety, x) for x in lv.items]))
        out = []
        for col in cols:
            x = fresh('clv', z3.ArraySort(I, col[0].sort()))
            for i, y in enumerate(col):
                x = z3.Store(x, i, y)
            out.append(x)
        return z3.IntVal(len(lv.items)), out
    raise Unsupported('list contents')


def lists_equal(name, va, ra, vb, rb):
    n1, e1 = arrays(va.st, ra)
    n2, e2 = arrays(vb.st, rb)
    out = [Clause(name + ' (length)', lambda: n1 == n2)]
    if e1 and e2:
        out.append(Clause(name, lambda i: z3.Implies(z3.And(0 <= i, i < n1), z3.And([z3.Select(x, i) == z3.Select(y, i) for x, y in zip(e1, e2)])), [('i', I)]))
    return out
