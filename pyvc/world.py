"""Symbolic starting states for function contracts, and views that name the parts of a state."""
import z3
from .terms import *
from .values import *
from . import theory as T
from . import schema

AB = z3.ArraySort(I, B)
AA = z3.ArraySort(I, T.A1)


def fam_keys(fam):
    out = []
    for f, ty in schema.FAMS[fam].items():
        if ty in ('int', 'nint'):
            out.append(((fam, f, 0), T.A1))
        elif ty == 'bool':
            out.append(((fam, f, 0), AB))
        elif ty == 'ilist':
            out += [((fam, f, 'len'), T.A1), ((fam, f, 'el'), AA)]
        elif isinstance(ty, tuple) and ty[0] == 'idx':
            out += [((fam, f, 0), T.A1), ((fam, f, 1), T.A1)]
    return out


class World:
    """builds a state holding one lattice, one cluster pool and one simulation object"""
    def __init__(self, eng, axioms=None):
        self.eng = eng
        self.st = st = State()
        st.ghost['rng'] = fresh('rng', I)
        for fam in ('Site', 'Bond', 'OneCluster'):
            for k, so in fam_keys(fam):
                st.fam[k] = fresh('F_' + '_'.join(map(str, k)), so)
            st.famver[fam] = 0
        for a in (axioms if axioms is not None else T.axioms()):
            st.add(a)
        self.lat = self.pool = self.perc = None

    def cls(self, n):
        return self.eng.prog.classes[n]

    def lattice(self, extra=True):
        st, eng = self.st, self.eng
        N, M = T.N, T.M
        full = z3.K(I, z3.BoolVal(True))
        sm = eng.new_list(st, FamList('Site', N, full))
        bm = eng.new_list(st, FamList('Bond', M, full))
        attrs = dict(length=T.L, bond_count=M, site_count=N, site_matrix=sm, bond_matrix=bm, site_ids=RangeV(0, N), bond_ids=RangeV(0, M))
        self.lat = eng.new_obj(st, self.cls('Lattice'), attrs)
        return self.lat

    def cluster_pool(self, n=None):
        st, eng = self.st, self.eng
        n = T.M if n is None else n
        cl = eng.new_list(st, FamList('OneCluster', n, z3.K(I, z3.BoolVal(True))))
        self.pool = eng.new_obj(st, self.cls('ClusterPool'), dict(cluster_list=cl, cluster_id=n))
        return self.pool

    def value(self, ty, nm):
        st, eng = self.st, self.eng
        if ty == 'int':
            return fresh(nm, I)
        if ty == 'real':
            return fresh(nm, R)
        if ty == 'bool':
            return fresh(nm, B)
        if ty == 'optint':
            return Opt(fresh(nm + '_none', B), fresh(nm, I))
        if ty == 'optsite':
            return Opt(fresh(nm + '_none', B), FRef('Site', fresh(nm, I), 0))
        if ty == 'optenum':
            return Opt(fresh(nm + '_none', B), EnumV(self.cls('SelectionState'), fresh(nm, I)))
        if ty == 'str':
            return StrV([('fmt', '', Opaque('signature', fresh(nm, I)))])
        if ty.startswith('list:'):
            n = fresh(nm + '_n', I)
            st.add(n >= 0)
            return eng.new_list(st, SList(n, ty[5:], [fresh(nm, z3.ArraySort(I, so)) for so in esorts(ty[5:])]))
        raise KeyError(ty)

    def simulation(self, cls='SitePercolation', drop=()):
        st, eng = self.st, self.eng
        ci = self.cls(cls)
        if self.lat is None:
            self.lattice()
        if self.pool is None:
            self.cluster_pool()
        attrs = dict(lattice_ref=self.lat, cluster_pool_ref=self.pool)
        types = dict(schema.PERC_ATTRS)
        for c in ci.mro():
            types.update(schema.SUB_ATTRS.get(c.name, {}))
        for nm, ty in types.items():
            if nm not in drop:
                attrs[nm] = self.value(ty, nm)
        self.perc = eng.new_obj(st, ci, attrs)
        return self.perc


class View:
    """accessors for one state"""
    def __init__(self, w, st):
        self.w, self.st = w, st

    # families
    def f(self, fam, field, part=0):
        return self.st.fam[(fam, field, part)]

    sg = property(lambda s: s.f('Site', 'g_id'))
    bg = property(lambda s: s.f('Bond', 'g_id'))
    sid = property(lambda s: s.f('Site', 'id'))
    bid = property(lambda s: s.f('Bond', 'id'))
    srow = property(lambda s: s.f('Site', 'index', 0))
    scol = property(lambda s: s.f('Site', 'index', 1))
    rx = property(lambda s: s.f('Site', 'relative_index', 0))
    ry = property(lambda s: s.f('Site', 'relative_index', 1))
    nn1 = property(lambda s: s.f('Site', 'first_nn_count'))
    nn2 = property(lambda s: s.f('Site', 'second_directional_nn_count'))
    cbl = property(lambda s: s.f('Site', 'connecting_bond_ids', 'len'))
    cbe = property(lambda s: s.f('Site', 'connecting_bond_ids', 'el'))
    csl = property(lambda s: s.f('Bond', 'connected_site_ids', 'len'))
    cse = property(lambda s: s.f('Bond', 'connected_site_ids', 'el'))
    btype = property(lambda s: s.f('Bond', 'type'))
    brow = property(lambda s: s.f('Bond', 'row'))
    bcol = property(lambda s: s.f('Bond', 'col'))
    clbl = property(lambda s: s.f('OneCluster', 'bond_ids', 'len'))
    clbe = property(lambda s: s.f('OneCluster', 'bond_ids', 'el'))
    clsl = property(lambda s: s.f('OneCluster', 'site_ids', 'len'))
    clse = property(lambda s: s.f('OneCluster', 'site_ids', 'el'))
    cgid = property(lambda s: s.f('OneCluster', 'gid'))
    cid = property(lambda s: s.f('OneCluster', 'id'))
    rng = property(lambda s: s.st.ghost['rng'])

    # objects
    def a(self, name, obj=None):
        o = obj or self.w.perc
        return self.st.objs[o.oid].attrs.get(name, UNBOUND)

    def la(self, name):
        return self.a(name, self.w.lat)

    def pa(self, name):
        return self.a(name, self.w.pool)

    def i(self, name):
        v = self.a(name)
        if not is_num(v):
            raise Unsupported(f'{name} is not a number here')
        return zint(v)

    def r(self, name):
        v = self.a(name)
        if not is_num(v):
            raise Unsupported(f'{name} is not a number here')
        return zreal(v)

    def b(self, name):
        v = self.a(name)
        if not is_boollike(v):
            raise Unsupported(f'{name} is not a bool here')
        return zbool(v)

    def none(self, name):
        """is the attribute None?"""
        v = self.a(name)
        if v is None:
            return z3.BoolVal(True)
        if isinstance(v, Opt):
            return zbool(v.isnone)
        if v is UNBOUND:
            raise Unsupported(name + ' may be missing')
        return z3.BoolVal(False)

    def oi(self, name):
        """integer inside an optional"""
        v = self.a(name)
        if v is None:
            return z3.IntVal(-7)
        v = v.val if isinstance(v, Opt) else v
        if isinstance(v, FRef):
            return zint(v.key)
        if isinstance(v, EnumV):
            return zint(v.term)
        if not is_num(v):
            raise Unsupported(name)
        return zint(v)

    def lst(self, ref):
        """(n, [arrays]) of a list value"""
        lv = self.st.lists[ref.oid]
        if isinstance(lv, SList):
            return zint(lv.n), list(lv.els)
        if isinstance(lv, CList):
            if not lv.items:
                return z3.IntVal(0), [None]
            vs = [eunpack(ety_of(x), x) for x in lv.items]
            arrs = []
            for j in range(len(vs[0])):
                a = fresh('clv', z3.ArraySort(I, vs[0][j].sort()))
                for i, v in enumerate(vs):
                    a = z3.Store(a, i, v[j])
                arrs.append(a)
            return z3.IntVal(len(lv.items)), arrs
        raise Unsupported('list view')

    def ln(self, name):
        v = self.a(name)
        if not isinstance(v, ListRef):
            raise Unsupported(name + ' is not a list')
        return self.lst(v)[0]

    def le(self, name):
        v = self.a(name)
        if not isinstance(v, ListRef):
            raise Unsupported(name + ' is not a list')
        return self.lst(v)[1][0]
