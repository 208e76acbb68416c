"""The ensemble drivers (C22, C23) and the parallel drivers (C24)."""
import ast
import re
import z3
from pyvc.terms import *
from pyvc.values import *
from pyvc.contract import Contract, clause
from pyvc.world import World
from pyvc import drive as D
from .core import tag

_t = z3.Int('t?')
EN, TH, LEN, SEED, CLS = z3.Ints('E thread_count length seed cls')
COLUMNS = {'entropy': ['p', 'H', 'P1', 'P2'], 'critical': ['pc', 'wrapping cluster site count at pc', 'wrapping cluster bond count at pc'], 'path': ['pc', 'p*']}
KEYS = {'entropy': '_entropy_order_L', 'critical': '_critical_values_L', 'path': '_shortest_path_p_L'}
ROWS = {'critical': ['get_pc', 'get_site_count_wrapping_cluster_pc', 'get_bond_count_wrapping_cluster_pc'], 'path': ['get_pc', 'get_shortest_path_p']}
true = lambda ok: (lambda: z3.BoolVal(bool(ok)))


def world(eng, axioms):
    w = World(eng, axioms=axioms)
    g = w.st.ghost
    g['sims'], g['runs'], g['procs'], g['total'] = [z3.IntVal(0)] * 4
    for nm in D.PROC:
        g['p ' + nm] = fresh('p_' + nm, z3.ArraySort(I, I))
    g['started'], g['joined'] = fresh('started', D.AB), fresh('joined', D.AB)
    return w


def text(v):
    """a text with its inserted values replaced by marks -> (text, values)"""
    out, vals = '', []
    for p in (v.parts if isinstance(v, StrV) else [v] if isinstance(v, str) else []):
        if isinstance(p, str):
            out += p
            continue
        x = p[2] if p[0] == 'fmt' and p[1] == '' and len(p) > 2 else None
        if isinstance(x, Opaque) and x.name in ('signature', 'strftime', 'json'):
            out += f'<{x.name}{len(vals)}>'
        elif is_num(x) and not is_reallike(x):
            out += f'<num{len(vals)}>'
        else:
            out += '<?>'
        vals.append(x)
    return out, vals


def num(s, vals):
    m = re.fullmatch(r'<num(\d+)>', s)
    return zint(vals[int(m.group(1))]) if m else z3.IntVal(int(s))


def same_number(x, y):
    return zint(x) == zint(y) if is_num(x) and not is_reallike(x) else z3.BoolVal(False)


NUM = r'(<num\d+>|\d+)'


class Ensemble(Contract):
    """runs E realizations and writes the mean of their data arrays and one row for each"""
    rows = True
    kinds = ()
    numbered = True          # takes a process number
    seeded = False
    props = {'C22', 'C23', 'C25'}
    rlimit = 20000000

    @property
    def variants(self):
        return ('', 'seed') if self.seeded else ('',)

    def setup(self, eng, variant):
        w = world(eng, D.axioms())
        w.st.add(EN >= 1, LEN >= 1)
        kw = {'thread_count': TH} if self.numbered else {}
        if variant == 'seed':
            kw['seed'] = SEED
        self.variant = variant
        return w, [SymClassV(CLS), LEN, EN], kw

    def realization(self, h):
        """made with the length asked for"""
        out = [clause('the length asked for', lambda: z3.And(D.LENOF(h) == LEN, D.CLSOF(h) == CLS))]
        out = tag(out, {'C22', 'C23', 'C25'})
        if self.seeded:
            out += tag([clause('the seed asked for', lambda: z3.And(D.SEEDED(h) == (self.variant == 'seed'), z3.Implies(D.SEEDED(h), D.SEEDOF(h) == SEED)))], {'C25'})
        return out

    def each(self, n):
        return [clause('each realization: ' + cl.name, lambda t, i=i: z3.Implies(z3.And(0 <= t, t < n), self.realization(D.RL[t])[i].body()), [('t', I)], lambda t: [D.RL[t]], props=cl.props) for i, cl in enumerate(self.realization(z3.IntVal(0)))]

    def mean_of(self, lv, n, div=None):
        v = lambda j: D.SUMF(n, j) if div is None else RDIV(D.SUMF(n, j), z3.ToReal(div))
        return tag([clause('as many entries as each data array', lambda: zint(lv.n) == D.NDS(LEN)),
                    clause('entry by entry the ' + ('sum' if div is None else 'mean') + ' over the realizations', lambda j: lv.els[0][j] == v(j), [('j', I)], lambda j: [lv.els[0][j]])], {'C22'})

    def rows_of(self, lv, n, kind):
        f = [D.GETF[m] for m in ROWS[kind]]
        if len(lv.els) != len(f):
            return []
        return tag([clause(kind + ': one row for each realization', lambda: zint(lv.n) == n)] +
                   [clause(f'{kind}: row by row {ROWS[kind][i]}', lambda t, i=i: z3.Implies(z3.And(0 <= t, t < n), lv.els[i][t] == f[i](D.RL[t])), [('t', I)], lambda t, i=i: [lv.els[i][t]]) for i in range(len(f))], {'C22'})

    def loop_invs(self, eng, st, s0, stack, k):
        if stack:
            return []
        n = s0.ghost['runs']
        out = [clause('realizations counted', lambda: n >= 0)] + self.each(n)
        for key, h in s0.ghost.items():
            if key.startswith('sim') and key != 'sims':
                out += [clause(f'{key}: {cl.name}', cl.body, props=cl.props) for cl in self.realization(h)]
        for nm, v in sorted(s0.env.items()):
            if isinstance(v, NdRef):
                out += self.mean_of(s0.lists[v.oid], n)
            elif isinstance(v, ListRef) and isinstance(s0.lists[v.oid], SList):
                for kind in self.kinds:
                    if kind in ROWS:
                        out += self.rows_of(s0.lists[v.oid], n, kind)
        return [(cl.name, lambda t, cl=cl: cl.hyp()) for cl in out if eng.wanted(cl)]

    def ensures(self, c):
        s = c.new.st
        files, clocks = {}, []
        out = tag([clause('as many realizations as asked for', lambda: s.ghost['runs'] == EN)], {'C22'}) + self.each(s.ghost['runs'])
        ev = [e for e in s.events if e[0] == 'savetxt']
        for kind in self.kinds:
            got = [e for e in ev if KEYS[kind] in text(e[1])[0]]
            out.append(clause(kind + ': one file', true(len(got) == 1), props={'C22', 'C23'}))
            if len(got) == 1:
                out += self.contents(kind, got[0], s) + self.described(kind, got[0], s)
        out.append(clause('no other files', true(len(ev) == len(self.kinds)), props={'C23'}))
        return out

    def contents(self, kind, e, s):
        x = e[2][1] if isinstance(e[2], tuple) and e[2][0] == 'slist' else None
        if isinstance(e[2], tuple) and e[2][0] == 'list' and kind in ROWS and all(isinstance(r, tuple) and r[0] == 'list' and len(r[1]) == len(ROWS[kind]) and all(is_num(y) for y in r[1]) for r in e[2][1]):
            arrs = []           # a fixed number of rows
            for i in range(len(ROWS[kind])):
                a = z3.K(I, z3.RealVal(0))
                for n, r in enumerate(e[2][1]):
                    a = z3.Store(a, n, zreal(r[1][i]))
                arrs.append(a)
            x = SList(len(e[2][1]), 'row', arrs)
        out = [clause(kind + ': a table is written', true(x is not None and (kind != 'entropy' or x.ety == 'nd') and (kind not in ROWS or len(x.els) == len(ROWS[kind]))), props={'C22'})]
        if x is None:
            return out
        if kind == 'entropy':
            return out + (self.mean_of(x, EN, EN) if x.ety == 'nd' else [])
        return out + self.rows_of(x, EN, kind)

    def described(self, kind, e, s):
        name, vals = text(e[1])
        th = r'(?:_th' + NUM + ')' if self.numbered else '()'
        m = re.fullmatch(r'(?:[^<]*/)?<signature(\d+)>' + KEYS[kind] + NUM + r'_<strftime(\d+)>' + th + r'\.txt', name)
        out = [clause(kind + ': the file is named after the signature, the length, the time and the process number', true(m))]
        if m:
            out.append(clause(kind + ': signature in the file name', lambda: vals[int(m.group(1))].args[0] == CLS))
            out.append(clause(kind + ': length in the file name', lambda: num(m.group(2), vals) == LEN))
            tm = vals[int(m.group(3))]
            out.append(clause(kind + ': time in the file name', true(tm.args[1] == '%Y%m%d_%H%M%S')))
            if self.numbered:
                out.append(clause(kind + ': process number in the file name', lambda: num(m.group(4), vals) == TH))
        head, hv = text(e[3])
        m2 = re.fullmatch(r'<json(\d+)>', head)
        h = hv[int(m2.group(1))].args[0] if m2 else None
        out.append(clause(kind + ': a header is written', true(h is not None and h[0] == 'dict' and not e[4])))
        if h is None or h[0] != 'dict':
            return tag(out, {'C23'})
        h = h[1]
        for k, v in (('length', LEN), ('L', LEN), ('ensemble_size', EN), ('En', EN)):
            out.append(clause(f'{kind}: header {k}', lambda k=k, v=v: same_number(h.get(k), v)))
        if m:
            for k, f in (('date', '%Y.%m.%d'), ('time', '%H:%M:%S')):
                t, tv = text(h.get(k))
                ok = re.fullmatch(r'<strftime0>', t) and tv[0].args[0] == tm.args[0] and tv[0].args[1] == f
                out.append(clause(f'{kind}: header {k}', true(ok)))
        lst = lambda k: h[k][1] if isinstance(h.get(k), tuple) and h[k][0] == 'list' and all(isinstance(x, str) for x in h[k][1]) else None
        out.append(clause(f'{kind}: header column names', true(lst('columns') == COLUMNS[kind])))
        ds = lst('desc') or []
        d = dict(x.split('=', 1) for x in ds if '=' in x)
        has = lambda k, w, no=None: w in d.get(k, '') and (no is None or no not in d.get(k, ''))
        want = {'entropy': [('P1', 'largest', 'wrapping'), ('P2', 'wrapping', 'largest'), ('p', 'occupation', None), ('H', 'entropy', None)], 'critical': [('pc', 'critical', None)], 'path': [('pc', 'critical', None), ('p*', 'path', None)]}[kind]
        for k, w, no in want:
            out.append(clause(f'{kind}: header describes {k}', true(has(k, w, no))))
        return tag(out, {'C23'})


class Parallel(Contract):
    """starts the processes of a parallel run"""
    props = {'C24'}
    targets = ()
    rlimit = 20000000
    interaction = False
    variants = ('', 'default')
    T = z3.Int('processes')

    def setup(self, eng, variant):
        w = world(eng, [])
        self.inter = z3.Int('interaction')
        self.n = self.T
        kw = {}
        if self.interaction:
            if variant == '':
                kw['interaction'] = self.inter
            else:
                w.st.add(self.inter == 0)
        args = [LEN, EN, self.T]
        if variant == 'default' and not self.interaction:
            d = self.fi.node.args.defaults
            if not d or not isinstance(d[-1], ast.Constant) or not isinstance(d[-1].value, int):
                raise Unsupported('no default number of processes')
            args, self.n = [LEN, EN], z3.IntVal(d[-1].value)
        w.st.add(LEN >= 1, 1 <= self.n, self.n <= EN)
        return w, args, kw

    def expected(self, eng):
        k = lambda n: eng.classno(eng.prog.classes[n])
        return z3.If(self.inter == 1, k('SitePercolationL1'), z3.If(self.inter == 2, k('SitePercolationL2'), k('SitePercolationL0'))) if self.interaction else k(self.cls_name)

    def share(self, eng):
        """what the code is expected to say, as candidates: (size of process j, total of the first j)"""
        E, T = EN, self.n
        q, r = FDIV(E, T), FMOD(E, T)
        if not is_sym(T) or z3.is_int_value(T):
            q, r = E / T, E % T
        yield 'the first processes take the rest', lambda j: q + z3.If(j < r, 1, 0), lambda j: mul(j, q) + z3.If(j < r, j, r)
        yield 'the last processes take the rest', lambda j: q + z3.If(j >= T - r, 1, 0), lambda j: mul(j, q) + z3.If(j < T - r, 0, j - (T - r))

    def loop_invs(self, eng, st, s0, stack, k):
        g = s0.ghost
        n = g['procs']
        out = [('processes counted', lambda t: n >= 0)]
        if stack:
            return out
        fa = lambda f: (lambda t: (lambda j: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), f(j)[0]), patterns=[f(j)[1]]))(z3.Int('j?')))
        for nm, size, total in self.share(eng):
            out += [('sizes: ' + nm, fa(lambda j, size=size: (g['p size'][j] == size(j), g['p size'][j]))), ('total: ' + nm, lambda t, total=total: g['total'] == total(t))]
        for i, cl in enumerate(self.given(eng, s0)):
            out.append((cl.name, lambda t, cl=cl: cl.hyp()))
        out.append(('created and started', fa(lambda j: (g['started'][j], g['started'][j]))))
        for nm, v in sorted(s0.env.items()):
            if isinstance(v, ListRef) and isinstance(s0.lists[v.oid], SList) and s0.lists[v.oid].ety == 'proc':
                l = s0.lists[v.oid]
                out += [(f'{nm}: as many as created', lambda t, l=l: zint(l.n) == n), (f'{nm}: in order', fa(lambda j, l=l: (l.els[0][j] == j, l.els[0][j])))]
        j = z3.Int('j?')
        out.append(('waited for so far', lambda t: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), g['joined'][j]), patterns=[g['joined'][j]])))
        out.append(('started so far', lambda t: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), g['started'][j]), patterns=[g['started'][j]])))
        out.append(('not started so far', fa(lambda j: (z3.Not(g['started'][j]), g['started'][j]))))
        out.append(('the others are not started', lambda t: z3.ForAll([j], z3.Implies(z3.And(t <= j, j < n), z3.Not(g['started'][j])), patterns=[g['started'][j]])))
        return out

    def given(self, eng, s):
        g, n = s.ghost, s.ghost['procs']
        all_ = lambda name, a, f: clause(name, lambda j: z3.Implies(z3.And(0 <= j, j < n), f(j)), [('j', I)], lambda j: [g['p ' + a][j]])
        ok = [eng.funcno(x) for x in self.targets_of(eng)]
        return [all_('each process runs an ensemble', 'target', lambda j: z3.Or([g['p target'][j] == f for f in ok])),
                all_('each process simulates the model asked for', 'cls', lambda j: g['p cls'][j] == self.expected(eng)),
                all_('each process simulates the length asked for', 'length', lambda j: g['p length'][j] == LEN),
                all_('process numbers', 'number', lambda j: g['p number'][j] == j)]

    def targets_of(self, eng):
        for m, f in self.targets:
            for mod in eng.prog.modules.values():
                if mod.short == m and f in mod.ns:
                    yield mod.ns[f]

    def ensures(self, c):
        s, T = c.new.st, self.n
        g, size, no = s.ghost, s.ghost['p size'], s.ghost['p number']
        V, rng = [('i', I), ('j', I)], lambda *x: z3.And([z3.And(0 <= y, y < T) for y in x])
        out = [clause('as many processes as asked for', lambda: g['procs'] == T),
               clause('the sizes add up to the realizations asked for', lambda: g['total'] == EN),
               clause('every process has a realization', lambda j: z3.Implies(rng(j), size[j] >= 1), [('j', I)]),
               clause('sizes differ by at most one', lambda i, j: z3.Implies(rng(i, j), size[i] <= size[j] + 1), V)]
        out += [cl for cl in self.given(c.eng, s) if cl.name != 'process numbers']
        out += [clause('distinct process numbers', lambda i, j: z3.Implies(z3.And(rng(i, j), i != j), no[i] != no[j]), V),
                clause('every process is started', lambda j: z3.Implies(rng(j), g['started'][j]), [('j', I)]),
                clause('every process is waited for', lambda j: z3.Implies(rng(j), g['joined'][j]), [('j', I)])]
        return out


def ensemble(key, kinds, **kw):
    return type('Ensemble_' + key.split(':')[1], (Ensemble,), dict(key=key, kinds=kinds, **kw))


def parallel(key, **kw):
    return type('Parallel_' + key.split(':')[1], (Parallel,), dict(key=key, **kw))


WORKERS = (('ensemble', 'run_ensemble_entropy_order_threads_v2'), ('ensemble', 'run_ensemble_entropy_order_threads'))
CONTRACTS = [ensemble('ensemble:run_ensemble_entropy_order', ('entropy', 'critical'), numbered=False),
             ensemble('ensemble:run_ensemble_entropy_order_threads', ('entropy',)),
             ensemble('ensemble:run_ensemble_entropy_order_threads_v2', ('entropy', 'critical'), seeded=True),
             ensemble('shortest_path_run:ensemble_shortest_path_v2_thread', ('path',), seeded=True),
             parallel('rsbd_percolatioin_run:run_simulation_threads_v3', targets=WORKERS, cls_name='SitePercolationL0', variants=('',)),
             parallel('rsbd_percolatioin_run:run_simulation_threads_v4', targets=WORKERS, interaction=True),
             parallel('shortest_path_run:run_simulation_shortest_path_threads', targets=(('shortest_path_run', 'ensemble_shortest_path_v2_thread'),), cls_name='ShortestPathAfter_pc')]
