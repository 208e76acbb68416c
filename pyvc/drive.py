"""Externals of the ensemble drivers: simulation objects of an unknown class, numpy arrays, files, the clock, processes.

A simulation of an unknown class is a ghost state term; what its methods return is a function of that term (the contracts
of the classes, proved elsewhere, say what these functions are).  Every completed realization is recorded in the prophecy
array RL: RL[t] is the state after realization t.  Processes created are numbered; what each was given is recorded."""
import ast
import z3
from .terms import *
from .values import *

A1R = z3.ArraySort(I, R)
AB = z3.ArraySort(I, B)
INITF = z3.Function('INITF', I, I, I)        # a new simulation: class, serial number
RESETF = z3.Function('RESETF', I, I)
RUNF = z3.Function('RUNF', I, I)
FRESH = z3.Function('FRESH', I, B)           # new or just reset
LENOF = z3.Function('LENOF', I, I)           # length it was made with
SEEDED = z3.Function('SEEDED', I, B)         # made with a seed?
SEEDOF = z3.Function('SEEDOF', I, I)
CLSOF = z3.Function('CLSOF', I, I)
DATAF = z3.Function('DATAF', I, A1R)         # its data array, flattened
NDS = z3.Function('NDS', I, I)               # entries of the data array of a completed realization of a length

GETTERS = {'get_pc': 'PCF', 'get_site_count_wrapping_cluster_pc': 'SCF', 'get_bond_count_wrapping_cluster_pc': 'BCF', 'get_shortest_path_p': 'SPF'}
GETF = {m: z3.Function(f, I, R) for m, f in GETTERS.items()}
RL = z3.Const('RL', z3.ArraySort(I, I))
SUMF = z3.Function('SUMF', I, I, R)          # sum of entry j of the data arrays of the first t realizations


def axioms():
    j = z3.Int('j?')
    return [z3.ForAll([j], SUMF(0, j) == 0, patterns=[SUMF(0, j)])]


PROC = ('target', 'cls', 'length', 'size', 'number')


SGN = lambda x: z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))


class Drive:
    def classno(self, ci):
        return z3.IntVal(1000 + sorted(self.prog.classes).index(ci.name))

    def funcno(self, fi):
        fs = sorted(f'{m.name}.{k}' for m in self.prog.modules.values() for k, v in m.ns.items() if type(v).__name__ == 'FuncInfo')
        return z3.IntVal(5000 + fs.index(f'{fi.module.name}.{fi.name}'))

    def nd(self, s, n, arr):
        r = self.new_list(s, SList(n, 'nd', [arr]))
        return NdRef(r.oid)

    # ---- simulations
    def hook_call(self, s, f, args, kv, node):
        if isinstance(f, SymClassV):
            if args or set(kv) - {'length', 'seed'}:
                raise Unsupported('arguments of the simulation class', node)
            self.oblige(s, 'arity', 'the simulation is given a length', 'length' in kv and is_intlike(kv['length']), node)
            s.ghost['sims'] = s.ghost['sims'] + 1
            h = INITF(f.tag, s.ghost['sims'])
            seed = kv.get('seed')
            seed = self.unopt(seed, node, s) if isinstance(seed, Opt) else seed
            s.add(FRESH(h), LENOF(h) == zint(kv['length']), SEEDED(h) == z3.BoolVal(seed is not None), CLSOF(h) == f.tag)
            if seed is not None:
                s.add(SEEDOF(h) == zint(self.num(seed, node, s)))
            key = f'sim{self.newoid()}'
            s.ghost[key] = h
            return [(s, SimV(key))]
        return super().hook_call(s, f, args, kv, node)

    def same_sim(self, s, h, g):
        s.add(LENOF(g) == LENOF(h), SEEDED(g) == SEEDED(h), SEEDOF(g) == SEEDOF(h), CLSOF(g) == CLSOF(h))

    def sim_call(self, s, f, args, kv, node):
        h = s.ghost[f.recv.key]
        if args or kv:
            raise Unsupported('arguments of ' + f.name, node)
        self.trusted.add('the simulation class given to a driver: its methods return functions of its state; reset and run_once change the state (their contracts: C08-C12, C17, C18)')
        if f.name == 'reset':
            g = RESETF(h)
            s.add(FRESH(g))
            self.same_sim(s, h, g)
            s.ghost[f.recv.key] = g
            return [(s, None)]
        if f.name == 'run_once':
            self.oblige(s, 'realization', 'each realization starts from a new or reset simulation', FRESH(h), node)
            g = RUNF(h)
            self.same_sim(s, h, g)
            n, j = s.ghost['runs'], z3.Int('j?')
            s.add(RL[n] == g)
            s.add(z3.ForAll([j], SUMF(z3.simplify(n + 1), j) == SUMF(n, j) + DATAF(g)[j], patterns=[SUMF(n, j), SUMF(z3.simplify(n + 1), j), DATAF(g)[j]]))
            s.ghost['runs'] = s.ghost['runs'] + 1
            s.ghost[f.recv.key] = g
            return [(s, None)]
        if f.name == 'get_data_array':
            return [(s, self.nd(s, NDS(LENOF(h)), DATAF(h)))]
        if f.name == 'get_signature':
            return [(s, StrV([('fmt', '', Opaque('signature', CLSOF(h)))]))]
        if f.name in GETF:
            return [(s, GETF[f.name](h))]
        raise Unsupported('simulation method ' + f.name, node)

    # ---- processes
    def proc_call(self, s, f, args, kv, node):
        k = zint(f.recv.term)
        if f.name == 'start' and not args and not kv:
            self.oblige(s, 'process', 'a process is started once', z3.Not(s.ghost['started'][k]), node)
            s.ghost['started'] = z3.Store(s.ghost['started'], k, z3.BoolVal(True))
            return [(s, None)]
        if f.name == 'join':
            self.oblige(s, 'process', 'a process waited for was started', s.ghost['started'][k], node)
            if not args and not kv:
                s.ghost['joined'] = z3.Store(s.ghost['joined'], k, z3.BoolVal(True))
            elif len(args) == 1 and args[0] is None:
                s.ghost['joined'] = z3.Store(s.ghost['joined'], k, z3.BoolVal(True))
            return [(s, None)]
        raise Unsupported('process method ' + f.name, node)

    def new_process(self, s, args, kv, node):
        self.trusted.add('multiprocessing.Process: start runs target(*args) once, join waits for it')
        if len(args) > 0 or set(kv) - {'target', 'args', 'kwargs', 'name', 'daemon'}:
            raise Unsupported('process arguments', node)
        t = kv.get('target')
        if not isinstance(t, FuncV):
            raise Unsupported('process target', node)
        a = kv.get('args', Tup(()))
        items = a.items if isinstance(a, Tup) else self.concrete_items(a, s, node)
        if items is None:
            raise Unsupported('process arguments', node)
        kw = dict(s.dicts[kv['kwargs'].oid]) if isinstance(kv.get('kwargs'), DictRef) else {}
        env = self.bind(s, t.fi, list(items), kw, node)
        names = [x.arg for x in t.fi.node.args.posonlyargs + t.fi.node.args.args]
        vals = [env[n] for n in names]
        self.oblige(s, 'arity', 'a process gets a class, a length, a size and a number', len(vals) >= 4, node)
        if len(vals) < 4:
            raise Unsupported('process target', node)
        c = vals[0]
        no = self.classno(c.ci) if isinstance(c, ClassV) else c.tag if isinstance(c, SymClassV) else z3.IntVal(-1)
        k = s.ghost['procs']
        for nm, v in zip(PROC, [self.funcno(t.fi), no] + [zint(self.num(x, node, s)) for x in vals[1:4]]):
            s.ghost['p ' + nm] = z3.Store(s.ghost['p ' + nm], k, v)
        s.ghost['total'] = s.ghost['total'] + zint(self.num(vals[2], node, s))
        s.ghost['procs'] = k + 1
        s.add(z3.Not(s.ghost['started'][k]), z3.Not(s.ghost['joined'][k]))
        return [(s, ProcV(k))]

    # ---- arrays
    def nd_op(self, op, a, b, s, node):
        la = s.lists[a.oid]
        E = fresh('nd', A1R)
        j = fresh('j', I)
        x = la.els[0]
        if isinstance(b, NdRef):
            if op not in ('Add', 'Sub'):
                raise Unsupported('array operator ' + op, node)
            lb = s.lists[b.oid]
            y = lb.els[0]
            self.oblige(s, 'shape', 'arrays of one shape', zint(la.n) == zint(lb.n), node)
            v = x[j] + y[j] if op == 'Add' else x[j] - y[j]
            s.add(z3.ForAll([j], E[j] == v, patterns=[E[j]]))
            return la.n, E
        b = self.num(b, node, s)
        if op == 'Div':
            self.oblige(s, 'divzero', 'divisor is not zero', self.cmp_eq_num(b, 0, negate=True), node)
            v = RDIV(x[j], zreal(b)) if is_sym(b) else x[j] / zreal(b)
        elif op in ('Add', 'Sub'):
            v = x[j] + zreal(b) if op == 'Add' else x[j] - zreal(b)
        elif op == 'Mult':
            v = mul(x[j], zreal(b)) if is_sym(b) else x[j] * zreal(b)
        else:
            raise Unsupported('array operator ' + op, node)
        self.trusted.add('numpy arrays: +, -, *, / work entry by entry; the in-place forms change the array object')
        s.add(z3.ForAll([j], E[j] == v, patterns=[E[j]]))
        return la.n, E

    def hook_binop(self, op, a, b, s, node):
        if isinstance(a, NdRef):
            return self.nd(s, *self.nd_op(op, a, b, s, node))
        if isinstance(b, NdRef):
            if op in ('Add', 'Mult') and is_num(a):
                return self.nd(s, *self.nd_op(op, b, a, s, node))
            raise Unsupported('array operator ' + op, node)
        return super().hook_binop(op, a, b, s, node)

    def hook_aug(self, op, old, v, s, node):
        old = self.unopt(old, node, s) if isinstance(old, Opt) else old
        if isinstance(old, NdRef):
            if old.oid in getattr(self, 'views', ()):
                raise Unsupported('a view of an array is changed', node)
            n, E = self.nd_op(op, old, v, s, node)
            s.lists[old.oid] = SList(n, 'nd', [E])
            return s
        if old is None and op in ('Add', 'Div', 'Sub', 'Mult'):
            self.oblige(s, 'none', 'value is not None', False, node)
        return super().hook_aug(op, old, v, s, node)

    def hook_element(self, v, s):
        if isinstance(v, ListRef) and getattr(self.cur, 'rows', False):
            lv = s.lists[v.oid]
            if isinstance(lv, CList) and lv.items and all(is_num(x) for x in lv.items):
                s.readonly = s.readonly | {v.oid}
                return Tup([zreal(x) for x in lv.items])
        return super().hook_element(v, s)

    def entrywise(self, s, x, f, n=None):
        """a new array: entry j is f(x, j)"""
        l = s.lists[x.oid]
        E, j = fresh('nd', A1R), fresh('j', I)
        s.add(z3.ForAll([j], E[j] == f(l.els[0], j), patterns=[E[j]]))
        self.trusted.add('numpy sign, diff, abs, subtract: entry by entry as documented; argmax: the first of the largest')
        return self.nd(s, l.n if n is None else n, E)

    def view(self, r):
        self.views = getattr(self, 'views', set()) | {r.oid}
        return r

    def hook_getitem(self, v, i, s, node):
        if isinstance(v, Nd2V) and isinstance(i, Tup) and len(i.items) == 2 and i.items[0] == ('slice',) and is_intlike(i.items[1]):
            return self.view(self.nd(s, v.rows, z3.Select(v.cols, zint(i.items[1]))))
        if isinstance(v, NdRef) and is_intlike(i):
            l = s.lists[v.oid]
            return z3.Select(l.els[0], zint(self.norm_index(simp(i), l.n, s, node)))
        return super().hook_getitem(v, i, s, node)

    def hook_slice(self, v, sl, s, node):
        if isinstance(v, NdRef):
            lo, hi, step = sl
            l = s.lists[v.oid]
            n = zint(l.n)
            if step is not None or not (lo is None or isinstance(lo, int) and lo >= 0) or not (hi is None or isinstance(hi, int) and hi < 0):
                raise Unsupported('array slice', node)
            lo, hi = lo or 0, hi or 0
            m = z3.If(n + hi - lo >= 0, n + hi - lo, 0)
            return self.view(self.entrywise(s, v, lambda x, j: x[j + lo], z3.simplify(m)))
        return super().hook_slice(v, sl, s, node)

    def hook_len(self, v, s, node):
        return s.lists[v.oid].n if isinstance(v, NdRef) else super().hook_len(v, s, node)

    def array_fn(self, s, name, args, kv, node):
        if name == 'subtract' and len(args) == 2 and not kv:
            return self.nd(s, *self.nd_op('Sub', args[0], args[1], s, node)) if isinstance(args[0], NdRef) else None
        if len(args) != 1 or kv or not isinstance(args[0], NdRef):
            return None
        x = args[0]
        n = zint(s.lists[x.oid].n)
        if name == 'sign':
            return self.entrywise(s, x, lambda x, j: SGN(x[j]))
        if name in ('abs', 'absolute', 'fabs'):
            return self.entrywise(s, x, lambda x, j: z3.If(x[j] >= 0, x[j], -x[j]))
        if name == 'diff':
            self.oblige(s, 'shape', 'an array with an entry', n >= 1, node)
            return self.entrywise(s, x, lambda x, j: x[j + 1] - x[j], n - 1)
        if name == 'argmax':
            self.oblige(s, 'empty', 'argmax of an array with an entry', n >= 1, node)
            r, j, e = fresh('argmax', I), fresh('j', I), s.lists[x.oid].els[0]
            s.add(0 <= r, r < n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(e[j] <= e[r], z3.Implies(j < r, e[j] < e[r]))), patterns=[e[j], SEEN(j)]), SEEN(r))
            return r
        return None

    def call_builtin(self, s, name, args, kv, node):
        if name == 'abs' and len(args) == 1 and isinstance(args[0], NdRef):
            return [(s, self.array_fn(s, 'abs', args, kv, node))]
        if name == 'len' and len(args) == 1 and isinstance(args[0], NdRef) and getattr(self.cur, 'flat', False):
            return [(s, s.lists[args[0].oid].n)]
        return super().call_builtin(s, name, args, kv, node)

    # ---- files, clock
    def snapshot(self, v, s):
        if isinstance(v, (ListRef, NdRef)):
            lv = s.lists[v.oid]
            return ('list', [self.snapshot(x, s) for x in lv.items]) if isinstance(lv, CList) else ('slist', lv)
        if isinstance(v, Tup):
            return ('list', [self.snapshot(x, s) for x in v.items])
        if isinstance(v, DictRef):
            return ('dict', {k: self.snapshot(x, s) for k, x in s.dicts[v.oid].items()})
        if isinstance(v, StrV) and all(isinstance(p, str) for p in v.parts):
            return ''.join(v.parts)
        return v

    def hook_ext(self, s, name, args, kv, node):
        if name == 'numpy.savetxt':
            pos = ['fname', 'X', 'fmt', 'delimiter', 'newline', 'header', 'footer', 'comments']
            a = dict(zip(pos, args))
            a.update(kv)
            if set(a) - set(pos) or 'fname' not in a or 'X' not in a:
                raise Unsupported('savetxt', node)
            self.trusted.add('numpy.savetxt writes the header and the entries of the array, row by row, to the named file')
            x = a['X']
            s.events = s.events + (('savetxt', a['fname'], x.args[0] if isinstance(x, Opaque) and x.name == 'rows' else self.snapshot(x, s), a.get('header', ''), {k: a[k] for k in a if k in pos[3:5] + pos[6:]}),)
            return [(s, None)]
        if name in ('numpy.array', 'numpy.asarray') and len(args) == 1 and isinstance(args[0], ListRef):
            return [(s, Opaque('rows', self.snapshot(args[0], s)))]
        if name == 'json.dumps' and len(args) == 1 and not kv:
            self.trusted.add('json.dumps: a text with the entries given; strftime: date and time as the format says')
            return [(s, StrV([('fmt', '', Opaque('json', self.snapshot(args[0], s)))]))]
        if name in ('datetime.datetime.now', 'datetime.now') and not args:
            return [(s, Opaque('now', self.newoid()))]
        if name in ('time.time', 'time.perf_counter', 'time.monotonic') and not args:
            return [(s, fresh('clock', R))]
        if name.startswith('numpy.'):
            r = self.array_fn(s, name[6:], args, kv, node)
            if r is not None:
                return [(s, r)]
        if name == 'multiprocessing.Process':
            return self.new_process(s, args, kv, node)
        return super().hook_ext(s, name, args, kv, node)

    def call_bmeth(self, s, f, args, kv, node):
        if isinstance(f.recv, SimV):
            return self.sim_call(s, f, args, kv, node)
        if isinstance(f.recv, ProcV):
            return self.proc_call(s, f, args, kv, node)
        if isinstance(f.recv, Opaque) and f.recv.name == 'now' and f.name == 'strftime' and len(args) == 1 and isinstance(args[0], str):
            return [(s, StrV([('fmt', '', Opaque('strftime', f.recv.args[0], args[0]))]))]
        if isinstance(f.recv, NdRef) and f.name == 'copy' and not args:
            lv = s.lists[f.recv.oid]
            return [(s, self.nd(s, lv.n, lv.els[0]))]
        if isinstance(f.recv, NdRef) and f.name == 'argmax' and not args and not kv:
            return [(s, self.array_fn(s, 'argmax', [f.recv], {}, node))]
        return super().call_bmeth(s, f, args, kv, node)
