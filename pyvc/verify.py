"""Runs the contracts of one property against the current source: generate obligations, discharge them."""
import importlib
import json
import os
import select
import sys
import time
import traceback
import z3
from .terms import *
from .values import *
from .program import Program
from .exec import Exec as Base
from .drive import Drive
from .contract import Registry, Ctx
from . import schema, solve
from . import world as W



class Exec(Drive, Base):
    pass


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ['lattice', 'index', 'core', 'sim', 'life', 'runs', 'query', 'scan', 'drivers', 'lines']


def load_contracts():
    sys.path.insert(0, HERE)
    out = []
    for m in MODULES:
        if not os.path.exists(os.path.join(HERE, 'contracts', m + '.py')):
            continue
        mod = importlib.import_module('contracts.' + m)
        out += [c() for c in mod.CONTRACTS]
    return out


def generate(prog, contracts, c, variant, solve_now=True, prop=None):
    """symbolic execution of one function against its contract -> engine with obligations"""
    solve.reset()
    eng = Exec(prog, schema, Registry(contracts))
    fi = c.fi
    eng.cur, eng.curfi = c, fi
    eng.prop = prop
    eng.curmod, eng.curcls = fi.module, fi.cls
    w, args, kw = c.setup(eng, variant)
    st = w.st
    ctx = Ctx(eng, c, w, st.copy(), args, kw, variant)
    ctx.eng = eng
    c.ctx0 = ctx
    if solve_now:
        ok, _ = solve.prove(st.pc + st.qh, z3.BoolVal(False), rlimit=1000000)
        if ok:
            raise AssertionError(f'contract of {c.key} [{variant}] has an unsatisfiable precondition')
    for o in c.pre_obligations(ctx) if hasattr(c, 'pre_obligations') else []:
        eng.oblige_clause(st, 'lemma', o, None, add=True)
    outs = eng.start(st, fi, args, kw)
    eng.exit_count = len(outs)
    for n, (s, v) in enumerate(outs):
        eng.name_fams(s)
        eng.name_attrs(s)
        ctx.bind_new(s, v)
        eng.exit_no = n
        for cl in c.ensures(ctx):
            if eng.wanted(cl):
                eng.oblige_clause(s, 'ensures', cl, None, add=True)
    return eng


def split(seq, n):
    return [seq[i::n] for i in range(n)]


CHUNK = 12          # obligations per worker process
ENOUGH = 10         # failed obligations of one function after which the others are not tried
SEEDS = (7, 23)     # other orders of instantiation


def discharge(o, c, seeds):
    ok = False
    if o.first is not None:
        ok, info = solve.prove_parts(o.first, o.goal, o.hints, rlimit=c.rlimit // 2, want_model=False)
    if not ok:
        ok, info = solve.prove_parts(o.hyps, o.goal, o.hints, rlimit=c.rlimit, want_model=False)
    for seed in seeds:
        if not ok:
            ok, info = solve.prove_parts(o.hyps, o.goal, o.hints, rlimit=2 * c.rlimit, want_model=False, seed=seed)
    return ok, 'z3', info


class Tokens:
    """how many more processes may run"""
    def __init__(self, n):
        self.r, self.w = os.pipe()
        os.set_blocking(self.r, False)
        os.write(self.w, b'.' * n)

    def take(self):
        try:
            return bool(os.read(self.r, 1))
        except BlockingIOError:
            return False

    def give(self):
        os.write(self.w, b'.')


def run_job(prog, contracts, c, variant, props, tokens):
    """-> dict describing the obligations of one function"""
    t0 = time.time()
    res = dict(key=c.key, variant=variant, where=c.fi.where, obs=[], status='ok', error='')
    try:
        eng = generate(prog, contracts, c, variant, prop=props)
    except Unsupported as e:
        res.update(status='unsupported', error=f'{e} (line {e.lineno})')
        return res
    except AssertionError as e:
        res.update(status='error', error=str(e))
        return res
    except Exception:
        res.update(status='unsupported', error='verifier: ' + traceback.format_exc()[-1500:])
        return res
    obs = eng.obs
    res.update(gen_s=time.time() - t0, exits=eng.exit_count, loops=eng.loop_checks, trusted=sorted(eng.trusted), used=eng.functions_used, relied=sorted(x for x, _ in eng.relied))
    if not obs and not eng.exit_count:
        res.update(status='error', error='no path through the function')
        return res
    idx = list(range(len(obs)))
    results, lost = {}, 0
    todo, kids = split(idx, max(1, len(idx) // CHUNK)) if idx else [], {}
    while todo or kids:
        while todo and (not kids or tokens.take()):
            part = todo.pop(0)
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                out, seeds = [], SEEDS if lost < 4 else ()
                try:
                    for i in part:
                        t = time.time()
                        ok, by, info = discharge(obs[i], c, seeds)
                        seeds = seeds if ok else ()
                        out.append((i, ok, by, info[:1500], time.time() - t))
                except Exception:
                    out.append((part[0], False, 'error', traceback.format_exc()[-1500:], 0))
                with os.fdopen(wfd, 'w') as f:
                    json.dump(out, f)
                os._exit(0)
            os.close(wfd)
            kids[r] = [pid, b'']
        ready, _, _ = select.select(list(kids), [], [], 0.3)
        for r in ready:
            d = os.read(r, 1 << 20)
            if d:
                kids[r][1] += d
                continue
            pid, buf = kids.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            if kids:
                tokens.give()
            for i, ok, by, info, t in (json.loads(buf) if buf else []):
                results[i] = (ok, by, info, t)
                lost += not ok
        if lost >= ENOUGH and todo:
            res['left'] = sum(len(p) for p in todo)
            idx = [i for i in idx if not any(i in p for p in todo)]
            todo = []
    for i in idx:
        ok, by, info, t = results.get(i, (False, 'none', 'no answer', 0))
        o = obs[i]
        res['obs'].append(dict(id=o.id(), kind=o.kind, where=o.where, props=sorted(o.props) if o.props else None, ok=ok, by=by, info='' if ok else info, t=round(t, 3), goal='' if ok else str(o.goal)[:600]))
    return res


def jobs_for(contracts, prog, prop=None, only=None):
    jobs, skipped = [], []
    for c in contracts:
        c.fi = c.resolve(prog)
        if prop and prop not in c.props:
            continue
        if only and not any(o in c.key for o in only):
            continue
        if c.fi is None:
            skipped.append(c)
            continue
        for v in c.variants:
            jobs.append((c, v))
    return jobs, skipped


def weight(c, v):
    return -len(set(v)) if c.key.endswith('.merge_clusters_v2') else -2.5 if c.key.endswith('.run_once') else 0


def run_jobs(prog, contracts, jobs, props, procs=8, limit=None, cut=None):
    """each job in its own process, which shares out its obligations while there are processors to spare; cut(): an input that fails was found"""
    running, out, todo = {}, [], sorted(jobs, key=lambda j: weight(*j))
    t0 = time.time()
    end = t0 + limit if limit else None
    tokens = Tokens(procs)
    while todo or running:
        while todo and tokens.take():
            c, v = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                os.close(r)
                try:
                    res = run_job(prog, contracts, c, v, props, tokens)
                except BaseException:
                    res = dict(key=c.key, variant=v, where=c.fi.where, obs=[], status='unsupported', error=traceback.format_exc()[-1500:])
                with os.fdopen(w, 'w') as f:
                    json.dump(res, f)
                os._exit(0)
            os.close(w)
            running[r] = (pid, c, v, b'')
        ready, _, _ = select.select(list(running), [], [], 0.3)
        if cut and cut():
            end, cut = min(end or t0 + 1e9, max(time.time(), t0 + 150)), None
        if end and time.time() > end:
            for r, (pid, c, v, buf) in running.items():
                for kill in (os.killpg, os.kill):
                    try:
                        kill(pid, 9)
                    except OSError:
                        pass
                os.waitpid(pid, 0)
                os.close(r)
                out.append(dict(key=c.key, variant=v, where=c.fi.where, obs=[], status='unsupported', error='out of time'))
            for c, v in todo:
                out.append(dict(key=c.key, variant=v, where=c.fi.where, obs=[], status='unsupported', error='out of time'))
            break
        for r in ready:
            pid, c, v, buf = running[r]
            d = os.read(r, 1 << 20)
            if d:
                running[r] = (pid, c, v, buf + d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            tokens.give()
            try:
                out.append(json.loads(buf))
            except ValueError:
                out.append(dict(key=c.key, variant=v, where=c.fi.where, obs=[], status='unsupported', error='verifier process ended'))
    os.close(tokens.r)
    os.close(tokens.w)
    return out


def verify_property(prop, tier, repo, cut=None):
    """obligations of every function the property depends on -> summary for check.py"""
    t0 = time.time()
    out = dict(failed=[], unsupported=[], level='exploration', coverage={}, assumptions=[])
    try:
        prog = Program(repo)
        contracts = load_contracts()
        for c in contracts:
            c.fi = c.resolve(prog)
        jobs, skipped = jobs_for(contracts, prog, prop=prop)
        res = run_jobs(prog, contracts, jobs, prop, limit=480 if tier == 'quick' else 3000, cut=cut)
    except Exception:
        out['unsupported'].append(dict(function='(all)', reason='verifier: ' + traceback.format_exc()[-1200:]))
        out['coverage'] = dict(explanation='the verifier could not read this tree; bounded search only')
        return out
    for c in skipped:
        if not c.may_skip:
            out['unsupported'].append(dict(function=c.key, reason='not found in this tree'))
    import lemmas
    lem = lemmas.check_all() + lemmas.theorems(prop)
    n = d = loops = 0
    solver = 0.0
    backs, fns, trusted, relied = {}, [], set(), set()
    for r in sorted(res, key=lambda r: (r['key'], r['variant'])):
        nm = r['key'] + (f" [{r['variant']}]" if r['variant'] else '')
        if r['status'] != 'ok':
            out['unsupported'].append(dict(function=nm, where=r['where'], reason=r['error'][-600:]))
            continue
        if r.get('left'):
            out['unsupported'].append(dict(function=nm, where=r['where'], reason=f"{r['left']} more obligations not tried"))
        mine = [o for o in r['obs'] if o['props'] is None or prop in o['props']]
        good = [o for o in mine if o['ok']]
        for o in mine:
            if not o['ok']:
                out['failed'].append(dict(obligation=o['id'], function=nm, where=o['where'], solver=o['info'][:600], goal=o['goal'][:400]))
        n += len(mine)
        d += len(good)
        for o in good:
            backs[o['by']] = backs.get(o['by'], 0) + 1
        solver += sum(o['t'] for o in mine)
        loops += r['loops']
        trusted |= set(r['trusted'])
        relied |= set(r.get('relied', ()))
        fns.append(f"{nm}: {len(good)}/{len(mine)}" + (f", {r['loops']} loop invariants" if r['loops'] else ''))
    for l in lem:
        n += 1
        if l['ok']:
            d += 1
            backs[l['by']] = backs.get(l['by'], 0) + 1
        else:
            out['unsupported'].append(dict(function='lemma ' + l['name'], reason='not discharged'))
        solver += l['t']
    z = '.'.join(str(x) for x in z3.get_version()[:3])
    base = TRUSTED + sorted('external: ' + t for t in trusted)
    cov = dict(obligations=n, discharged=d, loop_invariants_shown_inductive=loops, functions_under_contract=fns, lemmas=[l['name'] for l in lem],
               backends={('z3 ' + z if b == 'z3' else b): k for b, k in backs.items()}, solver_s=round(solver, 2), generation_and_solving_s=round(time.time() - t0, 2),
               checker_cmd=f'python3-vt check.py {prop} {tier}', trusted_base=base, not_proved_this_run=out['unsupported'] + [f['obligation'] for f in out['failed']])
    if relied:
        cov['contracts_used_here_and_proved_by_other_checks'] = sorted(relied)
    if n == 0:
        out['unsupported'].append(dict(function='(none)', reason='no obligations'))
    part = json.load(open(os.path.join(HERE, 'claims.json'))).get(prop, {})
    cov['not_covered_by_the_proof'] = part.get('bounded', [])
    out['level'] = 'proof' if d == n and n and not out['unsupported'] and part.get('level') == 'proof' else 'exploration'
    out['coverage'] = cov
    out['assumptions'] = part.get('assumptions', [])
    return out


TRUSTED = [
    'the verification-condition generator pyvc (its reading of Python semantics), z3 and CPython',
    'integers are mathematical (exact in CPython); floats are treated as exact reals; log is uninterpreted with log(1) = 0 and log(1/x) = -log(x)',
    'termination is not proved (partial correctness)',
    'printing, logging and garbage collection have no effect on the program state',
]


def main(argv):
    """development: python -m pyvc.verify REPO key... """
    repo = argv[0]
    prog = Program(repo)
    contracts = load_contracts()
    for c in contracts:
        c.fi = c.resolve(prog)
    jobs, skipped = jobs_for(contracts, prog, only=argv[1:] or None)
    t = time.time()
    res = run_jobs(prog, contracts, jobs, os.environ.get('PROP'))
    bad = 0
    for r in sorted(res, key=lambda r: (r['key'], r['variant'])):
        n = len(r['obs'])
        k = sum(o['ok'] for o in r['obs'])
        print(f"{r['key']} [{r['variant']}] {r['status']} {k}/{n} gen {r.get('gen_s', 0):.1f}s solve {sum(o['t'] for o in r['obs']):.1f}s exits {r.get('exits')} loops {r.get('loops')} {r['error']}")
        for o in r['obs']:
            if not o['ok']:
                bad += 1
                print('   FAIL', o['id'], o['where'], o['t'], o['info'][:200].replace('\n', ' | '))
                if '-v' in argv or os.environ.get('V'):
                    print('        goal', o['goal'])
    if os.environ.get('TOP'):
        tot = {}
        for r in res:
            for o in r['obs']:
                k = o['id'].split('/', 1)[1]
                a, n = tot.get(k, (0, 0))
                tot[k] = (a + o['t'], n + 1)
        for k, (a, n) in sorted(tot.items(), key=lambda x: -x[1][0])[:int(os.environ['TOP'])]:
            print(f'   {a:8.1f}s {n:4d} {k}')
    print(f'{time.time()-t:.1f}s total; skipped {[c.key for c in skipped]}')


if __name__ == '__main__':
    main([a for a in sys.argv[1:] if a != '-v'])
