"""python harness.py PROP --budget SECONDS --seed N --out FILE [--replay FILE]

Searches for a scenario in which the real code breaks one property. Run with the interpreter of the repository."""
import argparse
import json
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VREPO", "/repo"))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
os.environ.setdefault("PYTHONWARNINGS", "ignore")

import simcheck                                                            # noqa: E402
from simcheck import Violation, Known                                      # noqa: E402

ALL = ["SitePercolation", "L0", "L1", "L2", "SP"]


def pick_L(rng, i):
    if i < 6:
        return 3 + i % 3
    return rng.choice([3, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10, 11, 12, 15, 18, 21])


def line_first(rng, L):
    """orders that build interesting shapes: spirals, rings, two separate wrapping lines, blocks then joints"""
    N = L * L
    kind = rng.randrange(7 if L >= 5 else 6)
    ids = list(range(N))
    if kind == 6:                                       # a wrapping line with a jog, a second full line, a bridge
        flip = rng.random() < 0.5
        r1 = rng.randrange(L)
        k = rng.randrange(1, L - 1)
        zig = [(r1, c) for c in range(k + 1)] + [((r1 + 1) % L, c) for c in range(k, L)] + [((r1 + 1) % L, 0)]
        r2 = (r1 + 3 + rng.randrange(max(1, L - 4))) % L
        full = [(r2, c) for c in range(L)]
        if rng.random() < 0.5:
            rng.shuffle(full)
        if rng.random() < 0.3:
            rng.shuffle(zig)
        if rng.random() < 0.2:
            zig, full = full, zig
        first = [(c * L + r) if flip else (r * L + c) for r, c in zig + full]
        first = list(dict.fromkeys(first))
        rest = [x for x in ids if x not in set(first)]
        rng.shuffle(rest)
        return first + rest
    if kind == 0:                                       # whole lines first, joints later
        lines = [[r * L + c for c in range(L)] for r in range(L)]
        if rng.random() < 0.5:
            lines = [[c * L + r for c in range(L)] for r in range(L)]
        rng.shuffle(lines)
        first = []
        rest = []
        for k, ln in enumerate(lines):
            keep = ln[:]
            if rng.random() < 0.4:
                hole = keep.pop(rng.randrange(len(keep)))
                rest.append(hole)
            (first if k < L // 2 + 1 else rest).extend(keep)
        rng.shuffle(rest)
        return first + rest
    if kind == 1:                                       # checkerboard, then the joints
        a = [s for s in ids if (s // L + s % L) % 2 == 0]
        b = [s for s in ids if (s // L + s % L) % 2]
        rng.shuffle(a)
        rng.shuffle(b)
        return a + b
    if kind == 2:                                       # a random walk round the lattice
        import oracle
        s = rng.randrange(N)
        seen, out = {s}, [s]
        for _ in range(6 * N):
            s = oracle.neighbours(L, s)[rng.randrange(4)]
            if s not in seen:
                seen.add(s)
                out.append(s)
        rest = [x for x in ids if x not in seen]
        rng.shuffle(rest)
        return out + rest
    if kind == 3:                                       # two rows, then a bridge
        r1, r2 = rng.sample(range(L), 2)
        a = [r1 * L + c for c in range(L)]
        b = [r2 * L + c for c in range(L)]
        if rng.random() < 0.5:
            a, b = [c * L + r1 for c in range(L)], [c * L + r2 for c in range(L)]
        if rng.random() < 0.7:
            rng.shuffle(a)
        if rng.random() < 0.7:
            rng.shuffle(b)
        rest = [x for x in ids if x not in set(a) | set(b)]
        rng.shuffle(rest)
        return a + b + rest
    if kind == 4:                                       # diagonal staircase
        s, out, seen = rng.randrange(N), [], set()
        r, c = divmod(s, L)
        dr, dc = rng.choice([(1, 1), (1, -1), (-1, 1), (-1, -1)])
        for k in range(2 * L):
            out.append(r * L + c)
            if k % 2:
                r = (r + dr) % L
            else:
                c = (c + dc) % L
        out = list(dict.fromkeys(out))
        rest = [x for x in ids if x not in set(out)]
        rng.shuffle(rest)
        return out + rest
    k = rng.randrange(2, L) * L                          # raster order
    if rng.random() < 0.5:
        ids = [c * L + r for r in range(L) for c in range(L)]
    head, tail = ids[:k], ids[k:]
    rng.shuffle(tail)
    return head + tail


def sim_scenario(prop, rng, i):
    if prop in ("C14",):
        cls = "L1"
    elif prop == "C15":
        cls = "L2"
    elif prop == "C16":
        cls = rng.choice(["L1", "L2"])
    elif prop in ("C20", "C21"):
        cls = "SP"
    elif prop in ("C12", "C13", "C26"):
        cls = rng.choice(["SitePercolation", "L0", "SP"])
    elif prop == "C17":
        cls = rng.choice(["SitePercolation", "L0", "L1", "L2"])
    else:
        cls = rng.choice(ALL)
    L = pick_L(rng, i)
    if prop in ("C14", "C15", "C16"):
        L = min(L, 10) if rng.random() < 0.9 else L
    N = L * L
    scn = dict(kind="sim", cls=cls, L=L, seed=rng.choice([None, 0, 1, rng.randrange(10 ** 6)]),
               aux=rng.randrange(10 ** 6), every=1 if N <= 100 else max(1, N // 40))
    if scn["seed"] is None:
        scn["amb"] = rng.randrange(10 ** 9)
    ops = []
    plain = cls in simcheck.PLAIN
    det = rng.choice(["each"] * 8 + ["twice"])
    if prop in ("C08", "C09") and rng.random() < 0.25:
        det = "sparse"
    if prop in ("C04", "C05", "C06", "C10", "C11", "C12", "C19") and rng.random() < 0.2:
        det = rng.choice(["none", "sparse"])
    if prop in ("C14", "C15"):
        scn["tree"] = 0.1 if N <= 16 else 0.02
    runs = rng.choice([1, 1, 2, 3])
    for k in range(runs):
        custom = plain and (prop == "C13" and (k == 0 or rng.random() < 0.6) or rng.random() < (0.45 if prop not in ("C26", "C18") else 0.15))
        if prop == "C26":
            custom = False
        if custom:
            if prop == "C13" and rng.random() < 0.5:
                badids = rng.sample(range(N), rng.randrange(1, N))
                badids.insert(rng.randrange(len(badids) + 1), rng.choice([N, N + 1, -1, -2, -N, N + L, 5 * N]))
                ops.append(["custom", badids, rng.random() < 0.3, rng.choice(["ids", "ids", "tuples", "lists", "Index"])])
            if prop == "C13" and rng.random() < 0.3:     # in the middle of a run, for the next one
                ops.append(["attempts", rng.randrange(1, N), "each"])
                ops.append(["custom", rng.sample(range(N), rng.randrange(1, N + 1)), rng.random() < 0.3, rng.choice(["ids", "tuples"])])
                ops.append(["reset"])
            ids = line_first(rng, L) if rng.random() < 0.7 else rng.sample(range(N), N)
            if prop == "C13" or rng.random() < 0.15:
                ids = ids[:rng.randrange(1, N + 1)]
            form = rng.choice(["ids", "ids", "ids", "tuples", "lists", "Index"])
            ops.append(["custom", ids, rng.choice([False, False, None, True] if prop == "C13" else [False, None]),
                        form])
        if prop == "C13" and custom and rng.random() < 0.3:
            ops.append(["reset"])
        if prop in ("C01", "C02", "C03") and rng.random() < 0.3:
            ops.append(["topology"])
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):      # interrupted runs
            if rng.random() < 0.2 and det != "none":
                ops.append(["run"])
            else:
                ops.append(["attempts", rng.randrange(1, N + 1) if rng.random() < 0.5 else rng.randrange(N // 2, N + 1), det])
            if rng.random() < 0.3:
                ops.append(["reset"])
            ops.append(["reset"])
        if prop in ("C17",) or (prop == "C20") or (prop in ("C07", "C08", "C09", "C12", "C13", "C16", "C18", "C19",
                                                             "C22") and rng.random() < 0.3):
            if prop != "C20" and rng.random() < 0.15:
                ops.append(["attempts", rng.randrange(1, N), "each"])
            ops.append(["run"])
            if prop == "C17" and rng.random() < 0.3:
                ops.append(["run"])
        elif rng.random() < 0.3:
            a = rng.randrange(1, N + 1)
            ops.append(["attempts", a, det])
            if prop == "C13" and rng.random() < 0.6:
                badids = rng.sample(range(N), rng.randrange(1, N)) + [rng.choice([N, -1])]
                rng.shuffle(badids)
                ops.append(["custom", badids, False, rng.choice(["ids", "lists"])])
            if rng.random() < 0.5:
                ops.append(["drain", det])
        else:
            ops.append(["drain", det])
        if prop == "C26":
            ops = [o for o in ops if o[0] in ("reset",)]
            for _ in range(rng.randrange(1, 8)):
                a, b = rng.randrange(N), rng.randrange(N)
                if rng.random() < 0.2:
                    b = a
                ops.append(["swap", a, b])
            if rng.random() < 0.5:
                ops.append(["shuffle"])
            if rng.random() < 0.4:
                ops.append(["attempts", rng.randrange(1, N), "each"])
        if prop == "C08" and rng.random() < 0.5:
            ops.append(["detect"])
        if prop in ("C01", "C02", "C03", "C12", "C13"):
            ops.append(["topology"])
        if k + 1 < runs or prop == "C18" or rng.random() < 0.3:
            ops.append(["reset"])
    scn["ops"] = ops
    if N <= 64 and rng.random() < 0.12 and prop not in ("C20",):
        o = sim_scenario(prop, rng, 0)
        o.pop("others", None)
        scn["others"] = [o]
    return scn


def scenario(prop, rng, i):
    from drivers import DRIVERS
    if prop in ("C01", "C02", "C03"):
        if i % 2 == 0 or prop != "C03" and rng.random() < 0.5:
            return dict(kind="lattice", L=3 + i if i < 24 else rng.randrange(3, 41), label=rng.randrange(10 ** 6))
    if prop == "C21" and i % 5 == 1:
        return dict(kind="scanlabels", L=rng.choice([3, 3, 4, 5, 6, 8]), seed=rng.randrange(10 ** 6))
    if prop in ("C22", "C23"):
        d = rng.choice(sorted(DRIVERS))
        th = rng.choice([None, 0, 1, 2, 7, 13])
        us = rng.choice([None, None, 0, 5])
        if rng.random() < 0.7:
            return dict(kind="ensemble_stub", driver=d, seed=rng.randrange(10 ** 6), E=rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 20, 32, 51]),
                        rows=rng.randrange(1, 12), L=rng.choice([3, 7, 10, 100]), th=th, useseed=us,
                        sig=rng.choice(["Stub", "SitePercolationL0_", "x"]))
        cls = "SP" if d.startswith("ensemble_shortest") else rng.choice(["L0", "L1", "L2", "SitePercolation"])
        return dict(kind="ensemble_real", driver=d, cls=cls, seed=rng.randrange(10 ** 6), E=rng.choice([1, 2, 3, 4]),
                    L=rng.choice([3, 4, 5, 6]), th=th, useseed=us)
    if prop == "C24":
        d = rng.choice(["v3", "v4", "v4", "sp"])
        T = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 20])
        E = rng.choice([T, T + 1, 2 * T, 2 * T - 1 or 1, 3 * T + 1, T + T // 2, 100, 101, 103, rng.randrange(T, T + 60)])
        E = max(E, T)
        scn = dict(kind="parallel", driver=d, T=T, E=E, L=rng.choice([3, 10, 50]))
        if d == "v4":
            scn["interaction"] = rng.choice([None, 0, 1, 2])
        if d == "sp" and rng.random() < 0.2:
            scn["default_T"] = True
            scn["E"] = max(2, E)
        return scn
    if prop == "C25":
        cls = rng.choice(ALL)
        L = rng.choice([3, 3, 4, 5, 6, 8, 12])
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            ops.append(rng.choice([["attempts", rng.randrange(1, L * L + 4)], ["run"]]))
            ops.append(["reset"])
            if cls in simcheck.PLAIN and rng.random() < 0.3:
                ops.append(["shuffle"])
        ops.append(["run"])
        return dict(kind="seeded", cls=cls, L=L, seed=rng.choice([0, 1, 2, -3, 42, 10 ** 12, "abc", 0.5,
                                                                  rng.randrange(10 ** 6)]),
                    amb=rng.randrange(10 ** 6), ops=ops, between=rng.choice([None, "L0", "L1", "L2"]))
    if prop == "C27":
        n = rng.choice([2, 2, 3, 4, 5, 8, 13, 40])
        mode = rng.randrange(4)

        def curve():
            if mode == 0:
                return [float(rng.randrange(-2, 3)) for _ in range(n)]
            if mode == 1:
                return [rng.uniform(-1, 1) for _ in range(n)]
            if mode == 2:
                a = rng.uniform(-1, 1)
                return [a * k + rng.uniform(-0.1, 0.1) for k in range(n)]
            return [rng.choice([-1e-9, 0.0, 1e-9, 5e5]) for _ in range(n)]
        a, b = curve(), curve()
        z = rng.choice([1, 1, 1, 1, 1e-4, 1e-8, 1e-13, 1e-30, 1e-200, 1e9, 1e200])
        a, b = [x * z for x in a], [x * z for x in b]
        if rng.random() < 0.3:
            b = [x if rng.random() < 0.6 else y for x, y in zip(a, b)]
        if rng.random() < 0.5:
            m = rng.randrange(1, 5)
            col = rng.randrange(m)
            A = [[rng.uniform(-1, 1) for _ in range(m)] for _ in range(n)]
            B = [[rng.uniform(-1, 1) for _ in range(m)] for _ in range(n)]
            for k in range(n):
                A[k][col], B[k][col] = a[k], b[k]
            return dict(kind="intersection", a=A, b=B, col=col)
        return dict(kind="intersection", a=a, b=b)
    return sim_scenario(prop, rng, i)


def execute(scn, props):
    if scn.get("amb") is not None and scn["kind"] == "sim":
        random.seed(scn["amb"])
    if scn["kind"] == "sim":
        return simcheck.run_sim(scn, props)
    import drivers
    return drivers.KINDS[scn["kind"]](scn, props)


def attempt(scn, prop):
    try:
        n = execute(scn, {prop})
        return "ok", n, None
    except Violation as e:
        return "violation", 0, e.msg
    except Known as e:
        return "known", 0, e.msg
    except Exception:
        tb = traceback.format_exc()
        last = traceback.extract_tb(sys.exc_info()[2])[-1].filename
        kind = "violation" if "/concrete/" not in last else "harness"
        if kind == "harness" and "/source_py/" not in tb and "/run_py/" not in tb:
            # our own access failed: an attribute or method the harness uses is not there
            return "harness", 0, tb
        return "violation" if kind == "violation" else "harness", 0, "the code raised: " + tb.strip().split("\n")[-1] \
            + "\n" + tb


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--budget", type=float, default=15)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    import numpy
    numpy.seterr(all="ignore")
    if a.replay:
        scn = json.load(open(a.replay))
        scn = scn.get("scenario", scn)
        st, n, msg = attempt(scn, a.prop)
        print(st, msg or "")
        return 1 if st == "violation" else 0
    rng = random.Random("%s/%d" % (a.prop, a.seed))
    t0 = time.time()
    res = dict(prop=a.prop, scenarios=0, steps=0, status="ok", known=[], harness_errors=0, samples=[], distinct=0)
    seen = set()
    i = 0
    while time.time() - t0 < a.budget and i < a.max:
        scn = scenario(a.prop, rng, i)
        i += 1
        st, n, msg = attempt(scn, a.prop)
        res["scenarios"] += 1
        res["steps"] += n
        key = json.dumps(scn, sort_keys=True)
        if n > 1 and key not in seen:
            seen.add(key)
        if len(res["samples"]) < 3:
            res["samples"].append(key[:400])
        if st == "known":
            if len(res["known"]) < 3:
                res["known"].append(dict(scenario=scn, message=msg))
        elif st == "harness":
            res["harness_errors"] += 1
            res["harness_error"] = msg
            if res["harness_errors"] > 3:
                break
        elif st == "violation":
            st2, _, msg2 = attempt(scn, a.prop)            # the failing input must fail again
            if st2 != "violation":
                res["harness_errors"] += 1
                res["harness_error"] = "not reproducible: " + str(msg)
                continue
            res.update(status="violation", message=msg, scenario=scn)
            break
    res["distinct"] = len(seen)
    res["wall_s"] = round(time.time() - t0, 2)
    if a.out:
        json.dump(res, open(a.out, "w"), indent=1)
    print(res["status"], res["scenarios"], res["steps"], res.get("message", ""), res.get("harness_error", ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
