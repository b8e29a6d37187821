"""The law of a sampler's result, as an event for the trace specification."""
import copy
import time

import drive
import mats
import rng
from rng import Opaque


class CaseTimeout(BaseException):
    pass


def err(e):
    return type(e).__name__


def snapshot(obj):
    """Returns a function giving fresh copies of obj in its current state."""
    copy.deepcopy(obj)
    return lambda: copy.deepcopy(obj)


def sim_event(o, make, S, k=1, D=1, q=2, how="list", max_paths=6000, cpu=25.0, ns=20000,
              stat=False, seed=1, numonly=False, alt=0, statcpu=12.0,
              sparse=False):
    """Enumerates the law of make().simulate(S, k).

    make() returns a strategy in the state to be examined, without randomness; D is a
    common denominator of the single-sample law."""
    ev = {"op": "sim", "o": o, "S": list(S), "err": "", "mut": 0}
    arg = drive.state(S, how)
    before = copy.deepcopy(arg)
    Dk = D ** k
    if Dk > mats.LIMIT:
        raise ValueError("denominator too large: %d" % Dk)
    if not stat:
        try:
            t0 = time.process_time()
            law, paths = rng.enumerate_law(
                lambda: drive.canon_all(make().simulate(arg, k)), q=q,
                max_paths=max_paths, deadline=t0 + cpu)
            if numonly:
                small = {}
                for key, p in law.items():
                    key = tuple(number_of(T, len(S)) for T in key) if key else ()
                    small[key] = small.get(key, 0.0) + p
                law = small
            rows, dev = [], 0
            for key, p in sorted(law.items(), key=lambda x: repr(x[0])):
                N, d = mats.rat(p, Dk)
                dev = max(dev, d)
                rows.append([[list(T) for T in (key or ())], N])
            ev["r"] = {"mode": "sparse" if sparse else "enum", "k": k, "D": Dk, "dev": dev, "law": rows, "paths": paths}
            ev["mut"] = int(list(arg) != list(before))
            return ev
        except Opaque as e:
            ev["fallback"] = str(e)[:80]
        except CaseTimeout:
            raise
        except RecursionError:
            raise
        except Exception as e:                    # confirm with the real generators
            ev["fallback"] = "exception " + err(e)
            t0 = time.process_time()
            for i in range(3000):
                rng.seed_real(seed * 7919 + i)
                try:
                    make().simulate(copy.deepcopy(arg), k)
                except Exception as e2:
                    ev["err"] = err(e2)
                    return ev
                if time.process_time() - t0 > 8:
                    break
    return stat_event(ev, make, arg, S, k, Dk, ns, seed, numonly, alt, statcpu, sparse)


def number_of(T, m):
    return (sum(T),) if len(T) == m and min(T) >= 0 else (-1,)


def stat_event(ev, make, arg, S, k, Dk, ns, seed, numonly, alt, cpu, sparse=False):
    rng.seed_real(seed)
    cnt = {}
    try:
        t0 = time.process_time()
        done = 0
        strat = make()
        while done < ns:
            if k == 1:
                res = drive.canon_all(strat.simulate(arg, 500))
                if res is None or len(res) != 500:
                    res = (drive.BADSAMPLE,) * 500
                keys = [(T,) for T in res]
            else:
                keys = [drive.canon_all(strat.simulate(arg, k)) or () for _ in range(500)]
            for x in keys:
                if numonly:
                    x = (number_of(x[0], len(S)),)
                cnt[x] = cnt.get(x, 0) + 1
            done += 500
            if time.process_time() - t0 > cpu and done >= 2000:
                break
        if numonly:
            ev["r"] = {"mode": "statnum", "D": Dk, "ns": done, "alt": alt, "k": k,
                       "cnt": [[list(x[0]), c] for x, c in sorted(cnt.items())]}
        else:
            ev["r"] = {"mode": "sparsestat" if sparse else "stat", "D": Dk, "ns": done, "alt": alt, "k": k,
                       "cnt": [[[list(T) for T in x], c] for x, c in sorted(cnt.items())]}
    except Exception as e:
        ev["err"] = err(e)
    return ev


def samples_event(o, strat, S, k, how="list", arg=None):
    """k concrete samples: number and shape."""
    ev = {"op": "sim", "o": o, "S": list(S), "err": "", "mut": 0}
    arg = drive.state(S, how) if arg is None else arg
    before = copy.deepcopy(arg)
    try:
        out = strat.simulate(arg) if k == 0.5 else strat.simulate(arg, k)
        k = 1 if k == 0.5 else k
        res = drive.canon_all(out)
        drive.poison(out)
        ev["r"] = {"mode": "samples", "k": k,
                   "list": [list(x) for x in res] if res is not None else [[-1]] * (k + 1)}
        ev["mut"] = int(list(arg) != list(before))
    except Exception as e:
        ev["err"] = err(e)
    return ev
