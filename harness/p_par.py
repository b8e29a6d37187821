"""C24: real worker processes."""
import os
import random

import core
import drive
import mats
import p_dist
import pools
import rng
from core import Case
from p_samp import attempt, builder, den, rand_matrix, rec_of
from props import Prop, prop
from sampling import err, stat_event


def collision(law):
    return sum(p * p for p in law.values())


def blocks_session(rec, perm, threads, S, k, w, how, seed, calls=1):
    """k samples of each call, drawn by real processes."""
    ev = {"op": "blocks", "k": k * calls, "w": w, "list": [], "err": ""}
    try:
        with pools.real():
            rng.seed_real(seed)
            st = builder(rec, perm, threads)()
            for i in range(calls):
                if i == calls // 2:                      # also between objects
                    st = builder(rec, perm, threads)()
                res = drive.canon_all(st.simulate(drive.state(S, how), k))
                ev["list"] += [list(x) for x in res] if res is not None else []
    except Exception as e:
        ev["err"] = err(e)
    return [ev]


def statpar_session(rec, perm, threads, S, how, seed, ns, numonly):
    evs = [{"op": "snew", "o": "s", "rec": rec, "err": ""},
           {"op": "sim", "o": "s", "S": list(S), "err": "", "mut": 0}]
    with pools.real():
        stat_event(evs[1], builder(rec, perm, threads), drive.state(S, how), S, 1, den(rec, S), ns,
                   seed + 7777 * attempt(), numonly, 1, 1e9)
    return evs


def samples_session(rec, perm, threads, S, ks, how, seed):
    """Completeness: exactly k well-formed samples for awkward k and thread numbers."""
    from sampling import samples_event
    evs = [{"op": "snew", "o": "s", "rec": rec, "err": ""}]
    with pools.real():
        st = builder(rec, perm, threads)()
        for k in ks:
            evs.append(samples_event("s", st, S, k, how))
    return evs


def realdist_session(*a):
    with pools.real():
        return p_dist.dist_session(*a)


@prop("C24")
class C24(Prop):
    bounds = ("real process pools: 128..160 samples over 2..8 workers of strategies with a collision probability "
              "below 0.1 (no two windows of 16 consecutive samples equal: chance below 1e-11), also over 12 (25) calls of two "
              "objects, 3000 samples "
              "against the exact law, sample numbers not divisible by the workers; uniform-loss distributions")
    assumptions = ("samples of different workers are told apart by windows of 16 samples, which coincide by chance "
                   "with probability below 1e-11 per run; a failure is confirmed with a second run",)

    def cases(self, run, rnd, thorough):
        out = []
        M = None
        while M is None or min(sum(1 for x in row if x != (0, 0)) for row in M.g) < 5:
            M = mats.householder(rnd.choice([[1, 1j, 1, 1, 1], [1, 1, 1 + 1j, 1, 1], [1j, 1, 1, 1, 2]]))
            M = mats.phases(M, [rnd.randrange(4) for _ in range(5)])
        mid = run.zoo.id(M)
        S = (1, 1, 1, 1, 0)
        reps = 6 if thorough else 1
        for rep in range(reps):
            for kind, f in (("nonu", {"a": rnd.choice([0, 2, 5])}), ("lstate", {"eta": (1, 1), "level": 5})):
                for threads in ([2, 3, 8] if thorough else [rnd.choice([2, 3]), 8]):
                    c = Case(blocks_session, (rec_of(kind, mid, **f), "ryser", threads, S, 20 * 8, 16,
                                              rnd.choice(["list", "tuple", "array"]), rnd.randrange(10 ** 6)),
                             "blocks.%s.%d.%d" % (kind, threads, rep), stat=True)
                    out.append(c)
            for kind, f in (("nonu", {"a": rnd.choice([0, 2, 5])}), ("lstate", {"eta": (1, 1), "level": 5})):
                out.append(Case(blocks_session, (rec_of(kind, mid, **f), "ryser", rnd.choice([8, -1, 0, 100]), S, 24 * 8,
                                                 20, "list", rnd.randrange(10 ** 6), 25 if thorough else 12),
                                "calls.%s.%d" % (kind, rep), stat=True))
        B = mats.unitary(2, rnd)
        L = mats.lossy(2, rnd, 100)
        for rep in range(reps):
            out.append(Case(statpar_session, (rec_of("nonu", run.zoo.id(L), a=1), "ryser", 3, (1, 1), "list",
                                              rnd.randrange(10 ** 6), 3000, False), "law.nonu.%d" % rep, stat=True))
            out.append(Case(statpar_session, (rec_of("lstate", run.zoo.id(B), eta=(1, 2), level=2), "ryser", 3, (2, 1),
                                              "list", rnd.randrange(10 ** 6), 3000, False), "law.lstate.%d" % rep,
                            stat=True))
            for kind in ("nonu", "lstate"):
                out.append(Case(samples_session, (rec_of(kind, run.zoo.id(B), a=1, eta=(1, 2), level=1), "ryser",
                                                  rnd.choice([2, 3, 5, 100, -1, 0]), (1, 1), [7, 1, 0, 10], "list",
                                                  rnd.randrange(10 ** 6)), "count.%s.%d" % (kind, rep)))
        for rep in range(30 if thorough else 8):
            while True:
                m, n = rnd.choice([2, 3, 3]), rnd.choice([1, 2, 3])
                U = mats.unitary(m, rnd)
                T = rnd.choice(mats.states(n, m))
                rec = {"kind": "duni", "mat": run.zoo.id(U), "S": list(T), "l": n,
                       "eta": list(rnd.choice(p_dist.ETAS)), "weightless": False}
                if p_dist.den(rec) <= mats.LIMIT:
                    break
            space = mats.lossy_states(n, m)
            out.append(Case(realdist_session, (rec, "ryser", "list", "array", [rnd.sample(space, min(4, len(space)))],
                                               ["dist", "probs"], 1), "dist.%d" % rep))
        for rep in range(6 if thorough else 2):           # more outcomes than a batch of a few hundred
            m, S = rnd.choice([(3, (4, 3, 3)), (3, (1, 5, 4)), (4, (2, 1, 3, 1)), (3, (6, 2, 3)), (4, (3, 0, 2, 2))])
            rec = {"kind": "duni", "mat": run.zoo.id(mats.perm_mat(rnd.sample(range(m), m))), "S": list(S), "l": sum(S),
                   "eta": [1, 2], "weightless": False}
            space = mats.lossy_states(sum(S), m)
            out.append(Case(realdist_session, (rec, "ryser", "list", "array", [rnd.sample(space, len(space))],
                                               ["dist"] if rep % 2 else ["probs"], 1), "dist.long%d" % rep))
        return out
