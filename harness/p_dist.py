"""C09, C10: exact distributions."""
import copy
import math

import numpy as np

import core
import drive
import mats
from core import Case
from props import Prop, prop
from sampling import err

HOWS = ["list", "tuple", "array", "int64", "nplist"]


def config(rec, how, cont):
    return drive.config(core.ZOO[rec["mat"]], rec["S"], eta=rec["eta"][0] / rec["eta"][1],
                        left=rec["l"] if rec["kind"] == "dfixed" else None, how=how, container=cont)


def build(rec, perm, how, cont):
    S = rec["S"]
    cfg = config(rec, how, cont)
    calc = drive.perm_calc(perm, copy.deepcopy(cfg.interferometer_matrix), len(S), S)
    cls = (drive.BSDistributionCalculatorWithFixedLosses if rec["kind"] == "dfixed"
           else drive.BSDistributionCalculatorWithUniformLosses)
    return cls(cfg, calc), cfg


def spoil(cfg):
    """Reuse the configuration object and what it refers to for something else."""
    A = cfg.interferometer_matrix
    for i in range(len(A)):
        for j in range(len(A[i])):
            A[i][j] = .25 + .5j * (i == j)
    if isinstance(cfg.initial_state, tuple):
        cfg.initial_state = tuple(reversed(cfg.initial_state[1:])) + (2,)
    else:
        for i in range(len(cfg.initial_state)):
            cfg.initial_state[i] = 1 + i % 2
    n = int(sum(cfg.initial_state))
    cfg.initial_number_of_particles, cfg.number_of_particles_left, cfg.number_of_particles_lost = n, 1, n - 1
    cfg.uniform_transmissivity = .625


def den(rec):
    M, S = core.ZOO[rec["mat"]], rec["S"]
    n = sum(S)
    if rec["kind"] == "dfixed":
        l = rec["l"]
        L = 1
        for s in mats.states(l, len(S)):
            if all(a <= b for a, b in zip(s, S)):
                L = mats.lcm(L, mats.den_exact(M, s))
        return L * math.comb(n, l)
    return mats.den_sectors(M, S, rec["eta"][1])          # one denominator for both modes


def fill(ev, probs, D):
    N, dev = [], 0
    for p in probs:
        if isinstance(p, complex) and p.imag == 0:
            p = p.real
        a, d = mats.rat(float(p), D)
        N.append(a)
        dev = max(dev, d)
    ev.update(N=N, dev=dev, D=D)


def container(outs, kind):
    """An iterable of outcomes: a list, a tuple, a matrix or a generator."""
    if kind == 1:
        return tuple(outs)
    if kind == 2 and outs:
        return np.array([list(x) for x in outs], dtype=int)
    if kind == 3:
        return (x for x in outs)
    return outs


def dist_session(rec, perm, how, cont, outs_lists, script, seed, others=()):
    """script: list of "dist" / "probs" / "on" / "off" (weights) / configuration number (others)."""
    D = den(rec)
    evs = [{"op": "dnew", "o": "d", "rec": rec, "err": ""}]
    try:
        obj, cfg = build(rec, perm, how, cont)
    except Exception as e:
        evs[0]["err"] = err(e)
        return evs
    if seed % 3 == 0:                             # the caller goes on to describe another experiment
        spoil(cfg)
    before = copy.deepcopy(cfg.interferometer_matrix), list(cfg.initial_state)
    for n, step in enumerate(script):
        ev = {"err": "", "o": "d"}
        try:
            if isinstance(step, int):
                new = others[step][0]
                cfg = config(new, how, cont)
                before = copy.deepcopy(cfg.interferometer_matrix), list(cfg.initial_state)
                obj.configuration = cfg
                D, outs_lists = den(new), others[step][1]
                for f in ("mat", "S", "l"):
                    evs.append({"op": "dset", "o": "d", "f": f, "v": new[f], "err": ""})
                continue
            if step in ("on", "off"):
                ev.update(op="dset", f="weightless", v=(step == "off"))
                obj.set_weightless(step == "off")
            elif step == "dist":
                ev["op"] = "dist"
                got = obj.calculate_distribution()
                probs = list(got)
                drive.poison(got)
                got = obj.get_outcomes_in_proper_order()
                ev["outs"] = [list(drive.canon(x)) for x in got]
                drive.poison(got)
                fill(ev, probs, D)
            else:
                ev["op"] = "probs"
                outs = outs_lists[n % len(outs_lists)]
                ev["outs"] = [list(x) for x in outs]
                arg = container([drive.state(x, how) for x in outs], (seed + n) % 4)
                got = obj.calculate_probabilities_of_outcomes(arg)
                probs = list(got)
                drive.poison(got)
                fill(ev, probs, D)
        except Exception as e:
            ev["err"] = err(e)
        ev["mut"] = int(not (np.array_equal(np.asarray(cfg.interferometer_matrix), np.asarray(before[0]))
                             and list(cfg.initial_state) == before[1]))
        evs.append(ev)
    return evs


ETAS = [(0, 1), (1, 1), (1, 2), (1, 4), (3, 4), (1, 3), (1, 2), (2, 3), (999, 1000), (1, 1000)]


class Dist(Prop):
    kind = ""

    def one(self, run, rnd, big):
        """A configuration and outcome lists for it, or None."""
        m = rnd.choice([1, 2, 2, 3, 3, 3, 4] + ([4, 5] if big else []))
        n = rnd.choice([0, 1, 2, 2, 3, 3, 4] + ([4, 5] if big else []))
        if m == 1:
            n = rnd.randint(0, 5)
        x = rnd.random()
        M = mats.unitary(m, rnd) if x < .85 else mats.identity(m)
        if x > .93:
            n = min(n, 2)
            M = mats.tiny(m, rnd, n)
        S = rnd.choice(mats.states(n, m))
        if rnd.random() < .15:                    # many modes or many particles
            if rnd.random() < .5:
                m, n = rnd.choice([(6, 2), (7, 2), (8, 2), (10, 1), (12, 1), (6, 3)])
            else:
                m, n = rnd.choice([(2, 6), (2, 7), (3, 5), (3, 6), (4, 5), (5, 4)] + ([(2, 9), (3, 7)] if big else []))
            M = mats.sparse(m, rnd, rnd.choice([0, 1, 1, 2]))
            S = mats.large_state(rnd, m, n, M)
        l = rnd.randint(0, n)
        eta = rnd.choice(ETAS) if self.kind == "duni" else (1, 1)
        if self.kind == "duni" and rnd.random() < .2:     # sectors of very small weight
            m, n = rnd.choice([(2, 3), (2, 4), (3, 3), (1, 3), (1, 4), (4, 3)])
            M, S = mats.simple(m, rnd), rnd.choice(mats.states(n, m))
            eta = rnd.choice([(1, 16), (15, 16), (1, 64), (63, 64), (1, 128), (127, 128), (1, 256), (255, 256), (511, 512)])
        rec = {"kind": self.kind, "mat": run.zoo.id(M), "S": list(S), "l": l if self.kind == "dfixed" else n,
               "eta": list(eta), "weightless": False}
        if den(rec) > mats.LIMIT:
            return None
        space = mats.states(l, m) if self.kind == "dfixed" else mats.lossy_states(n, m)
        outs = [[rnd.choice(space) for _ in range(rnd.choice([1, 3, 5]))] for _ in range(2)]
        outs.append(list(reversed(space))[:12])
        outs.append([])
        return rec, outs

    def sibling(self, run, rnd, rec):
        """A configuration differing in one parameter, or None."""
        M, S = run.zoo[rec["mat"]], rec["S"]
        n2 = dict(rec)
        if rnd.random() < .3:                    # the same particles elsewhere
            n2["S"] = rnd.sample(list(S), len(S)) if len(S) > 5 or rnd.random() < .5 else \
                list(rnd.choice(mats.states(sum(S), len(S))))
        elif self.kind == "duni" and rnd.random() < .5:
            n2["eta"] = list(rnd.choice(ETAS))
        elif M.m < 6 and rnd.random() < .8:
            n2["mat"] = run.zoo.id(mats.unitary(M.m, rnd))
        else:
            n2["mat"] = run.zoo.id(mats.perm_mat(rnd.sample(range(M.m), M.m)))
        return n2 if n2 != rec and den(n2) <= mats.LIMIT else None

    def mk(self, run, rnd, thorough, count, big):
        out = []
        tries = 0
        while len(out) < count and tries < 5000:
            tries += 1
            got = self.one(run, rnd, big)
            if got is None:
                continue
            rec, outs = got
            others = []
            if self.kind == "dfixed":
                script = rnd.choice([["dist"], ["probs", "dist"], ["dist", "probs", "probs", "dist"],
                                     ["dist", 0, "dist", "probs"], ["probs", 0, "probs", 1, "dist", 0, "dist"],
                                     [0, "dist", 1, "probs"]])
                while len(others) < 2:
                    o = self.one(run, rnd, False)
                    if o is not None and rnd.random() < .5 and len(o[0]["S"]) == len(rec["S"]):
                        # only the matrix, the input or the number left changes
                        f = rnd.choice(["mat", "S", "l"])
                        n2 = dict(rec)
                        if f == "l":
                            n2["l"] = rnd.randint(0, sum(rec["S"]))
                        elif f == "S":
                            n2["S"] = list(rnd.choice(mats.states(sum(rec["S"]), len(rec["S"]))))
                        else:
                            n2["mat"] = o[0]["mat"]
                        sp = mats.states(n2["l"], len(n2["S"]))
                        o = (n2, [[rnd.choice(sp)], sp[:6]])
                        if den(n2) > mats.LIMIT:
                            o = None
                    if o is not None:
                        others.append(o)
            else:
                script = rnd.choice([["dist"], ["dist", "off", "dist", "on", "dist"],
                                     ["probs", "off", "probs", "off", "dist", "on", "probs"],
                                     ["off", "on", "dist"], ["off", "dist", "probs"]])
            perm = rnd.choice(list(drive.PERMS)) + rnd.choice(["", "", "/none", "/left"])
            args = (rec, perm, rnd.choice(HOWS), rnd.choice(["array", "list"]), outs, script, rnd.randrange(10 ** 6), others)
            tag = "%s.%d" % (self.kind, len(out))
            sib = self.sibling(run, rnd, rec) if rnd.random() < .5 else None
            if sib is None:
                out.append(Case(dist_session, args, tag))
            else:                                # another calculator in the same process, then again
                short = [x for x in script if not isinstance(x, int)]
                other = (sib, perm) + args[2:5] + (short, args[6], [])
                parts = [(dist_session, other), (dist_session, args)]
                if sum(rec["S"]) < 4 and rnd.random() < .5:
                    parts.append((dist_session, other))
                out.append(Case(core.chain, parts, tag + "s"))
        for rep in range(30 if thorough else 6):  # more particles than short integers can count arrangements of
            n = rnd.choice([13, 15, 18, 20, 21, 22])
            S = rnd.choice([(n,), (n, 0), (0, n), (n - 1, 1), (1, n - 1)])
            m = len(S)
            l = rnd.choice([n, n, n - 1, n - 2])
            if l < n - 1 and n > 18:
                l = n
            rec = {"kind": self.kind, "mat": run.zoo.id(mats.perm_mat(rnd.sample(range(m), m))), "S": list(S),
                   "l": l if self.kind == "dfixed" else n,
                   "eta": list(rnd.choice([(1, 2), (1, 1), (0, 1)])) if self.kind == "duni" else [1, 1], "weightless": False}
            if den(rec) > mats.LIMIT:
                rec["eta"] = [1, 1]
            if den(rec) > mats.LIMIT:
                continue
            outs = [[rnd.choice(mats.states(l, m)) for _ in range(3)]]
            out.append(Case(dist_session, (rec, "chinhuh", rnd.choice(HOWS), "array", outs,
                                           ["dist"] if self.kind == "dfixed" else ["probs"], rnd.randrange(10 ** 6)),
                            "%s.crowded%d" % (self.kind, rep), cpu=150))
        m = rnd.choice([129, 131])               # more modes than a byte can number
        mid = run.zoo.id(mats.wide_perm(m, rnd))
        for rep in range(2):
            n = rep + 1
            rec = {"kind": self.kind, "mat": mid, "S": list(mats.wide_state(m, n, rnd)), "l": 1 if self.kind == "dfixed" else n,
                   "eta": [1, 2] if self.kind == "duni" else [1, 1], "weightless": False}
            outs = [[mats.wide_state(m, 1, rnd) for _ in range(4)]]
            out.append(Case(dist_session, (rec, "ryser", rnd.choice(HOWS), "array", outs,
                                           ["dist"] if rep == 0 else ["probs"], 0), "%s.wide%d" % (self.kind, rep)))
        return out


@prop("C09")
class C09(Dist):
    kind = "dfixed"
    bounds = "random exact unitaries m<=4 (thorough 5), n<=4 (thorough 5), all numbers left, all outcomes; sparse ones up to m=12 and up to n=7 (9); replaced configurations"

    def cases(self, run, rnd, thorough):
        return self.mk(run, rnd, thorough, 1600 if thorough else 420, thorough)


@prop("C10")
class C10(Dist):
    kind = "duni"
    bounds = "random exact unitaries m<=4 (thorough 5), n<=4 (thorough 5), eta in {0,1/1000,1/4,1/3,1/2,2/3,3/4,999/1000,1}, all outcomes, sparse ones up to m=12 and up to n=7 (9), weight switches"

    def cases(self, run, rnd, thorough):
        return self.mk(run, rnd, thorough, 1600 if thorough else 420, thorough)
