"""C01-C04: permanents, submatrix permanents, scattering matrices."""
import copy
import json
import math
import os
import random
import tempfile

import numpy as np

import core
import drive
import mats
import tlc
from core import Case
from props import Prop, prop
from sampling import err

HOWS = ["list", "tuple", "array", "int64", "nplist", "int32"]
FACS = [1, 2.0 ** -12, 2.0 ** 9, 1 / 3, 1 / 7]
CONTS = ["array", "array", "list", "fortran", "tuple"]


def same(a, b):
    try:
        return bool(np.array_equal(np.asarray(a), np.asarray(b)))
    except Exception:
        return False


def scale(M, S):
    return math.sqrt(mats.den_state(M, S))


def scaled(A, fac):
    """The same container with every entry times fac."""
    if fac == 1:
        return A
    if isinstance(A, np.ndarray):
        return A * fac
    return type(A)(type(r)(x * fac for x in r) for r in A)


def entry(x, M, fac):
    """The Gaussian integer of the matrix entry that x is (to double precision)."""
    for row, ref in zip(M.g, scaled(M.np(), fac)):
        for g, y in zip(row, ref):
            if abs(complex(x) - y) <= 1e-14 * abs(y):
                return list(g)
    return [2 ** 29, 0]


def comp_event(o, kind, calc, M, S, T, watched, fac=1):
    """Calls the calculator; watched: list of (object, copy)."""
    n = sum(S)
    ev = {"op": "ccomp", "o": o, "err": ""}
    try:
        if kind == "scat":
            rows = calc.calculate()
            ev["rows"] = [[entry(x, M, fac) for x in row] for row in rows]
            drive.poison(rows)
        elif kind in drive.PERMS:
            re, im, dev = drive.gauss(complex(calc.compute_permanent()) / fac ** n, scale(M, S))
            ev.update(re=re, im=im, dev=dev)
        else:
            vals = calc.compute_permanents()
            out, dev = [], 0
            for i, v in enumerate(vals):
                R = list(S)
                if i < len(S) and S[i] > 0:
                    R[i] -= 1
                re, im, d = drive.gauss(complex(v) / fac ** max(sum(R), n - 1), scale(M, R))
                dev = max(dev, d)
                out.append([re, im])
            ev.update(vals=out, dev=dev)
            drive.poison(vals)
    except Exception as e:
        ev["err"] = err(e)
    ev["mut"] = int(not all(same(a, b) for a, b in watched))
    return ev


def make(kind, matrix, S, T):
    if kind == "scat":
        return drive.bsu.EffectiveScatteringMatrixCalculator(matrix, S, T)
    return drive.calculator(kind, matrix, S, T)


LATE = (None, None, "both", "input", "output", "bare", "other")


def built(kind, matrix, S, T, late):
    """A calculator for (matrix, S, T), some of which are assigned after its construction."""
    if not late:
        return make(kind, matrix, S, T)
    if late == "other":                       # built for a smaller problem
        c = make(kind, np.array([[.5]]), (1,), (1,) if kind not in drive.SUBS else (0,))
        c.output_state, c.matrix, c.input_state = T, matrix, S
        return c
    cls = type(make(kind, matrix, S, T))
    if late == "input":
        c = cls(matrix, input_state=S)
        c.output_state = T
    elif late == "output":
        c = cls(matrix, output_state=T)
        c.input_state = S
    else:
        c = cls(matrix) if late == "both" else cls(matrix, None, None)
        c.input_state = S
        c.output_state = T
    return c


def fresh_session(kind, mid, pairs, cont, fac=1):
    """One fresh calculator per (input, output, sequence type); the matrix is the listed
    one times fac."""
    M = core.ZOO[mid]
    evs = []
    for num, (S, T, how) in enumerate(pairs):
        A = scaled(M.np(cont), fac)
        s, t = drive.state(S, how), drive.state(T, how)
        w = [(x, copy.deepcopy(x)) for x in (A, s, t)]
        rec = {"kind": kind, "mat": mid, "inp": list(S), "out": list(T)}
        new = {"op": "cnew", "o": "c", "rec": rec, "err": ""}
        try:
            calc = built(kind, A, s, t, LATE[(num + mid) % len(LATE)])
        except Exception as e:
            new["err"] = err(e)
            evs.append(new)
            continue
        evs.append(new)
        evs.append(comp_event("c", kind, calc, M, S, T, w, fac))
    return evs


def refilled(old, new):
    """The caller's own buffer holding new values, or None where it cannot be refilled."""
    if type(old) is not type(new) or len(old) != len(new) or isinstance(old, tuple):
        return None
    if isinstance(old, np.ndarray):
        if old.shape != new.shape or old.dtype != new.dtype:
            return None
        old[...] = new
    else:
        old[:] = new
    return old


def replay_session(kind, mids, states, hist, how, cont, fresh_objects, late=None):
    """Replays a generated history on one calculator.

    fresh_objects: True, every assignment gives a new object; False, the same object for the
    same value; "refill", the caller keeps one buffer per argument, writes the new values into
    it and assigns it again."""
    evs = []
    stored = {}
    refill = fresh_objects == "refill"

    def mat(i):
        if fresh_objects or ("m", i) not in stored:
            stored["m", i] = core.ZOO[mids[i - 1]].np(cont)
        return stored["m", i]

    def st(i):
        if fresh_objects or ("s", i) not in stored:
            stored["s", i] = drive.state(states[i - 1], how)
        return stored["s", i]
    cur, watched = {}, []

    def watch(x):
        if not any(x is y for y, _ in watched):
            watched.append((x, copy.deepcopy(x)))
        return x
    names = {"mat": "matrix", "inp": "input_state", "out": "output_state"}
    calc = None
    buffers = {}

    def buffer(field, i):
        x = mat(i) if field == "mat" else st(i)
        if refill:
            y = refilled(buffers[field], x) if field in buffers else None
            if y is not None:
                watched[:] = [(a, b) for a, b in watched if a is not y]
                x = y
            buffers[field] = x
        return watch(x)
    for h in hist:
        if h[0] == "new":
            cur = dict(mat=h[1], inp=h[2], out=h[3])
            A, s, t = buffer("mat", h[1]), buffer("inp", h[2]), buffer("out", h[3])
            ev = {"op": "cnew", "o": "c", "err": "",
                  "rec": {"kind": kind, "mat": mids[h[1] - 1], "inp": list(states[h[2] - 1]),
                          "out": list(states[h[3] - 1])}}
            try:
                calc = built(kind, A, s, t, late)
            except Exception as e:
                ev["err"] = err(e)
            evs.append(ev)
        elif h[0] == "comp":
            evs.append(comp_event("c", kind, calc, core.ZOO[mids[cur["mat"] - 1]],
                                  states[cur["inp"] - 1], states[cur["out"] - 1], watched))
        else:
            cur[h[0]] = h[1]
            x = buffer(h[0], h[1])
            ev = {"op": "cset", "o": "c", "f": h[0], "err": "",
                  "v": mids[h[1] - 1] if h[0] == "mat" else list(states[h[1] - 1])}
            try:
                setattr(calc, names[h[0]], x)
                if not same(getattr(calc, names[h[0]]), x):
                    ev["ok"] = 0
            except Exception as e:
                ev["err"] = err(e)
            evs.append(ev)
    return evs


def histories(kind, mids, states, depth, num, seed, weight=3):
    menu = {"kind": kind, "mats": [core.ZOO[i].m for i in mids], "states": [list(s) for s in states],
            "depth": depth, "w": weight, "jump": int(num is not None)}
    fd, path = tempfile.mkstemp(prefix="boss_menu_", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(menu, f)
    try:
        if num is None:
            menu_h, st = tlc.exhaustive("GenCalc", "GenCalc.cfg", env={"BOSS_MENU": path})
        else:
            menu_h, st = tlc.simulate("GenCalc", "GenCalc.cfg", num, depth + 4, seed, env={"BOSS_MENU": path})
    finally:
        os.unlink(path)
    return menu_h, st


def bunched_pairs(rnd, zoo, top, less=0):
    """Many particles in one mode: (matrix, pairs) with entries of modulus at most sqrt 2."""
    out = []
    for m in (1, 2, 3):
        d = [rnd.choice([1, 2, 3]) for _ in range(m)]
        g = [[rnd.choice([(1, 0), (-1, 0), (0, 1), (0, -1), (0, 0)][:5 if m > 2 and i == j else 4]) for j in range(m)]
             for i in range(m)]
        M = mats.Mat(g, d)
        pairs = []
        for n in range(5, top + 1):
            b = n - less
            outs = [(0,) * i + (b,) + (0,) * (m - 1 - i) for i in range(m)]
            if m > 1:
                outs += [(b - 1, 1) + (0,) * (m - 2), (1,) + (0,) * (m - 2) + (b - 1,)]
            for T in outs:
                ins = [(0,) * i + (n,) + (0,) * (m - 1 - i) for i in range(m)]
                if m > 1:
                    ins += [(1, n - 1) + (0,) * (m - 2), (n - 2,) + (0,) * (m - 2) + (2,)]
                S = rnd.choice(ins)
                pairs.append((S, T, rnd.choice(HOWS)))
                if less == 0:
                    pairs.append((T, S, rnd.choice(HOWS)))
        out.append((zoo.id(M), pairs))
    return out


def random_pair(rnd, m, n):
    return rnd.choice(mats.states(n, m)), rnd.choice(mats.states(n, m))


def wide_cases(rnd, zoo, kinds, thorough, less=0, mk=None):
    """More modes than a byte can number, few particles."""
    out = []
    for rep in range(6 if thorough else 2):
        m = rnd.choice([129, 140, 160]) if rep != 1 else rnd.choice([257, 270])
        mid = zoo.id((mk or mats.wide)(m, rnd))
        for kind in kinds:
            pairs = []
            for n in (1, 1, 2, 2, 3):
                pairs.append((mats.wide_state(m, n, rnd), mats.wide_state(m, n - less, rnd), rnd.choice(HOWS)))
            out.append(Case(fresh_session, (kind, mid, pairs, "array"), "%s/wide%d" % (kind, rep)))
    return out


def mid_cases(rnd, zoo, kinds, thorough, less=0):
    """Seven to twelve modes, about as many particles as modes."""
    out = []
    for kind in kinds:
        for rep in range(12 if thorough else 4):
            m = rnd.randint(7, 12)
            mid = zoo.id(mats.banded(m, rnd))
            pairs = []
            for _ in range(3):
                n = rnd.randint(6, 7) if kind == "classic" else rnd.randint(7, min(m, 11))
                S, T = [0] * m, [0] * m
                for j in rnd.sample(range(m), n):
                    S[j] = 1
                if rnd.random() < .4:             # one mode with a second particle
                    a, b = rnd.sample([j for j in range(m) if S[j]], 2)
                    S[a], S[b] = 2, 0
                for j in (rnd.sample(range(m), n - less) if rnd.random() < .5 else
                          [rnd.randrange(m) for _ in range(n - less)]):
                    T[j] += 1
                pairs.append((tuple(S), tuple(T), rnd.choice(HOWS)))
            out.append(Case(fresh_session, (kind, mid, pairs, rnd.choice(CONTS), FACS[rep % 5]), "%s/mid%d" % (kind, rep)))
    return out


def siblings(rnd, zoo, kinds, rep, less=0):
    """The same states over several matrices and methods, interleaved in one process."""
    m = rnd.choice([1, 2, 2, 3, 3, 4])
    mids = [zoo.id(mats.general(m, rnd)) for _ in range(3)]
    pairs = []
    for _ in range(6):
        n = rnd.randint(1, 4)
        pairs.append((rnd.choice(mats.states(n, m)), rnd.choice(mats.states(n - less, m)), rnd.choice(HOWS)))
    ks = [rnd.choice(list(kinds)) for _ in range(2)]
    items = [(fresh_session, (k, i, [p], rnd.choice(CONTS))) for k in ks for i in mids for p in pairs]
    rnd.shuffle(items)
    return Case(core.chain, items, "siblings%d" % rep)


@prop("C01")
class C01(Prop):
    bounds = ("all pairs of states with n<=3 on m<=3 modes (thorough n<=4) per method on random Gaussian "
              "matrices, random pairs up to m=6, n=8 (classic n<=6), sparse ones up to m=12, n=11, "
              "bunched ones up to n=10, few particles on up to 270 modes")
    assumptions = ("matrices have Gaussian-integer entries over square roots of integers; results are "
                   "compared after rounding, within 2e-3 of an integer of magnitude below 5e8",)

    def cases(self, run, rnd, thorough):
        zoo = run.zoo
        out = [siblings(rnd, zoo, drive.PERMS, rep) for rep in range(240 if thorough else 60)]
        out += wide_cases(rnd, zoo, drive.PERMS, thorough) + mid_cases(rnd, zoo, drive.PERMS, thorough)
        for kind in drive.PERMS:
            for m in (1, 2, 3):
                for rep in range(8 if thorough else 3):
                    mid = zoo.id(mats.general(m, rnd))
                    top = (5 if m < 3 else 4) if thorough else (4 if m < 3 else 3)
                    pairs = [(S, T, rnd.choice(HOWS)) for n in range(top + 1)
                             for S in mats.states(n, m) for T in mats.states(n, m)]
                    for k in range(0, len(pairs), 150):
                        out.append(Case(fresh_session, (kind, mid, pairs[k:k + 150], rnd.choice(CONTS), FACS[rep % 5]),
                                        "%s/m%d/all%d.%d" % (kind, m, rep, k)))
            for rep in range(80 if thorough else 20):
                m = rnd.choice([2, 3, 4, 4, 5, 6])
                pairs = []
                mid = zoo.id(mats.general(m, rnd, lim=2 if rep % 2 else 1))
                for _ in range(10):
                    n = rnd.randint(1, 6 if kind == "classic" else 7)
                    if kind != "classic" and rep % 2 == 0:
                        n = rnd.randint(4, 9)
                    S, T = random_pair(rnd, m, n)
                    if np.prod([s + 1 for s in S]) > 400:
                        S, T = T, S
                    pairs.append((S, T, rnd.choice(HOWS)))
                out.append(Case(fresh_session, (kind, mid, pairs, rnd.choice(CONTS), FACS[rep % 5]),
                                "%s/rand%d" % (kind, rep)))
            for mid, pairs in bunched_pairs(rnd, zoo, 8 if kind == "classic" else 10):
                out.append(Case(fresh_session, (kind, mid, pairs, rnd.choice(CONTS)),
                                "%s/bunched%d" % (kind, zoo[mid].m)))
            # zero matrices, real matrices, unitary ones, one bunched mode
            for name, M in (("zero", mats.from_complex([[0] * 3] * 3, [1] * 3)),
                            ("id", mats.identity(4)), ("u", mats.unitary(4, rnd)),
                            ("ones", mats.from_complex([[1] * 3] * 3, [1] * 3))):
                mid = zoo.id(M)
                pairs = [random_pair(rnd, M.m, n) + (rnd.choice(HOWS),) for n in (0, 1, 2, 3, 4, 5)]
                pairs += [((5,) + (0,) * (M.m - 1), (0,) * (M.m - 1) + (5,), "list"),
                          ((0,) * (M.m - 1) + (4,), (1, 3) + (0,) * (M.m - 2), "tuple")]
                if name == "u":
                    pairs = [(S, T, h) for S, T, h in pairs if mats.den_state(M, S) < 1e8]
                out.append(Case(fresh_session, (kind, mid, pairs, "real" if name != "u" else "array"),
                                "%s/%s" % (kind, name)))
        return out


class History(Prop):
    kinds = ()
    gen = "perm"
    bounds = ("generated histories of assign/compute over menus of 3 matrices (two sizes) and 7 states; "
              "all compute-assign-compute histories (thorough: all histories of depth 5) over a small menu")

    def menu(self, zoo, rnd):
        a, b = rnd.sample([1, 2, 3, 4], 2)
        if rnd.random() < .5:
            b = a
        mk = (lambda m: mats.general(m, rnd)) if self.gen != "scat" else (lambda m: labelled(m, rnd))
        mids = [zoo.id(mk(a)), zoo.id(mk(a)), zoo.id(mk(b))]
        n = rnd.randint(1, 3)
        sts = []
        for m in (a, b) if a != b else (a, a):
            for k in ((n, n, n + 1) if self.gen == "perm" else (n, n + 1, n + 1)):
                sts.append(rnd.choice(mats.states(k, m)))
        sts.append((0,) * a)
        if self.gen == "sub":
            sts.append((1,) + (0,) * (a - 1))
        sts = list(dict.fromkeys(sts))
        return mids, sts

    def cases(self, run, rnd, thorough):
        out = []
        for kind in self.kinds:
            for rep in range(8 if thorough else 2):
                mids, sts = self.menu(run.zoo, rnd)
                hs, st = histories(self.gen_of(kind), mids, sts, 14, 60 if thorough else 30, rnd.randrange(10 ** 6))
                run.transitions += st["generated"]
                for k in range(0, len(hs), 10):
                    part = hs[k:k + 10]
                    out.append(Case(many_replays, (kind, mids, sts, part, rnd.choice(HOWS),
                                                   rnd.choice(CONTS), rnd.choice([True, False, "refill", "refill"])),
                                    "%s/menu%d.%d" % (kind, rep, k)))
            # every history of a short length over a small menu
            m = 2
            mk = (lambda: mats.general(m, rnd)) if self.gen != "scat" else (lambda: labelled(m, rnd))
            mids = [run.zoo.id(mk()), run.zoo.id(mk())]
            sts = {"perm": [(1, 1), (2, 0), (0, 2)], "sub": [(2, 1), (1, 1), (0, 2)],
                   "scat": [(1, 1), (0, 2), (0, 0)]}[self.gen_of(kind)]
            hs, st = histories(self.gen_of(kind), mids, sts, 5 if thorough else 4, None, 0, weight=1)
            run.states += st["distinct"]
            run.transitions += st["generated"]
            hs = [h for h in hs if h[-1][0] == "comp" and (thorough or h[1][0] == "comp")]
            for k in range(0, len(hs), 200):
                out.append(Case(many_replays, (kind, mids, sts, hs[k:k + 200], rnd.choice(HOWS),
                                               rnd.choice(CONTS), rnd.choice([False, "refill"])),
                                "%s/exh.%d" % (kind, k)))
        return out

    def gen_of(self, kind):
        return "sub" if kind in drive.SUBS else "scat" if kind == "scat" else "perm"


def many_replays(kind, mids, states, hists, how, cont, fresh_objects):
    evs = []
    for k, h in enumerate(hists):
        evs += replay_session(kind, mids, states, h, how, cont, fresh_objects, LATE[k % len(LATE)])
    return evs


def labelled(m, rnd):
    """Distinct entries, so that every entry of a scattering matrix is identified."""
    vals = rnd.sample(range(1, max(60, m * m + 2)), m * m)
    M = mats.from_complex([[complex(vals[i * m + j], rnd.randint(-3, 3)) for j in range(m)]
                           for i in range(m)], [1] * m)
    M.plain = m > 60
    return M


@prop("C02")
class C02(History):
    kinds = tuple(drive.PERMS) + tuple(drive.SUBS)

    def menu(self, zoo, rnd):
        return History.menu(self, zoo, rnd)

    def cases(self, run, rnd, thorough):
        out = []
        for kind in self.kinds:
            self.gen = self.gen_of(kind)
            sub = type("K", (History,), {"kinds": (kind,), "gen": self.gen})()
            out += sub.cases(run, rnd, thorough)
        return out


@prop("C03")
class C03(Prop):
    bounds = "all inputs with 1..3 (thorough 4) particles on m<=3 modes with all outputs, random up to m=6, n=8, sparse ones up to m=12, n=11, few particles on up to 270 modes"
    assumptions = C01.assumptions

    def cases(self, run, rnd, thorough):
        out = [siblings(rnd, run.zoo, drive.SUBS, rep, 1) for rep in range(240 if thorough else 60)]
        out += wide_cases(rnd, run.zoo, drive.SUBS, thorough, 1) + mid_cases(rnd, run.zoo, drive.SUBS, thorough, 1)
        for kind in drive.SUBS:
            for m in (1, 2, 3):
                for rep in range(8 if thorough else 3):
                    mid = run.zoo.id(mats.general(m, rnd))
                    top = 5 if thorough and m < 3 else 4
                    pairs = [(S, T, rnd.choice(HOWS)) for n in range(1, top + 1)
                             for S in mats.states(n, m) for T in mats.states(n - 1, m)]
                    for k in range(0, len(pairs), 150):
                        out.append(Case(fresh_session, (kind, mid, pairs[k:k + 150], rnd.choice(CONTS), FACS[rep % 5]),
                                        "%s/m%d/all%d.%d" % (kind, m, rep, k)))
            for rep in range(80 if thorough else 24):
                m = rnd.choice([3, 4, 4, 5, 6])
                mid = run.zoo.id(mats.general(m, rnd, lim=2 if rep % 2 else 1))
                pairs = []
                for _ in range(10):
                    n = rnd.randint(2, 7)
                    S, T = rnd.choice(mats.states(n, m)), rnd.choice(mats.states(n - 1, m))
                    if np.prod([s + 1 for s in S]) > 200:
                        continue
                    pairs.append((S, T, rnd.choice(HOWS)))
                out.append(Case(fresh_session, (kind, mid, pairs, rnd.choice(CONTS), FACS[rep % 5]),
                                "%s/rand%d" % (kind, rep)))
            for mid, pairs in bunched_pairs(rnd, run.zoo, 10, 1):
                out.append(Case(fresh_session, (kind, mid, pairs, rnd.choice(CONTS)),
                                "%s/bunched%d" % (kind, run.zoo[mid].m)))
            for name, M in (("u", mats.unitary(4, rnd)), ("id", mats.identity(3)),
                            ("zero", mats.from_complex([[0] * 3] * 3, [1] * 3))):
                mid = run.zoo.id(M)
                pairs = []
                for n in (1, 2, 3, 4):
                    S = rnd.choice(mats.states(n, M.m))
                    for T in rnd.sample(mats.states(n - 1, M.m), min(4, len(mats.states(n - 1, M.m)))):
                        if mats.den_state(M, S) < 1e8:
                            pairs.append((S, T, rnd.choice(HOWS)))
                out.append(Case(fresh_session, (kind, mid, pairs, "array"), "%s/%s" % (kind, name)))
        return out


@prop("C04")
class C04(History):
    kinds = ("scat",)
    gen = "scat"
    bounds = ("all pairs of states with 0..3 particles on m<=3 modes over matrices with distinct entries, "
              "random pairs up to m=6, and generated re-assignment histories")

    def cases(self, run, rnd, thorough):
        out = History.cases(self, run, rnd, thorough)
        out += wide_cases(rnd, run.zoo, ("scat",), thorough, 0, labelled)
        for rep in range(100 if thorough else 30):
            m = rnd.choice([1, 2, 3])
            mids = [run.zoo.id(labelled(m, rnd)) for _ in range(3)]
            pairs = [(rnd.choice(mats.states(rnd.randint(0, 3), m)), rnd.choice(mats.states(rnd.randint(0, 3), m)),
                      rnd.choice(HOWS)) for _ in range(6)]
            items = [(fresh_session, ("scat", i, [p], rnd.choice(CONTS))) for i in mids for p in pairs]
            rnd.shuffle(items)
            out.append(Case(core.chain, items, "scat/siblings%d" % rep))
        for m in (1, 2, 3):
            mid = run.zoo.id(labelled(m, rnd))
            top = 4 if thorough or m < 3 else 3
            sts = [S for n in range(top + 1) for S in mats.states(n, m)]
            pairs = [(S, T, rnd.choice(HOWS)) for S in sts for T in sts]
            for k in range(0, len(pairs), 200):
                out.append(Case(fresh_session, ("scat", mid, pairs[k:k + 200], rnd.choice(CONTS), FACS[m]),
                                "scat/m%d.%d" % (m, k)))
        for rep in range(50 if thorough else 16):
            m = rnd.choice([4, 5, 6])
            mid = run.zoo.id(labelled(m, rnd))
            pairs = [(rnd.choice(mats.states(rnd.randint(0, 6), m)), rnd.choice(mats.states(rnd.randint(0, 6), m)),
                      rnd.choice(HOWS)) for _ in range(15)]
            out.append(Case(fresh_session, ("scat", mid, pairs, rnd.choice(CONTS), FACS[rep % 5]), "scat/rand%d" % rep))
        return out


# ---------------------------------------------------------------------------
def sized_event(kind, calc, rows, cols, li, lo):
    ev = {"op": "sized", "kind": kind, "rows": rows, "cols": cols, "li": li, "lo": lo, "err": ""}
    try:
        v = calc.compute_permanent()
        ev["got"] = "value" if np.ndim(v) == 0 and complex(v) == complex(v) else "unreadable"
    except Exception as e:
        ev["got"] = type(e).__name__
    return ev


def size_session(kind, mid, plan, seed):
    """Problems of the planned sizes on one calculator (or a new one each), the listed problem in between."""
    rnd = random.Random(seed)
    M = core.ZOO[mid]
    evs, calc = [], None
    names = {"mat": "matrix", "inp": "input_state", "out": "output_state"}

    def raw(a, b, cont):
        A = np.array([[complex(rnd.randint(1, 5), rnd.randint(-2, 2)) for _ in range(b)] for _ in range(a)])
        return A if cont == "array" else A.tolist()

    def some(n, m, how):
        return drive.state(rnd.choice(mats.states(n, m)), how)

    def listed():
        n = rnd.randint(0, 3)
        return rnd.choice(mats.states(n, M.m)), rnd.choice(mats.states(n, M.m))
    for rows, cols, li, lo in plan:
        n = rnd.choice([0, 1, 1, 2, 2, 3])
        A, s, t = raw(rows, cols, rnd.choice(["array", "list"])), some(n, li, rnd.choice(HOWS)), some(n, lo, rnd.choice(HOWS))
        try:
            if calc is None or rnd.random() < .3:
                calc = make(kind, A, s, t)
            else:
                for f, x in rnd.sample([("mat", A), ("inp", s), ("out", t)], 3):
                    setattr(calc, names[f], x)
        except Exception as e:
            evs.append({"op": "sized", "kind": kind, "rows": rows, "cols": cols, "li": li, "lo": lo, "err": err(e)})
            calc = None
            continue
        evs.append(sized_event(kind, calc, rows, cols, li, lo))
        if rnd.random() < .5:                # and back to a problem whose value is specified
            S, T = listed()
            for f, x in rnd.sample([("mat", M.np("array")), ("inp", drive.state(S, "list")), ("out", drive.state(T, "tuple"))], 3):
                setattr(calc, names[f], x)
            evs.append({"op": "cnew", "o": "c", "rec": {"kind": kind, "mat": mid, "inp": list(S), "out": list(T)}, "err": ""})
            evs.append(comp_event("c", kind, calc, M, S, T, []))
    return evs


@prop("C28")
class C28(Prop):
    bounds = ("Ryser and Chin-Huh: all numbers of rows, columns and modes of both states in 1..4 (thorough 5) with 0..3 "
              "particles, on fresh and on re-assigned calculators with computable problems in between; all methods: "
              "states over fewer modes than the matrix (of up to 5 modes) has")
    assumptions = C01.assumptions

    def cases(self, run, rnd, thorough):
        out = []
        top = 5 if thorough else 4
        for kind in ("ryser", "chinhuh"):
            plan = [(a, b, c, d) for a in range(1, top + 1) for b in range(1, top + 1)
                    for c in range(1, top + 1) for d in range(1, top + 1)]
            for rep in range(6 if thorough else 3):
                full = plan + [(k, k, i, i) for k in range(1, top + 1) for i in range(1, k + 1)] * 2
                rnd.shuffle(full)
                for k in range(0, len(full), 100):
                    out.append(Case(size_session, (kind, run.zoo.id(mats.general(rnd.choice([1, 2, 3]), rnd)),
                                                   full[k:k + 100], rnd.randrange(10 ** 6)), "%s/sizes%d.%d" % (kind, rep, k)))
        for kind in tuple(drive.PERMS) + tuple(drive.SUBS):
            less = int(kind in drive.SUBS)
            for rep in range(40 if thorough else 10):
                m = rnd.choice([2, 3, 4, 5])
                mid = run.zoo.id(mats.general(m, rnd))
                pairs = []
                for _ in range(12):
                    k, n = rnd.randint(1, m - 1), rnd.randint(1, 4)
                    pairs.append((rnd.choice(mats.states(n, k)), rnd.choice(mats.states(n - less, k)), rnd.choice(HOWS)))
                out.append(Case(fresh_session, (kind, mid, pairs, rnd.choice(CONTS), FACS[rep % 5]), "%s/short%d" % (kind, rep)))
        return out
