"""C20: factories."""
import copy
import json
import os
import random
import tempfile

import numpy as np

import core
import drive
import mats
import rng
import sampling
import tlc
from core import Case
from p_perm import comp_event
from p_samp import attempt, rand_matrix
from props import Prop, prop
from sampling import err, samples_event, sim_event

HOWS = ["list", "tuple", "array", "int64", "nplist"]
SETTABLE = ("gcc", "gccu", "lnet")


def generate(menu, num, seed):
    """num behaviours of the generator; all of them if num is 0."""
    fd, path = tempfile.mkstemp(prefix="boss_menu_", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(menu, f)
    try:
        if num == 0:
            return tlc.exhaustive("GenFactory", "GenFactory.cfg", env={"BOSS_MENU": path})
        return tlc.simulate("GenFactory", "GenFactory.cfg", num, menu["depth"] + 1, seed, env={"BOSS_MENU": path})
    finally:
        os.unlink(path)


def factory_session(hist, types, cfgs, cmats, inputs, perm, how, seed, start, maxlaws):
    """cfgs: records [mat, eta, l, m, level]; start: (type, cfg, cmat) indices."""
    rng.seed_real(seed)

    def conf(i):
        c = cfgs[i]
        M = core.ZOO[c["mat"]]
        return drive.config(M, inputs[0], eta=c["eta"][0] / c["eta"][1], left=c["l"], level=c["level"],
                            how=how)

    def calc(i):
        M = core.ZOO[cmats[i]]
        return drive.perm_calc(perm, M.np(), M.m)
    cur = {"type": types[start[0]], "cmat": cmats[start[2]], "cfg": cfgs[start[1]]}
    evs = [{"op": "fnew", "o": "f", "rec": copy.deepcopy(cur), "err": ""}]
    try:
        user_calc = calc(start[2])
        fac = drive.SimulationStrategyFactory(conf(start[1]), user_calc, drive.STRAT_TYPES[cur["type"]])
    except Exception as e:
        evs[0]["err"] = err(e)
        return evs
    products = []
    for h in hist:
        ev = {"op": "fset", "o": "f", "err": ""}
        try:
            if h[0] == "type":
                cur["type"] = types[h[1] - 1]
                ev.update(f="type", v=cur["type"])
                fac.strategy_type = drive.STRAT_TYPES[cur["type"]]
            elif h[0] == "cfg":
                cur["cfg"] = cfgs[h[1] - 1]
                ev.update(f="cfg", v=cur["cfg"])
                fac.experiment_configuration = conf(h[1] - 1)
            elif h[0] == "calc":
                cur["cmat"] = cmats[h[1] - 1]
                ev.update(f="cmat", v=cur["cmat"])
                user_calc = calc(h[1] - 1)
                fac.bs_permanent_calculator = user_calc
            elif h[0] in ("cmat", "cmatin"):
                cur["cmat"] = cmats[h[1] - 1]
                ev.update(f="cmat", v=cur["cmat"])
                new, old = core.ZOO[cur["cmat"]].np(), fac.bs_permanent_calculator.matrix
                if h[0] == "cmatin" and isinstance(old, np.ndarray) and old.shape == new.shape and old.flags.writeable \
                        and old.dtype == new.dtype:
                    old[...] = new                # in the array the factory's calculator holds
                else:
                    fac.bs_permanent_calculator.matrix = new
            elif h[0] == "orig":          # the caller goes on using the calculator it passed
                ev.update(f="cmat", v=cur["cmat"])
                user_calc.matrix = core.ZOO[cmats[h[1] - 1]].np()
            elif h[0] == "threads":
                ev.update(f="cmat", v=cur["cmat"])
                fac.available_threads_number = h[1]
            elif h[0] == "gen":
                name = "p%d" % (len(products) + 1)
                ev = {"op": "fgen", "o": "f", "as": name, "err": ""}
                p = {"type": cur["type"], "cfg": copy.deepcopy(cur["cfg"]), "name": name,
                     "mat": cur["cfg"]["mat"] if cur["type"] in ("fixed", "usep", "other") else cur["cmat"]}
                p["obj"] = fac.generate_strategy()
                products.append(p)
            elif h[0] == "use":
                p = products[h[1] - 1]
                ev = samples_event(p["name"], p["obj"], inputs[h[2] - 1], 2, how)
            elif h[0] == "re":
                p = products[h[1] - 1]
                if p["type"] not in SETTABLE:
                    continue
                ev = {"op": "sset", "o": p["name"], "f": "mat", "v": cmats[h[3] - 1], "err": ""}
                p["mat"] = cmats[h[3] - 1]
                p["obj"].set_new_matrix(core.ZOO[p["mat"]].np())
        except Exception as e:
            ev["err"] = err(e)
            evs.append(ev)
            return evs
        evs.append(ev)
    r = random.Random(seed)
    todo = [(p, S) for p in products for S in inputs]
    r.shuffle(todo)
    todo.sort(key=lambda t: inputs.index(t[1]))
    for p, S in todo[:maxlaws]:
        kind = "fixed" if p["type"] == "other" else p["type"]
        c = p["cfg"]
        D = mats.den_kind(kind, core.ZOO[p["mat"]], S, tuple(c["eta"]), c["m"] - c["level"], c["l"], c["level"])
        if D > mats.LIMIT:
            continue
        evs.append(sim_event(p["name"], sampling.snapshot(p["obj"]), S, D=D, q=sum(S) + 1, how=how,
                             seed=seed + 7777 * attempt(), max_paths=3000, ns=8000,
                             numonly=kind == "lstate" and 0 < c["level"] < c["m"], alt=1))
    return evs


def pf_session(hist, kind, mids, states, start, how, seed):
    """Permanent calculators made by their factory."""
    cur = {"mat": mids[start[0]], "inp": list(states[start[1]]), "out": list(states[start[2]])}
    evs = [{"op": "pfnew", "o": "f", "rec": dict(cur, kind=kind), "err": ""}]
    fac = drive.BSPermanentCalculatorFactory(core.ZOO[cur["mat"]].np(), drive.state(cur["inp"], how),
                                             drive.state(cur["out"], how), drive.PERM_TYPES[kind])
    products = []

    def compute(p):
        return comp_event(p["name"], kind, p["obj"], core.ZOO[p["mat"]], p["inp"], p["out"], [])
    for h in hist:
        ev = {"op": "pfset", "o": "f", "err": ""}
        try:
            if h[0] == "mat":
                cur["mat"] = mids[h[1] - 1]
                ev.update(f="mat", v=cur["mat"])
                fac.matrix = core.ZOO[cur["mat"]].np()
            elif h[0] in ("inp", "out"):
                cur[h[0]] = list(states[h[1] - 1])
                ev.update(f=h[0], v=cur[h[0]])
                setattr(fac, "input_state" if h[0] == "inp" else "output_state", drive.state(cur[h[0]], how))
            elif h[0] == "gen":
                name = "c%d" % (len(products) + 1)
                obj = fac.generate_calculator()
                ev = {"op": "pfgen", "o": "f", "as": name, "err": "",
                      "ok": int(isinstance(obj, drive.PERMS[kind]))}
                products.append(dict(cur, name=name, obj=obj, kind=kind))
            elif h[0] == "use":
                p = products[h[1] - 1]
                if sum(p["inp"]) != sum(p["out"]):
                    continue
                ev = compute(p)
            else:
                p = products[h[1] - 1]
                f, i = h[2], h[3]
                v = mids[i - 1] if f == "mat" else list(states[i - 1])
                ev = {"op": "cset", "o": p["name"], "f": f, "v": v, "err": ""}
                p[f] = v
                if f == "mat":
                    p["obj"].matrix = core.ZOO[v].np()
                elif f == "inp":
                    p["obj"].input_state = drive.state(v, how)
                else:
                    p["obj"].output_state = drive.state(v, how)
        except Exception as e:
            ev["err"] = err(e)
            evs.append(ev)
            return evs
        evs.append(ev)
    for p in products:
        if sum(p["inp"]) == sum(p["out"]):
            evs.append(compute(p))
    return evs


@prop("C20")
class C20(Prop):
    relative = ("KF-permuted-columns",)
    bounds = ("histories of up to 7 steps (re-configuration, generation, use) generated by the specification over 8 "
              "strategy types, two modes configurations and up to 3 products, then the complete law of the products; "
              "permanent factories with 4 methods and up to 3 products")
    assumptions = ("matrices configured for strategies of unitary networks are unitary",)

    def cases(self, run, rnd, thorough):
        out = []
        num = 1200 if thorough else 240
        hs, st = generate({"depth": 7, "w": 4, "products": 3, "inputs": 2, "pfields": {"mat": 3},
                           "fields": {"type": 4, "cfg": 3, "calc": 3, "cmat": 3, "orig": 3, "threads": 2}},
                          num * 2, rnd.randrange(10 ** 6))
        run.transitions += st["generated"]
        rnd.shuffle(hs)
        allk = ["fixed", "usep", "gcc", "lnet", "gccu", "nonu", "lstate", "other"]
        # every history of a generation followed by one (thorough: two) further steps, for every type
        short, st = generate({"depth": 3 if thorough else 2, "w": 1, "products": 2, "inputs": 1, "pfields": {"mat": 2},
                              "fields": {"type": 2, "cfg": 2, "calc": 2, "cmat": 2, "orig": 2}}, 0, 0)
        run.transitions += st["generated"]
        short = [h for h in short if h[0][0] == "gen"]
        def inplace(h, p):                    # the calculator's matrix overwritten in place
            return [["cmatin"] + x[1:] if x[0] == "cmat" and rnd.random() < p else x for x in h]
        short += [inplace(h, 1) for h in short if any(x[0] == "cmat" for x in h)]
        plan = [(k, h) for k in allk for h in short] + [(None, inplace(hs[i % len(hs)], .5)) for i in range(num)]
        for rep, (first, hist) in enumerate(plan):
            for _ in range(10000):
                lossy = rnd.random() < .25
                types = rnd.sample(["fixed", "usep", "lnet", "nonu", "other"] if lossy else allk, 4)
                if first is not None:
                    if first not in types and lossy and first in ("gcc", "gccu", "lstate"):
                        continue
                    types = [first] + [t for t in types if t != first][:3]
                m = 2 if rnd.random() < .7 or first else 3
                n = rnd.choice([1, 2, 2]) if first is None else 2
                inputs = [rnd.choice(mats.states(n, m)) for _ in range(2)]
                cm = [rand_matrix("lnet" if lossy else "gcc", rnd, m) for _ in range(3)]
                cfg = [dict(M=mats.unitary(m, rnd), eta=list(rnd.choice([(1, 1), (1, 2), (1, 4), (3, 4), (0, 1)])),
                            l=rnd.randint(0, n), m=m, level=rnd.randint(0, m)) for _ in range(3)]
                if m == 2 and len(set(max(M.d) for M in cm[:2])) < 2:        # laws that can be told apart
                    continue
                if first == "lstate":
                    cfg[0]["level"], cfg[0]["eta"] = m, list(rnd.choice([(1, 1), (3, 4)]))
                ok = all(mats.den_kind(k if k != "other" else "fixed",
                                       c["M"] if k in ("fixed", "usep", "other") else M, S, tuple(c["eta"]),
                                       m - c["level"], c["l"], c["level"]) <= mats.LIMIT
                         for k in types for c in cfg for M in cm for S in inputs)
                if ok:
                    break
            cfgs = [{"mat": run.zoo.id(c["M"]), "eta": c["eta"], "l": c["l"], "m": m, "level": c["level"]} for c in cfg]
            start = (rnd.randrange(4), rnd.randrange(3), rnd.randrange(3)) if first is None else (0, 0, 0)
            out.append(Case(factory_session, (hist, types, cfgs, [run.zoo.id(M) for M in cm], inputs,
                                              rnd.choice(["ryser", "chinhuh", "glynn", "classic", "ryser/none", "glynn/left"]), rnd.choice(HOWS),
                                              rnd.randrange(10 ** 6), start, 6 if thorough else 3), "fac.%d" % rep,
                            cpu=200))
        hp, st = generate({"depth": 8, "w": 4, "products": 3, "inputs": 1, "fields": {"mat": 3, "inp": 3, "out": 3},
                           "pfields": {"mat": 3, "inp": 3, "out": 3}}, 800 if thorough else 300, rnd.randrange(10 ** 6))
        run.transitions += st["generated"]
        rnd.shuffle(hp)
        for rep in range(700 if thorough else 240):
            m, n = rnd.choice([2, 3, 4]), rnd.choice([0, 1, 2, 3, 3])
            states = [rnd.choice(mats.states(n, m)) for _ in range(3)]
            ms = [run.zoo.id(mats.general(m, rnd)) for _ in range(3)]
            out.append(Case(pf_session, (hp[rep % len(hp)], list(drive.PERMS)[rep % 4], ms, states,
                                         [rnd.randrange(3) for _ in range(3)], rnd.choice(HOWS),
                                         rnd.randrange(10 ** 6)), "pf.%d" % rep))
        return out
