"""Running cases in forked children, validating their sessions, reporting."""
import hashlib
import json
import os
import pickle
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Zoo:
    """All matrices of a run, numbered from 1 as in the specification."""

    def __init__(self):
        self.list, self.idx = [], {}

    def id(self, M):
        k = M.key()
        if k not in self.idx:
            self.list.append(M)
            self.idx[k] = len(self.list)
        return self.idx[k]

    def __getitem__(self, i):
        return self.list[i - 1]

    def json(self):
        return [M.json() for M in self.list]


class Case:
    """fn(*args) returns a session: a list of events.  fn must be deterministic given
    the arguments except where it says stat=True (then a failure is re-examined with a
    different seed before it counts)."""

    def __init__(self, fn, args, tag="", cpu=100, wall=280, stat=False):
        self.fn, self.args, self.tag = fn, args, tag
        self.cpu, self.wall, self.stat = cpu, wall, stat

    def longer(self):
        return Case(self.fn, self.args, self.tag, 2 * self.cpu, 350, self.stat)


def chain(*parts):
    """Several sessions one after another in one process: (fn, args) pairs."""
    evs = []
    for fn, args in parts:
        evs += fn(*args)
    return evs


def _child(case, path, attempt):
    from sampling import CaseTimeout

    def on_alarm(sig, frame):
        raise CaseTimeout()
    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, case.cpu)
    lim = 6 * 2 ** 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    try:
        os.environ["BOSS_ATTEMPT"] = str(attempt)
        session = case.fn(*case.args)
        res = ("ok", session)
    except CaseTimeout:
        res = ("ok", [{"op": "case", "err": "did-not-terminate"}])
    except MemoryError:
        res = ("ok", [{"op": "case", "err": "MemoryError"}])
    except BaseException as e:
        # a result the driver cannot even read is an event the specification rejects
        traceback.print_exc()
        res = ("ok", [{"op": "case", "err": "unreadable:" + type(e).__name__,
                       "note": traceback.format_exc()[-1500:]}])
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    with open(path, "wb") as f:
        pickle.dump(res, f)


HUNG = [{"op": "case", "err": "did-not-terminate"}]


def run_cases(cases, workers=None, attempt=0):
    """Runs every case in its own forked child; returns the list of sessions."""
    workers = workers or min(8, os.cpu_count() or 8)
    tmp = tempfile.mkdtemp(prefix="boss_cases_")
    results = [None] * len(cases)
    order = sorted(range(len(cases)), key=lambda i: -getattr(cases[i], "cost", 0))
    running, todo = {}, list(order)
    hung = []
    sys.stdout.flush()
    sys.stderr.flush()
    while todo or running:
        while todo and len(running) < workers:
            i = todo.pop(0)
            path = os.path.join(tmp, "%d.pkl" % i)
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    if not os.environ.get("BOSS_DEBUG"):
                        os.dup2(dn, 2)
                    _child(cases[i], path, attempt)
                finally:
                    os._exit(0)
            running[pid] = (i, path, time.time())
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid == 0 or pid not in running:
            for p, (i, path, t0) in list(running.items()):
                if time.time() - t0 > cases[i].wall:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        os.kill(p, signal.SIGKILL)
            time.sleep(0.003)
            continue
        i, path, t0 = running.pop(pid)
        try:
            with open(path, "rb") as f:
                results[i] = pickle.load(f)
            os.unlink(path)
        except (OSError, EOFError, pickle.UnpicklingError):
            results[i] = ("ok", [{"op": "case", "err": "did-not-terminate"}])
        if results[i][1] == HUNG:
            hung.append(i)
        if len(hung) >= workers:                 # enough: the remaining cases would only cost time
            todo = []
            for p in running:
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            running = {}
    shutil.rmtree(tmp, ignore_errors=True)
    if 0 < len(hung) <= 2 and attempt == 0:      # a slow machine? once more, alone and with more time
        again = run_cases([cases[i].longer() for i in hung], attempt=2)
        for i, s in zip(hung, again):
            results[i] = ("ok", s)
    return [r[1] if r else [] for r in results]


# ---------------------------------------------------------------------------
def corrupt(session):
    """A copy of a session with one logged result changed; None if nothing to change."""
    s = json.loads(json.dumps(session))
    for e in reversed(s):
        if e.get("err"):
            continue
        op = e["op"]
        if op == "sim":
            r = e["r"]
            if r["mode"] in ("enum", "sparse") and r["law"]:
                r["law"][0][1] += 1
            elif r["mode"] == "samples":
                r["list"] = r["list"] + [r["list"][0] if r["list"] else e["S"]]
            elif r["mode"] in ("stat", "statnum", "sparsestat"):
                c = r["cnt"][0]
                c[1] += r["ns"] // 2
            else:
                continue
            return s
        if op == "ccomp":
            if "re" in e:
                e["re"] += 1
            elif "vals" in e and e["vals"]:
                e["vals"][0][0] += 1
            elif "rows" in e:
                e["rows"] = e["rows"][:-1] if e["rows"] else [[[1, 0]]]
            else:
                continue
            return s
        if op in ("cnew", "cset", "snew", "sset", "fnew", "fset", "pfnew", "pfset", "dnew", "dset",
                  "fgen", "pfgen", "case"):
            continue
        for f in ("N", "res", "f", "X", "E", "law", "W", "ab", "count", "list", "a", "flat"):
            if f in e:
                v = e[f]
                if isinstance(v, int):
                    e[f] = v + 7919
                elif isinstance(v, list) and v:
                    if f in ("list",):
                        w = e["w"]
                        v[-w:] = v[:w]
                    elif isinstance(v[0], int):
                        v[0] += 1
                    elif f == "law":
                        v[0][1] += 1
                    else:
                        e[f] = v[1:]
                elif isinstance(v, list):
                    e[f] = [7]
                elif isinstance(v, str):
                    e[f] = v + "x"
                return s
    return None


def known_findings():
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            w = line.split()
            if len(w) > 3 and w[0] == "known:":
                prop = w[1].split("=", 1)[1]
                key = w[2].split("=", 1)[1]
                out[(prop, key)] = " ".join(w[3:])
    return out


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.zoo = Zoo()
        self.states = self.transitions = 0
        self.design_runs = []
        self.t0 = time.time()
        self.traces = 0
        self.events = 0
        self.notes = {}
        self.relative = ()

    def start_designs(self, plan):
        """The design models run in a process of their own, next to the code under test."""
        self.design_proc = None
        if plan:
            self.design_out = tempfile.TemporaryFile()
            self.design_proc = subprocess.Popen(
                [sys.executable, os.path.join(VERIF, "harness", "designs.py"), json.dumps(plan)],
                stdout=self.design_out, stderr=subprocess.STDOUT)

    def join_designs(self):
        if getattr(self, "design_proc", None):
            rc = self.design_proc.wait()
            self.design_out.seek(0)
            out = self.design_out.read().decode("utf-8", "replace")
            if rc != 0:
                raise tlc.MachineryError("design models: %s" % out[-4000:])
            for d in json.loads(out.splitlines()[-1]):
                self.states += d["states"]
                self.transitions += d.pop("generated")
                self.design_runs.append(d)

    def check(self, cases):
        """Returns (violations, known); a violation is (case, session, {pos: clauses})."""
        t = time.time()
        sessions = run_cases(cases)
        t, t1 = time.time(), t
        bad, st = self._validate(sessions, canary=True)
        self.notes["wall_cases_s"], self.notes["wall_tlc_s"] = round(t - t1, 1), round(time.time() - t, 1)
        self.states += st["distinct"]
        self.transitions += st["generated"]
        self.traces += len(sessions)
        self.events += sum(len(s) for s in sessions)
        fb = sum(1 for s in sessions for e in s if e.get("fallback"))
        self.notes["fallbacks_to_statistics"] = self.notes.get("fallbacks_to_statistics", 0) + fb
        self.notes["paths_enumerated"] = self.notes.get("paths_enumerated", 0) + sum(
            e["r"].get("paths", 0) for s in sessions for e in s if e["op"] == "sim" and not e["err"])
        tally = {}
        for s in sessions:
            for e in s:
                if e["op"] == "sim":
                    key = e["r"]["mode"] if not e["err"] else "raised"
                    tally[key] = tally.get(key, 0) + 1
        if tally:
            self.notes["simulate_events_by_mode"] = tally
        if os.environ.get("BOSS_DEBUG"):
            for c, s in zip(cases, sessions):
                for e in s:
                    if e.get("fallback"):
                        print("fallback", c.tag, e["fallback"], e.get("S"), s[0].get("rec"))
        self.samples = [self._short(s) for s in sessions[:2]] + [self._short(s) for s in sessions[-1:]]
        listed = known_findings()
        viol, known = [], {}
        recheck = []
        for i, evs in sorted(bad.items()):
            rest = {}
            for pos, clauses in evs.items():
                keys = [self.finding_key(sessions[i], pos, c) for c in clauses]
                left = [c for c, k in zip(clauses, keys)
                        if (self.prop, k) not in listed and c not in self.relative]
                for c, k in zip(clauses, keys):
                    if (self.prop, k) in listed:
                        known[k] = listed[(self.prop, k)]
                if left:
                    rest[pos] = left
            if rest:
                statty = all(sessions[i][p].get("r", {}).get("mode", "") in ("stat", "statnum", "sparsestat", "lag")
                             and set(cl) <= {"wrong-law-statistically", "samples-correlated", "samples-repeated"} for p, cl in rest.items()) \
                    or cases[i].stat
                if statty:
                    recheck.append((i, rest))
                else:
                    viol.append((cases[i], sessions[i], rest))
        if recheck and not viol:
            again = run_cases([cases[i] for i, _ in recheck], attempt=1)
            bad2, _ = self._validate(again, canary=False)
            for n, (i, rest) in enumerate(recheck):
                if n in bad2:
                    viol.append((cases[i], again[n], bad2[n]))
        return viol, known

    @staticmethod
    def finding_key(session, pos, clause):
        e = session[pos]
        return (e["kf"] + "/" + clause) if "kf" in e else clause

    def _short(self, s):
        t = json.dumps(s)
        return json.loads(t) if len(t) < 1500 else t[:1500]

    def _validate(self, sessions, canary):
        canaries = []
        if canary:
            for s in sessions:
                c = corrupt(s)
                if c is not None:
                    canaries.append(c)
                if len(canaries) >= 3:
                    break
        bad, st = tlc.validate(self.zoo.json(), [_strip(s) for s in sessions + canaries])
        for j in range(len(canaries)):
            if len(sessions) + j not in bad and not st["outside"]:
                raise tlc.MachineryError("the corrupted canary session was accepted: %s"
                                         % json.dumps(canaries[j])[:1500])
        if canary and not canaries and not bad:
            raise tlc.MachineryError("no session could be corrupted for the canary")
        self.notes["canaries_rejected"] = len(canaries)
        return {i: v for i, v in bad.items() if i < len(sessions)}, st

    def finish(self, viol, known, level="model_checking", assumptions=()):
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "design_models": self.design_runs, "samples": self.samples}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": list(assumptions), "wall_s": round(wall, 1),
              "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, text in sorted(known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        if viol:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for case, session, evs in viol[:5]:
                body = {"property": self.prop, "tier": self.tier, "seed": self.seed, "case": case.tag,
                        "failing": {str(p): c for p, c in evs.items()}, "session": session,
                        "matrices": {str(i): self.zoo[i].json() for i in _mats(session)},
                        "rerun": "VERIF_SEED=%d VERIF_TIER=%s bin/check %s --only %s"
                                 % (self.seed, self.tier, self.prop, case.tag)}
                h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
                path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.prop, h))
                with open(path, "w") as f:
                    json.dump(body, f, indent=1)
                for p, c in list(evs.items())[:3]:
                    print("  case %s event %d %s: %s" % (case.tag, p, session[p].get("op"), ", ".join(c)))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s tier=%s states=%d sessions=%d events=%d wall=%.1fs"
              % (self.prop, self.tier, self.states, self.traces, self.events, wall))
        return 0


def _mats(session):
    ids = set()

    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("mat", "cmat") and isinstance(v, int):
                    ids.add(v)
                else:
                    walk(v)
            if x.get("f") in ("mat", "cmat") and isinstance(x.get("v"), int):
                ids.add(x["v"])
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(session)
    return sorted(ids)


def _strip(s):
    return [{k: v for k, v in e.items() if k not in ("fallback", "note", "kf")} for e in s]
