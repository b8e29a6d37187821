"""Running TLC: design models and trace validation."""
import json
import os
import random
import re
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = ("/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar")


class MachineryError(Exception):
    pass


def run(module, cfg=None, env=None, workers=8, args=(), timeout=800, heap="6g"):
    """Runs TLC in a scratch metadir; returns (stdout, stats)."""
    with tempfile.TemporaryDirectory(prefix="boss_tlc_") as meta:
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noTE", "-nowarning",
               "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise MachineryError("TLC timed out on %s: %s" % (module, (x.stdout or b"")[-800:].decode(errors="replace")))
    out = p.stdout.decode("utf-8", "replace")
    st = {"rc": p.returncode, "generated": 0, "distinct": 0}
    m = None
    for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out):
        pass
    if m:
        st["generated"] = int(m.group(1).replace(",", ""))
        st["distinct"] = int(m.group(2).replace(",", ""))
    m = None
    for m in re.finditer(r"The number of states generated: ([\d,]+)", out):
        pass
    if m:
        st["generated"] = st["distinct"] = int(m.group(1).replace(",", ""))
    return out, st


def design(module, cfg=None, workers=8, env=None, timeout=800, args=(), expect=None):
    """A design-level model: it must pass, whatever the code does (or, with
    expect, violate just that invariant or property)."""
    out, st = run(module, cfg, workers=workers, env=env, timeout=timeout, args=args)
    if expect:
        if not re.search(r"(Invariant|property) %s (is|was) violated" % expect, out):
            raise MachineryError("design model %s (%s) does not violate %s:\n%s" % (module, cfg, expect, out[-3000:]))
        return st
    if st["rc"] != 0 or "No error has been found" not in out:
        raise MachineryError("design model %s (%s) fails:\n%s" % (module, cfg, out[-3000:]))
    return st


def simulate(module, cfg, num, depth, seed, env=None, timeout=300):
    """Behaviours of a generator model, printed as 'HIST <json>' lines."""
    out, st = run(module, cfg, workers=1, env=env, timeout=timeout,
                  args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    hs = [json.loads(json.loads('"' + l[len('"HIST '):-1] + '"'))
          for l in out.splitlines() if l.startswith('"HIST ')]
    if not hs:
        raise MachineryError("no behaviours from %s:\n%s" % (module, out[-3000:]))
    # TLC evaluates every successor of the last state: keep one history per behaviour
    groups = {}
    for h in hs:
        groups.setdefault(json.dumps(h[:-1]), []).append(h)
    r = random.Random(seed)
    return [r.choice(g) for _, g in sorted(groups.items())], st


def exhaustive(module, cfg, env=None, timeout=300):
    out, st = run(module, cfg, workers=1, env=env, timeout=timeout)
    hs = [json.loads(json.loads('"' + l[len('"HIST '):-1] + '"'))
          for l in out.splitlines() if l.startswith('"HIST ')]
    if not hs or "No error has been found" not in out:
        raise MachineryError("no behaviours from %s:\n%s" % (module, out[-3000:]))
    return hs, st


def failing_event(out):
    """(session, event) at which TLC could not even evaluate the verdict, from 0, or None."""
    if re.search(r"OutOfMemory|StackOverflow|out of memory", out) or "The behavior up to this point" not in out:
        return None
    last = None
    for block in re.split(r"^State \d+:", out[out.index("The behavior up to this point"):], flags=re.M)[1:]:
        i, j = re.search(r"\bs = (\d+)", block), re.search(r"\bl = (\d+)", block)
        if i and j:
            last = int(i.group(1)) - 1, int(j.group(1))
    return last


def validate(mats, sessions, timeout=840):
    """Returns ({session index: {event index: [clauses]}}, stats).

    An observation outside the domain of the specification (say, a list too short to be
    compared) makes TLC stop: it is replaced by a rejected event and the rest is validated."""
    sessions = [list(x) for x in sessions]
    outside = {}
    for _ in range(6):
        fd, path = tempfile.mkstemp(prefix="boss_trace_", suffix=".json")
        with os.fdopen(fd, "w") as f:
            json.dump({"mats": mats, "sessions": sessions}, f)
        try:
            out, st = run("BossTrace", env={"BOSS_TRACE": path}, timeout=timeout)
        finally:
            os.unlink(path)
        m = re.search(r'"CONSUMED (\d+) (\d+)"', out)
        if st["rc"] == 0 and m and int(m.group(2)) == len(sessions):
            break
        at = failing_event(out)
        if at is None or at in outside or at[0] >= len(sessions) or at[1] >= len(sessions[at[0]]):
            raise MachineryError("trace validation did not finish:\n" + out[-4000:])
        outside[at] = out[-1500:]
        sessions[at[0]][at[1]] = {"op": "case", "err": "outside-the-specification"}
    st["outside"] = len(outside)
    bad = {}
    for i, j in outside:
        bad.setdefault(i, {})[j] = ["raised:outside-the-specification"]
    for line in out.splitlines():
        if line.startswith('"BAD '):
            body = json.loads(line)
            _, s, l, rest = body.split(" ", 3)
            if not json.loads(rest):
                raise MachineryError("a verdict without clauses: " + line)
            bad.setdefault(int(s) - 1, {})[int(l) - 1] = sorted(json.loads(rest))
    return bad, st
