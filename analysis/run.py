"""Runs checks:  python3 analysis/run.py P03 [P13 ...]   (from /verif)

Each run dumps the MIR of the source in /repo as it is now and decides the
property on it.  VERIF_DUMP=<dir> reuses a dump (development only)."""
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mir
import absint
import rules

REGISTRY = {}


def prop(pid, floor=1, technique="", assumptions=(), explain=""):
    def d(f):
        REGISTRY[pid] = (f, floor, technique, list(assumptions), explain)
        return f
    return d


def load():
    sys.modules["run"] = sys.modules[__name__]
    for n in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if n.endswith(".py") and not n.startswith("_"):
            importlib.import_module("checks." + n[:-3])


def known(pid):
    out = {}
    p = os.path.join(mir.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s key=" % pid):
                k = l.split("key=", 1)[1]
                key, _, text = k.partition(" :: ")
                out[key.strip()] = text
    return out


def decide(pid, prog, tier):
    f, floor, technique, assumptions, explain = REGISTRY[pid]
    c = rules.Check(pid, prog, tier)
    try:
        f(c)
        if len(c.obs) < floor:
            c.ob(False, "floor", "only %d obligations found, expected at least %d: an anchor of the rule has disappeared" % (len(c.obs), floor))
    except rules.Missing as x:
        c.ob(False, "anchor", "the construct the rule is anchored in is missing: %s" % x)
    except (absint.Limit, RecursionError, models_error) as x:
        c.ob(False, "undecided", "the source has a shape the analysis cannot summarise: %r" % x)
    except Exception as x:  # the code has a shape the rule does not know
        tb = traceback.format_exc()
        c.ob(False, "undecided", "the rule does not apply to the source any more: %r\n%s" % (x, tb[-1500:]))
    return c


class models_error(Exception):
    pass


def report(c, pid, tier, out=sys.stdout):
    f, floor, technique, assumptions, explain = REGISTRY[pid]
    kn = known(pid)
    bad, found = [], []
    for o in c.failed:
        (found if o[1] in kn else bad).append(o)
    seen = set()
    bad = [o for o in bad if not (o[1], o[2]) in seen and not seen.add((o[1], o[2]))]
    cov = c.coverage()
    cov.update(
        explanation="static analysis of the MIR of /repo's current source; %s. Every obligation is decided on all paths of the functions listed (loops by fixpoint summaries)." % explain,
        obligations=len(c.obs), discharged=len(c.obs) - len(c.failed), obligation_floor=floor,
        rule=technique, samples=[{"key": o[1], "obligation": o[2][:300], "where": o[3], "holds": o[0]} for o in c.obs[:12]], notes=c.notes)
    evd = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
           "assumptions": BASE + assumptions, "wall_s": round(time.time() - c.t0, 3), "violations": len(bad)}
    d = os.path.join(mir.VERIF, "evidence")
    os.makedirs(os.path.join(d, "replay"), exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as o:
        json.dump(evd, o, indent=1)
    for o in found:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, o[1], o[2].split("\n")[0]), file=out)
    rp = os.path.join(d, "replay", pid + ".txt")
    if bad:
        with open(rp, "w") as o:
            for b in bad:
                o.write("rule: %s\ninstance: %s\nwhere: %s\n%s\n\n" % (technique, b[1], b[3], b[2]))
        for b in bad[:8]:
            print("%s: [%s] %s\n    at %s" % (pid, b[1], b[2][:1200], b[3]), file=out)
        print("VIOLATION property=%s replay=%s" % (pid, rp), file=out)
    else:
        if os.path.exists(rp):
            os.remove(rp)
        print("%s: %d obligations discharged on %d paths of %d functions" % (pid, len(c.obs) - len(found), c.paths, len(c.functions)), file=out)
    return 1 if bad else 0


BASE = ["rustc's MIR of the workspace (dev profile, default features) is what runs",
        "the documented behaviour of std and of the called crates (models in analysis/models.py)"]


def main(argv):
    load()
    tier = os.environ.get("VERIF_TIER", "quick")
    pids = [a for a in argv if not a.startswith("-")]
    if pids == ["all"]:
        pids = sorted(REGISTRY)
    dump = os.environ.get("VERIF_DUMP")
    tmp = None
    if not dump:
        os.makedirs(os.path.join(mir.VERIF, "build"), exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="run.", dir=os.path.join(mir.VERIF, "build"))
        dump = tmp
    rc = 0
    try:
        if tmp:
            mir.dump(dump)
        prog = mir.Program(dump)
        for pid in pids:
            c = decide(pid, prog, tier)
            rc |= report(c, pid, tier)
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
