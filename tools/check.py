#!/usr/bin/env python3
"""check <property> [quick|thorough]: decide one property on /repo's source.

Builds the extraction driver, lets it compile the current source of /repo
(type-checked, nothing is run) and runs the property's static rule over the
extracted program.  Exit 0: the property's rule found no violation.  Exit 1
otherwise, with one line "VIOLATION property=<id> replay=<file>"."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KSA_REPO", "/repo")
sys.path[:0] = [os.path.join(VERIF, "rules"), os.path.join(VERIF, "engine")]


def build_driver():
    env = dict(os.environ)
    tgt = os.path.join(VERIF, "build", "driver")
    env["CARGO_TARGET_DIR"] = tgt
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--release", "--quiet"], cwd=os.path.join(VERIF, "driver"),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(tgt, "release", "ksa-driver")
    if r.returncode != 0 or not os.path.exists(exe):
        raise RuntimeError("cannot build the extraction driver:\n" + r.stdout[-3000:])
    return exe


def dump(exe, tmp):
    """Compile /repo with the driver; returns the folder of the dump."""
    out = os.path.join(tmp, "dump")
    os.mkdir(out)
    env = dict(os.environ)
    root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    env["LD_LIBRARY_PATH"] = os.path.join(root, "lib")
    env["KSA_OUT"] = out
    env["CARGO_TARGET_DIR"] = os.environ.get("KSA_TARGET") or os.path.join(tmp, "target")
    env["RUSTC_WORKSPACE_WRAPPER"] = exe
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "+nightly", "check", "--locked", "--offline", "--quiet"], cwd=REPO, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    n = sorted(os.listdir(out))
    if r.returncode != 0 or "krill_sync-lib.json" not in n or "krill_sync-bin.json" not in n:
        raise RuntimeError("cannot extract the program from the source (%s):\n%s" % (n, r.stdout[-3000:]))
    return out


def known(prop):
    keys = set()
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("KNOWN "):
                    p = line.rstrip("\n").split(" ", 2)
                    if len(p) == 3 and p[1] == prop:
                        keys.add(p[2])
    except FileNotFoundError:
        pass
    return keys


def analyse(prop, tier, folder):
    from ir import Program
    import common
    import registry
    prog = Program(folder)
    ctx = common.prepare(prog)
    cls = registry.RULES[prop]
    m = cls(ctx)
    m.tier = tier
    t = time.time()
    missing = None
    try:
        if hasattr(m, "check"):
            m.check()
        else:
            m.run()
    except common.Missing as e:
        missing = str(e)
    if missing and not m.viol:
        m.viol["anchor: " + missing] = {"rule": "anchor", "where": "", "span": "", "text": "the construct this rule is about was not found in the program: " + missing}
    run = {"order": os.environ.get("PYTHONHASHSEED"), "steps": getattr(m, "steps", 0), "seconds": round(time.time() - t, 2),
           "occurrences": dict(sorted(m.seen.items())), "extra": getattr(m, "extra", {})}
    res = {"run": run, "viol": m.viol, "oblig": sorted([k[0], k[1], v] for k, v in m.oblig.items()),
           "opaque": sorted(m.stubbed), "functions": len(prog.bodies)}
    return res


def orders(prop, folder, n):
    """The same rule under other orders of exploration, in parallel: the
    joins of the fixpoint are made in another order each time."""
    ps = []
    for i in range(1, n + 1):
        env = dict(os.environ, PYTHONHASHSEED=str(i), KSA_SUB=folder)
        ps.append(subprocess.Popen([sys.executable, os.path.abspath(__file__), prop, "thorough"], env=env, stdout=subprocess.PIPE, text=True))
    out = []
    for p in ps:
        o, _ = p.communicate()
        if p.returncode != 0:
            raise RuntimeError("analysis failed under another order of exploration: " + o[-1500:])
        out.append(json.loads(o.splitlines()[-1]))
    return out



def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="ksa-")
    viol = {}
    err = None
    runs = []
    try:
        try:
            folder = os.environ.get("KSA_DUMP") or dump(build_driver(), tmp)
            if tier == "thorough":
                runs = orders(prop, folder, 6)
            runs.insert(0, analyse(prop, tier, folder))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    except Exception as e:
        err = traceback.format_exc()
        viol["analysis: " + type(e).__name__] = {"rule": "analysis", "where": "", "span": "", "text": "the property could not be decided: %s" % err[-1500:]}
    ob = {}
    for r in runs:
        viol.update(r["viol"])
        for what, where, v in r["oblig"]:
            if ob.get((what, where)) != "violated":
                ob[(what, where)] = v
    kn = known(prop)
    hit = sorted(k for k in viol if k in kn)
    new = {k: viol[k] for k in sorted(viol) if k not in kn}
    rec = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": (registry_doc(prop) + " Decided by abstract interpretation of the type-checked program (MIR): every path from the "
                            "entry points is followed to a fixpoint with joins; each obligation below names the rule and the function chain where "
                            "it was decided."),
            "obligations": len(ob),
            "discharged": sum(1 for v in ob.values() if v == "discharged"),
            "decided": sorted("%s: %s @ %s" % (v, k[0], k[1]) for k, v in ob.items())[:200],
            "runs": [r["run"] for r in runs],
            "functions_in_program": runs[0]["functions"] if runs else 0,
            "opaque_functions": runs[0]["opaque"] if runs else [],
        },
        "assumptions": ["the models of library functions in engine/models.py are right", "the operating system does what the std functions document"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(rec, f, indent=1)
        f.write("\n")
    replay = os.path.join(ev, prop + ".violations.json")
    if os.path.exists(replay):
        os.remove(replay)
    for k in hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if new:
        with open(replay, "w") as f:
            json.dump([dict(v, key=k) for k, v in new.items()], f, indent=1)
            f.write("\n")
        for k, v in list(new.items())[:20]:
            print("%s: %s [%s]: %s" % (prop, k, v["span"], v["text"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        sys.exit(1)
    print("%s: held; %d obligations decided in %.1f s" % (prop, len(ob), time.time() - t0))
    sys.exit(0)


def registry_doc(prop):
    try:
        import registry
        return " ".join((registry.RULES[prop].__doc__ or "").split())
    except Exception:
        return ""


if __name__ == "__main__":
    if os.environ.get("KSA_SUB"):
        print(json.dumps(analyse(sys.argv[1], "thorough", os.environ["KSA_SUB"])))
        sys.exit(0)
    if os.environ.get("PYTHONHASHSEED") != "0":
        # repeatable runs
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    main()
