#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [--bless] [--keep DIR]

Compiles the harness of the property together with /repo's current sources through the `mirdump` driver,
analyses the resulting MIR with `absint`, and compares the outcome with the list of labels that have to be met.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
os.environ["PATH"] = "/root/.cargo/bin:" + os.environ.get("PATH", "")
DRIVER = V + "/driver/target/debug/mirdump"
ENGINE = V + "/engine/target/release/absint"


def sh(cmd, env=None, timeout=600, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_tools():
    if os.environ.get("VERIF_NO_BUILD"):
        return
    if not os.path.exists(DRIVER):
        rc, o = sh(["cargo", "+nightly", "build", "--offline"], {"RUSTC_BOOTSTRAP": "1"}, cwd=V + "/driver")
        if rc:
            sys.exit("driver does not build:\n" + o)
    if not os.path.exists(ENGINE):
        rc, o = sh(["cargo", "build", "--release", "--offline"], cwd=V + "/engine")
        if rc:
            sys.exit("engine does not build:\n" + o)


def wrapper_env(out, target, crates, flags):
    rc, sysroot = sh(["rustc", "+nightly", "--print", "sysroot"])
    return {
        "LD_LIBRARY_PATH": sysroot.strip().splitlines()[-1] + "/lib",
        "RUSTC_BOOTSTRAP": "1",
        "RUSTC_WORKSPACE_WRAPPER": DRIVER,
        "MIRDUMP_OUT": out,
        "MIRDUMP_CRATES": crates,
        "MIRDUMP_OPAQUE": "regex,memchr,memmap",
        "RUSTFLAGS": flags,
        "CARGO_TARGET_DIR": target,
        "CARGO_INCREMENTAL": "0",
        "CARGO_NET_OFFLINE": "true",
        "RUSTC_WRAPPER": "",
    }


def dump_harness(scratch, feature):
    out = scratch + "/dump"
    os.makedirs(out, exist_ok=True)
    env = wrapper_env(out, scratch + "/target", "harness", "-Zalways-encode-mir -Zmir-opt-level=0")
    rc, o = sh(["cargo", "+nightly", "check", "--offline", "--locked", "--manifest-path", V + "/harness/Cargo.toml", "--features", feature], env)
    return rc, o, out + "/harness.json"


def repo_compiles(scratch):
    env = {"CARGO_TARGET_DIR": scratch + "/target2", "RUSTFLAGS": ""}
    rc, o = sh(["cargo", "check", "--offline", "--workspace", "--manifest-path", REPO + "/Cargo.toml"], env)
    return rc == 0, o


def engine(dump, roots, scratch, thorough, allowed):
    res = scratch + "/result.json"
    cmd = [ENGINE, dump, "--roots", roots, "--out", res, "--secs", "240", "--confirm", "5" if thorough else "3", "--confirm-secs", "400" if thorough else "150"]
    for a in allowed:
        cmd += ["--allow", "|".join(a)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=700)
    except subprocess.TimeoutExpired:
        return None, "no result in time"
    if p.returncode != 0:
        return None, p.stderr[-3000:]
    return json.load(open(res)), p.stdout


def bad_ok(o):
    return o["taint"] is None and not o["abstracted"]


def never():
    """Labels of points that no path should reach."""
    r = set()
    for f in glob.glob(V + "/harness/src/*.rs"):
        r.update(re.findall(r'unreachable\("([^"]*)"\)', open(f).read()))
    return r


def judge(prop, data, expected):
    """Returns (violations, undecided, stats)."""
    vio, und = {}, []
    total = ok = 0
    seen = set()
    labels = set()
    for r in data["roots"]:
        root = r["root"].split("::")[-1]
        seen.add(root)
        conf = {}
        if r["confirm"]:
            for o in r["confirm"]["bad"]:
                if bad_ok(o):
                    conf.setdefault((o["kind"], o["label"], o["func"]), o)
        incomplete = r["gave_up"] is not None
        for o in r["obligations"]:
            total += o["ok"] + len(o["bad"])
            ok += o["ok"]
            if o["kind"] in ("verify", "reach"):
                labels.add((root, o["kind"], o["label"]))
            if not o["bad"]:
                continue
            key = (o["kind"], o["label"], o["func"])
            real = [b for b in o["bad"] if bad_ok(b)]
            if real or key in conf:
                b = conf.get(key) or real[0]
                vio[(root,) + key] = b
            else:
                und.append({"root": root, "kind": o["kind"], "label": o["label"], "func": o["func"], "why": o["bad"][0]["taint"] or o["bad"][0]["detail"]})
        have = {(o["kind"], o["label"], o["func"]) for o in r["obligations"] if o["bad"]}
        for key, b in conf.items():
            if key not in have:
                vio[(root,) + key] = b
        if incomplete:
            und.append({"root": root, "kind": "engine", "label": "", "func": "", "why": r["gave_up"]})
        # every label of the harness has to be met on some path
        for (er, kind, label) in expected:
            if er == root and (root, kind, label) not in labels:
                if incomplete or r.get("havocked") or any(u["root"] == root for u in und):
                    und.append({"root": root, "kind": kind, "label": label, "func": root, "why": "not reached by an incomplete analysis"})
                elif not any(k[0] == root for k in vio):
                    vio[(root, "floor", label, root)] = {"kind": "floor", "label": label, "func": r["root"], "file": "", "line": 0, "detail": "no path reaches this point any more", "trace": []}
    for er in {e[0] for e in expected}:
        if er not in seen:
            vio[(er, "anchor", "harness", er)] = {"kind": "anchor", "label": "harness root", "func": er, "file": "", "line": 0, "detail": "the entry point was not found in the program", "trace": []}
    return vio, und, dict(total=total, ok=ok, labels=labels)


def main():
    t0 = time.time()
    prop = sys.argv[1]
    bless = "--bless" in sys.argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, V)
    import props
    P = props.PROPS[prop]
    build_tools()
    os.makedirs(V + "/evidence", exist_ok=True)
    keep = sys.argv[sys.argv.index("--keep") + 1] if "--keep" in sys.argv else None
    scratch = keep or tempfile.mkdtemp(prefix="verif-" + prop + "-")
    expected_all = json.load(open(V + "/expected.json")) if os.path.exists(V + "/expected.json") else {}
    expected = [tuple(x) for x in expected_all.get(prop, []) if x[2] not in never()]
    vio, und, known = {}, [], []
    cov = {}
    stats = dict(total=0, ok=0, labels=set())
    roots_info = []
    extra = {}
    pass_fns = set()
    try:
        if P.get("roots"):
            rc, o, dump = dump_harness(scratch, P["feature"])
            if rc != 0:
                fine, o2 = repo_compiles(scratch)
                msg = [l for l in o.splitlines() if l.startswith("error")][:5]
                if fine and P.get("private"):
                    und.append({"root": "", "kind": "anchor", "label": "interface", "func": "harness", "why": "the program's private functions the harness calls are gone: " + "; ".join(msg)})
                elif fine:
                    vio[("harness", "anchor", "interface", "")] = {"kind": "anchor", "label": "interface", "func": "harness", "file": "", "line": 0, "detail": "the interface the property is stated on is gone: " + "; ".join(msg), "trace": o.splitlines()[:80]}
                else:
                    print(o2[-2000:])
                    sys.exit(3)
            else:
                data, log = engine(dump, P["roots"], scratch, tier == "thorough", P.get("allowed", []))
                if data is None:
                    und.append({"root": "", "kind": "engine", "label": "", "func": "", "why": "engine failed: " + log[-500:]})
                else:
                    v, und, stats = judge(prop, data, expected)
                    allowed = lambda k: any(list(k[: len(a)]) == a for a in P.get("allowed", []))
                    for k in [k for k in v if allowed(k)]:
                        v.pop(k)
                    und = [u for u in und if not allowed((u["root"], u["kind"], u["label"]))]
                    vio.update(v)
                    for r in data["roots"]:
                        roots_info.append({"root": r["root"], "abstract_steps": r["steps"], "paths": r["paths"], "secs": r["secs"], "loops": r["loops"], "repo_functions": sorted({f for f in r["functions"] if re.search(r"\b(matchit|rapiddlt)\b|::program::(?!run$)", f)})})
                    if keep:
                        open(scratch + "/log.txt", "w").write(log)
        for fn in P.get("passes", []):
            v, u, s = fn(scratch, tier)
            for k, b in v.items():
                vio[k] = b
            und += u
            stats["total"] += s.get("obligations", 0)
            stats["ok"] += s.get("discharged", 0)
            pass_fns |= set(s.pop("repository_functions", []))
            extra[fn.__name__] = s
    finally:
        if not keep:
            shutil.rmtree(scratch, ignore_errors=True)
    if bless:
        expected_all[prop] = sorted(l for l in stats["labels"] if not l[2].startswith("aux:") and l[2] not in never())
        json.dump(expected_all, open(V + "/expected.json", "w"), indent=0, sort_keys=True)
        print("blessed", len(stats["labels"]), "labels")
    kf = json.load(open(V + "/known_findings.json"))
    listed = {f["key"]: f for f in kf["findings"] if f["property"] == prop}
    lines = []
    new = {}
    for k, b in sorted(vio.items(), key=lambda x: str(x[0])):
        key = "|".join(k)
        if key in listed:
            known.append(key)
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, listed[key]["what"]))
        else:
            new[key] = b
    fns = sorted({f for r in roots_info for f in r["repo_functions"]} | pass_fns)
    cov = {
        "obligations": stats["total"],
        "discharged": stats["ok"],
        "checker_cmd": "python3 check.py %s" % prop,
        "trusted_base": props.TRUSTED + P.get("trusted", []),
        "rule": P["rule"],
        "labels_required": len(expected),
        "repository_functions_analysed": fns,
        "entry_points": roots_info,
        "undecided": und[:40],
        "passes": extra,
        "samples": [{"label": l} for l in sorted(stats["labels"])[:20]],
    }
    cov["explanation"] = P["rule"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "proof"), "coverage": cov, "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    replay = "%s/evidence/%s.violations.json" % (V, prop)
    if os.path.exists(replay):
        os.remove(replay)
    for l in lines:
        print(l)
    for u in und[:20]:
        print("undecided: %s %s [%s] %s: %s" % (u["root"], u["kind"], u["label"], u["func"], str(u["why"])[:200]))
    print("%s: %d obligations, %d discharged, %d undecided, %d known, %d violated, %d repository functions, %.1fs" % (prop, stats["total"], stats["ok"], len(und), len(known), len(new), len(fns), time.time() - t0))
    if new:
        json.dump({"property": prop, "violations": [dict(b, key=k) for k, b in new.items()]}, open(replay, "w"), indent=1)
        for k, b in new.items():
            print("  %s: %s:%s %s" % (k, b.get("file"), b.get("line"), str(b.get("detail"))[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
