"""Effect rules over the MIR of the repository's crates (every body, generic ones included) and over the call graph."""
import json, os, re

LOCAL = ["matchit", "rapiddlt", "ripdlt", "dd_dlt"]


def workspace_dump(scratch):
    import check
    out = scratch + "/ws"
    if not os.path.exists(out + "/ripdlt.json"):
        os.makedirs(out, exist_ok=True)
        env = check.wrapper_env(out, scratch + "/ws-target", ",".join(LOCAL), "-Zalways-encode-mir -Zmir-opt-level=0")
        env["MIRDUMP_OPAQUE"] += ",rayon,itertools"
        rc, o = check.sh(["cargo", "+nightly", "check", "--offline", "--locked", "--workspace", "--manifest-path", check.REPO + "/Cargo.toml"], env)
        if rc:
            return None, "the repository does not compile: " + o[-800:]
    crates = {}
    for c in LOCAL:
        f = "%s/%s.json" % (out, c)
        if os.path.exists(f):
            crates[c] = json.load(open(f))
    return crates, ""


def walk(o, f):
    if isinstance(o, list):
        for x in o:
            walk(x, f)
    elif isinstance(o, dict):
        f(o)
        for x in o.values():
            walk(x, f)


class Use:
    """A function of another crate (or of the same) named in a body, called or passed on."""

    def __init__(self, crate, func, path, types, args, span, unsafe, disp):
        self.crate, self.func, self.path, self.types, self.args, self.span, self.unsafe, self.disp = crate, func, path, types, args, span, unsafe, disp


def const_of(o):
    if isinstance(o, list) and o and o[0] == "const" and o[1].get("bytes") is not None and not o[1].get("prov"):
        b = bytes.fromhex(o[1]["bytes"])
        return int.from_bytes(b, "little")
    return None


def uses(crates):
    for c, d in crates.items():
        ts = d["poly_types"]

        def fndef(o):
            t = ts[o["ty"]] if isinstance(o, dict) and isinstance(o.get("ty"), int) else None
            return t if t and t.get("k") == "fndef" else None

        for p in d["poly"]:
            for b in p.get("blocks", []):
                for s in b["s"]:
                    out = []
                    walk(s, lambda o: out.append(fndef(o)))
                    for t in out:
                        if t:
                            yield Use(c, p["path"], t["path"], t, None, s[-1], t["unsafe"], t["disp"])
                t = b["t"]
                if not isinstance(t, list):
                    continue
                if t[0] == "call":
                    out = []
                    walk(t[1], lambda o: out.append(fndef(o)))
                    for x in out:
                        if x:
                            yield Use(c, p["path"], x["path"], x, t[3], b["sp"], x["unsafe"], x["disp"])
                    out = []
                    walk(t[3], lambda o: out.append(fndef(o)))
                    for x in out:
                        if x:
                            yield Use(c, p["path"], x["path"], x, None, b["sp"], x["unsafe"], x["disp"])
                else:
                    out = []
                    walk(t, lambda o: out.append(fndef(o)))
                    for x in out:
                        if x:
                            yield Use(c, p["path"], x["path"], x, None, b["sp"], x["unsafe"], x["disp"])


def report(u, kind, label, detail):
    return (u.func, kind, label, u.path), {"kind": kind, "label": label, "func": u.func, "file": u.span[0], "line": u.span[1], "detail": detail, "trace": []}


def stats(crates, n, bad):
    return {
        "obligations": n,
        "discharged": n - bad,
        "repository_functions": sorted({p["path"] for d in crates.values() for p in d["poly"] if "blocks" in p}),
        "crates": {c: {"bodies": len([p for p in d["poly"] if "blocks" in p])} for c, d in crates.items()},
    }


def unavailable(why, fn):
    return {}, [{"root": fn, "kind": "effect", "label": "dump", "func": "", "why": why}], {"obligations": 0, "discharged": 0}


# ------------------------------------------------------------------------------------------------ C15

# names, behind the crate (`std`, `core` and `alloc` are one)
CHANGES = [
    r"fs::(write|rename|copy|hard_link|soft_link|set_permissions|set_times)$",
    r"fs::(remove|create)_\w+$",
    r"fs::File::(create\w*|set_permissions|set_times|set_modified)$",
    r"fs::DirBuilder::create$",
    r"os::unix::fs::(symlink|chown|fchown|lchown|chroot|mkfifo)$",
    r"process::Command::(spawn|output|status|exec)$",
    r"os::unix::process::CommandExt::exec$",
    r"net::(TcpStream|TcpListener|UdpSocket)::\w+$",
    r"os::unix::net::\w+::(connect|bind)\w*$",
]
OPENS = r"fs::OpenOptions::(write|append)$"
CREATE = r"fs::OpenOptions::(create|create_new|truncate)$"
FOREIGN = ("libc", "nix", "rustix")


def strip(path):
    return re.sub(r"^(std|core|alloc)::", "", re.sub(r"::<[^>]*>", "", path))


def changes_no_file(scratch, tier):
    crates, why = workspace_dump(scratch)
    if crates is None:
        return unavailable(why, "changes_no_file")
    vio, und, n = {}, [], 0
    for u in uses(crates):
        n += 1
        p = strip(u.path)
        if any(re.match(r, p) for r in CHANGES):
            k, v = report(u, "effect", "changes the outside", "%s is used" % u.path)
            vio[k] = v
        elif re.match(OPENS, p):
            c = const_of(u.args[1]) if u.args and len(u.args) > 1 else None
            if c == 1:
                k, v = report(u, "effect", "opens for writing", "%s(true)" % u.path)
                vio[k] = v
            elif c is None:
                und.append({"root": u.crate, "kind": "effect", "label": "opens for writing", "func": u.func, "why": "%s with a value that is not known" % u.path})
        elif u.path.split("::")[0] in FOREIGN:
            und.append({"root": u.crate, "kind": "effect", "label": "changes the outside", "func": u.func, "why": "%s is not known" % u.path})
    return vio, und, stats(crates, n, len(vio) + len(und))


# ------------------------------------------------------------------------------------------------ C25

AMBIENT = [
    (r"time::(Instant|SystemTime)::(now|elapsed)$", "the time"),
    (r"env::(var|vars|var_os|vars_os|current_dir|temp_dir|home_dir|current_exe)$", "the environment"),
    (r"thread::(current|ThreadId)", "the thread"),
    (r"process::id$", "the process"),
    (r"hash::(random::)?RandomState::new$|hash_map::RandomState::new$|collections::hash_map::RandomState::new$", "random numbers"),
    (r"(collections::)?(hash_map::|hash_set::)?Hash(Map|Set)(::<.*>)?::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain)$", "the order of a hash table"),
    (r"thread::LocalKey::(with|get|take|replace)\w*$", "a variable of the thread"),
    (r"rand::|rand_core::|getrandom::|fastrand::", "random numbers"),
]

# what reads a variable that may be shared by all scans; only if there is one
SHARED = r"sync::atomic::\w+::(load|swap|fetch_\w+|compare_\w+)$|sync::(\w+::)*(Mutex|RwLock)::(lock|try_lock|read|write|try_read|try_write)$"
# what makes the order of a hash table immaterial
ORDERED = r"(slice::|vec::)?.*::sort\w*$|.*BTree(Map|Set).*|iter::Iterator::(sum|count|max|min|all|any)$|iter::Sum::sum$"


def shared_statics(d):
    out = []
    for a in d["poly_allocs"]:
        if a and a.get("k") == "static":
            t = d["poly_types"][a["ty"]] or {}
            if re.search(r"Atomic|Mutex|RwLock|OnceLock", t.get("disp", "")) or t.get("path", "").split("::")[0] in LOCAL:
                out.append(a["path"])
    return out


def depends_on_bytes_only(scratch, tier):
    crates, why = workspace_dump(scratch)
    if crates is None:
        return unavailable(why, "depends_on_bytes_only")
    crates = {c: d for c, d in crates.items() if c != "dd_dlt"}
    vio, und, n = {}, [], 0
    shared = {c: shared_statics(d) for c, d in crates.items()}
    all_uses = list(uses(crates))
    outer = lambda f: re.sub(r"(::\{closure[^}]*\})+$", "", f)
    ordered = {(u.crate, outer(u.func)) for u in all_uses if re.match(ORDERED, strip(u.path))}
    for u in all_uses:
        n += 1
        p = strip(u.path)
        hash_iter = re.match(r"iter::IntoIterator::into_iter$", p) and re.search(r"IntoIterator>::into_iter|into_iter", u.disp) and re.search(r"\{<&?(mut )?std::collections::Hash(Map|Set)<", u.disp)
        what = "the order of a hash table" if hash_iter else next((w for r, w in AMBIENT if re.match(r, p)), None)
        if not what and shared[u.crate] and re.match(SHARED, p):
            what = "a variable shared by all scans (%s)" % ", ".join(shared[u.crate])
        if what == "the order of a hash table" and (u.crate, outer(u.func)) in ordered:
            und.append({"root": u.crate, "kind": "effect", "label": "depends on the bytes only", "func": u.func, "why": "%s: the results may be put in order" % u.path})
            continue
        if not what and shared[u.crate] and re.match(r"(sync|cell)::(once_lock::|once::)?(OnceLock|OnceCell)::(get_or_init|get_or_try_init|get_mut_or_init)$", p):
            # filled once, with something that depends on the first caller
            ts = crates[u.crate]["poly_types"]
            args = [ts[a] for a in u.types.get("args", []) if isinstance(a, int)]
            if any(t and t["k"] == "closure" and t["fields"] for t in args):
                what = "who asked first"
        if what:
            k, v = report(u, "effect", "depends on the bytes only", "%s: the result may depend on %s" % (u.path, what))
            vio[k] = v
    # variables that outlive a scan and can be written: their address is a `*mut`
    for c, d in crates.items():
        ts, al = d["poly_types"], d["poly_allocs"]
        for p in d["poly"]:
            for b in p.get("blocks", []):
                for st in b["s"] + [[b["t"], b["sp"]]]:
                    def look(o):
                        t = ts[o["ty"]] if isinstance(o.get("ty"), int) else None
                        if t and t.get("k") == "ptr" and t.get("mut") and o.get("prov"):
                            for _, i in o["prov"]:
                                if al[i] and al[i].get("k") == "static":
                                    key = (p["path"], "effect", "depends on the bytes only", al[i]["path"])
                                    vio[key] = {"kind": "effect", "label": "depends on the bytes only", "func": p["path"], "file": st[-1][0], "line": st[-1][1], "detail": "%s outlives a scan and is changed" % al[i]["path"], "trace": []}
                    walk(st, look)
    return vio, und, stats(crates, n, len(vio) + len(und))


# ------------------------------------------------------------------------------------------------ C26

ALLOC = re.compile(r"^(std|alloc)::alloc::(alloc|alloc_zeroed|realloc|exchange_malloc|Global::alloc_impl\w*)$|::__rust_(alloc|realloc|alloc_zeroed)$|^(std|alloc)::boxed::box_new")
# what happens when the program gives up, or prints, does not matter
ASIDE = re.compile(r"^(std|core)::(panicking|rt|fmt)::|^std::io::(stdio::)?_e?print|^(std|core)::result::unwrap_failed|^(std|core)::option::(expect_failed|unwrap_failed)|handle_error|^<.* as (std|core)::fmt::")


def allocates_nothing(scratch, tier):
    f = scratch + "/dump/harness.json"
    if not os.path.exists(f):
        import check
        rc, o, f = check.dump_harness(scratch, "c26")
        if rc:
            fine, o2 = check.repo_compiles(scratch)
            return unavailable("the harness does not compile: " + o[-600:], "allocates_nothing")
    d = json.load(open(f))
    insts, ts = d["insts"], d["types"]
    vio, und, n = {}, [], 0
    reached = set()
    for r in d["roots"]:
        root = insts[r]["path"]
        if "::c26_" not in root:
            continue
        n += 1
        prev = {r: None}
        todo = [r]
        found = None
        while todo and found is None:
            i = todo.pop(0)
            x = insts[i]
            if x is None or x.get("opaque"):
                continue
            if ALLOC.search(x["path"]):
                found = i
                break
            if ASIDE.search(x["path"]):
                continue
            reached.add(x["path"])
            nxt = []
            for b in (x.get("body") or {}).get("blocks", []):
                t = b["t"]
                if isinstance(t, list) and t[0] == "call":
                    if t[2] is not None:
                        nxt.append((t[2], b["sp"]))
                    elif t[2] is None:
                        pass
            for j, sp in nxt:
                if j not in prev:
                    prev[j] = (i, sp)
                    todo.append(j)
        if found is not None:
            path = []
            j = found
            while prev[j] is not None:
                i, sp = prev[j]
                path.append((insts[j]["path"], sp))
                j = i
            path.reverse()
            # the last call site in the repository
            local = [k for k, (q, sp) in enumerate(path) if re.search(r"(matchit|rapiddlt)/src/", sp[0])]
            at = path[local[-1]] if local else path[0]
            vio[(root, "effect", "allocates nothing", at[0])] = {
                "kind": "effect", "label": "allocates nothing", "func": at[0], "file": at[1][0], "line": at[1][1],
                "detail": "memory is allocated: " + " > ".join(q for q, _ in path)[:600], "trace": ["%s (%s:%s)" % (q, sp[0], sp[1]) for q, sp in path],
            }
    if n == 0:
        und.append({"root": "c26", "kind": "effect", "label": "allocates nothing", "func": "", "why": "no entry point"})
    return vio, und, {"obligations": n, "discharged": n - len(vio), "functions_reached": len(reached), "repository_functions": sorted(q for q in reached if re.search(r"\b(matchit|rapiddlt)::", q))}
