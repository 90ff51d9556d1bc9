"""Build the exported program for one property, analyse every root, and turn the result into an outcome."""
import json, os, re, shutil, subprocess, sys, tempfile, time
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
KNOWN = os.path.join(HERE, "known_findings.jsonl")

RULES = {
    "E": "abstract interpretation of the exported MIR; loops unrolled semantically, trace partitions kept apart",
    "G": "; loops the unrolling does not exhaust are replaced by inductive invariants, which are inferred and verified on every run",
}


class ToolError(Exception):
    pass


def sh(cmd, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)
    if p.returncode != 0:
        raise ToolError("%s failed:\n%s" % (" ".join(cmd[:3]), p.stdout[-6000:]))
    return p.stdout


def export(prop, work):
    """Compile the crate and the roots of the property; dump the reachable program."""
    mirx = os.path.join(BUILD, "mirx")
    if not os.path.exists(mirx):
        sh(["bash", os.path.join(HERE, "setup.sh")])
    sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).strip()
    lib = os.path.join(work, "libmpegts.rmeta")
    sh(["rustc", "+nightly", "--edition", "2018", "--crate-name", "mpegts", "--crate-type", "lib", "--emit=metadata",
        "-Zalways-encode-mir", "-Zmir-opt-level=0", "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums", "-C", "debug-assertions=on", "-C", "overflow-checks=on",
        os.path.join(REPO, "src", "lib.rs"), "-o", lib, "--cap-lints", "allow"])
    src = os.path.join(work, "roots.rs")
    with open(src, "w") as f:
        f.write('mod std_model { include!("%s"); }\n' % os.path.join(HERE, "harness", "std_model.rs"))
        for name in ("prelude", prop):
            p = os.path.join(HERE, "harness", name + ".rs")
            f.write('include!("%s");\n' % p)
    out = os.path.join(work, "out.json")
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
    env["MIRX_OUT"] = out
    sh([mirx, src, "--edition", "2021", "--crate-name", "roots", "--crate-type", "lib", "--emit=metadata",
        "-Zalways-encode-mir", "-Zmir-opt-level=0", "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums", "-C", "overflow-checks=on", "--cap-lints", "allow",
        "--extern", "mpegts=" + lib, "-o", os.path.join(work, "libroots.rmeta")], env=env)
    with open(out) as f:
        return json.load(f)


def unsafe_places(work):
    """Unsafe blocks, functions and impls of the crate, as the compiler reports them: (file, first line, last line)."""
    out = sh(["rustc", "+nightly", "--edition", "2018", "--crate-name", "mpegts", "--crate-type", "lib", "--emit=metadata", "--error-format=json",
              "--force-warn", "unsafe_code", os.path.join(REPO, "src", "lib.rs"), "-o", os.path.join(work, "libunsafe.rmeta"), "--cap-lints", "allow"])
    places = set()
    for l in out.split("\n"):
        d = json.loads(l) if l.startswith("{") else {}
        if (d.get("code") or {}).get("code") == "unsafe_code":
            for x in d["spans"]:
                while x.get("expansion"):
                    x = x["expansion"]["span"]
                places.add((x["file_name"], x["line_start"], x["line_end"]))
    return sorted(places)


PROG = None
PLACES = []


def one(job):
    from . import run
    root, mode, opts = job
    t = time.time()
    opts = dict(opts)
    known = opts.pop("known")
    settles = lambda key: relevant(root, {"kind": key[0]}) and "%s | %s | %s" % key not in known
    I = run.analyse(PROG, root, mode, found=settles, **opts)
    return dict(root=root, mode=mode, wall=time.time() - t, blocks=I.blocks, calls=I.calls,
                obl=[(k, v[0], v[1], v[2]) for k, v in I.obl.items()], alarms=list(I.alarms.values()),
                notes=[(k[0], k[1], v) for k, v in I.notes.items()], cuts=sorted(map(str, I.cuts)),
                claims=dict(I.claims), reached=sorted(I.reached), loops=["%s: %d values generalised, %d relations kept" % ((k[0],) + k[2:]) for k in sorted(I.general)],
                places=visited(I), fns=sorted({PROG["fns"][f]["name"] for f in I.fn_seen if PROG["fns"][f]["krate"] == "mpegts"}))


def visited(I):
    """Unsafe places that the run came through."""
    out = set()
    if PLACES:
        for f, b in I.seen:
            bb = PROG["fns"][f]["body"]["bb"][b]
            for sp in [bb["sp"]] + [x[3] for x in bb["s"] if x[0] == "=" and len(x) > 3]:
                if sp:
                    out |= {p for p in PLACES if sp[0] == p[0] and p[1] <= sp[1] <= p[2]}
    return sorted(out)


def relevant(root, a):
    """Is an obligation part of the property?"""
    if a["kind"] in ("claim", "harness"):
        return True
    if a["kind"] == "unsafe":
        return root.startswith(("root_np_", "root_ub_"))
    if a["kind"] == "panic":
        return root.startswith("root_np_")
    return not root.startswith("root_ub_")


def key_of(a):
    return "%s | %s | %s" % (a["kind"], a["fn"], a["what"])


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


def main(args):
    global PROG, PLACES
    t0 = time.time()
    prop = args.prop
    from . import props
    spec = props.get(prop)
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="w-%s-" % prop, dir=BUILD)
    try:
        try:
            if spec.get("query"):
                return finish(args, spec, spec["query"](args, work), t0)
            PROG = export(prop, work)
            PLACES = unsafe_places(work) if spec.get("places") else []
        except ToolError as e:
            print("ERROR property=%s %s" % (prop, e))
            return 2
        return finish(args, spec, interp_prop(args, spec), t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def interp_prop(args, spec):
    roots = [n.split("::")[-1] for n, _ in PROG["roots"]]
    if args.root:
        roots = [r for r in roots if any(x in r for x in args.root)]
    src = open(os.path.join(HERE, "harness", args.prop + ".rs")).read()
    want = set(re.findall(r'\bclaim\(\s*"([^"]+)"', src)) | set(re.findall(r'\breach\(\s*"([^"]+)"', src))
    declared = set(re.findall(r'\bfn (root_\w+)\s*\(', src))
    known = [k["key"] for k in load_known() if k.get("property") == args.prop and "key" in k]
    opts = dict(spec.get("opts", {}), until=time.time() + 500, known=known)
    gopts = dict(opts, **spec["general"]) if "general" in spec else None
    per = spec.get("per", {})
    todo = [(r, "E", dict(opts, **per.get(r, {}))) for r in roots]
    if args.mode:
        todo = [(r, args.mode, dict(gopts or opts, **per.get(r, {}))) for r in roots]
        gopts = None
    res = {}
    while todo:
        rs = run_jobs(todo, known) if len(todo) > 1 else [one(j) for j in todo]
        for r in rs:
            res.setdefault(r["root"], []).append(r)
        todo = []
        if gopts:
            # loops left open and nothing else in the way
            todo = [(r["root"], "G", dict(gopts, until=time.time() + 200, **per.get(r["root"], {}))) for r in rs if r["cuts"] and not r["notes"]
                    and not any(relevant(r["root"], a) for a in r["alarms"])]
            gopts = None
    if not args.mode:
        deepen(res, opts, known, spec.get("deep", (4, 16, 64)), per)
    violations, undecided = [], []
    reached = set()
    total = dict(obligations=0, discharged=0, blocks=0, calls=0)
    fns = set()
    complete = True
    proved = []
    loops = []
    for root in roots:
        runs = res[root]
        for r in runs:
            reached |= set(r["claims"]) | set(r["reached"])
            fns |= set(r["fns"])
            total["blocks"] += r["blocks"]
            total["calls"] += r["calls"]
        best = next((r for r in runs if clean(r)), None)
        last = best or runs[0]
        if best:
            loops.extend(best["loops"])
        total["obligations"] += sum(1 for k, s, n, sp in last["obl"] if relevant(root, {"kind": k[0]}))
        total["discharged"] += sum(1 for k, s, n, sp in last["obl"] if relevant(root, {"kind": k[0]}) and s == "ok")
        if best:
            proved.append(root)
            continue
        for r in runs[:1] + [r for r in runs[1:] if r["mode"] == "E"]:
            for a in r["alarms"]:
                if not relevant(root, a):
                    continue
                a = dict(a, root=root, mode=r["mode"])
                if a["definite"]:
                    if not any(v["root"] == root and key_of(v) == key_of(a) for v in violations):
                        violations.append(a)
                elif r is last:
                    undecided.append(a)
        if last["notes"] or last["cuts"]:
            complete = False
    missing = sorted(want - reached)
    if not args.root:
        for m in missing:
            if complete:
                violations.append({"kind": "unreached", "fn": "", "what": "no execution reaches: " + m, "span": None, "root": "",
                                   "definite": True, "mode": "", "cond": "", "model": None, "trace": [], "stack": []})
            else:
                undecided.append({"kind": "unreached", "fn": "", "what": m, "root": "", "span": None, "cond": ""})
        if declared - set(roots):
            raise SystemExit("roots missing from the export: %s" % sorted(declared - set(roots)))
    if args.verbose:
        for root in roots:
            for r in res[root]:
                print("%s %s %.1fs blocks=%d obl=%d ok=%d cuts=%d" % (root, r["mode"], r["wall"], r["blocks"], len(r["obl"]),
                      sum(o[1] == "ok" for o in r["obl"]), len(r["cuts"])))
                for n in r["notes"]:
                    print("   note", n)
                for c in r["cuts"]:
                    print("   cut", c)
                for a in r["alarms"]:
                    print("   %s%s %s %s %s\n      cond %s\n      model %s" % ("" if relevant(root, a) else "(ignored) ",
                          "DEFINITE" if a["definite"] else "possible", key_of(a), a["span"], "approx" if a["approx"] else "", a["cond"][:240], a["model"]))
                    if args.trace:
                        for t in a["trace"]:
                            print("        ", t[0], t[1][1] if t[1] else "", t[2])
    seen = {p for rs in res.values() for r in rs for p in r.get("places", ())}
    if not args.root:
        for p in PLACES:
            if p not in seen:
                undecided.append({"kind": "unvisited", "fn": "", "what": "unsafe code at %s:%d" % p[:2], "root": "", "span": None, "cond": ""})
    left = [rs[0] for rs in res.values() if not any(map(clean, rs))]
    return dict(violations=violations, undecided=undecided, total=total, fns=sorted(fns), roots=roots, proved=proved,
                want=sorted(want), loops=loops, places=[("%s:%d" % p[:2], p in seen) for p in PLACES] if spec.get("places") else None,
                notes=sorted({"%s in %s" % (n[0], n[1]) for r in left for n in r["notes"]}),
                cuts=sorted({c for r in left for c in r["cuts"]}))


def deepen(res, opts, known, factors, per):
    """Loops still open: unroll them further as long as that is quick."""
    for times in factors:
        if any(a["definite"] and relevant(r, a) and key_of(a) not in known for r, rs in res.items() for x in rs for a in x["alarms"]):
            return
        todo = []
        for root, rs in res.items():
            r = [r for r in rs if r["mode"] == "E"][-1]
            if r["cuts"] and not r["notes"] and r["wall"] < 10 and not any(map(clean, rs)) and not any(relevant(root, a) for a in r["alarms"]):
                o = dict(opts, **per.get(root, {}))
                todo.append((root, "E", dict(o, unroll=o.get("unroll", 2) * times, until=time.time() + 40)))
        if not todo:
            return
        for r in run_jobs(todo, known) if len(todo) > 1 else [one(j) for j in todo]:
            res[r["root"]].append(r)


def run_jobs(jobs, known):
    """All roots; those still running 30 s after one has a violation are given up."""
    rs, end = [], None
    with mp.Pool(min(8, len(jobs))) as pool:
        it = pool.imap_unordered(one, jobs, 1)
        while len(rs) < len(jobs):
            try:
                r = it.next(timeout=max(0.1, end - time.time()) if end else None)
            except mp.TimeoutError:
                break
            rs.append(r)
            if not end and any(a["definite"] and relevant(r["root"], a) and key_of(a) not in known for a in r["alarms"]):
                end = time.time() + 30
    done = {r["root"] for r in rs}
    for root, mode, _ in jobs:
        if root not in done:
            rs.append(dict(root=root, mode=mode, wall=0, blocks=0, calls=0, obl=[], alarms=[], cuts=[], claims={}, reached=[], loops=[], fns=[],
                           notes=[("given up after a violation elsewhere", root, None)]))
    return rs


def clean(r):
    return not r["notes"] and not r["cuts"] and not any(relevant(r["root"], a) for a in r["alarms"])


def finish(args, spec, R, t0):
    prop = args.prop
    known = [k for k in load_known() if k.get("property") == prop and "key" in k]
    vio, kn = [], []
    for v in R["violations"]:
        k = key_of(v)
        m = next((x for x in known if x["key"] == k), None)
        if m:
            kn.append((m, v))
        else:
            vio.append(v)
    ev = {
        "property": prop, "tier": args.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec.get("level", "other"),
        "wall_s": round(time.time() - t0, 3),
        "coverage": coverage(args, spec, R),
        "violations": len(vio),
        "assumptions": spec.get("assumptions", []),
    }
    if not args.no_evidence:
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    print("%s: %d roots, %d proved outright, %d obligations, %d discharged, %d functions analysed, %d undecided, %.1fs" % (
        prop, len(R["roots"]), len(R["proved"]), R["total"]["obligations"], R["total"]["discharged"], len(R["fns"]), len(R["undecided"]), time.time() - t0))
    for u in R["undecided"]:
        print("UNDECIDED %s (%s)" % (key_of(u), u["root"]))
    for n in R["notes"]:
        print("NOTE %s" % n)
    seen = set()
    for m, v in kn:
        if m["key"] not in seen:
            seen.add(m["key"])
            print("KNOWN-FINDING: property=%s %s" % (prop, m.get("what", m["key"])))
    if not vio:
        return 0
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    rp = os.path.join(d, prop + ".txt")
    with open(rp, "w") as f:
        for v in vio:
            f.write(render(v) + "\n")
    for v in vio:
        print(render(v))
    print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1


def render(v):
    o = ["%s" % key_of(v), "  root: %s (%s)" % (v["root"], v.get("mode"))]
    if v.get("span"):
        o.append("  at: %s:%s" % (v["span"][0], v["span"][1]))
    if v.get("cond"):
        o.append("  required: %s" % v["cond"])
    if v.get("model"):
        o.append("  fails for: %s" % ", ".join("%s=%s" % kv for kv in sorted(v["model"].items())[:40]))
    for f, sp in v.get("stack", []):
        o.append("  in %s (%s:%s)" % (f, sp[0] if sp else "", sp[1] if sp else ""))
    for t in v.get("trace", [])[-12:]:
        o.append("  branch %s %s: %s" % (t[0], t[1][1] if t[1] else "", t[2]))
    return "\n".join(o)


def coverage(args, spec, R):
    t = R["total"]
    c = {
        "rule": spec.get("rule", "every claim of the roots follows from the abstract state at the claim"),
        "roots": R["roots"], "roots_proved_for_all_inputs": R["proved"],
        "obligations": t["obligations"], "discharged": t["discharged"],
        "functions_analysed": R["fns"], "call_sites_interpreted": t["calls"], "blocks_interpreted": t["blocks"],
        "claims": R["want"], "undecided": [key_of(u) for u in R["undecided"]], "loops_bounded": R["cuts"], "loops": R["loops"],
        "incomplete": R["notes"],
        "explanation": spec.get("explanation", RULES["E"] + (RULES["G"] if spec.get("general") else "")),
    }
    if R.get("places") is not None:
        c["unsafe_places_in_the_crate"] = len(R["places"])
        c["unsafe_places_interpreted"] = [p for p, s in R["places"] if s]
    if spec.get("level") == "proof":
        c["checker_cmd"] = "python3 check.py " + args.prop
        c["trusted_base"] = spec.get("trusted_base", "driver/, sa/, harness/%s.rs, rustc MIR construction" % args.prop)
    return c
