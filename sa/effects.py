"""State outside the values: statics and sources that the functions of the crate use, and types for threads."""
import json, os, re, subprocess
from . import decide

# sources other than the arguments
SOURCES = (
    (r"^std::time::(SystemTime|Instant)::(now|elapsed)$", "reads the clock"),
    (r"^std::env::", "reads the environment"),
    (r"^std::(fs|net|os)::", "uses files or the network"),
    (r"^std::io::(stdin|stdout|stderr|_print|_eprint)$", "uses the standard streams"),
    (r"^std::process::", "uses processes"),
    (r"^std::thread::(?!LocalKey|local_impl)", "uses threads"),
    (r"RandomState|^std::random::", "uses random numbers"),
)
# the order of their entries is random
HASHED = r"^std::collections::(HashMap|HashSet)::<.*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain)$"
# written once: state only if what is written depends on the call
ONCE = r"\b(Once|OnceLock|OnceCell|LazyLock|LazyCell)\b"
INIT = r"^std::(sync|cell)::Once(Lock|Cell)?(::<.*>)?::(get_or_init|get_or_try_init|call_once|call_once_force)$"
WRITE = r"^std::(sync|cell)::Once(Lock|Cell)?(::<.*>)?::(set|try_insert|take)$"


def alarm(kind, fn, what, span, cond=""):
    return {"kind": kind, "fn": fn, "what": what, "span": span, "root": "", "definite": True, "mode": "", "cond": cond, "model": None, "trace": [], "stack": []}


def export(work):
    mirx = os.path.join(decide.BUILD, "mirx")
    if not os.path.exists(mirx):
        decide.sh(["bash", os.path.join(decide.HERE, "setup.sh")])
    sysroot = decide.sh(["rustc", "+nightly", "--print", "sysroot"]).strip()
    out = os.path.join(work, "effects.json")
    env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot, "lib"), MIRX_OUT=out, MIRX_EFFECTS="1")
    decide.sh([mirx, os.path.join(decide.REPO, "src", "lib.rs"), "--edition", "2018", "--crate-name", "mpegts", "--crate-type", "lib", "--emit=metadata",
               "-Zmir-opt-level=0", "--cap-lints", "allow", "-o", os.path.join(work, "libmpegts.rmeta")], env=env)
    with open(out) as f:
        return json.load(f)


def witnesses(prop, work):
    """Names of the witnesses, and of those the compiler rejects."""
    src = os.path.join(decide.HERE, "harness", prop + ".rs")
    text = open(src).read().split("\n")
    at = {n + 1: m.group(1) for n, m in ((n, re.match(r"pub fn witness_(\w+)", l)) for n, l in enumerate(text)) if m}
    p = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-name", "witness", "--crate-type", "lib", "--emit=metadata", "--error-format=json",
                        "--cap-lints", "allow", "--extern", "mpegts=" + os.path.join(work, "libmpegts.rmeta"), src, "-o", os.path.join(work, "libwitness.rmeta")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = {}
    for l in p.stdout.split("\n"):
        d = json.loads(l) if l.startswith("{") else {}
        if d.get("level") != "error" or not d.get("spans"):
            continue
        lines = [x["line_start"] for x in d["spans"] if x["is_primary"] and x["file_name"] == src]
        if (d.get("code") or {}).get("code") != "E0277" or not lines or lines[0] not in at:
            raise decide.ToolError("witnesses do not compile: " + d.get("rendered", "")[:2000])
        bad.setdefault(at[lines[0]], d["message"])
    if p.returncode != 0 and not bad:
        raise decide.ToolError("witnesses do not compile: " + p.stdout[-2000:])
    return sorted(at.values()), bad


def query(args, work):
    prog = export(work)
    names, bad = witnesses(args.prop, work)
    if len(prog["fns"]) < 100 or len(names) < 20:
        raise decide.ToolError("only %d functions and %d witnesses found" % (len(prog["fns"]), len(names)))
    vio, und = [], []
    state = {s["name"]: s for s in prog["statics"] if s["mut"] or s["local"] or not s["frozen"]}
    once = {n for n, s in state.items() if re.search(ONCE, s["ty"]) and not s["mut"]}
    seen = set()
    uses = 0
    for f in prog["fns"]:
        if f["casts"]:
            und.append(alarm("source", f["name"], "uses the address of a value as a number", f["casts"][0]))
        for kind, name, foreign, captures, span in f["uses"]:
            uses += 1
            found = []
            if kind == "static" and name in state and name not in once:
                key = re.split(r"::\{constant", name)[0]
                found.append((vio, alarm("state", f["name"] if "{constant" not in name else key, "uses the state kept in " + key, span, state[name]["ty"])))
            if kind == "fn" and once and (re.search(WRITE, name) or captures and re.search(INIT, name)):
                found.append((vio, alarm("state", f["name"], "what is kept by the first call depends on that call: " + name, span)))
            if foreign:
                found.append((und, alarm("source", f["name"], "calls the foreign function " + name, span)))
            if kind == "fn":
                for pat, what in SOURCES:
                    if re.search(pat, name):
                        found.append((vio, alarm("source", f["name"], what + ": " + name, span)))
                if re.search(HASHED, name):
                    found.append((und, alarm("source", f["name"], "order of a hash table: " + name, span)))
            for to, a in found:
                if decide.key_of(a) not in seen:
                    seen.add(decide.key_of(a))
                    to.append(a)
    for n in sorted(bad):
        vio.append(alarm("threads", "witness_" + n, "the type cannot be used from several threads", None, bad[n]))
    rules = ["statics", "sources", "threads"]
    return dict(violations=vio, undecided=und, total=dict(obligations=uses + len(names), discharged=uses + len(names) - len(vio) - len(und), blocks=0, calls=uses),
                fns=sorted(f["name"] for f in prog["fns"]), roots=rules, proved=[] if und or vio else rules,
                want=["witness_" + n for n in names] + ["static " + s["name"] for s in prog["statics"]], loops=[], notes=[], cuts=[])
