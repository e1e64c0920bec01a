"""The deductive part: units of /repo's functions under contract, discharged by Verus.

A unit is a file of /verif/verus: specifications, lemmas and contracts, with directives naming the functions of /repo
that are put under these contracts. /verif/extract copies those functions, from the current source, into the unit.
"""
import json, os, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
ENV = dict(os.environ, HOME="/root")
for k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
EXTRACT = V + "/extract/target/debug/extract"
TIMEOUT = {"quick": 400, "thorough": 700}

sys.path.insert(0, V)
from units import UNITS, PROPS

# errors that Verus reports for an obligation it could not discharge
OBLIGATION = re.compile(
    r"^error: (postcondition not satisfied|precondition not satisfied|invariant not satisfied.*|loop invariant not satisfied.*|"
    r"assertion failed|assertion not satisfied|assert.*failed|possible arithmetic underflow/overflow|possible division by zero|decreases not satisfied.*|"
    r"could not prove termination|recommendation not met|possible bit shift underflow/overflow|failed (this )?(pre|post)condition.*|"
    r"unable to prove .*|constructed value may fail to meet its declared type invariant|.*not satisfied.*)$")


def sh(cmd, timeout, cwd=V):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace")


EXPANDED = {}
EXPANDING = threading.Lock()


def expand(d):
    """the code that the derive macros of the current tree generate for the shapes of /verif/derive: once per run"""
    with EXPANDING:
        if d not in EXPANDED:
            EXPANDED[d] = expand_now(d)
        return EXPANDED[d]


def expand_now(d):
    env = dict(ENV, CARGO_TARGET_DIR=V + "/derive/target", RUSTC_BOOTSTRAP="1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="0")
    subprocess.run(["cargo", "clean", "--offline", "-p", "instant-xml", "-p", "instant-xml-macros"], cwd=V + "/derive", env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
    p = subprocess.run(["cargo", "rustc", "--offline", "--locked", "--lib", "--", "-Zunpretty=expanded"], cwd=V + "/derive", env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=250)
    open(d + "/shapes.rs", "wb").write(p.stdout)
    return p.returncode, p.stderr.decode("utf-8", "replace")


def extract(unit, d, vacuity=False, beyond=()):
    src, out, mp = f"{V}/verus/{unit}.rs", f"{d}/{unit}.rs", f"{d}/{unit}.map"
    env = dict(ENV)
    if UNITS[unit].get("gen"):
        env["VX_GEN"] = d
        if vacuity:
            env["VX_GEN"] = os.path.dirname(d)
        else:
            rc, err = expand(d)
            if rc != 0:
                return rc, "the derive macros' code is not expanded: " + err[-500:], out, mp
    if vacuity:
        env["VX_VACUITY"] = "1"
    env["VX_EXTERNAL"] = "\n".join(beyond)
    p = subprocess.run([EXTRACT, REPO, src, out, mp], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    return p.returncode, p.stdout.decode("utf-8", "replace"), out, mp


def label(lines, n):
    """the function of /repo (as the extractor marked it) around line n (1-based) of a unit"""
    for i in range(min(n, len(lines)) - 1, -1, -1):
        if lines[i].startswith("//vx_end"):
            return None
        if lines[i].startswith("//vx_fn "):
            return lines[i][8:]
    return None


def enclosing(lines, n):
    """the function around line n (1-based) of a unit"""
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = re.match(r"\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?(?:open\s+|closed\s+)?(?:broadcast\s+)?(?:proof\s+|spec\s+|exec\s+)?(?:fn|const)\s+(\w+)", lines[i])
        if m:
            return m.group(1), i + 1
    return "?", 0


def unit(name, d, tier):
    """extracts and verifies one unit"""
    t0 = time.time()
    res = {"unit": name, "failed": [], "undecided": [], "obligations": 0, "discharged": 0, "functions": [], "extraction": [], "trusted": []}

    def undecided(fn, why):
        res["undecided"].append({"unit": name, "function": fn, "why": why[:600]})

    os.makedirs(d, exist_ok=True)
    # functions that Verus does not take as they are now: undecided, left out, and the others are decided
    beyond = {}
    for attempt in range(5):
        rc, out, src, mp = extract(name, d, beyond=list(beyond))
        if rc != 0:
            undecided("(extraction)", "not extracted: " + out.strip()[-500:])
            res["seconds"] = time.time() - t0
            return res
        res["functions"], res["extraction"], lost = [], [], {}
        for l in open(mp):
            k, rest = l.rstrip("\n").split(" ", 1)
            if k == "fn":
                res["functions"].append(rest)
            elif k == "lost":
                fn, why = rest.split(" ", 1)
                lost[fn] = "lost anchor: " + why
            else:
                n, what = rest.split(" ", 1)
                res["extraction"].append(f"{name}: {what} ({n}x)")
        text = open(src).read()
        lines = text.split("\n")
        cmd = ["verus", src, "--triggers-mode", "silent", "--multiple-errors", "1", "--num-threads", "4"] + UNITS[name].get("args", [])
        rc, out = sh(cmd, TIMEOUT[tier], cwd=d)
        res["cmd"] = " ".join(cmd)
        m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
        hard, rejected = [], {}
        for b in re.split(r"\n(?=error)", "\n" + out):
            b = b.strip("\n")
            if not b.startswith("error"):
                continue
            head = b.split("\n")[0]
            if head.startswith("error: aborting"):
                continue
            loc = re.search(r"--> " + re.escape(os.path.basename(src)) + r":(\d+)|--> \S*" + re.escape(name) + r"\.rs:(\d+)", b)
            at = int(loc.group(1) or loc.group(2)) if loc else 0
            fn, lb = enclosing(lines, at)[0] if loc else "?", label(lines, at) if loc else None
            if OBLIGATION.match(head) and m:
                if lb or fn.startswith("vx_law"):
                    res["failed"].append({"unit": name, "function": lb or fn, "source": lb or "derived code", "what": head[7:],
                                          "cmd": res["cmd"], "output": b})
                else:
                    hard.append((fn, head + " (in a lemma)"))
            else:
                hard.append((lb or fn, b[:600]))
                if lb and not m:
                    rejected[lb] = b[:600]
        if m or not rejected or set(rejected) <= set(beyond):
            break
        beyond.update(rejected)
    for fn, why in list(beyond.items()) + list(lost.items()):
        undecided(fn, why)
    # the source of std's functions, dependencies and wrappers that are assumed to meet their contracts
    for x in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]\s*\(", text):
        res["trusted"].append(f"{name}: std {x.group(1)}")
    for x in re.finditer(r"#\[verifier::external_body\]\s*\n\s*(?:pub(?:\([^)]*\))?\s+)?((?:broadcast\s+)?(?:proof\s+)?(?:fn|struct|enum)\s+\w+)", text):
        res["trusted"].append(f"{name}: {x.group(1)}")
    for x in re.finditer(r"\b(?:admit|assume)\s*\((?!_spec)", text):
        res["trusted"].append(f"{name}: assume at line {text.count(chr(10), 0, x.start()) + 1}")
    res["seconds"] = time.time() - t0
    for fn, why in hard:
        undecided(fn, why)
    if m:
        res["discharged"] = int(m.group(1))
        res["obligations"] = int(m.group(1)) + int(m.group(2))
    elif not hard:
        undecided("(unit)", f"no result from verus (exit {rc}): {out[-400:]}")
    if m and not res["failed"] and not hard and (int(m.group(2)) != 0 or rc != 0):
        undecided("(unit)", f"verus exit {rc}: {out[-400:]}")
    if m and int(m.group(1)) < UNITS[name].get("min", 1) and not res["failed"] and not res["undecided"]:
        undecided("(unit)", f"only {m.group(1)} obligations, expected at least {UNITS[name]['min']}")
    if tier == "thorough" and not res["failed"] and not res["undecided"]:
        vacuity(name, d, res)
    return res


def vacuity(name, d, res):
    """the same unit with assert(false) at the start of each of /repo's functions: each of them has to fail"""
    d = d + "/vacuity"
    os.makedirs(d, exist_ok=True)
    rc, out, src, mp = extract(name, d, vacuity=True)
    if rc != 0:
        return
    lines = open(src).read().split("\n")
    rc, out = sh(["verus", src, "--triggers-mode", "silent", "--multiple-errors", "1", "--num-threads", "4"] + UNITS[name].get("args", []), TIMEOUT["thorough"], cwd=d)
    want = sum("vx_vacuity" in l for l in lines)
    at = set()
    for m in re.finditer(r"error: assertion failed\n\s*--> \S*?:(\d+)", out):
        if "vx_vacuity" in lines[int(m.group(1)) - 1]:
            at.add(int(m.group(1)))
    res["vacuity"] = {"probes": want, "refuted": len(at)}
    if len(at) != want:
        res["undecided"].append({"unit": name, "function": "(vacuity)", "why": f"{want - len(at)} of {want} functions have contradictory preconditions or were not reached"})


def prove(pid, tier, d):
    names = PROPS.get(pid, {}).get("units", [])
    if not names:
        return {}
    if not os.path.exists(EXTRACT):
        rc, out = sh(["cargo", "build", "--offline", "--locked"], 300, cwd=V + "/extract")
        if rc != 0:
            return {"error": "extractor does not build: " + out[-1000:]}
    t0 = time.time()
    with ThreadPoolExecutor(max_workers=3) as ex:
        rs = list(ex.map(lambda n: unit(n, f"{d}/verus", tier), names))
    r = {"obligations": sum(x["obligations"] for x in rs), "discharged": sum(x["discharged"] for x in rs),
         "failed": sum((x["failed"] for x in rs), []), "undecided": sum((x["undecided"] for x in rs), []),
         "functions": sorted(set(sum((x["functions"] for x in rs), []))), "extraction": sum((x["extraction"] for x in rs), []),
         "trusted": sorted(set(sum((x["trusted"] for x in rs), []))),
         "vacuity": {x["unit"]: x["vacuity"] for x in rs if "vacuity" in x},
         "cmd": "; ".join(x.get("cmd", "") for x in rs), "seconds": round(sum(x["seconds"] for x in rs), 1),
         "units": [{k: x[k] for k in ("unit", "obligations", "discharged")} | {"seconds": round(x["seconds"], 1)} for x in rs],
         "assumptions": PROPS[pid].get("assumptions", []) + [a for n in names for a in UNITS[n].get("assumptions", [])]}
    r["wall"] = time.time() - t0
    return r


def level(pid):
    return "proof" if PROPS.get(pid, {}).get("proof") else "exploration"


def explain(pid):
    return PROPS.get(pid, {}).get("explain", "")


def technique(pid):
    p = PROPS.get(pid, {})
    if p.get("proof"):
        return "contract-based deductive verification (Verus) of the functions extracted from /repo on every run; bounded generated inputs on the real crate beside it"
    if p.get("units"):
        return "contracts discharged by Verus on the extracted functions it depends on, as far as they reach; the rest bounded: generated inputs on the real crate"
    return "bounded stand-in: generated inputs on the real crate"


def note(pid):
    return PROPS.get(pid, {}).get("note", "bounded: generated inputs only")


def theorems(pid):
    return PROPS[pid].get("theorems", [])


if __name__ == "__main__":
    # python3 vx.py UNIT... : runs units and prints the outcome
    for n in sys.argv[1:]:
        r = unit(n, "/tmp/vt/units", os.environ.get("VERIF_TIER", "quick"))
        print(n, r["discharged"], "/", r["obligations"], f"{r['seconds']:.1f} s", r.get("vacuity", ""))
        for f in r["failed"]:
            print("FAILED", f["function"], f["what"], "\n", f["output"][:800])
        for u in r["undecided"]:
            print("UNDECIDED", u["function"], u["why"])
