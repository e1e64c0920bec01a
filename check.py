#!/usr/bin/env python3
"""The check of one property: python3 check.py <ID> [--tier quick|thorough]

1. deductive part: units of /repo's functions are extracted from the current source, joined with the contracts in
   /verif/verus, and handed to Verus (see vx.py); every obligation the property depends on has to be discharged;
2. bounded part: the harness runs the property on the real crate with generated inputs (labelled bounded).

exit 0 held, 1 with a VIOLATION line, 2 error of the check itself.
"""
import json, os, subprocess, sys, time, shutil, threading

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import vx

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_TARGET_DIR=V + "/harness/target", HOME="/root", CARGO_INCREMENTAL="0")
for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)


def run(cmd, cwd=V, timeout=600, mem_kb=None, env=ENV):
    if mem_kb:
        cmd = ["bash", "-c", f"ulimit -v {mem_kb}; exec \"$@\"", "x"] + cmd
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace") + "\ntimeout"


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.dir = f"{V}/build/{pid}"
        os.makedirs(self.dir, exist_ok=True)
        os.makedirs(V + "/replays", exist_ok=True)
        os.makedirs(V + "/evidence", exist_ok=True)
        self.violations = []   # (what, replay, has input)
        self.known = []
        self.bounded = {}
        self.errors = []

    def replay(self, name, text):
        p = f"{V}/replays/{self.pid}-{name}.txt"
        open(p, "w").write(text)
        return p

    # --- bounded part ------------------------------------------------------------------
    def build_harness(self):
        # path dependencies are rebuilt from the working tree whatever their timestamps say
        for c in ("harness", "rename"):
            run(["cargo", "clean", "--offline", "-p", "instant-xml", "-p", "instant-xml-macros"], cwd=f"{V}/{c}")
        rc, out = run(["cargo", "build", "--offline", "--locked"], cwd=V + "/harness")
        if rc != 0:
            rc2, out2 = run(["cargo", "build", "--offline", "--features", "chrono", "-p", "instant-xml"], cwd="/repo/instant-xml",
                            env=dict(ENV, CARGO_TARGET_DIR=V + "/build/repo-target"))
            shutil.rmtree(V + "/build/repo-target", ignore_errors=True)
            if rc2 != 0:
                self.errors.append("/repo does not build:\n" + out2[-3000:])
                return False
            r = self.replay("build", f"property {self.pid}: the types of /verif/harness (derives that are supported) do not compile against /repo\n\n" + out[-20000:])
            self.violations.append(("types with supported derives no longer compile", r, True))
            return False
        return True

    def case(self, n):
        rc, out = run([V + "/harness/target/debug/ixcheck", self.pid, "--seed", str(self.seed), "--tier", self.tier, "--dir", self.dir, "--case", str(n)],
                      timeout=60, mem_kb=8 << 20)
        return rc, out

    def harness(self):
        if not self.build_harness():
            return
        out_json = f"{self.dir}/bounded.json"
        if os.path.exists(out_json):
            os.remove(out_json)
        cmd = [V + "/harness/target/debug/ixcheck", self.pid, "--seed", str(self.seed), "--tier", self.tier, "--dir", self.dir, "--out", out_json]
        rc, out = run(cmd, timeout=800, mem_kb=16 << 20)
        rep = None
        if os.path.exists(out_json):
            rep = json.load(open(out_json))
        if rep is None:
            # the process died (abort, stack overflow, out of memory): find the case that does it
            hit = None
            try:
                raw = open(f"{self.dir}/{self.pid}.current", "rb").read()
            except OSError:
                raw = b""
            cases = [int.from_bytes(raw[i:i + 8], "little") for i in range(0, len(raw) - 7, 8)]
            for n in cases:
                if n == (1 << 64) - 1:
                    continue
                rc1, out1 = self.case(n)
                if rc1 != 0:
                    hit = (n, rc1, out1)
                    break
            if hit:
                r = self.replay(f"{self.seed}-{hit[0]}", f"property {self.pid}, seed {self.seed}, case {hit[0]}: the process reading or writing died (exit {hit[1]})\n"
                                f"replay: {' '.join(cmd[:2])} --seed {self.seed} --case {hit[0]}\n\n{hit[2]}\n{out[-3000:]}")
                self.violations.append((f"process died on case {hit[0]}", r, True))
            else:
                self.errors.append(f"harness gave no report (exit {rc}): {out[-2000:]}")
            return
        self.bounded = rep
        if rep.get("fail"):
            f = rep["fail"]
            r = self.replay(f"{self.seed}-{f['case']}",
                            f"property {self.pid}, seed {self.seed}, case {f['case']}\nwhat fails: {f['what']}\n"
                            f"replay: {' '.join(cmd[:2])} --seed {self.seed} --case {f['case']}\n\ninput:\n{f['input']}\n")
            self.violations.append((f["what"], r, True))
        known = {}
        for line in open(V + "/KNOWN_FINDINGS.txt"):
            if line.startswith("finding: "):
                parts = line.split(None, 3)
                known[parts[2].removeprefix("key=")] = (parts[1].removeprefix("property="), parts[3].strip())
        for f in rep.get("findings", []):
            if f["key"] in known and known[f["key"]][0] == self.pid:
                self.known.append(f"{f['key']}: {known[f['key']][1]}")
            else:
                r = self.replay(f["key"], f"property {self.pid}: {f['what']}\n")
                self.violations.append((f["what"], r, True))

    def rename(self):
        """C16: types with generated identifiers under every rule"""
        n = 8 if self.tier == "quick" else 60
        gen = V + "/rename/gen"
        rc, out = run([sys.executable, V + "/rename/gen_rename.py", str(self.seed), gen, str(n)])
        if rc != 0:
            self.errors.append("gen_rename: " + out)
            return
        rc, out = run(["cargo", "build", "--offline", "--locked"], cwd=V + "/rename", timeout=800)
        if rc != 0:
            keep = self.replay(f"rename-{self.seed}-main", open(gen + "/main.rs").read())
            r = self.replay(f"rename-{self.seed}", f"types with renamed fields do not compile ({keep})\n" + out[-20000:])
            self.violations.append(("types with rename_all no longer compile", r, True))
        else:
            rc, out = run([V + "/harness/target/debug/ixrename"])
            bad = [l for l in out.splitlines() if l.startswith("FAIL ")]
            if bad or rc != 0:
                keep = self.replay(f"rename-{self.seed}-main", open(gen + "/main.rs").read())
                r = self.replay(f"rename-{self.seed}", f"program: {keep}\nexit {rc}\n" + "\n".join(bad[:50]) + ("" if bad else out[-3000:]))
                self.violations.append((bad[0] if bad else "generated program failed", r, True))
            names = sum(int(l.split()[1]) for l in out.splitlines() if l.startswith("CHECKED "))
            self.bounded["evaluations"] = self.bounded.get("evaluations", 0) + names
            self.bounded.setdefault("kinds", {})["generated identifiers under a rule"] = names
        rc, out = run(["cargo", "check", "--lib", "--features", "reject", "--offline", "--locked", "--message-format", "json"], cwd=V + "/rename", timeout=300)
        lines, bad_lines = open(gen + "/reject.rs").read().splitlines(), set()
        for l in out.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                for s in m["message"]["spans"]:
                    while s:
                        if s["file_name"].endswith("reject.rs"):
                            bad_lines.add(s["line_start"])
                        s = (s.get("expansion") or {}).get("span")
        ok = [i for i in range(1, len(lines) + 1) if i not in bad_lines]
        self.bounded.setdefault("kinds", {})["unknown rules"] = len(lines)
        if ok and len(bad_lines) + len(ok) == len(lines):
            r = self.replay(f"reject-{self.seed}", "types with an unknown rename_all rule that are not rejected:\n" + "\n".join(lines[i - 1] for i in ok))
            self.violations.append(("unknown rename_all rule accepted: " + lines[ok[0] - 1], r, True))

    # --- all ---------------------------------------------------------------------------
    def main(self):
        t0 = time.time()
        proofs = {}
        th = threading.Thread(target=lambda: proofs.update(vx.prove(self.pid, self.tier, self.dir)))
        th.start()
        self.harness()
        if self.pid == "C16" and not self.errors:
            self.rename()
        th.join()
        if proofs.get("error"):
            self.errors.append(proofs["error"])
        for f in proofs.get("failed", []):
            r = self.replay("obligation-" + f["unit"] + "-" + f["function"].replace(":", "_").replace("/", "_").replace("<", "").replace(">", ""),
                            f"property {self.pid}: failed obligation in unit {f['unit']}, function {f['function']} ({f['source']})\n{f['what']}\n\n"
                            f"command: {f['cmd']}\n\n{f['output']}\n")
            self.violations.append((f"obligation of {f['function']} not discharged: {f['what']}", r, False))
        self.evidence(proofs, time.time() - t0)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        for u in proofs.get("undecided", []):
            print(f"undecided: unit {u['unit']} {u['function']}: {u['why']}")
        if self.errors:
            print("ERROR of the check: " + "\n".join(self.errors))
            if not self.violations:
                return 2
        with_input = [v for v in self.violations if v[2]]
        for what, r, inp in with_input or self.violations:
            print("what fails: " + " ".join(what.split())[:400])
            print(f"VIOLATION property={self.pid} replay={r}" + ("" if inp else " no-failing-input-found"))
        if self.violations:
            return 1
        print(f"{self.pid}: held; {proofs.get('discharged', 0)}/{proofs.get('obligations', 0)} obligations discharged, "
              f"{self.bounded.get('evaluations', 0)} bounded evaluations, {time.time() - t0:.1f} s")
        return 0

    def evidence(self, proofs, wall):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": vx.level(self.pid) if not proofs.get("undecided") else "exploration",
            "coverage": {
                "obligations": proofs.get("obligations", 0),
                "discharged": proofs.get("discharged", 0),
                "checker_cmd": proofs.get("cmd", "verus"),
                "trusted_base": proofs.get("trusted", []),
                "functions_under_contract": proofs.get("functions", []),
                "back_end": "Verus 0.2026.09.13 (Z3)",
                "solver_seconds": proofs.get("seconds", 0),
                "undecided": proofs.get("undecided", []),
                "extraction": proofs.get("extraction", []),
                "units": proofs.get("units", []),
                "vacuity": proofs.get("vacuity", {}),
                "bounded": {
                    "label": "bounded: generated inputs run on the real crate, not counted as proved",
                    "evaluations": self.bounded.get("evaluations", 0),
                    "cases": self.bounded.get("cases", 0),
                    "kinds": self.bounded.get("kinds", {}),
                    "seconds": self.bounded.get("seconds", 0),
                },
                "evaluations": self.bounded.get("evaluations", 0),
                "distinct_nontrivial": self.bounded.get("distinct", 0),
                "rule": "bounded part: inputs are generated from the seed; counted are distinct inputs (hash of the text, or of the written value's output) of at least 16 bytes that reached the library",
                "samples": self.bounded.get("samples", []),
                "known_findings": self.known,
                "explanation": vx.explain(self.pid),
            },
            "assumptions": proofs.get("assumptions", []),
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        json.dump(ev, open(f"{V}/evidence/{self.pid}.json", "w"), indent=1)


if __name__ == "__main__":
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    sys.exit(Check(pid, "thorough" if tier == "thorough" else "quick", seed).main())
