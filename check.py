#!/usr/bin/env python3
"""Decides one property: extracts the functions under contract from /repo's
current source, has Verus discharge their obligations, and replays the same
contracts (bounded) against the crate that is built from /repo.

usage: check.py --prop ID [--tier quick|thorough]
"""
import argparse, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PG_REPO", "/repo")
BUILD = os.environ.get("PG_BUILD", os.path.join(HERE, ".build"))
OBLIGATION = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied"
    r"|possible arithmetic|possible division|possible bit shift|decreases not satisfied|could not show termination"
    r"|cannot show|unreachable|loop ensures not satisfied|unable to prove|failed precondition|constructor")
RESOURCE = re.compile(r"[Rr]esource limit|rlimit|timed out|took too long|canceled|out of memory")


def sh(cmd, timeout=None, cwd=None, env=None, out=None):
    """Runs a command in its own process group, ending the group on timeout."""
    e = dict(os.environ, CARGO_NET_OFFLINE="true")
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    try:
        so, se = p.communicate(timeout=timeout)
        return p.returncode, so, se
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        so, se = p.communicate()
        return -999, so, se


VX_LOCK = threading.Lock()

# The contract files are verified in separate units (smaller proof contexts).
# unit -> (name prefixes of the shared files, name prefixes of its own files)
UNITS = {
    "graph": ("0 1", "2 3"),
    "maps": ("0 1", "4"),
    "multi": ("0 1 2 3 40", "5"),
    "views": ("0 1 2 3 4", "6"),
    "algos": ("0 1 2 3 4 60", "7"),
}


def spec_files(prefixes):
    d = os.path.join(HERE, "vx/specs")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".vspec") and f.startswith(tuple(prefixes.split())))


def units_of(prop):
    def mentions(f):
        return any(l.startswith("=== ") and re.search(r"\bP=([A-Z0-9,]*,)?%s\b" % prop, l) for l in open(f))
    out = [u for u, (sh_, own) in UNITS.items() if any(mentions(f) for f in spec_files(own))]
    if "graph" not in out and any(mentions(f) for f in spec_files("0 1")):
        out.append("graph")
    return out


class AllVerus:
    """The units of one property, verified side by side."""

    def __init__(self, prop, tier):
        self.units = [Verus(prop, tier, u) for u in units_of(prop)]
        self.failed, self.undecided, self.fns, self.trusted = {}, {}, [], []
        self.verified = self.errors = self.smt_ms = self.clauses = 0
        self.wall, self.backend, self.output, self.status = 0.0, "", "", "skipped"

    def run(self):
        t0 = time.time()
        ts = [threading.Thread(target=u.run) for u in self.units]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for u in self.units:
            self.failed.update(u.failed)
            self.undecided.update(u.undecided)
            self.fns += [x for x in u.fns if x not in self.fns]
            self.trusted = sorted(set(self.trusted) | set(u.trusted))
            self.verified += u.verified
            self.errors += u.errors
            self.smt_ms += u.smt_ms
            self.clauses += u.clauses
            self.backend = self.backend or u.backend
            self.output += u.output
        st = {u.status for u in self.units}
        for s in ("failed", "undecided", "proved"):
            if s in st:
                self.status = s
                break
        self.wall = time.time() - t0


class Verus:
    """The proof part: generated from the current source on every run."""

    def __init__(self, prop, tier, unit):
        self.prop, self.tier, self.unit = prop, tier, unit
        self.dir = os.path.join(BUILD, "verus", prop, unit)
        self.status = "skipped"      # proved | failed | undecided | skipped
        self.undecided = {}          # function id -> reason
        self.failed = {}             # function id -> [message]
        self.output = ""
        self.fns, self.verified, self.errors, self.smt_ms, self.wall = [], 0, 0, 0, 0.0
        self.map, self.trusted, self.clauses = [], [], 0
        self.backend = ""

    def extract(self, external):
        rs, js = os.path.join(self.dir, "o.rs"), os.path.join(self.dir, "o.json")
        specs = spec_files(" ".join(UNITS[self.unit]))
        cmd = [os.path.join(BUILD, "vx/release/vx"), os.path.join(REPO, "src"), rs, js, *specs, "--prop", self.prop]
        if external:
            cmd += ["--external", ",".join(external)]
        if os.path.exists(js):
            os.remove(js)
        rc, so, se = sh(cmd, timeout=120)
        if not os.path.exists(js):
            raise RuntimeError("extraction failed: " + se[-2000:])
        j = json.load(open(js))
        self.map = j["map"]
        self.fns = j["fns"]
        for f, e in j["errors"]:
            self.undecided.setdefault(f, "extraction: " + e)
        self.source = open(rs).read()

    def section(self, line):
        for a, b, f in self.map:
            if a <= line <= b:
                return f
        return None

    def blocks(self, text):
        """Splits rustc-style diagnostics into (message, lines, text)."""
        out, cur = [], None
        for l in text.splitlines():
            m = re.match(r"(error(\[E\d+\])?|warning|note): (.*)", l)
            if m and not l.startswith(" "):
                if m.group(1).startswith("note") and cur is not None and cur[0] == "error":
                    cur[3].append(l)
                    continue
                cur = ["error" if m.group(1).startswith("error") else m.group(1), m.group(3), [], [l]]
                out.append(cur)
            elif cur is not None:
                cur[3].append(l)
                for x in re.findall(r"o\.rs:(\d+):\d+", l):
                    cur[2].append(int(x))
                x = re.match(r"\s*(\d+)\s+\|", l)
                if x:
                    cur[2].append(int(x.group(1)))
        return [(k, m, ls, "\n".join(t)) for k, m, ls, t in out]

    def run(self):
        t0 = time.time()
        try:
            self._run()
        except Exception as e:  # the harness still decides within its bound
            self.status = "undecided"
            self.undecided["(all %s)" % self.unit] = str(e)[-1500:]
        self.wall = time.time() - t0

    def _run(self):
        os.makedirs(self.dir, exist_ok=True)
        with VX_LOCK:
            rc, so, se = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(HERE, "vx"), timeout=400,
                            env={"CARGO_TARGET_DIR": os.path.join(BUILD, "vx")})
        if rc != 0:
            raise RuntimeError("vx does not build: " + se[-1500:])
        external = set()
        rlimit = "60" if self.tier == "thorough" else "30"
        for attempt in range(8):
            self.extract(sorted(external))
            mine = [f for f, s in self.fns if s != "other"]
            if not mine:
                self.status = "skipped"
                return
            cmd = ["verus", "o.rs", "--output-json", "--time", "--multiple-errors", "4", "--rlimit", rlimit]
            rc, so, se = sh(cmd, cwd=self.dir, timeout=500)
            self.output = se
            if rc == -999:
                raise RuntimeError("verus ran out of time")
            try:
                j = json.loads(so)
            except Exception:
                j = {}
            vr = j.get("verification-results", {})
            if vr.get("encountered-vir-error") or "verified" not in vr or (rc != 0 and not vr["verified"] and not vr["errors"]):
                # The front end rejects something: leave those functions out.
                bad = set()
                for k, m, ls, t in self.blocks(se):
                    if k != "error":
                        continue
                    for l in ls[:1] + ls:
                        f = self.section(l)
                        if f and not f.startswith(("lemmas:", "type:", "const:")) and f not in external:
                            bad.add(f)
                            self.undecided[f] = "not accepted by the verifier: " + m[:300]
                            break
                bad -= external
                if not bad:
                    raise RuntimeError("verus: " + se[-1500:])
                external |= bad
                continue
            self.verified, self.errors = vr["verified"], vr["errors"]
            self.backend = str(j.get("verus", {}).get("version", ""))
            try:
                self.smt_ms = j["times-ms"]["smt"]["total"]
            except Exception:
                pass
            failed, resource = self.classify(se)
            # The solver's search depends on its seed: an obligation that is
            # discharged under some seed is proved.
            if failed or resource:
                runs = [None, None]

                def again(i):
                    r, o, e = sh(cmd + ["--smt-option", "smt.random_seed=%d" % (11 + 6 * i)], cwd=self.dir, timeout=400)
                    runs[i] = None if r == -999 else self.classify(e)
                ts = [threading.Thread(target=again, args=(i,)) for i in range(len(runs))]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                keep = set(failed) | set(resource)
                for r in runs:
                    if r is not None:
                        keep &= set(r[0]) | set(r[1])
                failed = {f: x for f, x in failed.items() if f in keep}
                resource = {f: x for f, x in resource.items() if f in keep and f not in failed}
                if not keep:
                    self.verified, self.errors = self.verified + self.errors, 0
            self.failed.update(failed)
            self.undecided.update(resource)
            # A lemma does not mention the code: its failure decides nothing.
            if self.failed and all(f.startswith("lemmas:") for f in self.failed):
                for f in self.failed:
                    self.undecided[f] = "the proof of this lemma fails"
                self.failed = {}
            self.scan()
            self.status = "failed" if self.failed else ("undecided" if self.undecided else "proved")
            return
        raise RuntimeError("no acceptable extraction after 8 attempts")

    def classify(self, se):
        failed, resource = {}, {}
        for k, m, ls, t in self.blocks(se):
            if k != "error" or m.startswith("aborting due"):
                continue
            f = None
            for l in ls:
                f = self.section(l)
                if f:
                    break
            f = f or "(unknown)"
            if RESOURCE.search(m):
                resource[f] = "resource limit"
            else:
                failed.setdefault(f, []).append(t[:3000])
        return failed, resource

    def scan(self):
        other = {f for f, s in self.fns if s == "other"}
        lines = self.source.splitlines()
        names = []
        for i, l in enumerate(lines):
            f = self.section(i + 1)
            if f in other:
                continue
            if "external_body" in l:
                nxt = " ".join(lines[i + 1:i + 6])
                m = re.search(r"(?:fn|struct) (\w+)", nxt)
                names.append(("assumed body: " if f and f.startswith("lemmas:") else "undecided: ") + (m.group(1) if m else "?"))
            m = re.search(r"assume_specification.*?\[\s*(.*?)\s*\]\s*\(", l)
            if m:
                names.append("assumed contract: " + m.group(1))
            if re.search(r"\b(admit|assume)\s*\(", l):
                names.append("ASSUME at line %d" % (i + 1))
        self.trusted = sorted(set(names))
        self.clauses = sum(len(re.findall(r"\b(?:requires|ensures|invariant|decreases)\b", "\n".join(lines[a - 1:b])))
                           for a, b, f in self.map if f not in other)


class Harness:
    """Contract replay against the crate itself (bounded)."""

    def __init__(self, prop, tier, seed, base):
        self.prop, self.tier, self.seed, self.base = prop, tier, seed, base
        self.work = os.path.join(BUILD, "work", prop)
        self.bin = os.path.join(BUILD, "harness/release/pgcheck")
        self.report, self.failure, self.error, self.wall = {"suites": []}, None, None, 0.0

    def build(self):
        rc, so, se = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(HERE, "harness"), timeout=600,
                        env={"CARGO_TARGET_DIR": os.path.join(BUILD, "harness")})
        if rc != 0:
            self.error = "the harness does not build against /repo:\n" + se[-4000:]

    def explore(self, scale, budget, seed):
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        rc, so, se = sh([self.bin, "run", "--prop", self.prop, "--seed", str(seed), "--scale", str(scale),
                         "--budget", str(budget), "--work", self.work], timeout=budget + 120)
        rep, fail = os.path.join(self.work, "report.json"), os.path.join(self.work, "failure.json")
        if os.path.exists(rep):
            self.report = json.load(open(rep))
        if os.path.exists(fail):
            self.failure = json.load(open(fail))
        elif rc == 2:
            self.error = se[-1000:]
        elif rc != 0:
            self.failure = self.crash(rc, se)
            if self.failure is None:
                self.error = "the harness ended with %s: %s" % (rc, se[-1500:])

    def crash(self, rc, se):
        """The process died: find the case that did it."""
        for n in sorted(os.listdir(self.work)):
            if not n.startswith("cur_"):
                continue
            line = open(os.path.join(self.work, n)).read().strip()
            m = re.match(r"(\w+) (seed|data) (.*)", line)
            if not m:
                continue
            c = {"property": self.prop, "suite": m.group(1), "exhaustive": m.group(2) == "data", "trace": [], "choices": [],
                 "message": "the process ended abnormally (%s): %s" % (rc, se.strip()[-600:])}
            if m.group(2) == "seed":
                c["seed"] = int(m.group(3))
            else:
                c["choices"] = json.loads(m.group(3))
            p = os.path.join(self.work, "try.json")
            json.dump(c, open(p, "w"))
            r, so, se2 = sh([self.bin, "replay", p], timeout=60)
            if r != 0:
                c["trace"] = so.splitlines()[-40:]
                return c
        return None


def findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-verus", action="store_true")
    ap.add_argument("--no-harness", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    level = "other"
    man = os.path.join(HERE, "MANIFEST.json")
    if os.path.exists(man):
        for c in json.load(open(man))["checks"]:
            if c["property"] == prop:
                level = c["level"]
    os.makedirs(BUILD, exist_ok=True)
    v = AllVerus(prop, tier)
    tv = threading.Thread(target=v.run)
    if not a.no_verus:
        tv.start()
    h = Harness(prop, tier, seed, BUILD)
    th = time.time()
    if not a.no_harness:
        h.build()
        if not h.error:
            scale, budget = (60, 420) if tier == "thorough" else (6, 60)
            h.explore(scale, budget, seed)
    if not a.no_verus:
        tv.join()
    # An obligation fails and no input was found yet: look harder.
    if v.failed and h.failure is None and not h.error and not a.no_harness:
        left = 800 - (time.time() - t0) if tier == "thorough" else 150
        if left > 20:
            h.explore(60, int(left), seed + 7919)
    h.wall = time.time() - th
    code, violations = 0, 0
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    line = None
    if h.failure:
        p = os.path.join(rdir, prop + ".json")
        f = dict(h.failure)
        f["reproduce"] = "%s replay %s   (built by check.py from harness/)" % (h.bin, p)
        if v.failed:
            f["failed_obligations"] = v.failed
        json.dump(f, open(p, "w"), indent=1)
        line = "VIOLATION property=%s replay=%s" % (prop, p)
        print("contract clause violated: %s" % f["message"])
        for t in f.get("trace", [])[-30:]:
            print("   " + t)
    elif v.failed:
        p = os.path.join(rdir, prop + ".obligations.txt")
        with open(p, "w") as o:
            o.write("Failed obligations (function: verifier output)\n\n")
            for fn, ms in v.failed.items():
                for m in ms:
                    o.write("== %s\n%s\n\n" % (fn, m))
            o.write("\n\nfull verifier output\n\n" + v.output[-60000:])
        for fn in v.failed:
            print("obligation failed: %s" % fn)
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p)
    if line:
        code, violations = 1, 1
    elif h.error:
        print("no answer: " + h.error)
        code = 2
    else:
        for f in findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, f))
    # ---- evidence ----
    checked = [f for f, s in v.fns if s == "checked" and f not in v.undecided]
    suites = h.report["suites"]
    evals = sum(s["random_cases"] + s["exhaustive_cases"] for s in suites)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": round(time.time() - t0, 2),
        "violations": violations,
        "coverage": {
            "obligations": v.verified + v.errors + len(v.undecided),
            "discharged": v.verified,
            "checker_cmd": "verus o.rs --rlimit N (o.rs generated by vx from /repo/src and vx/specs)",
            "trusted_base": v.trusted + ["Verus " + v.backend + " with its SMT solver Z3", "vx, the extraction (DESIGN.md lists every rewrite)", "rustc"],
            "proof_status": v.status,
            "functions_under_contract": checked,
            "functions_undecided": v.undecided,
            "contract_clause_groups": v.clauses,
            "solver_ms": v.smt_ms, "verifier_wall_s": round(v.wall, 2),
            "bounded": {
                "note": "bounded stand-in and contract replay, never counted as proved",
                "evaluations": evals,
                "clauses_evaluated": sum(s["clauses"] for s in suites),
                "suites": suites, "wall_s": round(h.wall, 2),
            },
            "explanation": "Obligations are Verus verification units (functions, lemmas, loops) in the call closure of the property's functions; the bounded part evaluates the same contracts on the compiled crate.",
            "evaluations": evals,
            "rule": "one case is one seeded or enumerated history of operations; suites count the non-trivial shapes as labels",
        },
        "assumptions": v.trusted,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: proof %s (%d verified, %d errors, %d undecided, %.1fs), bounded %d cases (%.1fs), %.1fs" % (
        prop, v.status, v.verified, v.errors, len(v.undecided), v.wall, evals, h.wall, time.time() - t0))
    for f, r in v.undecided.items():
        print("   undecided: %s: %s" % (f, r[:200]))
    if line:
        print(line)
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
