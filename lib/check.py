"""check.py PROPERTY quick|thorough: decides one property by symbolic execution of
the code in /repo's working tree, replays what it finds natively, writes evidence."""
import concurrent.futures as cf
import fcntl, json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, plan

VERIF = build.VERIF
EV = f"{VERIF}/evidence"
ASSUME = [
    "SHA-256 is modelled as an injective function and RSA signing as recording message, key and padding; native replays use the real ring and sha256.",
    "The HTTP transport (reqwest) is a stand-in that answers as the harness decides; requests are validated with the real http and url crates.",
    "The system clock does not read before 1970; allocation does not fail.",
    "Symbolic code: LLVM IR that rustc emits for /repo, its dependencies and std (opt-level 2, overflow checks on, single thread, atomics lowered).",
]


def log(*a):
    print(*a, flush=True)


def demangle(names):
    try:
        p = subprocess.run(["c++filt", "-s", "rust"], input="\n".join(names), stdout=subprocess.PIPE, text=True, timeout=20)
        return p.stdout.splitlines()
    except Exception:  # noqa
        return names


def write_witness(path, entry, w, note):
    with open(path, "w") as f:
        f.write(f"# entry {entry}: {note}\n# replay: {VERIF}/target/native/debug/native-replay {entry} {path}\n")
        for n, k, v in w["inputs"]:
            f.write(f"{n}\t{k}\t{v}\n")


def replay(binary, entry, path):
    """(reproduced?, output, prints, reaches, finished)"""
    try:
        p = subprocess.run([binary, entry, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=build.env(), cwd="/")
        out, rc = p.stdout.decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired:
        out, rc = "HANG: no answer in 60 s", -1
    lines = out.splitlines()
    bad = [l for l in lines if l.startswith(("ASSERT-FAILED", "PANIC", "HANG"))]
    if not bad and rc < 0:
        bad = [f"killed by signal {-rc}"]
    prints = [l[6:] for l in lines if l.startswith("PRINT ")]
    prints += ["" for l in lines if l == "PRINT"]
    reaches = list(dict.fromkeys(l[6:] for l in lines if l.startswith("REACH ")))
    return bad, out, prints, reaches, lines[-1:] == ["DONE"]


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.tot, self.funcs, self.reach, self.samples = {}, set(), {}, []
        self.viol, self.confirmed, self.unconfirmed, self.problems, self.unexplored, self.harnesses = [], [], [], [], [], []
        self.validated = 0
        self.instr = 0
        self.z3 = ""
        self.findings = []

    def budget(self):
        return plan.BUDGET[self.tier] - (time.time() - self.t0)

    def engine(self, binary, ll, h, out):
        secs = int(max(5, min(h.time, self.budget() - 40)))
        cmd = [binary, "--ll", ll, "--entry", h.entry, "--out", out, "--jobs", "8", "--time", str(secs)]
        if h.z3_all:
            cmd.append("--z3-all")
        if h.max_steps:
            cmd += ["--max-steps", str(h.max_steps)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            return None, p.stdout[-500:]
        return json.load(open(out)), ""

    def one(self, binary, ll, native, h):
        out = f"{build.TARGET}/out/{self.prop}-{h.entry}.json"
        t = time.time()
        j, err = self.engine(binary, ll, h, out)
        if j is None:
            (self.problems if h.required else self.unexplored).append(f"{h.entry}: engine failed: {err}")
            return
        self.z3 = j["z3"]
        self.instr = j["module_instructions"]
        tot, reach, viol, inc, wit = {}, {}, [], [], []
        for p in j["parts"]:
            for k, v in p.items():
                if isinstance(v, int):
                    tot[k] = max(tot.get(k, 0), v) if "max" in k else tot.get(k, 0) + v
            inc += p.get("incomplete", [])
            viol += p.get("violations", [])
            wit += p.get("path_witnesses", [])
            self.funcs.update(p.get("functions", []))
            for k, v in p.get("reach", {}).items():
                c, w = reach.get(k, (0, None))
                reach[k] = (c + v["count"], w or v["witness"])
        for k, v in tot.items():
            self.tot[k] = max(self.tot.get(k, 0), v) if "max" in k else self.tot.get(k, 0) + v
        for k, (c, _) in reach.items():
            self.reach[k] = self.reach.get(k, 0) + c
        self.harnesses.append({"entry": h.entry, "bounds": h.bounds, "paths": tot.get("paths", 0), "reach": {k: c for k, (c, _) in reach.items()},
                               "every_branch_and_assertion_by_z3": h.z3_all, "z3_queries": tot.get("z3_queries", 0), "z3_s": round(tot.get("z3_us", 0) / 1e6, 2),
                               "wall_s": round(time.time() - t, 2), "complete": not inc})
        log(f"  {h.entry}: {tot.get('paths', 0)} paths, {tot.get('z3_queries', 0)} queries, {len(viol)} violations, {time.time() - t:.1f} s{'' if not inc else ' INCOMPLETE'}")
        self.violations(native, h, viol)
        if inc and not viol:
            # cut short: what was explored stands, the rest is reported as not explored; nothing explored is no answer
            (self.unexplored if reach.get("checked") else self.problems).append(f"{h.entry}: cut short: {inc[0][:300]} ({len(inc)} reports)")
        if not viol and not inc:
            for r in h.reach:
                if r not in reach:
                    self.problems.append(f"{h.entry}: never reached '{r}' (vacuous)")
        # the native run of the same inputs has to agree with the symbolic path
        ws = [w for _, w in reach.values() if w] + wit
        seen, todo = set(), []
        for w in ws:
            k = json.dumps(w["inputs"])
            if k not in seen:
                seen.add(k)
                todo.append(w)
        limit = 24 if self.tier == "quick" else 64
        step = max(1, len(todo) // limit)
        self.validate(native, h, todo[::step][:limit])
        for w in todo[:1]:
            if len(self.samples) < 12:
                self.samples.append({"entry": h.entry, "inputs": [[n, k, v if k != "bytes" else bytes.fromhex(v).decode("latin1")] for n, k, v in w["inputs"]],
                                     "observed": [bytes.fromhex(x).decode("latin1") for x in w["prints"]], "reached": w["reaches"]})

    def violations(self, native, h, viol):
        by = {}
        for v in viol:
            by.setdefault((v["kind"], v["what"]), []).append(v)
        for (kind, what), vs in by.items():
            ok = None
            for i, v in enumerate(vs[:6]):
                path = f"{EV}/replay/{self.prop}-{h.entry}-{len(self.viol)}-{i}.witness"
                write_witness(path, h.entry, v["witness"], f"{kind} {what}")
                bad, out, *_ = replay(native(), h.entry, path)
                if bad:
                    ok = (path, bad, out)
                    break
            self.viol.append(what)
            if ok:
                self.confirm(h, *ok)
            else:
                self.unconfirmed.append(f"{h.entry}: {kind} {what} (native replay does not reproduce it: {path})")

    def confirm(self, h, path, bad, out):
        with open(path, "a") as f:
            f.write("".join(f"# {l}\n" for l in out.splitlines()))
        for k in known():
            if k[0] == self.prop and re.search(k[1], out):
                if k not in self.findings:
                    self.findings.append(k)
                return
        self.confirmed.append((h.entry, bad[0], path))

    def validate(self, native, h, ws):
        if not ws:
            return
        binary = native()

        def go(iw):
            i, w = iw
            path = f"{build.TARGET}/out/{self.prop}-{h.entry}-p{i}.witness"
            write_witness(path, h.entry, w, "path")
            return w, path, replay(binary, h.entry, path)

        with cf.ThreadPoolExecutor(8) as ex:
            for w, path, (bad, out, prints, reaches, done) in ex.map(go, enumerate(ws)):
                if bad:
                    # the solver's input for a path that it found to be fine fails on the real code
                    if not self.confirmed:
                        p2 = f"{EV}/replay/{self.prop}-{h.entry}-path.witness"
                        write_witness(p2, h.entry, w, "input of a symbolic path; fails natively")
                        self.confirm(h, p2, bad, out)
                elif prints != w["prints"] or reaches != w["reaches"] or not done:
                    if not self.viol:
                        self.problems.append(f"{h.entry}: native run differs from the symbolic path: {path}")
                else:
                    self.validated += 1

    def evidence(self, times, status):
        t = self.tot
        own = sorted(f for f in self.funcs if "cloud_storage_signature" in f)
        cov = {
            "states": t.get("paths", 0) + t.get("infeasible", 0),
            "transitions": t.get("dec_table", 0) + t.get("dec_model", 0) + t.get("dec_solver", 0) + t.get("forks", 0),
            "traces_validated_against_impl": self.validated,
            "samples": self.samples or ["none"],
            "meaning": "states: symbolic paths (feasible and pruned); transitions: symbolic branch decisions; traces: solver-made inputs of paths run natively on the real code with identical observations",
            "harnesses": self.harnesses,
            "not_explored": self.unexplored + self.problems + self.unconfirmed,
            "outside_the_bounds": plan.OUTSIDE.get(self.prop, ""),
            "feasible_paths": t.get("paths", 0),
            "assertions_by_solver": t.get("asserts_solver", 0),
            "assertions_by_term_identity": t.get("asserts_syntactic", 0),
            "solver": self.z3,
            "solver_queries": t.get("z3_queries", 0), "solver_sat": t.get("z3_sat", 0), "solver_unsat": t.get("z3_unsat", 0),
            "solver_unknown": t.get("z3_unknown", 0), "solver_cached": t.get("z3_cached", 0), "solver_s": round(t.get("z3_us", 0) / 1e6, 3),
            "instructions_executed": t.get("steps", 0), "module_instructions": self.instr,
            "functions_encoded": len(self.funcs), "functions_of_the_crate": demangle(own), "reached": self.reach,
            "build_s": times, "outcome": status,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
              "coverage": cov, "assumptions": ASSUME + plan.ASSUMPTIONS.get(self.prop, []), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.confirmed)}
        os.makedirs(EV, exist_ok=True)
        json.dump(ev, open(f"{EV}/{self.prop}.json", "w"), indent=1)


def known():
    r = []
    for line in open(f"{VERIF}/known-findings.txt"):
        m = re.match(r"finding: property=(\w+) match=(\S+) (.*)", line)
        if m:
            r.append(m.groups())
    return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3:]
    for d in (f"{build.TARGET}/out", f"{EV}/replay"):
        os.makedirs(d, exist_ok=True)
    lock = open(f"{build.TARGET}/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    for d in (f"{build.TARGET}/out", f"{EV}/replay"):
        for f in os.listdir(d):
            if f.startswith(prop + "-"):
                os.unlink(f"{d}/{f}")
    r = Run(prop, tier)
    log(f"{prop} {tier}: building from /repo")
    try:
        binary, ll, native, times = build.all_parallel()
    except build.BuildError as x:
        log(x)
        r.problems.append(str(x)[-1500:])
        r.evidence({}, "build failed")
        return 2
    log(f"  built in {time.time() - r.t0:.1f} s {times}")
    for h in plan.PLAN[prop]:
        if h.tier == "thorough" and tier != "thorough":
            continue
        if h.quick_only and tier == "thorough":
            continue
        if only and h.entry not in only:
            continue
        if not h.required and r.budget() < 60:
            r.unexplored.append(f"{h.entry}: no time left")
            continue
        r.one(binary, ll, native, h)
    for x in r.problems + r.unexplored:
        log("  NOTE", x)
    for x in r.unconfirmed:
        log("  UNCONFIRMED", x)
    for p, _, d in r.findings:
        log(f"KNOWN-FINDING: property={p} {d}")
    for e, b, path in r.confirmed:
        log(f"  {e}: {b}")
    if r.confirmed:
        status, rc = "violated", 1
    elif r.problems or r.unconfirmed:
        status, rc = "no answer", 2
    else:
        status, rc = "held on everything explored" + (f", but {len(r.unexplored)} of {len(r.harnesses)} parts were cut short or left out" if r.unexplored else ""), 0
    r.evidence(times, status)
    seen = set()
    for e, b, path in r.confirmed:
        if b not in seen and len(seen) < 5:
            seen.add(b)
            log(f"VIOLATION property={prop} replay={path}")
    log(f"{prop} {tier}: {status}, {r.tot.get('paths', 0)} paths, {r.tot.get('z3_queries', 0)} solver queries, {r.validated} native replays, {time.time() - r.t0:.1f} s")
    return rc


if __name__ == "__main__":
    sys.exit(main())
