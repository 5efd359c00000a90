#!/usr/bin/env python3
"""Decide one property of /repo (deku) by contract verification.

  python3 check.py C01 [--tier quick|thorough] [--only SUBSTR] [--keep]

1. copy harness/ to a scratch directory, write the contract tables for the property;
2. compile deku (from /repo's working tree) and the contracts with the Kani compiler, once
   per configuration, into one goto program in which every contract is an entry point;
3. run CBMC on every contract separately (unwinding assertions on: an exhausted unwinding
   is a complete proof for that contract; one that is not exhausted is "undecided");
4. build the same contracts natively (real bitvec, real std) and evaluate them on generated
   values: a fidelity and vacuity cross-check, bounded, never counted as proved;
5. a failed obligation is replayed natively on the verifier's counterexample.

exit 0 held / 1 VIOLATION / 2 error of the check.
"""
import sys, os, re, json, time, shutil, subprocess, tempfile, threading, signal
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import gen
import known

KANI = None
for base in (os.path.expanduser("~/.kani"), "/root/.kani"):
    if os.path.isdir(base):
        for d in sorted(os.listdir(base)):
            if d.startswith("kani-"):
                KANI = os.path.join(base, d)
BIN = KANI + "/bin" if KANI else ""
REPO = "/repo"
CBMC_FLAGS = ("--no-malloc-may-fail --no-undefined-shift-check --no-signed-overflow-check "
              "--nan-check --no-self-loops-to-assumptions --no-pointer-primitive-check "
              "--unwinding-assertions --object-bits 12 --sat-solver cadical").split()
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
T0 = time.time()
preload = None   # allocator for the verifier process (tools/fastmalloc.c), when it compiles
procs = set()
plock = threading.Lock()


class CheckError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def run(cmd, cwd=None, env=None, timeout=None, out=None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    if preload and cmd[0].startswith(BIN):
        e["LD_PRELOAD"] = preload
    e.pop("RUSTFLAGS", None)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, text=True, errors="replace")
    with plock:
        procs.add(p)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, ""
    finally:
        with plock:
            procs.discard(p)


def killall():
    with plock:
        for p in list(procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


class Build:
    """One configuration: features of deku, library modules (specifications and contract
    bodies) and generated modules (one table of contracts each)."""

    def __init__(self, name, features, libs, tables, work):
        self.name, self.features, self.libs, self.tables = name, features, libs, tables
        self.mods = list(tables)
        self.dir = os.path.join(work, name)
        self.contracts = []   # (module, fn, unwind)
        self.groups = []      # (module, group fn, contracts in it)

    def write(self):
        shutil.copytree(HERE + "/harness", self.dir, ignore=shutil.ignore_patterns("target", "gen"))
        # the lock file of the tree under test, so the dependency versions are its own
        if os.path.exists(REPO + "/Cargo.lock"):
            shutil.copy(REPO + "/Cargo.lock", self.dir + "/Cargo.lock")
        toml = open(self.dir + "/Cargo.toml").read().replace('"/repo"', '"%s"' % REPO)
        open(self.dir + "/Cargo.toml", "w").write(toml)
        native = self.dir + "_n"
        shutil.copytree(self.dir, native)
        if "bits" in self.features:
            open(self.dir + "/Cargo.toml", "a").write(
                '\n[patch.crates-io]\nbitvec = { path = "%s/bitvec-spec" }\n' % HERE)
        for d in (self.dir, native):
            os.makedirs(d + "/src/gen", exist_ok=True)
            m = "".join("pub mod %s;\n" % x for x in self.libs)
            for mod, text in self.tables.items():
                open(d + "/src/gen/%s.rs" % mod, "w").write(text)
                m += '#[path = "gen/%s.rs"] pub mod %s;\n' % (mod, mod)
            m += ("#[cfg(not(kani))]\npub const REGISTRY: &[(&str, &[(&str, fn(), bool)])] = &[%s];\n"
                  % ", ".join('("%s", %s::REG)' % (x, x) for x in self.mods))
            open(d + "/src/mods.rs", "w").write(m)
        for mod, src in self.tables.items():
            n0 = len(self.contracts)
            for g, names in re.findall(r"^// GROUP (\w+): (.*)$", src, re.M):
                self.groups.append((mod, g, names.split()))
            for u, f in re.findall(r"^(\d+) (\w+) =>", src, re.M):
                self.contracts.append((mod, f, int(u)))
            if len(self.contracts) == n0 and "; native" not in src:
                raise CheckError("module %s has no contracts" % mod)

    def compile(self):
        t = time.time()
        cmd = ["cargo", "kani", "--lib"]
        if self.features:
            cmd += ["--features", ",".join(self.features)]
        cmd += ["-Z", "stubbing", "-Z", "unstable-options", "--no-assertion-reach-checks",
                "--only-codegen"]
        rc, o = run(cmd, cwd=self.dir, timeout=600)
        if rc != 0:
            raise CheckError("kani compile of %s failed:\n%s" % (self.name, o[-6000:]))
        metas = []
        for root, _, fs in os.walk(self.dir + "/target/kani"):
            metas += [os.path.join(root, f) for f in fs if f.endswith(".kani-metadata.json")
                      and f.startswith("deku_contracts")]
        if len(metas) != 1:
            raise CheckError("expected one metadata file, found %d" % len(metas))
        self.goto = {}
        todo = []
        for h in json.load(open(metas[0]))["proof_harnesses"]:
            if h["pretty_name"].endswith("::mega"):
                todo.append((h["pretty_name"].split("::")[0], h["goto_file"], h["mangled_name"]))
        with ThreadPoolExecutor(JOBS) as ex:
            for mod, g in ex.map(lambda x: self.link(*x), todo):
                self.goto[mod] = g
        for m in {c[0] for c in self.contracts}:
            if m not in self.goto:
                raise CheckError("no goto program for " + m)
        log("%s compiled (%d contracts) in %.0fs" % (self.name, len(self.contracts), time.time() - t))

    def link(self, mod, sym, mangled):
        if not mangled.endswith("4mega"):
            raise CheckError("unexpected mangled name " + mangled)
        b = self.dir + "/" + mod
        steps = [
            [BIN + "/goto-cc", sym, KANI + "/library/kani/kani_lib.c", "-o", b + ".0"],
            [BIN + "/goto-cc", b + ".0", "--function", mangled, "-o", b + ".1"],
            [BIN + "/goto-instrument", "--add-library", "--no-malloc-may-fail", b + ".1", b + ".2"],
            [BIN + "/goto-instrument", "--generate-function-body-options",
             "assert-false-assume-false", "--generate-function-body", ".*",
             "--drop-unused-functions", b + ".2", b + ".3"],
            [BIN + "/goto-instrument", "--ensure-one-backedge-per-target", b + ".3", b + ".goto"],
        ]
        for s in steps:
            rc, o = run(s, timeout=300)
            if rc != 0:
                raise CheckError("%s failed:\n%s" % (s[0], o[-3000:]))
        for i in range(4):
            os.unlink("%s.%d" % (b, i))
        return mod, (b + ".goto", mangled[:-5])

    def symbol(self, mod, fn):
        sep = "_" if fn[0].isdigit() or fn[0] == "_" else ""
        return "%s%d%s%s" % (self.goto[mod][1], len(fn), sep, fn)

    def prove_group(self, mod, g, cs, timeout, individually):
        """some contracts of one goto program together; one by one when that does not settle it"""
        r = self.prove(mod, g, max(c[2] for c in cs), timeout)
        if r["status"] == "proved" and r["covers"] == len(cs):
            out = []
            for m, f, u in cs:
                x = dict(r, fn=f, unwind=u, failed=[], undecided=[], covers=1)
                for k in ("wall", "solver"):
                    x[k] = r[k] / len(cs)
                for k in ("vccs", "props"):
                    x[k] = r[k] // len(cs)
                out.append(x)
            return out
        if r["status"] != "failed":
            log("group %s::%s: %s; one by one" % (mod, g, (r["undecided"] or ["some contract does not return"])[0][:200]))
        return [individually(*c) for c in cs]

    def prove(self, mod, fn, unwind, timeout):
        g = self.goto[mod][0]
        t = time.time()
        rc, o = run([BIN + "/cbmc"] + CBMC_FLAGS + ["--slice-formula", "--unwind", str(unwind),
                    "--function", self.symbol(mod, fn), g], timeout=timeout)
        r = dict(build=self.name, mod=mod, fn=fn, unwind=unwind, wall=time.time() - t,
                 failed=[], undecided=[], covers=0, vccs=0, solver=0.0, props=0)
        if rc is None:
            r["status"] = "undecided"
            r["undecided"] = ["verifier time limit (%ds)" % timeout]
            return r
        if rc < 0 or rc == 6:
            r["status"] = "undecided"
            r["undecided"] = ["verifier ended by signal or memory limit (%d)" % rc]
            return r
        r["solver"] = sum(float(x) for x in re.findall(r"Runtime decision procedure: ([\d.e-]+)s", o))
        m = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", o)
        if m:
            r["vccs"] = int(m.group(1))
        m = re.search(r"\*\* (\d+) of (\d+) failed", o)
        if not m or rc not in (0, 10):
            r["status"] = "error"
            r["undecided"] = ["cbmc exit %s: %s" % (rc, o[-1500:])]
            return r
        r["props"] = int(m.group(2))
        for pid, desc in re.findall(r"^\[(.+)\] (?:line \d+ )?(.*): FAILURE$", o, re.M):
            self.classify(r, pid, desc)
        if int(m.group(1)) != len(r["failed"]) + len(r["undecided"]) + r["covers"]:
            # multi-line descriptions: fall back to the machine readable form
            rc, o2 = run([BIN + "/cbmc"] + CBMC_FLAGS + ["--slice-formula", "--unwind", str(unwind),
                         "--json-ui", "--verbosity", "4", "--function", self.symbol(mod, fn), g],
                         timeout=timeout)
            try:
                res = [x for y in json.loads(o2) if "result" in y for x in y["result"]]
            except Exception:
                r["status"] = "error"
                r["undecided"] = ["cbmc output not understood"]
                return r
            r["failed"], r["undecided"], r["covers"] = [], [], 0
            for x in res:
                if x["status"] == "FAILURE":
                    self.classify(r, x["property"], x["description"])
        if r["failed"]:
            r["status"] = "failed"
        elif r["undecided"]:
            r["status"] = "undecided"
        elif r["covers"] == 0:
            r["status"] = "undecided"
            r["undecided"] = ["vacuous: the postcondition is not reachable"]
        else:
            r["status"] = "proved"
        return r

    @staticmethod
    def classify(r, pid, desc):
        cls = pid.rsplit(".", 2)[-2] if pid.count(".") >= 2 else ""
        if cls == "cover":
            r["covers"] += 1
        elif cls in ("unwind", "recursion", "unsupported_construct", "sanity_check", "no-body"):
            r["undecided"].append("%s: %s" % (pid, desc))
        else:
            r["failed"].append("%s: %s" % (pid, desc))

    def counterexample(self, r, timeout=400):
        """values of the contract's inputs in a failing run, in call order"""
        pid = r["failed"][0].split(": ")[0]
        rc, o = run([BIN + "/cbmc"] + CBMC_FLAGS + ["--unwind", str(r["unwind"]), "--function",
                    self.symbol(r["mod"], r["fn"]), "--property", pid, "--trace", "--json-ui",
                    "--verbosity", "4", self.goto[r["mod"]][0]], timeout=timeout)
        if rc != 10:
            return None
        try:
            res = [x for y in json.loads(o) if "result" in y for x in y["result"]]
        except Exception:
            return None
        for x in res:
            if x.get("status") == "FAILURE" and "trace" in x:
                vals, last = [], None
                for s in x["trace"]:
                    if s.get("stepType") != "assignment":
                        continue
                    f = s.get("sourceLocation", {}).get("function", "")
                    lhs = s.get("lhs", "")
                    if not f.startswith("kani::any_raw_") or not lhs.startswith("goto_symex$$return_value"):
                        continue
                    b = s["value"].get("binary")
                    if b is None:
                        continue
                    by = int(b, 2).to_bytes(len(b) // 8, "little").hex()
                    m = re.search(r"\[(\d+)l?\]$", lhs)
                    if m:
                        i = int(m.group(1))
                        if last is None or i <= last:
                            vals.append("")
                        vals[-1] += by
                        last = i
                    else:
                        vals.append(by)
                        last = None
                return vals
        return None

    # ---- native side
    def native(self):
        d = self.dir + "_n"
        cmd = ["cargo", "build", "--bin", "replay"]
        if self.features:
            cmd += ["--features", ",".join(self.features)]
        rc, o = run(cmd, cwd=d, timeout=600)
        if rc != 0:
            raise CheckError("native build of %s failed:\n%s" % (self.name, o[-6000:]))
        self.bin = d + "/target/debug/replay"


def main():
    ap = sys.argv[1:]
    prop = ap[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    keep = False
    i = 1
    while i < len(ap):
        if ap[i] == "--tier":
            tier = ap[i + 1]; i += 1
        elif ap[i] == "--only":
            only = ap[i + 1]; i += 1
        elif ap[i] == "--keep":
            keep = True
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = gen.PROPS[prop]
    deadline = 840 if tier == "quick" else 6 * 3600
    per = 240 if tier == "quick" else 1800
    work = tempfile.mkdtemp(prefix="deku-verif-%s-" % prop)
    rc = 2
    try:
        rc = decide(prop, P, tier, seed, work, deadline, per, only)
    except CheckError as e:
        print("ERROR property=%s %s" % (prop, e), flush=True)
    finally:
        killall()
        if keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(prop, P, tier, seed, work, deadline, per, only):
    global preload
    so = work + "/fastmalloc.so"
    if run(["gcc", "-O2", "-shared", "-fPIC", "-o", so, HERE + "/tools/fastmalloc.c"])[0] == 0:
        preload = so
    builds = []
    for b in P["builds"](tier):
        B = Build(b["name"], b["features"], b["libs"], b["tables"], work)
        B.write()
        if only:
            B.contracts = [c for c in B.contracts if only in "%s::%s" % c[:2]]
        builds.append(B)
    results, nfailed = [], [0]
    iters = 300 if tier == "quick" else 20000
    with ThreadPoolExecutor(2 * len(builds)) as ex:
        fk = {ex.submit(B.compile): B for B in builds}
        fn = {ex.submit(B.native): B for B in builds}
        with ThreadPoolExecutor(JOBS) as pool:
            jobs = []
            for f in as_completed(fk):
                f.result()
                B = fk[f]
                unw = {c[:2]: c for c in B.contracts}
                for mod, g, names in B.groups:
                    cs = [unw[mod, n] for n in names if (mod, n) in unw]
                    if not cs:
                        continue

                    def one(mod, name, u, B=B):
                        if nfailed[0] >= 4:
                            return dict(build=B.name, mod=mod, fn=name, unwind=u, wall=0, failed=[],
                                        undecided=["stopped after 4 failed contracts"], covers=0, vccs=0,
                                        solver=0, props=0, status="undecided")
                        left = deadline - (time.time() - T0) - 60
                        if left < 20:
                            return dict(build=B.name, mod=mod, fn=name, unwind=u, wall=0, failed=[],
                                        undecided=["no time left"], covers=0, vccs=0, solver=0, props=0,
                                        status="undecided")
                        r = B.prove(mod, name, u, min(per, left))
                        if r["status"] == "undecided" and any("unwinding assertion" in x for x in r["undecided"]) and left > 120:
                            r = B.prove(mod, name, 3 * u, min(per, left) / 2)
                        if r["status"] == "failed":
                            nfailed[0] += 1
                        return r

                    def job(B=B, mod=mod, g=g, cs=cs, one=one):
                        left = deadline - (time.time() - T0) - 60
                        if only or left < 60 or len(cs) == 1 or nfailed[0] >= 4:
                            return [one(*c) for c in cs]
                        return B.prove_group(mod, g, cs, min(per, left) / 2, one)
                    jobs.append(pool.submit(job))
            for f in as_completed(jobs):
                for r in f.result():
                    results.append(r)
                    if r["status"] == "proved" or nfailed[0] >= 4 and r["status"] != "failed":
                        continue
                    log(r["status"], "%s::%s" % (r["mod"], r["fn"]), (r["failed"] or r["undecided"])[:3])
        for f in fn:
            f.result()
    byname = {B.name: B for B in builds}
    # bounded cross-check on the real dependencies
    nruns = nreal = 0
    nfail = []
    for B in builds:
        names = ["%s::%s" % c[:2] for c in B.contracts] if only else []
        rc, o = run([B.bin, "--random", str(seed), str(iters)] + names, timeout=max(60, deadline - (time.time() - T0)))
        m = re.search(r"RANDOM runs=(\d+) nonvacuous=(\d+) failing=(\d+)", o or "")
        if not m:
            if rc is not None and rc < 0 or rc == 134:
                nfail.append((B, "?", "", "native run aborted (rc %s): %s" % (rc, o[-500:])))
                continue
            raise CheckError("native run of %s: rc=%s %s" % (B.name, rc, (o or "")[-800:]))
        nruns += int(m.group(1)); nreal += int(m.group(2))
        for full, vals, rest in re.findall(r"^FAIL (\S+) values=(\S*) (.*)$", o, re.M):
            nfail.append((B, full, vals, rest))
    log("native: %d runs, %d non-vacuous, %d failing contracts" % (nruns, nreal, len(nfail)))

    proved = [r for r in results if r["status"] == "proved"]
    failed = [r for r in results if r["status"] == "failed"]
    und = [r for r in results if r["status"] == "undecided"]
    err = [r for r in results if r["status"] == "error"]
    if err:
        raise CheckError("verifier error: %s" % err[0]["undecided"])
    viol, knownhits = [], []
    kset = known.load(prop)
    seen = set()
    os.makedirs(HERE + "/evidence", exist_ok=True)
    for r in sorted(failed, key=lambda r: r["fn"]):
        full = "%s::%s" % (r["mod"], r["fn"])
        seen.add((r["build"], full))
        k = known.match(kset, full, r["failed"])
        if k:
            knownhits.append((k, full))
            continue
        viol.append([full, r, None])
    for B, full, vals, rest in nfail:
        if (B.name, full) in seen:
            continue
        k = known.match(kset, full, [rest])
        if k:
            knownhits.append((k, full))
            continue
        viol.append([full, None, (B, vals, rest)])
    rc = 0
    for k, full in knownhits:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k["what"], full))
    if viol:
        rc = 1
        # most informative first: one that replays on the real code
        chosen, reproduced = None, False
        rec = []
        for full, r, nat in viol[:12]:
            d = dict(property=prop, contract=full)
            if nat:
                B, vals, rest = nat
                d.update(build=B.name, values=vals.split(",") if vals else [], native=rest,
                         found_by="native evaluation of the contract", reproduced=True)
            else:
                B = byname[r["build"]]
                d.update(build=r["build"], obligations_failed=r["failed"][:20],
                         found_by="verifier", unwind=r["unwind"], reproduced=False)
                if time.time() - T0 < deadline - 30 and not reproduced:
                    v = B.counterexample(r, timeout=min(300, deadline - (time.time() - T0)))
                    d["values"] = v
                    if v is not None:
                        c, o = run([B.bin, full] + v, timeout=60)
                        d["native"] = (o or "").strip()[-2000:]
                        d["reproduced"] = (c == 1 or (c is not None and c < 0) or c == 134)
            rec.append(d)
            if d["reproduced"]:
                reproduced = True
        rec.sort(key=lambda d: not d["reproduced"])
        rdir = HERE + "/evidence/replay"
        os.makedirs(rdir, exist_ok=True)
        path = "%s/%s.json" % (rdir, prop)
        json.dump(dict(property=prop, how="python3 %s/replay.py %s" % (HERE, path), violations=rec,
                       all_failed=[v[0] for v in viol]), open(path, "w"), indent=1)
        for d in rec[:12]:
            print("FAILED obligation: contract %s: %s" % (d["contract"],
                  (d.get("obligations_failed") or [d.get("native")])[0]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if reproduced else " no-failing-input-found"))
    fns = functions(builds)
    bounded = sum(1 for r in proved if gen.is_bounded(r["mod"], r["fn"]))
    ev = dict(property=prop, tier=tier, seed=seed, level=P["level"], wall_s=round(time.time() - T0, 1),
              violations=len(viol),
              coverage=dict(
                  obligations=len(results), discharged=len(proved), undecided=len(und),
                  discharged_bounded=bounded,
                  verification_conditions=sum(r["vccs"] for r in results),
                  back_end="Kani 0.68 / CBMC 6.11 / CaDiCaL",
                  solver_s=round(sum(r["solver"] for r in results), 1),
                  verifier_cpu_s=round(sum(r["wall"] for r in results), 1),
                  checker_cmd="python3 check.py %s --tier %s" % (prop, tier),
                  contracts=sorted("%s::%s" % (r["mod"], r["fn"]) for r in proved)[:400],
                  undecided_contracts=[dict(contract="%s::%s" % (r["mod"], r["fn"]), why=r["undecided"][:2])
                                       for r in und],
                  functions_under_contract=len(fns), functions=fns[:300],
                  evaluations=nruns, distinct_nontrivial=nreal,
                  rule="the same contracts evaluated natively on generated values with the real "
                       "dependencies (bounded; not counted as discharged); non-trivial = precondition met",
                  samples=[dict(contract="%s::%s" % (r["mod"], r["fn"]), vccs=r["vccs"], unwind=r["unwind"],
                                wall_s=round(r["wall"], 2)) for r in proved[:5]],
                  known_findings=len(knownhits),
                  bounds=P.get("bounds", ""),
                  trusted_base=gen.TRUSTED + P.get("trusted", [])),
              assumptions=gen.ASSUMPTIONS + P.get("assumptions", []))
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, prop), "w"), indent=1)
    slow = sorted(results, key=lambda r: -r["wall"])[:8]
    if os.environ.get("VERIF_PROFILE"):
        per = {}
        for r in results:
            k = r["fn"].split("_")[0]
            per[k] = [per.get(k, [0, 0])[0] + 1, per.get(k, [0, 0])[1] + r["wall"]]
        log(" ".join("%s:%d/%.0fs" % (k, v[0], v[1]) for k, v in per.items()))
    log("slowest: " + ", ".join("%s %.1fs" % (r["fn"], r["wall"]) for r in slow))
    log("%d contracts: %d proved, %d failed, %d undecided" % (len(results), len(proved), len(failed), len(und)))
    if not results or len(proved) == 0 and rc == 0:
        raise CheckError("no obligation was discharged")
    return rc


def functions(builds):
    out = set()
    for B in builds:
        for mod, (g, _) in B.goto.items():
            rc, o = run([BIN + "/goto-instrument", "--show-properties", "--json-ui", g], timeout=120)
            try:
                for y in json.loads(o):
                    for p in y.get("properties", []):
                        sl = p.get("sourceLocation", {})
                        if sl.get("file", "").startswith(REPO) and sl.get("function"):
                            out.add(re.sub(r"<.*ghost::\w+<\d+>.*", "<ghost>", sl["function"]) if len(sl["function"]) > 200 else sl["function"])
            except Exception:
                pass
    return sorted(out)


if __name__ == "__main__":
    main()
