#!/usr/bin/env python3
"""python3 tools/check.py PROPERTY [quick|thorough]

Decides one property of /repo's current working tree.  Parts (tools/props.py says which ones a property uses):

  kani   contract harnesses (harness/<property>/<crate>/<module>.rs) included into the real modules by the guarded hook
         and discharged by Kani/CBMC for every input of the harness' types; a failing one is replayed natively
  smt    verification conditions generated from the code the real translator emits, discharged by z3 / cvc5
  grid   finite families of programs, enumerated completely, real compiler against the revm interpreter (bounded)
  fuzz   seeded random programs of a family, same oracle (bounded)
  nat    native drivers of the non-compiler parts (bounded)

Exit 0: everything explored held.  Exit 1 and a VIOLATION line: an obligation failed or a case disagreed.
Exit 2: no answer (the tree does not build, a tool failed).
"""
import json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, shadow

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = f"{V}/build"
T0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = min(8, os.cpu_count() or 8)


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "REVMC_VERIF", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


def run(cmd, cwd, timeout, **kw):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.spec = prop, tier, props.PROPS[prop]
        self.violations, self.notes, self.obl, self.undecided = [], [], [], []
        self.cov = {}
        self.assumptions = list(self.spec.get("assumptions", [])) + props.COMMON_ASSUMPTIONS
        self.rdir = f"{B}/replay/{prop}"
        shutil.rmtree(self.rdir, ignore_errors=True)
        os.makedirs(self.rdir)
        os.makedirs(f"{V}/evidence", exist_ok=True)
        self.known = [l.strip() for l in open(f"{V}/known-findings.txt")] if os.path.exists(f"{V}/known-findings.txt") else []

    # -- reporting ------------------------------------------------------------------------------------------------
    def violation(self, what, text, found=True):
        n = len(self.violations)
        path = f"{self.rdir}/{n}.txt"
        with open(path, "w") as f:
            f.write(text)
        self.violations.append((what, path, found))
        print(f"  failed: {what}", flush=True)

    def log(self, s):
        print(f"[{time.time() - T0:6.1f}s] {s}", flush=True)

    # -- Kani -----------------------------------------------------------------------------------------------------
    def assemble(self):
        """The directory the hook includes from: this property's harnesses, nothing for every other hooked module."""
        d = f"{B}/h/{self.prop}"
        want = {}
        want["support.rs"] = open(f"{V}/harness/support.rs").read()
        for crate, mods in props.HOOKED.items():
            for m in mods:
                src = f"{V}/harness/{self.prop}/{crate}/{m}.rs"
                want[f"{crate}/{m}.rs"] = open(src).read() if os.path.exists(src) else "// no harness of this property\n"
        for k, t in want.items():
            p = f"{d}/{k}"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p) or open(p).read() != t:
                open(p, "w").write(t)
        return d

    def members(self):
        return [f"{V}/harness/{m}" for m in self.spec.get("members", ())]

    def kani(self):
        todo = self.spec.get("kani", {})
        if not todo:
            return
        hdir = self.assemble()
        ws = f"{B}/kws"
        shadow.main(ws, self.members())
        for pkg, names in todo.items():
            quick = [n for n in names if not (n.startswith("+") and self.tier == "quick")]
            names = [n.lstrip("+") for n in quick]
            cmd = ["cargo", "kani", "-p", pkg, "--target-dir", f"{B}/kt", "-Z", "unstable-options", "-Z", "stubbing",
                   "-Z", "function-contracts", "-j", str(NCPU), "--output-format=terse", "--harness-timeout",
                   "240s" if self.tier == "quick" else "1500s", "--no-assertion-reach-checks"]
            for n in names:
                cmd += ["--harness", n]
            t = time.time()
            rc, out = run(cmd, ws, 700 if self.tier == "quick" else 7200, REVMC_VERIF=hdir, RUSTFLAGS="--cfg revmc_verif")
            res = self.parse_kani(out)
            if not res:
                err = "\n".join(l for l in out.splitlines() if l.startswith("error"))[:2000] or out[-2000:]
                self.undecided.append(f"kani {pkg}: harnesses did not compile: {err[:300]}")
                open(f"{self.rdir}/kani-{pkg}.log", "w").write(out)
                for n in names:
                    self.obl.append(dict(name=n, backend="kani/cbmc", status="undecided", checks=0, time=0))
                continue
            self.log(f"kani {pkg}: {len(res)} harnesses in {time.time() - t:.0f}s")
            for n in names:
                hits = {k: v for k, v in res.items() if k.split("::")[-1] == n}
                if not hits:
                    self.undecided.append(f"kani {n}: not run")
                    self.obl.append(dict(name=n, backend="kani/cbmc", status="undecided", checks=0, time=0))
                for k, r in hits.items():
                    bounded = n in self.spec.get("bounded", ())
                    o = dict(name=k, backend="kani/cbmc", checks=r["checks"], time=r["time"], bounded=bounded)
                    self.obl.append(o)
                    if r["ok"] and r["checks"] == 0:
                        o["status"] = "undecided"
                        self.undecided.append(f"kani {k}: generated no checks")
                    elif r["ok"] and r.get("uncovered"):
                        o["status"] = "undecided"
                        self.undecided.append(f"kani {k}: vacuous ({r['uncovered']})")
                    elif r["ok"]:
                        o["status"] = "discharged"
                    elif r["failed"] and any("C0" in f or "C1" in f or "C2" in f or "panic" in f or "attempt to" in f or "assertion" in f
                                             or "unreachable" in f or "index out of bounds" in f or "unwrap" in f
                                             for f in r["failed"]) and not r["unsupported"]:
                        o["status"] = "failed"
                        self.kani_replay(pkg, ws, hdir, k, n, r)
                    else:
                        o["status"] = "undecided"
                        self.undecided.append(f"kani {k}: {'; '.join(r['failed'])[:200] or 'timeout or resource limit'}")

    @staticmethod
    def parse_kani(out):
        res, cur, blocks = {}, {}, {}
        th = "0"
        for l in out.splitlines():
            m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", l)
            if m:
                th = m.group(1) or "0"
                cur[th] = m.group(2)
                continue
            m = re.match(r"Thread (\d+):\s*(.*)$", l)
            if m:
                th = m.group(1)
                l = m.group(2)
            h = cur.get(th)
            if h is None:
                continue
            r = res.setdefault(h, dict(ok=False, checks=0, failed=[], time=0.0, unsupported=False, done=False, uncovered=""))
            m = re.match(r"\s*\*\* (\d+) of (\d+) failed", l)
            if m:
                r["checks"] = int(m.group(2))
            m = re.match(r"\s*\*\* (\d+) of (\d+) cover properties satisfied", l)
            if m:
                # A cover in a helper inlined twice counts twice, so a copy may be unreachable: vacuous means none is reached.
                if int(m.group(1)) == 0 and int(m.group(2)):
                    r["uncovered"] = l.strip()
            if l.startswith("Failed Checks:"):
                r["failed"].append(l[14:].strip())
                if "unwinding assertion" in l or "not currently supported" in l or "unsupported" in l:
                    r["unsupported"] = True
            if l.startswith("VERIFICATION:- SUCCESSFUL"):
                r["ok"] = r["done"] = True
            if l.startswith("VERIFICATION:- FAILED"):
                r["done"] = True
            m = re.match(r"Verification Time: ([\d.]+)s", l)
            if m:
                r["time"] = float(m.group(1))
        return {k: v for k, v in res.items()}

    def native_runner(self, hdir, names_by_pkg):
        """A binary that runs the harnesses natively, with given or generated inputs."""
        d = f"{B}/nr"
        os.makedirs(f"{d}/src", exist_ok=True)
        ws = f"{B}/nws"
        own = self.spec.get("members", ())
        deps = "".join(f'{p} = {{ path = "{ws}/harness/{p}" }}\n' if p in own else f'{p} = {{ workspace = true }}\n' for p in names_by_pkg)
        open(f"{d}/Cargo.toml", "w").write(f'[package]\nname = "nr"\nversion = "0.0.0"\nedition = "2024"\npublish = false\n[dependencies]\n{deps}')
        names = [(p.replace("-", "_"), n) for p, ns in names_by_pkg.items() for n in ns]
        ext = "".join(f"    fn {n}();\n" for _, n in names)
        arms = "".join(f'        "{n}" => {c}::verif_support::drive({n}_, &a),\n' for c, n in names)
        wrap = "".join(f"fn {n}_() {{ unsafe {{ {n}() }} }}\n" for _, n in names)
        use = "".join(f"use {c} as _;\n" for c in sorted({c for c, _ in names}))
        open(f"{d}/src/main.rs", "w").write(
            f'{use}unsafe extern "Rust" {{\n{ext}}}\n{wrap}fn main() {{\n    let a: Vec<String> = std::env::args().collect();\n'
            f'    std::process::exit(match a[1].as_str() {{\n{arms}        _ => 3,\n    }});\n}}\n')
        shadow.main(ws, [d] + self.members())
        rc, out = run(["cargo", "build", "-q", "-p", "nr", "--target-dir", f"{B}/nt"], ws, 600, REVMC_VERIF=hdir, RUSTFLAGS="--cfg revmc_verif")
        if rc:
            open(f"{self.rdir}/native-build.log", "w").write(out)
            return None
        return f"{B}/nt/debug/nr"

    def kani_replay(self, pkg, ws, hdir, full, name, r):
        failed = "; ".join(dict.fromkeys(r["failed"]))
        rc, out = run(["cargo", "kani", "-p", pkg, "--target-dir", f"{B}/kt", "-Z", "unstable-options", "-Z", "stubbing", "-Z",
                       "function-contracts", "-Z", "concrete-playback", "--concrete-playback=print", "--harness", name,
                       "--harness-timeout", "240s", "--no-assertion-reach-checks"], ws, 400, REVMC_VERIF=hdir, RUSTFLAGS="--cfg revmc_verif")
        vals = []
        m = re.search(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S)
        if m:
            body = re.sub(r"//[^\n]*", "", m.group(1))
            vals = [bytes(int(x) for x in re.findall(r"\d+", g)) for g in re.findall(r"vec!\[([^\]]*)\]", body)]
        arg = ",".join(v.hex() or "-" for v in vals)
        head = f"obligation {full} of property {self.prop} failed: {failed}\nkani inputs (in order of any()): {arg}\n"
        runner = self.native_runner(hdir, {pkg: [name]})
        if runner:
            for args in ([[name, "bytes", arg]] if vals else []) + [[name, "rng", str(SEED), "2000000"]]:
                rc2, o2 = run([runner] + args, B, 120)
                if rc2 == 1:
                    # Only the contract of a public function makes the inputs a failing input of the property; a failed
                    # contract of an internal helper is reported as such unless a later part finds a failing program.
                    self.violation(f"{full}: {failed}", head + f"replayed natively: nr {' '.join(args)}\n{o2}\n",
                                   name in self.spec.get("api", ()))
                    return
        self.violation(f"{full}: {failed}", head + "\n".join(out.splitlines()[-120:]), False)

    def native(self):
        """Harnesses CBMC cannot take, run natively on generated inputs (bounded)."""
        for pkg, hs in self.spec.get("native", {}).items():
            runner = self.native_runner(self.assemble(), {pkg: [n for n, _ in hs]})
            if not runner:
                self.undecided.append(f"native {pkg}: harnesses did not compile")
                continue
            for n, count in hs:
                if self.tier != "quick":
                    count *= 10
                rc, out = run([runner, n, "rng", str(SEED), str(count)], B, 200)
                m = re.search(r"^RAN (\d+)", out, re.M)
                if rc == 1:
                    self.violation(f"{n}: {out.splitlines()[0][:300]}", f"bounded harness {n} of property {self.prop} failed\n{out}\nrerun: nr {n} rng {SEED} {count}\n",
                                   n in self.spec.get("api", ()))
                elif m:
                    self.cov.setdefault("bounded", {})[f"native {n}"] = dict(evaluations=int(m.group(1)), distinct=int(m.group(1)))
                    self.log(f"native {n}: {m.group(1)} histories")
                else:
                    self.undecided.append(f"native {n}: ended with {rc}")

    # -- irx ------------------------------------------------------------------------------------------------------
    def build_irx(self):
        if hasattr(self, "irx"):
            return self.irx
        ws = f"{B}/ws"
        shadow.main(ws, [f"{V}/harness/irx"])
        rc, out = run(["cargo", "build", "-q", "-p", "irx", "--target-dir", f"{B}/t"], ws, 800)
        self.irx = f"{B}/t/debug/irx" if rc == 0 else None
        if rc:
            open(f"{self.rdir}/irx-build.log", "w").write(out)
            err = "\n".join(l for l in out.splitlines() if l.startswith("error"))[:600]
            self.undecided.append(f"irx did not build: {err}")
        else:
            self.log("irx built")
        return self.irx

    def workers(self, what, argv, grace):
        """Runs `irx` workers; returns their summaries and records failures."""
        procs = []
        for i, a in enumerate(argv):
            cur = f"{self.rdir}/cur{i}"
            out = open(f"{self.rdir}/out{i}", "w")
            procs.append((subprocess.Popen([self.irx] + a + [cur], stdout=out, stderr=subprocess.STDOUT, env=env()), cur, f"{self.rdir}/out{i}"))
        end = time.time() + grace
        sums, seen = [], set()
        for p, cur, outp in procs:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "hang"
            text = open(outp, errors="replace").read()
            m = re.search(r"^SUMMARY (.*)$", text, re.M)
            for f in re.finditer(r"^FAIL (.*)\n((?:  .*\n)*)", text, re.M):
                key = re.sub(r"\d+|0x[0-9a-f]+", "", f.group(2))[:60]
                if key in seen or len(seen) >= 3:
                    continue
                seen.add(key)
                self.violation(f"{what}: {f.group(2).strip()[:300]}", f"FAIL {f.group(1)}\n{f.group(2)}\nreplay: {self.irx} replay <this file>\n")
            if m:
                sums.append(json.loads(m.group(1)))
            elif not any(True for _ in re.finditer(r"^FAIL ", text, re.M)):
                case = open(cur, errors="replace").read().strip() if os.path.exists(cur) else ""
                rp = f"{self.rdir}/crash.txt"
                open(rp, "w").write(case + "\n")
                rc2, o2 = run([self.irx, "replay", rp], B, 90)
                if case and rc2 != 0:
                    if "crash" not in seen:
                        seen.add("crash")
                        self.violation(f"{what}: the run {'hangs' if rc2 == 124 else 'crashes'} (worker ended with {rc})", f"{case}\nworker ended with {rc}; replay ended with {rc2}\n{o2[-2000:]}\n")
                else:
                    self.undecided.append(f"{what}: worker ended with {rc} and the case does not reproduce it: {text[-200:]}")
        return sums

    def fold(self, key, sums, **extra):
        tot = dict(programs=sum(s["programs"] for s in sums), distinct_nonhalting=sum(s["distinct_nonhalting"] for s in sums))
        oc = {}
        for s in sums:
            for k, v in s["outcomes"].items():
                oc[k] = oc.get(k, 0) + v
        tot["outcomes"] = oc
        tot["sample"] = next((s["sample"] for s in sums if s["sample"]), "")
        tot.update(extra)
        self.cov.setdefault("bounded", {})[key] = tot
        self.log(f"{key}: {tot['programs']} programs, outcomes {oc}")

    def grid(self):
        for g in self.spec.get("grid", ()):
            if not self.build_irx():
                return
            secs = 120 if self.tier == "quick" else 1200
            sums = self.workers(f"grid {g}", [["grid", g, str(i), str(NCPU), str(secs)] for i in range(NCPU)], secs + 60)
            self.fold(f"grid {g}", sums, complete=bool(sums) and len(sums) == NCPU and all(s.get("complete") for s in sums))

    def fuzz(self):
        for f, secs in self.spec.get("fuzz", ()):
            if not self.build_irx():
                return
            if self.tier != "quick":
                secs *= 12
            sums = self.workers(f"random {f}", [["fuzz", f, str(SEED * 1000003 + i), str(secs)] for i in range(NCPU)], secs + 90)
            self.fold(f"random {f}", sums, seconds=secs)

    def smt(self):
        for f, secs in self.spec.get("smt", ()):
            if not self.build_irx():
                return
            n = NCPU
            if self.tier != "quick":
                secs *= 15
            procs, sums = [], []
            for i in range(n):
                out = open(f"{self.rdir}/smt{i}", "w")
                procs.append(subprocess.Popen([self.irx, "vc", f, str(i), str(n), self.tier, str(SEED), str(secs)], stdout=out, stderr=subprocess.STDOUT, env=env()))
            seen = set()
            for i, p in enumerate(procs):
                try:
                    p.wait(secs + (90 if self.tier == "quick" else 600))
                except subprocess.TimeoutExpired:
                    p.kill()
                text = open(f"{self.rdir}/smt{i}", errors="replace").read()
                m = re.search(r"^SUMMARY (.*)$", text, re.M)
                if not m:
                    self.undecided.append(f"smt {f}: worker {i} did not finish: {text[-200:]}")
                    continue
                s = json.loads(m.group(1))
                sums.append(s)
                for v in re.finditer(r"^VCFAIL (\S+) (found|nofound) (.*)\n((?:  .*\n)*)", text, re.M):
                    key = re.sub(r"[0-9a-f]{3,}|\d+", "", v.group(1))
                    if key in seen or len(seen) > 4:
                        continue
                    seen.add(key)
                    self.violation(f"vc {v.group(1)}: {v.group(4).strip()[:300]}", f"{v.group(3)}\nobligation {v.group(1)}\n{v.group(4)}\n", v.group(2) == "found")
            keys = ("programs", "obligations", "discharged", "by_identity", "by_z3", "by_cvc5", "undecided", "unsupported")
            tot = {k: sum(s[k] for s in sums) for k in keys}
            tot["complete"] = len(sums) == n and all(s["complete"] for s in sums)
            why = {}
            for s in sums:
                for k, v in s["unsupported_why"].items():
                    why[k] = why.get(k, 0) + v
            tot["unsupported_why"] = why
            tot["solver_s"] = round(sum(s["solver_s"] for s in sums), 1)
            tot["samples"] = [x for s in sums for x in s["samples"]][:4]
            self.cov.setdefault("smt", {})[f] = tot
            self.log(f"smt {f}: {tot}"[:300])
            if tot["obligations"] == 0:
                self.undecided.append(f"smt {f}: no obligations generated")
            if tot["undecided"]:
                self.undecided.append(f"smt {f}: {tot['undecided']} obligations undecided by the solvers within the time limit")

    def nat(self):
        for pkg, args in self.spec.get("nat", ()):
            ws = f"{B}/natws"
            shadow.main(ws, [f"{V}/harness/{pkg}"])
            rc, out = run(["cargo", "build", "-q", "-p", pkg, "--target-dir", f"{B}/natt"], ws, 800)
            if rc:
                open(f"{self.rdir}/{pkg}-build.log", "w").write(out)
                err = "\n".join(l for l in out.splitlines() if l.startswith("error"))[:600]
                self.undecided.append(f"{pkg} did not build: {err}")
                continue
            secs = 25 if self.tier == "quick" else 600
            scratch = f"{B}/scratch"
            shutil.rmtree(scratch, ignore_errors=True)
            os.makedirs(scratch)
            rc, out = run([f"{B}/natt/debug/{pkg}", *args, str(SEED), str(secs)], scratch, secs + 240)
            shutil.rmtree(scratch, ignore_errors=True)
            m = re.search(r"^SUMMARY (.*)$", out, re.M)
            fails = list(re.finditer(r"^FAIL (.*)\n((?:  .*\n)*)", out, re.M))
            for f in fails[:3]:
                self.violation(f"{pkg} {' '.join(args)}: {f.group(1)[:300]}", f.group(0) + f"\nrerun: {pkg} {' '.join(args)} {SEED} {secs}\n")
            if m:
                self.cov.setdefault("bounded", {})[f"{pkg} {' '.join(args)}"] = json.loads(m.group(1))
                self.log(f"{pkg} {' '.join(args)}: {m.group(1)[:200]}")
            elif not fails:
                if rc == 124 or rc < 0 or rc == 101:
                    self.violation(f"{pkg} {' '.join(args)}: driver {'hangs' if rc == 124 else 'crashed'} ({rc})", out[-4000:])
                else:
                    self.undecided.append(f"{pkg}: ended with {rc}: {out[-200:]}")

    # -- verdict --------------------------------------------------------------------------------------------------
    def finish(self):
        kani = [o for o in self.obl if not o.get("bounded")]
        smt = self.cov.get("smt", {})
        obligations = sum(max(o["checks"], 1) for o in kani) + sum(s["obligations"] for s in smt.values())
        discharged = sum(o["checks"] for o in kani if o["status"] == "discharged") + sum(s["discharged"] for s in smt.values())
        bounded = self.cov.get("bounded", {})
        evals = sum(b.get("programs", b.get("evaluations", 0)) for b in bounded.values())
        level = self.spec["level"]
        cov = dict(
            obligations=obligations, discharged=discharged,
            checker_cmd=f"python3 tools/check.py {self.prop} {self.tier}",
            trusted_base=props.TRUSTED,
            functions_under_contract=self.spec.get("contracts", []),
            kani_harnesses=self.obl, solver_s=round(sum(o["time"] for o in self.obl) + sum(s.get("solver_s", 0) for s in smt.values()), 2),
            smt=smt, bounded=bounded, undecided=self.undecided,
        )
        if level in ("exploration", "translation_validation") or evals:
            cov["evaluations"] = evals
            cov["distinct_nontrivial"] = sum(b.get("distinct_nonhalting", b.get("distinct", 0)) for b in bounded.values())
            cov["rule"] = self.spec.get("rule", props.RULE)
            cov["samples"] = [b["sample"] for b in bounded.values() if b.get("sample")][:4] + [x for s in smt.values() for x in s.get("samples", [])][:4]
        if level == "translation_validation":
            cov["programs"] = evals + sum(s["programs"] for s in smt.values())
            cov["disagreements_checked"] = len(self.violations)
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level=level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - T0, 1), violations=len(self.violations))
        json.dump(ev, open(f"{V}/evidence/{self.prop}.json", "w"), indent=1)
        for l in self.known:
            if l.startswith("finding: ") and f"property={self.prop} " in l:
                print("KNOWN-FINDING: " + l[9:])
        for u in self.undecided:
            print(f"undecided: {u}")
        print(f"{self.prop}: obligations {obligations}, discharged {discharged}, bounded cases {evals}, "
              f"undecided {len(self.undecided)}, violations {len(self.violations)}, {time.time() - T0:.0f}s")
        if self.violations:
            # A replayable violation first.
            for what, path, found in sorted(self.violations, key=lambda v: not v[2]):
                print(f"VIOLATION property={self.prop} replay={path}" + ("" if found else " no-failing-input-found"))
                if found:
                    break
            sys.exit(1)
        if discharged == 0 and evals == 0:
            print("no answer: nothing could be decided")
            sys.exit(2)
        sys.exit(0)

    def main(self):
        os.makedirs(B, exist_ok=True)
        for part in (self.kani, self.native, self.smt, self.grid, self.fuzz, self.nat):
            part()
            if any(f for _, _, f in self.violations) and self.tier == "quick":
                break
        self.finish()


if __name__ == "__main__":
    prop = sys.argv[1]
    if prop == "--setup":
        # Checks run from clean copies and build what they need; only make sure the tools are there.
        for t in ("cargo", "z3", "z3-new", "cvc5"):
            print(t, shutil.which(t))
        sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    Check(prop, tier).main()
