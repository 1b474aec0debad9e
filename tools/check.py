#!/usr/bin/env python3
"""Driver: decides one property from /repo's current working tree.

  tools/check.py C01 [quick|thorough]      run the check
  tools/check.py replay FILE               replay a recorded failing input on the real code
  tools/check.py list                      list harnesses / obligations per property
"""
import json, os, re, shutil, subprocess, sys, time, hashlib, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
KANI = os.path.join(VERIF, "kani")
HARNESS_RE = re.compile(
    r"^[ \t]*(?://\s*kind:\s*(?P<kind>[^\n]*)\n)?\s*(?P<mac>harness|tape_harness|contract|sampled)!\(\s*(?:#\[[^\]]*\]\s*)*(?P<name>\w+)", re.M)
sys.path.insert(0, os.path.join(VERIF, "tools"))


def env(extra=None):
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTFLAGS"):
        e.pop(k, None)
    e.update(extra or {})
    return e


def run(cmd, timeout, cwd=None, extra=None, log=None):
    p = subprocess.Popen(cmd, cwd=cwd or VERIF, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = -9
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    if log:
        with open(log, "w") as f:
            f.write(out)
    return rc, out


def hooks():
    """Hook names present in /repo's sources -> source file."""
    out = {}
    for root, _, files in os.walk(os.path.join(REPO, "jxl/src")):
        for f in files:
            if f.endswith(".rs"):
                p = os.path.join(root, f)
                for m in re.finditer(r"^verif_hook!\((\w+)\);", open(p, errors="replace").read(), re.M):
                    out[m.group(1)] = p
    return out


def harnesses(pid, tier):
    """{name: {module, kind}}; names cNN_* are quick, cNNt_* thorough only."""
    d = os.path.join(KANI, pid)
    out = {}
    if not os.path.isdir(d):
        return out
    for f in sorted(os.listdir(d)):
        if not f.endswith(".rs"):
            continue
        src = open(os.path.join(d, f)).read()
        for m in HARNESS_RE.finditer(src):
            n = m.group("name")
            pref = pid.lower()
            if n.startswith(pref + "_") or (tier == "thorough" and n.startswith(pref + "t_")):
                out[n] = {"module": f[:-3], "kind": (m.group("kind") or "proof").strip()}
    return out


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.budget = 840 if tier == "quick" else 6 * 3600
        self.dir = os.path.join(BUILD, pid)
        self.inc = os.path.join(self.dir, "inc")
        os.makedirs(self.inc, exist_ok=True)
        self.rep = os.path.join(self.dir, "replay")
        shutil.rmtree(self.rep, ignore_errors=True)
        os.makedirs(self.rep)
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.native_ok = None
        self.dropped = []   # modules whose harnesses do not compile against the current source
        self.dropped_h = set()   # single harnesses that do not compile against the current source
        self.full_error = False
        self.notes = []
        self.h = harnesses(pid, tier)
        self.obl = []       # per-harness records
        self.violations = []
        self.undecided = []
        self.errors = []
        self.native_runs = []
        self.verus = []
        self.hid = {}

    def left(self):
        return self.budget - (time.time() - self.t0)

    def say(self, *a):
        print(*a, flush=True)

    # ---- include directory -------------------------------------------------------------------
    def strip(self, text):
        """Blank out the harnesses that no longer compile (line numbers stay)."""
        for n in self.dropped_h:
            sp = self.span(text, n)
            if sp:
                text = text[:sp[0]] + "\n" * text.count("\n", *sp) + text[sp[1]:]
        return text

    @staticmethod
    def span(text, n):
        for m in HARNESS_RE.finditer(text):
            if m.group("name") == n:
                e = re.compile(r"\}\);$", re.M).search(text, m.start(), text.find("\n", m.end()) % (len(text) + 1))
                e = e or re.compile(r"^\}\);", re.M).search(text, m.end())
                return m.start(), e.end() if e else len(text)
        return None

    def write_error_enum(self):
        import generror
        src = open(os.path.join(REPO, "jxl/src/error.rs"), errors="replace").read()
        try:
            text = generror.full(src) if self.full_error else generror.generate(src, generror.needed(os.path.join(REPO, "jxl/src")))
        except Exception as e:
            self.notes.append(f"compact Error enum not generated ({e!r}); the full one is used")
            text = generror.full(src)
        p = os.path.join(self.inc, "error_enum.rs")
        if not os.path.exists(p) or open(p).read() != text:
            open(p, "w").write(text)

    def write_inc(self):
        hk = hooks()
        self.write_error_enum()
        for name in hk:
            src = os.path.join(KANI, self.pid, name + ".rs")
            text = ""
            if name == "verif":
                text = open(os.path.join(KANI, "verif.rs")).read()
                root = os.path.join(KANI, self.pid, "verif.rs")
                if os.path.exists(root):
                    text += "\n" + open(root).read()
            elif os.path.exists(src) and name not in self.dropped:
                text = self.strip(open(src).read())
            p = os.path.join(self.inc, name + ".rs")
            if not os.path.exists(p) or open(p).read() != text:
                with open(p, "w") as f:
                    f.write(text)
        for f in os.listdir(os.path.join(KANI, "shared")):
            text = open(os.path.join(KANI, "shared", f)).read()
            p = os.path.join(self.inc, f)
            if not os.path.exists(p) or open(p).read() != text:
                with open(p, "w") as g:
                    g.write(text)
        for f in os.listdir(os.path.join(KANI, self.pid)) if os.path.isdir(os.path.join(KANI, self.pid)) else []:
            if f.endswith(".rs") and f[:-3] not in hk and f[:-3] not in self.dropped:
                self.dropped.append(f[:-3])
                self.notes.append(f"hook point {f[:-3]} is gone from the source; its harnesses cannot be attached")

    # ---- Kani --------------------------------------------------------------------------------
    def kani_cmd(self, names, extra):
        c = ["cargo", "kani", "-p", "jxl", "--manifest-path", os.path.join(REPO, "jxl/Cargo.toml"),
             "--target-dir", os.path.join(self.dir, "kt"), "--no-default-features",
             "-Z", "unstable-options", "-Z", "function-contracts", "-Z", "stubbing", "-Z", "loop-contracts"]
        for n in names:
            c += ["--harness", n]
        return c + extra

    def kani_env(self):
        return {"JXL_VERIF_DIR": self.inc, "RUSTFLAGS": "--cfg jxl_verif -Zcrate-attr=recursion_limit=\"1024\""}

    def native_env(self):
        return {"JXL_VERIF_DIR": self.inc, "RUSTFLAGS": "--cfg jxl_verif"}

    def run_kani(self, names, htimeout, extra=(), tag="kani"):
        js = os.path.join(self.dir, tag + ".json")
        if os.path.exists(js):
            os.remove(js)
        jobs = ["-j", "8", "--output-format", "terse"]
        cmd = self.kani_cmd(names, jobs + ["--export-json", js, "--harness-timeout", f"{int(htimeout)}s"] + list(extra))
        log = os.path.join(self.dir, tag + ".log")
        rc, out = run(cmd, max(30, self.left()), cwd=REPO, extra=self.kani_env(), log=log)
        self.cmd = " ".join(cmd)
        data = json.load(open(js)) if os.path.exists(js) else None
        return rc, out, data

    def compile_failed(self, out):
        return bool(re.search(r"^error(\[E\d+\])?:", out, re.M)) and "could not compile" in out

    def live(self, sampled=None):
        return [n for n, v in self.h.items() if v["module"] not in self.dropped and n not in self.dropped_h
                and (sampled is None or v["kind"].startswith("sampled") == sampled)]

    def drop_from(self, out):
        """Leave out what does not compile any more: single harnesses where possible, whole modules otherwise."""
        mods, hs, full, iserr = set(), set(), False, False
        for l in out.splitlines():
            if re.match(r"(error|warning)(\[|:)", l):
                iserr = l.startswith("error")
            m = re.search(r"(?:-->|:::) " + re.escape(self.inc) + r"/(\w+)\.rs:(\d+)", l)
            if iserr and m:
                mod, line = m.group(1), int(m.group(2))
                if mod == "error_enum":
                    full = True
                elif mod != "verif":
                    text = open(os.path.join(self.inc, mod + ".rs")).read()
                    hit = None
                    for n, v in self.h.items():
                        sp = self.span(text, n) if v["module"] == mod else None
                        if sp and text.count("\n", 0, sp[0]) + 1 <= line <= text.count("\n", 0, sp[1]) + 1:
                            hit = n
                    if hit:
                        hs.add(hit)
                    else:
                        mods.add(mod)
            if iserr and re.search(r"no (function or associated item|variant|associated item|function|method|variant or associated item).*named.*for enum `(error::)?Error`", l):
                full = True
        if full and not self.full_error:
            self.full_error = True
            self.notes.append("compact Error enum does not fit the current source; the full one is used")
            return True
        mods -= set(self.dropped)
        hs -= self.dropped_h
        if not mods and not hs:
            return False
        self.dropped += sorted(mods)
        self.dropped_h |= hs
        self.notes.append("left out, no longer compiles against the source: " + ", ".join(sorted(mods | hs)))
        return True

    def kani_phase(self):
        names = self.live(False)
        if not names:
            return
        ht = 600 if self.tier == "quick" else 3600
        while True:
            rc, out, data = self.run_kani(names, min(ht, max(60, self.left() - 60)))
            if data is not None or not self.compile_failed(out):
                break
            if not self.drop_from(out):
                self.errors.append("the crate does not compile under Kani; see " + os.path.join(self.dir, "kani.log"))
                return
            self.write_inc()
            names = self.live(False)
            if not names:
                return
        if data is None:
            if rc == -9:
                self.errors.append("Kani ran out of the check's time")
            else:
                self.errors.append("Kani gave no result; see " + os.path.join(self.dir, "kani.log"))
            return
        self.absorb(data, out, names)

    def absorb(self, data, out, names, retry=True):
        det = {p["harness_id"]: p["property_details"] for p in data.get("property_details", [])}
        stats = {p["harness_id"]: p for p in data.get("cbmc", [])}
        seen = set()
        retry_unwind = []
        for r in data["verification_results"]["results"]:
            hid = r["harness_id"]
            n = hid.split("::")[-1]
            if n not in self.h:
                continue
            seen.add(n)
            pd = det.get(hid, {})
            checks = r.get("checks") or []
            st = stats.get(hid, {}).get("cbmc_stats", {}) or {}
            self.hid[n] = hid
            rec = {"harness": n, "module": self.h[n]["module"], "kind": self.h[n]["kind"], "status": r["status"],
                   "checks": pd.get("passed", 0) + pd.get("failed", 0), "passed": pd.get("passed", 0),
                   "covers": pd.get("satisfied", 0), "secs": round(r.get("duration_ms", 0) / 1000, 2),
                   "solver": (stats.get(hid, {}).get("configuration") or {}).get("solver"),
                   "solver_s": round(st.get("runtime_solver_s") or 0, 3)}
            failed = [c for c in checks if str(c.get("status", "")).upper().startswith("FAIL")]
            uncov = [c for c in checks if str(c.get("status", "")).upper() in ("UNSATISFIABLE",) and "cover" in json.dumps(c)]
            # A NaN from a float operation is not an error in Rust: those checks are not obligations.
            nan = [c for c in failed if str(c.get("description", "")).startswith("NaN on ")]
            failed = [c for c in failed if c not in nan]
            if nan:
                rec["checks"] -= len(nan)
            if r["status"] == "Success" or nan and not failed:
                rec["status"] = "Success"
                if rec["checks"] == 0:
                    self.errors.append(f"{n}: zero obligations generated")
                if uncov:
                    self.errors.append(f"{n}: vacuous (cover not reachable): " + "; ".join(str(c.get("description")) for c in uncov))
                rec["ok"] = not uncov
            else:
                rec["ok"] = False
                rec["failed_checks"] = [self.desc(c) for c in failed][:20]
                kinds = {self.klass(c) for c in failed}
                if not failed:
                    rec["why"] = "timeout or solver failure"
                    self.undecided.append((n, rec["why"]))
                elif kinds <= {"unwind"}:
                    if retry:
                        retry_unwind.append(n)
                        continue
                    rec["why"] = "unwinding bound exceeded"
                    self.undecided.append((n, rec["why"]))
                elif kinds <= {"unwind", "unsupported"}:
                    rec["why"] = "construct outside Kani's reach"
                    self.undecided.append((n, rec["why"]))
                else:
                    self.obl.append(rec)
                    self.refute(n, rec)
                    continue
            self.obl.append(rec)
        if retry_unwind:
            m = max([0] + [int(x) for n in retry_unwind for x in re.findall(
                r"%s\s*,\s*unwind\s*=\s*(\d+)" % n, open(os.path.join(KANI, self.pid, self.h[n]["module"] + ".rs")).read())])
            rc, out, data = self.run_kani(retry_unwind, max(30, min(300, self.left() - 120)), ["--unwind", str(2 * m + 4)], "kani_unwind") \
                if len(retry_unwind) == 1 else self.run_kani(retry_unwind, max(30, min(300, self.left() - 120)), ["--default-unwind", str(2 * m + 4)], "kani_unwind")
            if data:
                self.absorb(data, out, retry_unwind, retry=False)
                seen |= set(retry_unwind)
        for n in names:
            if n not in seen and retry:
                self.undecided.append((n, "no result from Kani"))

    @staticmethod
    def klass(c):
        d = json.dumps(c).lower()
        if "unwinding assertion" in d or "recursion unwinding" in d:
            return "unwind"
        if "unsupported_construct" in d or "is not currently supported by kani" in d or "unsupported construct" in d:
            return "unsupported"
        return "semantic"

    @staticmethod
    def desc(c):
        loc = c.get("location") or c.get("source_location") or {}
        l = ""
        if isinstance(loc, dict):
            l = f"{loc.get('file', '')}:{loc.get('line', '')}"
        return f"{c.get('description', c.get('id', '?'))} [{c.get('category', c.get('property_class', ''))}] {l}".strip()

    # ---- counterexamples ---------------------------------------------------------------------
    def playback(self, n):
        cmd = self.kani_cmd([self.hid.get(n, n)], (["--exact"] if n in self.hid else []) + ["-Z", "concrete-playback", "--concrete-playback=print", "--harness-timeout",
                                  f"{int(max(60, min(400, self.left() - 60)))}s"])
        rc, out = run(cmd, max(60, self.left() - 30), cwd=REPO, extra=self.kani_env(),
                      log=os.path.join(self.dir, f"playback_{n}.log"))
        res = []
        for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
            body = re.sub(r"//[^\n]*", "", m.group(1))
            by = bytearray()
            for v in re.findall(r"vec!\[([^\]]*)\]", body):
                by += bytes(int(x) for x in v.split(",") if x.strip())
            head = out[:m.start()]
            dm = re.findall(r"/// Check for `(\w+)`: \"(.*?)\"", head, re.S)
            kind = dm[-1][0] if dm else ""
            res.append((kind, bytes(by)))
        # covers come with witnesses too: failing checks first
        res.sort(key=lambda t: t[0] == "cover")
        return [b for k, b in res if k != "cover"] or [b for _, b in res], out

    def native(self):
        """Build the native replay driver (the same harnesses on the real code, with rustc)."""
        if self.native_ok is not None:
            return self.native_ok
        d = os.path.join(self.dir, "native")
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        # "// native: simd" in a harness file: sampled runs and replays use the SIMD code paths of this machine.
        simd = any("// native: simd" in open(os.path.join(KANI, self.pid, x)).read() for x in os.listdir(os.path.join(KANI, self.pid)))
        feat = ', features = ["all-simd"]' if simd else ""
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "vnative"\nversion = "0.1.0"\nedition = "2024"\n\n[workspace]\n\n[dependencies]\n'
                    f'jxl = {{ path = "{REPO}/jxl", default-features = false{feat} }}\n\n'
                    '[profile.dev]\nopt-level = 1\ndebug-assertions = true\noverflow-checks = true\npanic = "unwind"\n')
        shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        while True:
            self.native_main(d)
            rc, out = run(["cargo", "build", "--offline", "--target-dir", os.path.join(d, "target")], 300, cwd=d,
                          extra=self.native_env(), log=os.path.join(self.dir, "native.log"))
            if rc == 0 or not self.drop_from(out):
                break
            self.write_inc()
        self.native_ok = rc == 0
        if rc != 0:
            self.notes.append("native replay driver failed to build; see " + os.path.join(self.dir, "native.log"))
        self.native_bin = os.path.join(d, "target/debug/vnative")
        return self.native_ok

    def native_main(self, d):
        names = [n for n in self.live() if self.is_native(n)]
        with open(os.path.join(d, "src/main.rs"), "w") as f:
            f.write("unsafe extern \"Rust\" {\n" + "".join(f"    fn {n}();\n" for n in names) + "}\n")
            f.write("fn main() {\n    let a: Vec<String> = std::env::args().skip(1).collect();\n    let f: fn() = match a[0].as_str() {\n")
            for n in names:
                f.write(f'        "{n}" => || unsafe {{ {n}() }},\n')
            f.write("        _ => { println!(\"unknown harness\"); std::process::exit(2) }\n    };\n"
                    "    std::process::exit(jxl::verif::drive(&a[0], f, &a[1..]));\n}\n")

    def is_native(self, n):
        return not self.h[n]["kind"].startswith("contract")

    def refute(self, n, rec):
        """A semantic obligation failed: obtain the counterexample and replay it on the real code."""
        vals, pout = self.playback(n) if len(self.violations) < 3 and self.left() > 100 else ([], "")
        found = None
        msg = ""
        if self.is_native(n) and self.native():
            for i, by in enumerate(vals[:6]):
                p = os.path.join(self.rep, f"{n}.{i}.bin")
                open(p, "wb").write(by)
                rc, out = run([self.native_bin, n, "replay", p], 60)
                if rc not in (0, 2):
                    found, msg = by, out.strip()[-600:]
                    break
            if found is None and self.left() > 60:
                p = os.path.join(self.rep, f"{n}.search.bin")
                rc, out = run([self.native_bin, n, "search", str(self.seed), "100000000", "20", p], 90)
                self.native_runs.append({"harness": n, "result": out.strip()[-200:]})
                if rc == 1 and os.path.exists(p):
                    found, msg = open(p, "rb").read(), out.strip()[-600:]
        self.report(n, rec, found, msg, vals, pout)

    def report(self, n, rec, found, msg, vals, verifier_output):
        path = os.path.join(self.rep, f"{n}.json")
        obj = {"property": self.pid, "harness": n, "module": rec.get("module"), "failed_obligations": rec.get("failed_checks"),
               "command": self.cmd if hasattr(self, "cmd") else None}
        if found is not None:
            obj["input_hex"] = found.hex()
            obj["replayed_on_real_code"] = msg
            obj["replay_with"] = f"{os.path.join(VERIF, 'tools/check.py')} replay {path}"
        else:
            obj["counterexample_bytes_not_reproduced_natively"] = [v.hex() for v in vals[:3]]
            obj["verifier_output"] = (verifier_output or "")[-6000:]
        json.dump(obj, open(path, "w"), indent=1)
        self.violations.append((n, path, found is not None))

    def search_undecided(self):
        """Obligations the verifier could not decide: bounded native exploration of the same harness."""
        for n, why in self.undecided:
            if n not in self.h or not self.is_native(n) or n not in self.live() or not self.native():
                continue
            secs = max(5, min(40 if self.tier == "quick" else 300, self.left() / (len(self.undecided) + 1) - 5))
            p = os.path.join(self.rep, f"{n}.search.bin")
            rc, out = run([self.native_bin, n, "search", str(self.seed), "1000000000", str(secs), p], secs + 60)
            self.native_runs.append({"harness": n, "undecided": why, "result": out.strip()[-300:]})
            if rc == 1 and os.path.exists(p):
                self.report(n, {"failed_checks": [why], "module": self.h[n]["module"]}, open(p, "rb").read(), out.strip()[-600:], [], "")

    def sampled_phase(self):
        """Bounded stand-ins: harnesses over what Kani cannot carry, run natively on the real code (fixed seed and count)."""
        names = self.live(True)
        if not names:
            return
        if not self.native():
            self.errors.append("native driver does not build; see " + os.path.join(self.dir, "native.log"))
            return
        from concurrent.futures import ThreadPoolExecutor
        secs = 12 if self.tier == "quick" else 600

        # several seeds of each harness side by side
        k = 4 if len(names) <= 2 else 2
        count = "20000000" if self.tier == "quick" else "100000000000"

        def one(job):
            n, i = job
            p = os.path.join(self.rep, f"{n}.sample{i}.bin")
            if os.path.exists(p):
                os.remove(p)
            t = time.time()
            rc, out = run([self.native_bin, n, "search", str(self.seed + 7919 * i), count, str(secs), p], secs + 60)
            return i, rc, out, p, time.time() - t
        with ThreadPoolExecutor(8) as ex:
            jobs = {n: [ex.submit(one, (n, i)) for i in range(k)] for n in names}
            for n in names:
                runs = [j.result() for j in jobs[n]]
                bad = next((r for r in runs if r[1] != 0), None)
                _, rc, out, p, dt = bad or max(runs, key=lambda r: r[4])
                acc = sum(int(m.group(1)) for r in runs for m in [re.search(r"accepted (\d+)", r[2])] if m)
                rec = {"harness": n, "module": self.h[n]["module"], "kind": self.h[n]["kind"], "status": "ran", "checks": acc, "passed": acc,
                       "covers": 0, "secs": round(dt, 2), "solver": "none (native execution)", "solver_s": 0, "ok": rc == 0 and acc > 0}
                self.obl.append(rec)
                self.native_runs.append({"harness": n, "result": out.strip()[-300:]})
                if rc == 0 and acc == 0:
                    self.errors.append(f"{n}: no sample satisfied the precondition")
                elif rc == 1 and os.path.exists(p):
                    rec["failed_checks"] = [out.strip()[-300:]]
                    self.report(n, rec, open(p, "rb").read(), out.strip()[-600:], [], "")
                elif rc != 0:
                    # aborted (stack overflow, signal): no recorded input, but the run on the real code died
                    rec["failed_checks"] = ["native run ended with status %s" % rc]
                    self.report(n, rec, None, "", [], out)

    # ---- Verus -------------------------------------------------------------------------------
    def verus_phase(self):
        up = os.path.join(VERIF, "verus", self.pid)
        if not os.path.isdir(up):
            return
        import vextract
        for f in sorted(os.listdir(up)):
            if not f.endswith(".rs"):
                continue
            if f.startswith("t_") and self.tier != "thorough":
                continue
            r = vextract.run_unit(os.path.join(up, f), REPO, os.path.join(self.dir, "verus"), run,
                                  120 if self.tier == "quick" else 1200)
            self.verus.append(r)
            if r["status"] == "failed":
                path = os.path.join(self.rep, f[:-3] + ".verus.json")
                json.dump({"property": self.pid, "unit": f, "failed_obligations": r["failures"], "verifier_output": r["output"][-8000:],
                           "verified_text": r["file"], "command": r["cmd"]}, open(path, "w"), indent=1)
                self.verus_failed = getattr(self, "verus_failed", []) + [(f, path)]
            elif r["status"] == "undecided":
                self.notes.append(f"Verus unit {f}: undecided ({r['why']}); the bounded/complete Kani harnesses of this property stand in")

    # ---- known findings ----------------------------------------------------------------------
    def known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p)) if k.get("property") == self.pid and k.get("status") == "known"]

    # ---- main --------------------------------------------------------------------------------
    def main(self):
        self.write_inc()
        self.verus_phase()
        self.sampled_phase()
        self.kani_phase()
        self.search_undecided()
        for f, path in getattr(self, "verus_failed", []):
            if not any(v[2] for v in self.violations):
                self.violations.append((f, path, False))
        kn = self.known()
        new = []
        for n, path, concrete in self.violations:
            k = [x for x in kn if x.get("harness") == n]
            if k:
                self.say(f"KNOWN-FINDING: property={self.pid} {k[0]['what']}")
            else:
                new.append((n, path, concrete))
        self.evidence(new)
        for o in self.obl:
            self.say(f"  {'ok  ' if o['ok'] else 'FAIL'} {o['harness']:44s} {o['kind'][:40]:40s} {o['passed']}/{o['checks']} checks {o['secs']}s")
        for v in self.verus:
            self.say(f"  {v['status']:9s} verus {v['unit']} {v['verified']} verified, {v['errors']} errors, {v['secs']}s")
        for n in self.notes:
            self.say("  note:", n)
        for n, w in self.undecided:
            self.say(f"  undecided: {n}: {w}")
        if new:
            new.sort(key=lambda v: not v[2])
            n, path, concrete = new[0]
            if any(v[2] for v in new):
                new = [v for v in new if v[2]]
            for n, path, concrete in new:
                self.say(f"VIOLATION property={self.pid} replay={path}" + ("" if concrete else " no-failing-input-found"))
            return 1
        if self.errors:
            for e in self.errors:
                self.say("ERROR:", e)
            return 2
        done = [o for o in self.obl if o["ok"]]
        if not done and not any(v["status"] == "verified" for v in self.verus):
            self.say("ERROR: nothing was decided")
            return 2
        kd = [o for o in done if not o["kind"].startswith("sampled")]
        sd = [o for o in done if o["kind"].startswith("sampled")]
        self.say(f"OK property={self.pid}: {sum(o['passed'] for o in kd)} obligations discharged by Kani/CBMC in {len(kd)} harnesses, "
                 f"{sum(o['passed'] for o in sd)} sampled runs in {len(sd)} bounded stand-ins, "
                 f"{sum(v['verified'] for v in self.verus)} by Verus/Z3; {time.time()-self.t0:.0f}s")
        return 0

    def evidence(self, new):
        import props
        info = props.INFO.get(self.pid, {})
        proof = [o for o in self.obl if o["kind"].startswith(("proof", "contract"))]
        bounded = [o for o in self.obl if not o["kind"].startswith(("proof", "contract"))]
        vv = sum(v["verified"] for v in self.verus)
        ve = sum(v["errors"] for v in self.verus)
        level = info.get("level", "proof")
        cov = {
            "obligations": sum(o["checks"] for o in proof) + vv + ve,
            "discharged": sum(o["passed"] for o in proof if o["ok"]) + vv,
            "checker_cmd": getattr(self, "cmd", "") or "verus",
            "trusted_base": info.get("trusted", []) + props.TRUSTED,
            "backends": {
                "kani/cbmc": {"harnesses_complete": len(proof), "obligations": sum(o["checks"] for o in proof),
                              "discharged": sum(o["passed"] for o in proof if o["ok"]), "solver_s": round(sum(o["solver_s"] for o in self.obl), 2),
                              "wall_s": round(sum(o["secs"] for o in self.obl), 2)},
                "verus/z3": {"units": [{k: v[k] for k in ("unit", "status", "verified", "errors", "secs", "functions", "dropped", "trusted")} for v in self.verus]},
            },
            "bounded_stand_ins_not_counted_as_proved": [
                {"harness": o["harness"], "bound": o["kind"], "checks": o["checks"], "passed": o["passed"], "ok": o["ok"]} for o in bounded],
            "functions_under_contract": info.get("functions", []),
            "harnesses": [{k: o.get(k) for k in ("harness", "module", "kind", "status", "ok", "checks", "passed", "covers", "secs", "solver", "solver_s")} for o in self.obl],
            "undecided": [{"harness": n, "why": w} for n, w in self.undecided],
            "left_out_modules": self.dropped, "left_out_harnesses": sorted(self.dropped_h),
            "native_exploration": self.native_runs,
            "notes": self.notes,
            "explanation": info.get("explanation", "contracts on the real functions, discharged by Kani/CBMC (and Verus where listed) from /repo's current source"),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                   "assumptions": info.get("assumptions", []), "wall_s": round(time.time() - self.t0, 1), "violations": len(new)},
                  open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)


def replay(path):
    o = json.load(open(path))
    c = Check.__new__(Check)
    pid = o["property"]
    Check.__init__(c, pid, "thorough") if False else None
    c.pid, c.tier, c.dir = pid, "thorough", os.path.join(BUILD, pid)
    c.inc = os.path.join(c.dir, "inc")
    os.makedirs(c.inc, exist_ok=True)
    c.native_ok, c.dropped, c.notes, c.h, c.dropped_h, c.full_error = None, [], [], harnesses(pid, "thorough"), set(), False
    c.write_inc()
    if "input_hex" not in o:
        print("no failing input was recorded; the failed obligation is:", o.get("failed_obligations"))
        return 1
    if not c.native():
        return 2
    p = path + ".bin"
    open(p, "wb").write(bytes.fromhex(o["input_hex"]))
    rc, out = run([c.native_bin, o["harness"], "replay", p], 120, extra={"VERIF_VERBOSE": "1"})
    print(out)
    return rc


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "list":
        for d in sorted(os.listdir(KANI)):
            if os.path.isdir(os.path.join(KANI, d)):
                for n, v in harnesses(d, "thorough").items():
                    print(d, v["module"], n, v["kind"])
        sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(Check(sys.argv[1], tier).main())
