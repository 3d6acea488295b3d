"""
Common machinery of the checks: processes, TLC, verdicts, evidence.

A check is: (1) exploration of a specification with TLC, (2) histories (generated
by TLC from the specification, and by seeded drivers) run on the real code by a
driver process, which records them, (3) validation of the recorded histories by
TLC against the specification. Only (3) decides: TLC prints, for each step of a
recorded history, the set of clauses of the specification this step breaks.
"""
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("OUPS_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
KNOWN = os.path.join(VERIF, "known_findings.json")
NPROC = max(2, min(7, (os.cpu_count() or 4) - 1))


class CheckError(Exception):
    """The check itself failed (no verdict)."""


class Ctx:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_", dir=base)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.notes = []
        self.extra = {}
        self.violations = []       # (clause, where, replay payload)
        self.assumptions = []
        self.procs = []

    # ------------------------------------------------------------------
    def rng_seed(self, *parts):
        h = hashlib.sha256(repr((self.seed, self.prop) + parts).encode()).hexdigest()
        return int(h[:12], 16)

    def path(self, name):
        return os.path.join(self.scratch, name)

    def close(self):
        for p in self.procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ------------------------------------------------------------------
    def env(self, threads=1):
        e = dict(os.environ)
        e.update(
            PYTHONPATH=f"{REPO}:{HARNESS}", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC",
            NUMBA_CACHE_DIR=self.path("numba"), NUMBA_NUM_THREADS=str(threads), OMP_NUM_THREADS="1",
            VAEX_NUM_THREADS="1", VAEX_NUM_THREADS_IO="1", VAEX_HOME=self.path("vaex"), TMPDIR=self.scratch,
            PYTHONWARNINGS="ignore", HOME=self.scratch, OPENBLAS_NUM_THREADS="1", ARROW_NUM_THREADS="1",
        )
        return e

    def spawn(self, cmd, log, env=None, cwd=None):
        p = subprocess.Popen(cmd, stdout=open(log, "w"), stderr=subprocess.STDOUT, env=env or self.env(),
                             cwd=cwd or self.scratch, start_new_session=True)
        self.procs.append(p)
        return p

    def wait(self, p, timeout):
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            return None

    # ------------------------------------------------------------------ drivers
    def start_driver(self, script, cases, nproc=None, extra=None, threads=1):
        """Run cases with a driver, spread over processes. Returns a handle for 'end_driver'."""
        nproc = nproc or NPROC
        nproc = max(1, min(nproc, len(cases)))
        jobs = []
        for i in range(nproc):
            part = cases[i::nproc]
            jf, of, lf = (self.path(f"{script}_{len(self.procs)}_{i}.{x}") for x in ("job.json", "out.json", "log"))
            sd = tempfile.mkdtemp(prefix="d", dir=self.scratch)
            json.dump({"cases": part, "scratch": sd, **(extra or {})}, open(jf, "w"))
            p = self.spawn([PYTHON, os.path.join(HARNESS, script), jf, of], lf, env=self.env(threads))
            jobs.append((p, part, of, lf))
        return script, jobs

    def end_driver(self, handle, timeout):
        """Traces recorded. A driver that dies or hangs is a finding about the code under test."""
        script, jobs = handle
        traces = []
        end = time.time() + timeout
        for p, part, of, lf in jobs:
            rc = self.wait(p, max(1, end - time.time()))
            done = []
            if os.path.exists(of):
                try:
                    done = json.load(open(of))
                except ValueError:
                    done = []
            traces += done
            if rc != 0:
                tail = open(lf, errors="replace").read()[-3000:]
                ids = {t["id"] for t in done}
                left = [c for c in part if c["id"] not in ids]
                if rc is None:
                    # Out of time: only a hang is a verdict, i.e. no case done at all.
                    raise CheckError(f"driver {script} out of time ({timeout:.0f} s): {tail[-500:]}")
                full = open(lf, errors="replace").read()
                last = [x[5:].strip() for x in full.splitlines() if x.startswith("CASE ")]
                left = [c for c in left if last and str(c["id"]) == last[-1]] or left
                clause = "hang" if "Timeout (" in tail else "driver_died"
                self.violations.append((f"{self.prop}.{clause}", {"driver": script, "rc": rc, "log": tail},
                                        {"cases": left[:1]}))
        traces.sort(key=lambda t: str(t["id"]))
        return traces

    def drive(self, script, cases, timeout, **kw):
        return self.end_driver(self.start_driver(script, cases, **kw), timeout)

    # ------------------------------------------------------------------ TLC
    def start_tlc(self, module, cfg, workers=2, env=None, args=(), heap="2g"):
        n = len(self.procs)
        log = self.path(f"tlc_{n}.log")
        e = dict(os.environ)
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = ""
        jars = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
        cmd = ["java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={self.scratch}",
               "-cp", jars, "tlc2.TLC", "-workers", str(workers), "-config", cfg,
               "-metadir", self.path(f"meta_{n}"), "-noGenerateSpecTE", *args, module]
        p = self.spawn(cmd, log, env=e, cwd=SPEC)
        return p, log, f"{module} {cfg}"

    def end_tlc(self, handle, timeout):
        p, log, name = handle
        rc = self.wait(p, timeout)
        out = open(log, errors="replace").read()
        if rc is None:
            raise CheckError(f"TLC out of time on {name}: {out[-800:]}")
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        return {"rc": rc, "out": out, "generated": gen, "distinct": dist, "name": name}

    def model_check_end(self, handle, timeout):
        """End of an exploration of the specification itself."""
        r = self.end_tlc(handle, timeout)
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise CheckError(f"specification {r['name']} does not satisfy its properties (rc={r['rc']}):\n"
                             + r["out"][-3000:])
        self.states += r["distinct"]
        self.transitions += r["generated"]
        return r

    def generate(self, module, cfg, num, depth, tag="HIST", args=(), env=None, timeout=120):
        """Behaviours of the specification, from TLC simulation."""
        seed = self.rng_seed("sim", module) % (2**31)
        e = {"OUPS_SIM_SEED": str(seed)}
        e.update(env or {})
        h = self.start_tlc(module, cfg, workers=1, env=e,
                           args=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed), *args))
        r = self.end_tlc(h, timeout)
        if r["rc"] != 0:
            raise CheckError(f"generation with {module} failed:\n" + r["out"][-3000:])
        return self.parse_tagged(r["out"], tag)

    @staticmethod
    def parse_tagged(out, tag):
        res = []
        for m in re.finditer(r'<<\s*"%s",\s*("(?:[^"\\]|\\.)*")\s*>>' % re.escape(tag), out):
            try:
                res.append(json.loads(json.loads(m.group(1))))
            except ValueError as e:
                raise CheckError(f"output of TLC not understood: {m.group(1)[:300]}") from e
        return res

    def validate(self, module, traces, cfg=None, workers=6, timeout=600, prefix=None, env=None, batch=400):
        """
        Check traces against the specification.

        TLC prints <<"BAD", trace id, step, {clauses}>> for each step breaking
        clauses. Returns the list of (trace, step, clauses) related to the
        property of this check.
        """
        if not traces:
            return []
        prefix = prefix or (self.prop + ".",)
        found = []
        by_id = {str(t["id"]): t for t in traces}
        if len(by_id) != len(traces):
            raise CheckError("trace ids are not unique")
        clauses_seen = {}
        for b in range(0, len(traces), batch):
            part = traces[b:b + batch]
            tf = self.path(f"traces_{len(self.procs)}.json")
            json.dump([{k: v for k, v in t.items() if k != "info"} for t in part], open(tf, "w"))
            e = {"OUPS_TRACES": tf}
            e.update(env or {})
            r = self.end_tlc(self.start_tlc(module, cfg or module.replace(".tla", ".cfg"), workers=workers, env=e,
                                            heap="4g"), timeout)
            want = sum(len(t["steps"]) + 1 for t in part)
            n_bad = 0
            for m in re.finditer(r'<<\s*"BAD",\s*("[^"]*"),\s*(\d+),\s*\{(.*?)\}\s*>>', r["out"], re.S):
                n_bad += 1
                tid, k, cl = m.group(1).strip('"'), int(m.group(2)), re.findall(r'"([^"]+)"', m.group(3))
                for c in cl:
                    clauses_seen[c] = clauses_seen.get(c, 0) + 1
                mine = sorted(c for c in cl if c.startswith(tuple(prefix)))
                if mine:
                    found.append((by_id[tid], k, mine))
            if len(re.findall(r'<<\s*"BAD"', r["out"])) != n_bad:
                raise CheckError("output of TLC not understood: " + r["out"][-1500:])
            if r["rc"] != 0 or r["distinct"] != want:
                if r["rc"] != 0 and ("OutOfMemory" in r["out"] or "StackOverflow" in r["out"]):
                    raise CheckError("TLC resources exhausted: " + r["out"][-1500:])
                if r["rc"] == 0:
                    raise CheckError(f"trace validation incomplete: {r['distinct']} states, {want} expected")
                # The trace cannot be interpreted by the specification.
                self.violations.append((f"{self.prop}.not_interpretable", {"tlc": r["out"][-3000:]},
                                        {"module": module, "traces": [t["id"] for t in part]}))
            else:
                self.states += r["distinct"]
                self.transitions += r["generated"] - len(part)
            inexact = len(re.findall(r'<<\s*"INEXACT",', r["out"]))
            self.extra["steps_not_exactly_as_model"] = self.extra.get("steps_not_exactly_as_model", 0) + inexact
        self.traces += len(traces)
        self.steps += sum(len(t["steps"]) for t in traces)
        self.extra["clauses_broken_all_properties"] = clauses_seen
        for t, k, cl in found:
            self.violations.append((cl[0], {"trace": t["id"], "step": k, "clauses": cl},
                                    {"module": module, "trace": t, "step": k, "clauses": cl}))
        return found

    # ------------------------------------------------------------------ verdict
    def sample(self, x, n=3):
        if len(self.samples) < n:
            s = json.dumps(x)
            self.samples.append(json.loads(s) if len(s) < 6000 else s[:6000])

    def finish(self, technique_note=""):
        known = json.load(open(KNOWN)) if os.path.exists(KNOWN) else {"findings": []}
        listed = [f for f in known.get("findings", []) if f["property"] == self.prop]
        new, hit = [], {}
        for clause, where, payload in self.violations:
            text = json.dumps([clause, where, payload], default=str)
            f = next((f for f in listed if f["clause"] == clause and re.search(f["match"], text)), None)
            if f:
                hit[f["what"]] = hit.get(f["what"], 0) + 1
            else:
                new.append((clause, where, payload))
        for f in listed:
            print(f"KNOWN-FINDING: property={self.prop} {f['what']} (seen {hit.get(f['what'], 0)} times in this run)")
        rdir = os.path.join(VERIF, "replay")
        first = {}
        for clause, where, payload in new:
            first.setdefault(clause, (where, payload))
        for clause, (where, payload) in list(first.items())[:5]:
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, f"{self.prop}_{clause.replace('.', '_')}.json")
            json.dump({"property": self.prop, "clause": clause, "where": where, "seed": self.seed,
                       "tier": self.tier, **payload}, open(rp, "w"), indent=1, default=str)
            print(f"VIOLATION property={self.prop} replay={rp}")
            print(f"  clause {clause}: {json.dumps(where, default=str)[:600]}")
        ev = {
            "property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
            "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces, "steps_validated": self.steps,
                         "samples": self.samples, **self.extra},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w"), indent=1, default=str)
        print(f"{self.prop} {self.tier}: {self.traces} histories ({self.steps} steps) validated, {self.states} states, "
              f"{len(new)} violation(s), {time.time() - self.t0:.1f} s")
        return 1 if new else 0
