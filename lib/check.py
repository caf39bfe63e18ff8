"""Common frame of all checks: tiers, seeds, known findings, evidence, verdicts."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

from . import tlc

VERIF = tlc.VERIF
REPO = os.environ.get("VERIF_REPO", "/repo")  # override: development only
PY = "/opt/venv/bin/python"
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


def child_env():
    e = dict(os.environ)
    e.update(
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONWARNINGS="ignore",
        PYTHONPATH=os.path.join(REPO, "src") + os.pathsep + VERIF,
    )
    return e


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.mc = {}
        self.counts = {}
        self.samples = []
        self.violations = []     # (signature, text, replay payload)
        self.findings = []
        self.assumptions = []
        self.tmp = tempfile.mkdtemp(prefix=f"verif_{prop}_")
        self.known = []
        self.isolated = 0        # cases TLC could not evaluate
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line and not line.startswith("#"):
                    k = json.loads(line)
                    if k.get("property") == prop and k.get("status") == "known":
                        self.known.append(k)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- recording ---------------------------------------------------------
    def record(self, module, *args, timeout=600, **cfg):
        """Run rec/<module>.py; returns the path of the ndjson trace file(s)."""
        out = os.path.join(self.tmp, f"{module}_{len(os.listdir(self.tmp))}.ndjson")
        cfg.setdefault("seed", self.seed)
        cfg.setdefault("tier", self.tier)
        cmd = [PY, "-m", "rec." + module, out, json.dumps(cfg), *map(str, args)]
        p = subprocess.run(cmd, cwd=VERIF, env=child_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if p.returncode != 0:
            sys.stdout.write(p.stdout[-6000:])
            raise RuntimeError(f"recorder {module} failed with {p.returncode}")
        return out

    def record_parallel(self, module, shards, timeout=700, **cfg):
        """Run the recorder in parallel shards (cfg gets shard/shards)."""
        cfg.setdefault("seed", self.seed)
        cfg.setdefault("tier", self.tier)
        procs = []
        n0 = len(os.listdir(self.tmp))
        for s in range(shards):
            out = os.path.join(self.tmp, f"{module}_{n0}_{s}.ndjson")
            c = dict(cfg, shard=s, shards=shards)
            log = open(out + ".log", "w+")
            procs.append((out, log, subprocess.Popen(
                [PY, "-m", "rec." + module, out, json.dumps(c)], cwd=VERIF,
                env=child_env(), stdout=log, stderr=subprocess.STDOUT, text=True)))
        merged = os.path.join(self.tmp, f"{module}_{n0}_all.ndjson")
        deadline = time.time() + timeout
        with open(merged, "w") as m:
            for out, log, p in procs:
                rc = p.wait(max(1, deadline - time.time()))
                if rc != 0:
                    log.seek(0)
                    sys.stdout.write(log.read()[-6000:])
                    raise RuntimeError(f"recorder {module} failed with {rc}")
                m.write(open(out).read())
                os.unlink(out)
        return merged

    # -- judging -----------------------------------------------------------
    def model_check(self, module, label=None, **kw):
        """Exhaustive check of the specification itself."""
        r = tlc.run(module, **kw)
        if r.error:
            print(r.error)
            raise RuntimeError(f"TLC failed on {module}")
        if r.violated:
            print("\n".join(r.out.splitlines()[-80:]))
            raise RuntimeError(f"specification {module} violates {r.violated}")
        self.states += r.states
        self.transitions += r.transitions
        self.mc[label or module] = {"distinct_states": r.states,
                                    "transitions": r.transitions,
                                    "wall_s": round(r.wall, 1)}
        return r

    def validate(self, module, trace, *, chunk=None, sig=None, describe=None, **kw):
        """Validate recorded cases; one verdict {id, bad} per case is required.

        A case on which TLC cannot evaluate the specification (malformed
        observation) is isolated and reported as not being a behaviour.
        """
        cases = [ln for ln in open(trace) if ln.strip()]
        if not cases:
            raise RuntimeError("no cases recorded")
        ids = {}
        for ln in cases:
            o = json.loads(ln)
            if o["id"] in ids:
                raise RuntimeError(f"duplicate case id {o['id']}")
            ids[o["id"]] = o
            if "crash" in o:
                self.traces += 1
                self.fail((sig(o, [0, "unexpected failure"]) if sig else
                           f"{o.get('kind', module)}:crash"),
                          f"case {o['id']}: unexpected failure of the code: {o['crash']}",
                          {"module": module, "case": o})
        cases = [ln for ln in cases if "crash" not in json.loads(ln)]
        ids = {i: o for i, o in ids.items() if "crash" not in o}
        if not cases:
            return {}
        r = self._validate_lines(module, cases, kw)
        verdicts = {}
        for v in r.lines:
            if "id" in v:
                verdicts[v["id"]] = v["bad"]
        missing = [i for i in ids if i not in verdicts]
        if missing:
            raise RuntimeError(f"{len(missing)} cases without a verdict, e.g. {missing[:3]}")
        self.states += r.states
        self.transitions += r.transitions
        self.traces += len(cases)
        for i in list(ids)[:2]:
            if len(self.samples) < 5:
                t = json.dumps(ids[i])
                self.samples.append(ids[i] if len(t) < 1500 else t[:1500] + " ...")
        nbad = 0
        for i, bad in verdicts.items():
            if bad:
                nbad += 1
                s = sig(ids[i], bad) if sig else f"{ids[i].get('kind', module)}:{bad[-1]}"
                txt = describe(ids[i], bad) if describe else f"case {i}: {bad}"
                self.fail(s, txt, {"module": module, "verdict": bad, "case": ids[i]})
        return verdicts

    def _validate_lines(self, module, lines, kw, depth=0):
        path = os.path.join(self.tmp, f"v_{module}_{time.time_ns()}.ndjson")
        with open(path, "w") as f:
            f.writelines(ln if ln.endswith("\n") else ln + "\n" for ln in lines)
        k = dict(kw)
        env = dict(k.pop("env", {}) or {})
        env["TRACE"] = path
        r = tlc.run(module, env=env, **k)
        os.unlink(path)
        if not (r.error or r.violated):
            return r
        if "Parsing or semantic analysis failed" in r.out:
            print(r.error)
            raise RuntimeError(f"{module} does not parse")
        if self.isolated >= 4:
            # enough: the run is a failure anyway, do not isolate all of them
            r.error = r.violated = None
            done = {v["id"] for v in r.lines if "id" in v}
            r.lines += [{"id": i, "bad": []} for i in (json.loads(ln)["id"] for ln in lines)
                        if i not in done]
            return r
        if len(lines) > 1 and depth < 14:
            # isolate the case(s) TLC stumbles over
            done = {v["id"] for v in r.lines if "id" in v}
            rest = [ln for ln in lines if json.loads(ln)["id"] not in done]
            if len(rest) == len(lines) and len(rest) > 1 or len(rest) > 1:
                h = len(rest) // 2
                a = self._validate_lines(module, rest[:h], kw, depth + 1)
                b = self._validate_lines(module, rest[h:], kw, depth + 1)
                r.error = r.violated = None
                tlc.merge(r, a)
                return tlc.merge(r, b)
            if len(rest) == 1 and len(lines) > 1:
                a = self._validate_lines(module, rest, kw, depth + 1)
                r.error = r.violated = None
                return tlc.merge(r, a)
            if not rest:
                r.error = r.violated = None
                return r
        if len(lines) == 1:
            what = r.violated or "not evaluable"
            if os.environ.get("VERIF_DEBUG"):
                print(r.out[-5000:])
            if r.error and ("OutOfMemory" in r.error or "StackOverflow" in r.error
                            or "Parsing or semantic" in r.error
                            or "Semantic errors" in r.error or "java.lang" in r.error
                            and "TLCRuntime" not in r.error and "Attempted" not in r.error):
                print(r.error)
                raise RuntimeError(f"TLC failed on {module}")
            self.isolated += 1
            r.lines = [{"id": json.loads(lines[0])["id"],
                        "bad": [0, f"observation is not a behaviour of the specification ({what})"]}]
            r.error = r.violated = None
            return r
        print(r.error or r.violated)
        raise RuntimeError(f"TLC failed on {module}")

    def fail(self, signature, text, payload=None):
        for k in self.known:
            if k["signature"] == signature:
                self.findings.append((signature, k["what"]))
                return
        self.violations.append((signature, text, payload))

    def expect_findings(self, *signatures_seen):
        pass

    # -- finishing ---------------------------------------------------------
    def finish(self, explanation="", exhaustive=None):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": self.level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples[:5] or ["(none)"],
                "specification_runs": self.mc,
                "counts": self.counts,
                "explanation": explanation,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        if exhaustive is not None:
            ev["coverage"]["exhaustive"] = exhaustive
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for s, what in self.findings:
            if s not in seen:
                seen.add(s)
                print(f"KNOWN-FINDING: property={self.prop} {what}")
        rc = 0
        if self.violations:
            rep = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rep, exist_ok=True)
            shown = set()
            for s, text, payload in self.violations:
                if s in shown:
                    continue
                shown.add(s)
                if len(shown) > 8:
                    break
                h = hashlib.sha1((s + text).encode()).hexdigest()[:10]
                path = os.path.join(rep, f"{self.prop}_{h}.json")
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "signature": s, "text": text,
                               "payload": payload, "seed": self.seed, "tier": self.tier},
                              f, indent=1)
                print(f"  [{s}] {text[:600]}")
                print(f"VIOLATION property={self.prop} replay={path}")
            rc = 1
        else:
            print(f"OK property={self.prop} tier={self.tier} states={self.states} "
                  f"traces={self.traces} wall={ev['wall_s']}s")
        import shutil
        shutil.rmtree(self.tmp, ignore_errors=True)
        return rc


def main(argv, registry):
    if len(argv) < 2 or argv[1] not in registry:
        print("usage: check <property>  (VERIF_TIER, VERIF_SEED)")
        return 2
    chk = Check(argv[1])
    try:
        return registry[argv[1]](chk)
    except Exception as e:  # machinery failure
        import traceback
        traceback.print_exc()
        print(f"ERROR property={argv[1]}: {e}")
        return 2
