"""Run TLC on a module of /verif/spec and collect its JSON verdict lines."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcFailure(Exception):
    """TLC did not finish: machinery failure (error exit of the check)."""


class Result:
    def __init__(self):
        self.lines = []        # decoded JSON objects printed by the spec
        self.states = 0        # distinct states
        self.transitions = 0   # states generated
        self.violated = None   # name of a violated invariant/property, if any
        self.error = None      # evaluation error text, if any
        self.out = ""
        self.wall = 0.0


_VERDICT = re.compile(r'^"(\{.*\})"$')


def _cfg_text(spec="Spec", consts=None, invs=(), props=(), extra="", post=None,
              init_next=None):
    lines = []
    if init_next:
        lines += [f"INIT {init_next[0]}", f"NEXT {init_next[1]}"]
    else:
        lines.append(f"SPECIFICATION {spec}")
    for k, v in (consts or {}).items():
        lines.append(f"CONSTANT {k} = {v}")
    for i in invs:
        lines.append(f"INVARIANT {i}")
    for p in props:
        lines.append(f"PROPERTY {p}")
    if post:
        lines.append(f"POSTCONDITION {post}")
    lines.append("CHECK_DEADLOCK FALSE")
    if extra:
        lines.append(extra)
    return "\n".join(lines) + "\n"


def run(module, *, consts=None, invs=(), props=(), spec="Spec", extra="", env=None,
        workers=8, timeout=800, heap="6g", args=(), post=None, init_next=None,
        keep=None):
    """Run TLC on SPEC/module.tla with a generated configuration."""
    res = Result()
    tmp = tempfile.mkdtemp(prefix="tlc_")
    try:
        cfg = os.path.join(tmp, module + ".cfg")
        with open(cfg, "w") as f:
            f.write(_cfg_text(spec, consts, invs, props, extra, post, init_next))
        # TLC prepends an underscore-laden path to the metadir; keep it in tmp.
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", tmp,
               "-workers", str(workers), "-config", cfg, *args,
               os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise TlcFailure(f"TLC timed out after {timeout}s on {module}") from ex
        res.wall = time.time() - t0
        res.out = p.stdout
        for line in p.stdout.splitlines():
            m = _VERDICT.match(line.strip())
            if m:
                try:
                    res.lines.append(json.loads(json.loads(line.strip())))
                except ValueError:
                    pass
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
        if m:
            res.transitions, res.states = int(m[-1][0]), int(m[-1][1])
        m = re.search(r"Error: Invariant (\S+) is violated|Error: Action property (\S+) is violated"
                      r"|Error: Temporal properties were violated"
                      r"|Error: Evaluating assumption", p.stdout)
        if m:
            res.violated = m.group(1) or m.group(2) or m.group(0)
        elif "Assumption" in p.stdout and "is false" in p.stdout:
            res.violated = re.search(r"Assumption.*is false", p.stdout).group(0)
        elif p.returncode != 0:
            res.error = "\n".join([x for x in p.stdout.splitlines() if not x.startswith(
                ("Parsing file", "Semantic processing", "Starting", "Finished"))][-40:])
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def merge(a, b):
    """Add the counts and verdicts of b to a."""
    a.lines += b.lines
    a.states += b.states
    a.transitions += b.transitions
    a.violated = a.violated or b.violated
    a.error = a.error or b.error
    a.wall += b.wall
    return a
