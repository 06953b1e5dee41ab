"""Running the harness and TLC, and telling violations from tool errors."""
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
import zlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = os.path.join(BUILD, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(REPLAYS, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        self.quick = tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough


def both_builds():
    """The harness built with debug assertions and overflow checks, and as it is shipped, without."""
    with ThreadPoolExecutor(2) as ex:
        full, ship = ex.map(cargo_build, ["full", "ship"])
    return full + "|" + ship


def cargo_build(variant="full"):
    """Builds the harness against /repo's working tree."""
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               CARGO_TARGET_DIR=os.path.join(BUILD, "t-" + variant),
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path",
           os.path.join(VERIF, "harness", "Cargo.toml")]
    sub = "debug"
    if variant == "nostd":
        cmd += ["--no-default-features"]
    if variant in ("ship", "plain"):
        cmd += ["--profile", variant]
        sub = variant
    r = subprocess.run(cmd, env=env, capture_output=True, text=True, cwd=VERIF)
    if r.returncode != 0:
        raise ToolError("the harness does not build:\n" + r.stderr[-4000:])
    return os.path.join(BUILD, "t-" + variant, sub, "conf")


class Outcome:
    """What one job covered, and the violation it found, if any."""

    def __init__(self, name):
        self.name = name
        self.states = self.transitions = self.traces = self.events = self.replayed = 0
        self.violation = None
        self.known = None
        self.samples = []
        self.notes = []
        self.extra = {}


def run_tlc(ctx, name, spec, cfg, env=None, workers=1, heap="3g", timeout=3000, simulate=None,
            out=None, extra=None):
    meta = os.path.join(ctx.work, "tlc-" + name)
    e = dict(os.environ)
    e.update(env or {})
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
           "-config", os.path.join(SPECS, cfg)]
    if simulate:
        cmd += ["-simulate", simulate[0], "-depth", str(simulate[1]), "-seed", str(ctx.seed)]
    cmd += extra or []
    cmd.append(os.path.join(SPECS, spec))
    outp = out or os.path.join(ctx.work, name + ".tlc")
    with open(outp, "w") as f:
        try:
            r = subprocess.run(cmd, env=e, stdout=f, stderr=subprocess.STDOUT, cwd=ctx.work,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + name)
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, outp


def tlc_stats(path):
    """States generated, distinct, depth and the messages that are not edges."""
    gen = dist = depth = 0
    msgs = []
    with open(path, errors="replace") as f:
        for line in f:
            if line.startswith('"{') or line.startswith("<<"):
                continue
            m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
            if m:
                gen, dist = (int(x.replace(",", "")) for x in m.groups())
            m = re.match(r"The depth of the complete state graph search is ([\d,]+)", line)
            if m:
                depth = int(m.group(1).replace(",", ""))
            msgs.append(line)
    return gen, dist, depth, "".join(msgs[-400:])


def save_replay(ctx, name, lines):
    p = os.path.join(REPLAYS, "%s-%s.txt" % (ctx.pid, name))
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    return p


def harness(ctx, name, binary, args, timeout=400, env=None):
    """Runs the harness.  Returns None, or how it died."""
    if "|" in binary:   # half of the jobs run without debug assertions
        m = re.search(r"-(\d+)$", name)
        odd = int(m.group(1)) % 2 if m else zlib.crc32(name.encode()) & 1 or args[1] == "mode=fresh"
        binary = binary.split("|")[1 if odd else 0]
    e = dict(os.environ)
    e.update(env or {})
    if ctx.quick:
        timeout = min(timeout, 240)
    try:
        r = subprocess.run([binary] + args, capture_output=True, text=True, errors="replace",
                           timeout=timeout, env=e, cwd=ctx.work)
    except subprocess.TimeoutExpired:
        return "did not finish within %d s" % timeout, ""
    if r.returncode != 0:
        return "ended with status %d: %s" % (r.returncode, r.stderr[-600:].strip()), r.stdout
    return None, r.stdout


def read_cur(path):
    try:
        with open(path + ".cur", errors="replace") as f:
            return f.read().strip()
    except OSError:
        return ""


def trace_job(ctx, name, binary, args, spec="ApiTrace", timeout=400, env=None, key=None):
    """Records a trace from the code and validates it against the specification.  With a key, a
    violation that KNOWN_FINDINGS.txt lists under that key is only reported as known."""
    go = trace_job_(ctx, name, binary, args, spec, timeout, env)
    if key is None:
        return go

    def known():
        o = go()
        texts = [t for p, k, t in known_findings() if p == ctx.pid and k == key]
        if o.violation and texts:
            o.known = "KNOWN-FINDING: property=%s %s: %s" % (ctx.pid, key, texts[0])
            o.violation = None
        return o
    return known


def trace_job_(ctx, name, binary, args, spec, timeout, env, stdout=lambda s: None):
    def go():
        o = Outcome(name)
        path = os.path.join(ctx.work, name + ".ndjson")
        died, said = harness(ctx, name, binary, args + ["out=" + path], timeout, env)
        cmdline = "harness: conf " + " ".join(args)
        if died:
            lines = open(path, errors="replace").read().splitlines() if os.path.exists(path) else []
            cur = read_cur(path)
            o.violation = ("the code %s during: %s" % (died, cur),
                           save_replay(ctx, name, ["# the code " + died, "# during: " + cur,
                                                   "# " + cmdline] + lines[-400:]))
            return o
        stdout(said)
        rc, out = run_tlc(ctx, name, spec + ".tla", spec + ".cfg", {"TRACE": path})
        gen, dist, depth, msgs = tlc_stats(out)
        lines = open(path, errors="replace").read().splitlines()
        o.states, o.transitions, o.events = dist, max(gen - 1, 0), len(lines)
        if rc == 0 and "No error has been found" in msgs and depth - 1 == len(lines) and lines:
            o.traces = 1
            if lines:
                o.samples = [lines[min(len(lines) - 1, 7)][:400]]
            os.remove(path)
            return o
        if "OutOfMemoryError" in msgs or "Parsing or semantic analysis failed" in msgs or not lines \
                or "ndJsonDeserialize" in msgs:
            raise ToolError("TLC failed on %s:\n%s" % (name, msgs[-3000:]))
        bad = rejected(msgs, depth)
        if bad is None or bad > len(lines):
            raise ToolError("TLC gave no answer on %s:\n%s" % (name, msgs[-3000:]))
        start = bad - 1
        while start > 0 and not lines[start].startswith('{"op":"reset"'):
            start -= 1
        o.violation = (
            "event %d is not allowed by %s: %s" % (bad, spec, lines[bad - 1][:600]),
            save_replay(ctx, name, ["# event %d of the trace is not allowed by specs/%s.tla"
                                    % (bad, spec), "# " + cmdline,
                                    "# history since the last reset, the rejected event last"]
                        + lines[start:bad] + ["# TLC:"] + ["# " + x for x in msgs[-1500:].splitlines()]))
        return o
    return go


def rejected(msgs, depth):
    """The number of the first event the specification does not allow."""
    if depth:
        return depth
    m = re.findall(r"^/\\ l = (\d+)", msgs, re.M)
    if m:
        return int(m[-1])
    return None


def mc_job(ctx, name, spec, cfg, workers=2, heap="4g", timeout=3000, simulate=None):
    """Model checks a specification on its own."""
    def go():
        o = Outcome(name)
        rc, out = run_tlc(ctx, name, spec, cfg, workers=workers, heap=heap, timeout=timeout,
                          simulate=simulate)
        gen, dist, _, msgs = tlc_stats(out)
        if rc != 0:
            raise ToolError("the specification %s does not hold:\n%s" % (cfg, msgs[-3000:]))
        o.states, o.transitions = dist, gen
        o.notes.append("%s: %d states, %d transitions" % (cfg, dist, gen))
        return o
    return go


def replay_job(ctx, name, binary, spec, cfg, args, modes=("graph",), heap="4g", timeout=800, env=None):
    """Explores an implementation-level specification with TLC, then takes every explored transition
    in the real code, comparing what the specification says with what the code does."""
    def go():
        o = Outcome(name)
        edges = os.path.join(ctx.work, name + ".edges")
        rc, out = run_tlc(ctx, name, spec, cfg, workers=1, heap=heap, timeout=timeout, out=edges,
                          env=env)
        gen, dist, _, msgs = tlc_stats(out)
        if rc != 0:
            raise ToolError("the specification %s does not hold:\n%s" % (cfg, msgs[-3000:]))
        o.states, o.transitions = dist, gen
        for mode in modes:
            rep = os.path.join(ctx.work, "%s-%s.rep" % (name, mode))
            a = ["replay", "mode=" + mode, "edges=" + edges, "out=" + rep] + args
            died, stdout = harness(ctx, name, binary, a, timeout)
            if died:
                cur = read_cur(rep + ".log")
                o.violation = ("the code %s during: %s" % (died, cur),
                               save_replay(ctx, name, ["# the code " + died, "# " + " ".join(a), cur]))
                return o
            lines = open(rep).read().splitlines()
            summary = json.loads(lines[-1]) if lines else {}
            if "replayed" not in summary:
                raise ToolError("no summary from replay " + name)
            if summary["replayed"] == 0:
                raise ToolError("nothing replayed in " + name)
            o.replayed += summary["replayed"]
            o.extra[name + "-" + mode] = summary
            bad = [x for x in lines if x.startswith('{"bad"')]
            if bad:
                o.violation = ("specification %s and code disagree: %s" % (cfg, bad[0][:700]),
                               save_replay(ctx, name, ["# specs/%s" % cfg, "# conf " + " ".join(a)]
                                           + bad[:20]))
                return o
        o.traces = o.replayed
        with open(edges, errors="replace") as f:
            for i, line in enumerate(f):
                if line.startswith('"{') and i > 20:
                    o.samples = [line.strip()[:400]]
                    break
        o.notes.append("%s: %d states, %d transitions, %d replayed in the code"
                       % (cfg, dist, gen, o.replayed))
        os.remove(edges)
        return o
    return go


def paths_job(ctx, name, binary, spec, cfg, args, heap="4g", timeout=800, most=None):
    """Explores an interleaving specification with TLC, takes paths that cover its transitions in the
    real code, under a scheduler, and validates what the threads saw against CaseTrace."""
    def go():
        edges = os.path.join(ctx.work, name + ".edges")
        rc, out = run_tlc(ctx, name + "-mc", spec, cfg, workers=1, heap=heap, timeout=timeout, out=edges)
        gen, dist, _, msgs = tlc_stats(out)
        if rc != 0:
            raise ToolError("the specification %s does not hold:\n%s" % (cfg, msgs[-3000:]))
        a = ["threads", "what=paths", "edges=" + edges] + (["most=%d" % most] if most else []) + args
        seen = []
        o = trace_job_(ctx, name, binary, a, "CaseTrace", timeout, None, seen.append)()
        os.remove(edges)
        o.states += dist
        o.transitions += gen
        if o.violation is None:
            x = json.loads(seen[0])
            if x["replayed"] == 0:
                raise ToolError("nothing replayed in " + name)
            o.replayed = x["replayed"]
            o.traces = x["runs"]
            o.extra[name] = x
            o.notes.append("%s: %d states, %d transitions; %d of them taken in the code in %d runs, of which"
                           " %d kept to the specification step by step"
                           % (cfg, dist, gen, x["replayed"], x["runs"], x["followed"]))
        return o
    return go


def run_jobs(jobs, width=8):
    found = threading.Event()   # one violation is enough: what has not begun by then is left out

    def run(j):
        if found.is_set():
            return None
        o = j()
        if o.violation:
            found.set()
        return o

    with ThreadPoolExecutor(width) as ex:
        fs = [ex.submit(run, j) for j in jobs]
        out, errs = [], []
        for f in fs:
            try:
                o = f.result()
                if o is not None:
                    out.append(o)
            except ToolError as e:
                errs.append(e)
        return out, errs


def known_findings():
    """Entries of KNOWN_FINDINGS.txt that are not fixed: (property, key, text)."""
    r = []
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
        if m:
            r.append(m.groups())
    return r
