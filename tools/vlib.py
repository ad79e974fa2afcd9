"""Shared machinery: build the harness from /repo, run TLC, run cases, judge traces."""
import json, os, re, subprocess, sys, time, shutil, resource, hashlib

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(V, "spec")
TARGET = os.path.join(V, "target")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def env_for_cargo():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True, check=True)
    env = {}
    for kv in out.stdout.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            env[k.decode()] = v.decode()
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_INCREMENTAL"] = "0"
    return env


def build_harness(features=None, tag=""):
    """Compiles the harness against /repo's working tree; returns the binary."""
    env = env_for_cargo()
    if tag:
        env["CARGO_TARGET_DIR"] = TARGET + "-" + tag
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(V, "harness/Cargo.toml")]
    if features:
        cmd += ["--no-default-features", "--features", features]
    r = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("harness does not build against /repo:\n" + r.stderr[-4000:])
    return os.path.join(env["CARGO_TARGET_DIR"], "debug/bch-harness")


def build_java():
    cls = os.path.join(TARGET, "java")
    srcs = [os.path.join(SPEC, "java", f) for f in sorted(os.listdir(os.path.join(SPEC, "java")))]
    os.makedirs(cls, exist_ok=True)
    done = [os.path.join(cls, os.path.basename(s)[:-5] + ".class") for s in srcs]
    if all(os.path.exists(d) and os.path.getmtime(d) > os.path.getmtime(s) for s, d in zip(srcs, done)):
        return cls
    r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", cls] + srcs, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("javac: " + r.stderr)
    return cls


class Tlc:
    """One TLC run: counts, printed lines, error text."""

    def __init__(self, module, cfg, env=None, workers=8, timeout=800, heap="6g", work=None, extra=()):
        cls = build_java()
        meta = os.path.join(work, "tlc-" + os.path.basename(cfg) + "-" + str(time.time_ns()))
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-cp", cls + ":" + JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-deadlock", "-fp", "42", "-seed", "1",
               "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        try:
            r = subprocess.run(cmd, env=e, cwd=SPEC, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        self.out = r.stdout
        self.rc = r.returncode
        self.wall = time.time() - t0
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", self.out)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        self.finished = "Model checking completed. No error has been found." in self.out
        shutil.rmtree(meta, ignore_errors=True)
        self.stderr = r.stderr

    def error(self):
        i = self.out.find("*** Errors:") if "*** Errors:" in self.out else self.out.find("Error:")
        return (self.out[i:i + 3000] if i >= 0 else self.out[-1500:]) + self.stderr[-500:]


def write_cfg(work, name, lines):
    p = os.path.join(work, name + ".cfg")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    return p


def model_check(module, work, workers=4, timeout=800, cfg=None, env=None, heap="6g"):
    """Exhaustive check of the design; any error is an error of the specification."""
    t = Tlc(module, cfg or os.path.join(SPEC, module + ".cfg"), env=dict({"EMIT": "no"}, **(env or {})), workers=workers, timeout=timeout,
            work=work, heap=heap)
    if not t.finished:
        raise ToolError("specification %s is wrong: %s" % (module, t.error()))
    return t


def tla_cases(module, work, env=None, timeout=1800):
    """Behaviours enumerated by TLC from the specification, one JSON object per line."""
    out = os.path.join(work, module + ".cases")
    if os.path.exists(out):
        os.remove(out)
    e = {"OUT": out}
    e.update(env or {})
    e.setdefault("EMIT", "yes")
    tier = os.environ.get("VERIF_TIER", "quick")
    cfg = os.path.join(SPEC, module + "_" + tier + ".cfg")
    if not os.path.exists(cfg):
        cfg = os.path.join(SPEC, module + ".cfg")
    t = Tlc(module, cfg, env=e, workers=4, timeout=timeout, work=work)
    if not t.finished:
        raise ToolError("generator %s: %s" % (module, t.error()))
    cases = []
    if os.path.exists(out):
        with open(out) as f:
            cases = [json.loads(l) for l in f if l.strip()]
    # cases printed from actions: PrintT(ToJson(..)) shows a quoted JSON string
    for l in t.out.splitlines():
        if l.startswith('"{\\"dom') or l.startswith('"{'):
            cases.append(json.loads(json.loads(l)))
    return cases, t


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def cpu_seconds(pid):
    """Processor time used by a process of ours: other load on the machine does not count."""
    try:
        with open(f"/proc/{pid}/stat") as f:
            w = f.read().rsplit(")", 1)[1].split()
        return (int(w[11]) + int(w[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return 0.0


def run_harness(binary, cases, work, name, case_timeout=20):
    """Runs the cases; a process death or hang becomes the outcome of one case."""
    cpath = os.path.join(work, name + ".cases.ndjson")
    epath = os.path.join(work, name + ".events.ndjson")
    with open(cpath, "w") as f:
        for c in cases:
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
    if os.path.exists(epath):
        os.remove(epath)
    deaths = hangs = 0
    skip, each = 0, False
    while skip < len(cases):
        env = dict(os.environ)
        env.update(env_for_cargo_cached())
        if each:
            env["FLUSH_EACH"] = "1"
        kind = None
        p = subprocess.Popen([binary, cpath, epath, str(skip)], env=env, stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, preexec_fn=limit, cwd=work)
        t0 = time.time()
        last, lastt, lastc = -1, time.time(), 0.0
        while True:
            try:
                p.wait(timeout=0.05 if time.time() - t0 < 2 else 0.5)
                break
            except subprocess.TimeoutExpired:
                # the harness flushes at least every 0.3 s between cases
                sz = os.path.getsize(epath) if os.path.exists(epath) else 0
                if sz != last:
                    last, lastt, lastc = sz, time.time(), cpu_seconds(p.pid)
                # running for that long, or waiting for ever
                if cpu_seconds(p.pid) - lastc > case_timeout or time.time() - lastt > 6 * case_timeout:
                    kind = "hang"
                if kind:
                    p.kill()
                    p.wait()
                    break
        if p.returncode == 0:
            break
        err = p.stderr.read().decode(errors="replace")
        if p.returncode == 3:
            raise ToolError("harness: " + err[-1000:])
        done = truncate_to_lines(epath)
        if each:
            deaths += 1
            c = dict(cases[done])
            c["out"] = {"k": kind or "abort", "msg": err[-300:]}
            with open(epath, "a") as f:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
            done += 1
            hangs += kind == "hang"
            if deaths >= 20 or hangs >= 2:
                # enough evidence; the rest is not run
                break
        skip, each = done, True
    return epath


_cargo_env = None


def env_for_cargo_cached():
    global _cargo_env
    if _cargo_env is None:
        e = env_for_cargo()
        _cargo_env = {k: e[k] for k in ("RUSTFMT", "PATH", "HOME") if k in e}
    return _cargo_env


def truncate_to_lines(path):
    if not os.path.exists(path):
        return 0
    with open(path, "rb+") as f:
        data = f.read()
        end = data.rfind(b"\n") + 1
        f.truncate(end)
        return data[:end].count(b"\n")


def read_events(epath):
    with open(epath) as f:
        return f.read().splitlines()


def judge(module, epath, work, chunk=40000, workers=8):
    """Trace validation. Returns (verdicts {line: verdict}, states, transitions, lines)."""
    lines = read_events(epath)
    verdicts, states, trans = {}, 0, 0
    start = 0
    name = os.path.basename(epath)
    while start < len(lines):
        part = lines[start:start + chunk]
        skipped = set()
        while True:
            live = [k for k in range(len(part)) if k not in skipped]
            if not live:
                break
            p = os.path.join(work, name + ".part")
            with open(p, "w") as f:
                f.write("\n".join(part[k] for k in live) + "\n")
            cfg = os.path.join(SPEC, module + ".cfg")
            t = Tlc(module, cfg, env={"EVENTS": p}, workers=workers, work=work)
            if t.finished:
                states += t.distinct
                trans += t.generated
                # every line must have been walked to its verdict
                need = 64 + 2 * len(live)
                if "VERDICT" not in t.out:
                    need += sum(len(json.loads(part[k]).get("ev", ())) for k in live)
                if t.distinct < need:
                    raise ToolError("trace specification %s explored %d states, expected %d" % (module, t.distinct, need))
                for m in re.finditer(r'^<<\s*"VERDICT",\s*(\d+),\s*"([^"]*)"\s*>>', t.out, re.M):
                    verdicts[start + live[int(m.group(1)) - 1]] = m.group(2)
                break
            # the specification assigns no value to this outcome: that line is rejected
            m = re.findall(r"^/\\ ti = (\d+)$", t.out, re.M)
            if m and "line" in t.out and len(skipped) >= 10:
                print("note: TLC cannot evaluate many lines of %s; the rest of this part is not judged" % name)
                break
            if m and "line" in t.out:
                k = live[int(m[-1]) - 1]
                skipped.add(k)
                verdicts[start + k] = "reject"
                print("note: TLC cannot evaluate line %d of %s: %s" % (start + k, name, t.error()[:600]))
                continue
            raise ToolError("trace specification %s: %s" % (module, t.error()))
        start += chunk
    return verdicts, states, trans, lines
