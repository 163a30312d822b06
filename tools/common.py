"""Shared machinery of the checks: paths, TLC runs, builds of oak from /repo."""
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
REPO = "/repo"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

RUST_ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.80.0", RUSTC_BOOTSTRAP="1", CARGO_NET_OFFLINE="true")
RUST_ENV.pop("RUSTFLAGS", None)


class ToolError(Exception):
    """The machinery failed: neither a pass nor a violation."""


class Work:
    """A scratch directory, removed at the end unless a violation needs it."""

    def __init__(self, name):
        base = os.path.join(ROOT, "target", "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=name + "-", dir=base)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def run(cmd, timeout=600, env=None, cwd=None, stdin=None, limits=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if stdin else subprocess.DEVNULL,
                         env=env, cwd=cwd, text=True, errors="replace", start_new_session=True, preexec_fn=limits)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Timeout("timeout of %s" % " ".join(cmd[:4])) from e
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


# ---- TLC -------------------------------------------------------------------
class Tlc:
    """Result of a TLC run: lines printed by the specification, states, violation text."""

    def __init__(self, out, code, wall):
        self.out, self.code, self.wall = out, code, wall
        self.printed = []
        for line in out.split("\n"):
            if line.startswith('"@@'):
                try:
                    self.printed.append(json.loads(json.loads(line)[2:]))
                except ValueError:
                    raise ToolError("cannot read a line printed by TLC: " + line[:300])
        m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.violated = re.findall(r"Invariant (\S+) is violated|property (\S+) (?:is|was) violated", out)
        self.ok = code == 0


def tlc(work, module, cfg=None, env=None, workers=8, timeout=800, extra=(), heap="8g", files=()):
    """Run TLC on module (a file of spec/ or an absolute path)."""
    path = module if os.path.isabs(module) else os.path.join(SPEC, module)
    cfgp = cfg or path[:-4] + ".cfg"
    if not os.path.isabs(cfgp):
        cfgp = os.path.join(SPEC, cfgp)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work.dir)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC,
           "-cp", JAR, "tlc2.TLC", "-noTE", "-workers", str(workers), "-metadir", meta, "-config", cfgp] + list(extra) + [path]
    t = time.time()
    p = run(cmd, timeout=timeout, env=dict(os.environ, **(env or {})), cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    r = Tlc(p.stdout, p.returncode, time.time() - t)
    r.err = p.stderr
    if p.returncode not in (0, 12, 13):  # 12: safety violation, 13: liveness violation
        raise ToolError("TLC %s exited with %d\n%s\n%s" % (module, p.returncode, tail(p.stdout), tail(p.stderr)))
    return r


def tail(s, n=60):
    return "\n".join(s.splitlines()[-n:])


# ---- Rust ------------------------------------------------------------------
class BuildError(Exception):
    """/repo does not build."""


def source_hash():
    """Digest of the sources of /repo: the build never depends on the dates of the files."""
    import hashlib
    h = hashlib.sha256()
    for top in ("src", "runtime", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, top)
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, ds, ff in os.walk(p) for f in ff if "/target" not in d)
        for f in fs:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    for f in ("Cargo.toml", "Cargo.lock", "src/lib.rs"):
        h.update(open(os.path.join(ROOT, "harness", "base", f), "rb").read())
    return h.hexdigest()[:12]


_libs = None


def libs():
    """Build oak and oak_runtime from the working tree; paths to give to rustc."""
    global _libs
    if _libs:
        return _libs
    target = os.path.join(TARGET, "base-" + source_hash())
    os.makedirs(target, exist_ok=True)
    os.utime(target)
    for old in glob.glob(os.path.join(TARGET, "base-*")):
        if old != target and time.time() - os.path.getmtime(old) > 1800:
            shutil.rmtree(old, ignore_errors=True)
    p = run(["cargo", "build", "--offline", "--target-dir", target, "--message-format=json"], timeout=600, env=RUST_ENV,
            cwd=os.path.join(ROOT, "harness", "base"))
    if p.returncode != 0:
        raise ToolError("cannot build /repo:\n" + tail(p.stderr))
    found = {}
    for line in p.stdout.split("\n"):
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            name = m["target"]["name"].replace("-", "_")
            for f in m["filenames"]:
                if f.endswith((".so", ".rlib")):
                    found[name] = f
    d = os.path.join(target, "debug", "deps")
    try:
        _libs = {"oak": found["oak"], "oak_runtime": found["oak_runtime"], "syntex_pos": found["syntex_pos"], "deps": d}
    except KeyError as e:
        raise ToolError("missing artifact %s in %s" % (e, sorted(found)))
    return _libs


class Timeout(ToolError):
    """A command did not end."""


def rust_limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def rustc(args, timeout=600):
    l = libs()
    cmd = ["rustc", "--edition", "2018", "-L", "dependency=" + l["deps"]]
    for k in ("oak", "oak_runtime", "syntex_pos"):
        cmd += ["--extern", "%s=%s" % (k, l[k])]
    return run(cmd + list(args), timeout=timeout, env=RUST_ENV, limits=rust_limits)
