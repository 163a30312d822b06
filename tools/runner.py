"""Compile generated grammars and run them on inputs, isolated."""
import json
import os
import re
import resource
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import common
import emit

PRELUDE = open(os.path.join(common.ROOT, "harness", "rt", "prelude.rs")).read()
PRELUDE = PRELUDE.replace("// @TUPLES@", "tuples! { %s }" % " ".join(
    "%d => %s;" % (n, ", ".join("T%d %d" % (i, i) for i in range(n))) for n in range(2, 73)))
# the ways to declare the stream of a grammar
STREAMS = {
    "str": ["", "", "", "", "type Stream<'a> = StrStream<'a>;", "pub type Other<'a> = &'a str; pub type Stream<'x> = oak_runtime::str_stream::StrStream<'x>;"],
    "file": ["type Stream<'a> = oak_runtime::file_map_stream::FileMapStream<'a>;", "pub type Stream<'file> = oak_runtime::file_map_stream::FileMapStream<'file>;"],
    "vec": ["type Stream<'a> = crate::VecStream<'a>;", "pub type Stream<'s> = crate::VecStream<'s, char>;",
            "pub type Stream<'a, C: crate::Cell> = crate::VecStream<'a, C>;", "pub type Stream<'a, C> where C: crate::Cell = crate::VecStream<'a, C>;",
            "/// Characters.\n    #[allow(unused)] pub(crate) type Stream<'a, C = char> where C: crate::Cell = crate::VecStream<'a, C>;"],
}


class Runner:
    """One binary for a set of grammars."""

    def __init__(self, work, name, gs, prep, idx, stream="str", noise=None, headers=None):
        self.work, self.name, self.gs, self.prep, self.idx, self.stream = work, name, gs, prep, list(idx), stream
        self.noise, self.headers = noise, headers or {}
        self.broken = {}  # grammars whose code does not compile: index -> message
        self.types = {}
        self.mods = {}
        for i in self.idx:
            self.mods[i] = emit.grammar_mod(gs[i], i, prep[i]["card_of_act"], True, STREAMS[stream], noise, self.headers.get(i, ""))[0]

    def source(self):
        lines = ["#![allow(warnings)]"]
        arms, tys = [], []
        starts = []
        for i in self.idx:
            starts.append((len(lines) + 1, i))
            lines += self.mods[i]
            for r, rule in enumerate(self.gs[i]["rules"]):
                # the functions of a raw identifier `r#x` are `parse_x` and `recognize_x`
                name = rule["name"].replace("r#", "")
                for mode, fn in ((0, "parse"), (1, "recognize")):
                    arms.append("    (%d, %d, %d) => go(g%d::%s_%s, input, skip)," % (i + 1, r + 1, mode, i + 1, fn, name))
                tys.append("    println!(\"%d %d {:?}\", %s(g%d::parse_%s));" % (i + 1, r + 1, "type_of_vec" if self.stream == "vec" else "type_of", i + 1, name))
        self.starts = starts
        self.end = len(lines) + 1
        if self.stream == "str":
            # a value may borrow the stream (ranges): one instance per lifetime
            go = ["macro_rules! go { ($f:expr, $input:expr, $skip:expr) => { observe($f, skipped($input.stream(), $skip)) } }"]
        elif self.stream == "vec":
            go = ["macro_rules! go { ($f:expr, $input:expr, $skip:expr) => {{ let cs: Vec<char> = $input.chars().collect(); observe($f, skipped(VecStream::new(&cs), $skip)) }} }"]
        else:
            go = ["macro_rules! go { ($f:expr, $input:expr, $skip:expr) => {{ let fm = filemap($input, 1000); observe($f, skipped((&fm).stream(), $skip)) }} }"]
        lines += go
        lines += ["fn dispatch(g: usize, r: usize, mode: usize, skip: usize, input: &str) -> String {", "  match (g, r, mode) {"]
        self.lines_of = {}
        for a in arms:
            self.lines_of[len(lines) + 1] = int(a.strip(" (").split(",")[0]) - 1
            lines.append(a.replace("=> go(", "=> go!("))
        lines += ["    _ => unreachable!() } }", "fn types() {"]
        for a in tys:
            self.lines_of[len(lines) + 1] = int(a.split('"')[1].split(" ")[0]) - 1
            lines.append(a)
        lines.append("}")
        lines += ["fn main() { if std::env::args().nth(1).unwrap() == \"--types\" { types() } else { main_loop(dispatch) } }"]
        # the prelude comes last: the lines of the grammars stay first
        return "\n".join(lines) + "\n" + PRELUDE

    def build(self):
        """Compile; grammars that break the compilation are set aside in self.broken."""
        for _ in range(6):
            if not self.idx:
                return False
            path = self.work.path(self.name + ".rs")
            with open(path, "w") as f:
                f.write(self.source())
            try:
                p = common.rustc(["--error-format=json", "-C", "debuginfo=0", "-C", "codegen-units=4", "-o", self.work.path(self.name), path], timeout=240)
            except common.Timeout:
                # which one ?  try them one by one, then keep none
                for i in self.idx:
                    one = Runner(self.work, "%s_%d" % (self.name, i), self.gs, self.prep, [i], self.stream, self.noise, self.headers)
                    with open(one.work.path(one.name + ".rs"), "w") as f:
                        f.write(one.source())
                    try:
                        common.rustc(["--emit=metadata", "-o", self.work.path("x.meta"), one.work.path(one.name + ".rs")], timeout=30)
                    except common.Timeout:
                        self.broken[i] = "rustc does not terminate"
                        break
                if not self.broken:
                    raise
                self.idx = []
                return False
            if p.returncode == 0:
                self.load_types()
                return True
            bad = {}
            other = []
            for line in p.stderr.split("\n"):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if not d.get("level", "").startswith("error"):
                    continue
                hit = None
                for s in d.get("spans", []):
                    ln = s["line_start"]
                    if s["file_name"].endswith(self.name + ".rs") and ln < self.end:
                        for st, i in self.starts:
                            if st <= ln:
                                hit = i
                    elif s["file_name"].endswith(self.name + ".rs") and ln in self.lines_of:
                        hit = self.lines_of[ln]
                if hit is None:
                    other.append(d["message"])
                else:
                    bad.setdefault(hit, d["message"] + " " + " ".join(c["message"] for c in d.get("children", [])))
            if not bad:
                raise common.ToolError("rustc failed: %s" % "; ".join(other)[:2000])
            self.broken.update(bad)
            self.idx = [i for i in self.idx if i not in bad]
        raise common.ToolError("rustc keeps failing: %r" % self.broken)

    def load_types(self):
        p = common.run([self.work.path(self.name), "--types"])
        for line in filter(None, p.stdout.split("\n")):
            g, r, t = line.split(" ", 2)
            self.types[(int(g) - 1, int(r) - 1)] = json.loads(t)

    def run(self, jobs, timeout=10):
        """jobs: list of (id, g, r, mode, skip, text), 1-based g and r.  Returns the list of records."""
        jf = self.work.path(self.name + ".jobs")
        with open(jf, "w") as f:
            for (i, g, r, m, k, s) in jobs:
                f.write("%d %d %d %d %d %s\n" % (i, g, r, m, k, s.encode("utf-8").hex()))
        out = []
        first = 0
        while first < len(jobs):
            recs, last, crash = run_once([self.work.path(self.name), jf, str(first)], timeout)
            out += recs
            if crash is None:
                break
            if last is None:
                raise common.ToolError("runner does not start: %s" % crash)
            out.append({"id": jobs[last][0], "st": crash})
            first = last + 1
            if sum(3 if r["st"] == "hang" else 1 for r in out if r["st"] in ("hang", "crash")) >= 5:
                break  # enough evidence
        return out


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_once(cmd, timeout):
    """Run until the end, a crash or a hang (no progress for `timeout` seconds)."""
    outp = cmd[1] + ".out"
    with open(outp, "wb") as o:
        p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.DEVNULL, preexec_fn=limits)
    size, since = -1, time.time()
    crash = None
    while True:
        try:
            p.wait(0.5 if size > 0 else 0.05)
            if p.returncode != 0:
                crash = "crash"
            break
        except subprocess.TimeoutExpired:
            n = os.path.getsize(outp)
            if n != size:
                size, since = n, time.time()
            elif time.time() - since > timeout:
                p.kill()
                p.wait()
                crash = "hang"
                break
    recs, last = [], None
    done = set()
    for line in open(outp, errors="replace"):
        if line.startswith("> "):
            try:
                last = int(line[2:])
            except ValueError:
                pass
        elif line.startswith("{"):
            try:
                recs.append(json.loads(line))
            except ValueError:
                continue
    os.unlink(outp)
    return recs, last, crash


def build_all(work, gs, prep, idx, per_bin, **kw):
    """Runners for the grammars of idx, compiled in parallel."""
    idx = list(idx)
    common.libs()
    chunks = []
    for i in idx:
        same = chunks and "group" in gs[i] and gs[chunks[-1][-1]].get("group") == gs[i]["group"]
        if same or chunks and len(chunks[-1]) < per_bin:
            chunks[-1].append(i)
        else:
            chunks.append([i])
    rs = [Runner(work, "%s%d" % (kw.get("stream", "str"), n), gs, prep, c, **kw) for n, c in enumerate(chunks)]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda r: r.build(), rs))
    return rs
