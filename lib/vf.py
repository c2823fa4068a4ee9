"""Build the library's regexes, run jobs on them, check what they show with TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JOBS = 8
CXX = ["g++", "-std=c++23", "-w", "-I", SRC, "-I", HARNESS]
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """Something is wrong with the check, nothing is known about the code."""


class Work:
    def __init__(self, name):
        self.dir = tempfile.mkdtemp(prefix="vf-" + name + "-")
        self.n = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def sub(self, name):
        self.n += 1
        d = self.path(f"{name}{self.n}")
        os.makedirs(d)
        return d

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# --- C++ ------------------------------------------------------------------------
def literal(b):
    """bytes as a C++ string literal"""
    out = '"'
    for c in b:
        if c < 128 and chr(c).isalnum() or chr(c) in " _":
            out += chr(c)
        else:
            out += "\\%03o" % c
    return out + '"'


def compile_one(args, timeout=400):
    try:
        p = subprocess.run(args, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return False, "compiler did not finish"
    lines = [x for x in p.stderr.splitlines() if "error" in x or "Killed" in x]
    return p.returncode == 0, "\n".join(lines[:20])[:3000] or p.stderr[-1000:] if p.returncode else ""


class Build:
    """items: list of (key, C++ statement); each statement is executed at start-up.
    failures: {key: compiler message} of the items that do not compile"""

    def __init__(self, work, header, items, opt="-O0", extra=(), per_tu=None, std=None):
        self.dir = work.sub("build")
        self.header = header
        self.opt = opt
        self.extra = list(extra)
        self.failures = {}
        self.binary = os.path.join(self.dir, "driver")
        n = max(1, min(len(items), JOBS * 3))
        if per_tu:
            n = max(1, -(-len(items) // per_tu))
        chunks = [items[i::n] for i in range(n)]
        with ThreadPoolExecutor(JOBS) as ex:
            driver = ex.submit(compile_one, CXX + ["-O1", "-c", os.path.join(HARNESS, "driver.cpp"),
                                                   "-o", os.path.join(self.dir, "driver.o")])
            done = list(ex.map(lambda i: self.chunk(f"t{i}", chunks[i]), range(n)))
            ok, err = driver.result()
            if not ok:
                raise CheckError("the driver does not compile: " + err)
            objects = [o for o, e in done if o]
            retry = [(i, c) for i, (o, e) in enumerate(done) if not o for c in chunks[i]]
            singles = list(ex.map(lambda a: (a[1], self.chunk(f"s{a[0]}_{self.slug(a[1])}", [a[1]])), retry))
        for (key, _), (o, e) in singles:
            if o:
                objects.append(o)
            else:
                self.failures[key] = e
        ok, err = compile_one(["g++", os.path.join(self.dir, "driver.o")] + objects
                              + ["-o", self.binary, "-pthread"])
        if not ok:
            raise CheckError("linking failed: " + err)

    @staticmethod
    def slug(item):
        return re.sub(r"\W", "_", str(item[0]))

    def chunk(self, name, items):
        src = os.path.join(self.dir, name + ".cpp")
        with open(src, "w") as f:
            f.write(self.header + "\n")
            body = []
            for key, (decl, stmt) in items:
                f.write(decl + "\n")
                body.append(stmt)
            f.write("namespace { const bool started = [] {\n" + "\n".join(body) + "\nreturn true; }(); }\n")
        obj = os.path.join(self.dir, name + ".o")
        ok, err = compile_one(CXX + [self.opt] + self.extra + ["-c", src, "-o", obj])
        return (obj, "") if ok else (None, err)


def accepted(work, sources):
    """whether the compiler takes each of them"""
    d = work.sub("taken")
    ok, err = compile_one(["g++", "-std=c++23", "-w", "-I", SRC, "-x", "c++-header", os.path.join(SRC, "e_regex.hpp"),
                           "-o", os.path.join(d, "e_regex.hpp.gch")])
    if not ok:
        raise CheckError("the library does not compile: " + err)

    def one(a):
        path = os.path.join(d, f"{a[0]}.cpp")
        with open(path, "w") as f:
            f.write('#include "e_regex.hpp"\n' + a[1])
        try:
            p = subprocess.run(["g++", "-std=c++23", "-w", "-fsyntax-only", "-I", d, "-I", SRC, path],
                               capture_output=True, text=True, errors="replace", timeout=200)
        except subprocess.TimeoutExpired:
            raise CheckError("the compiler did not finish: " + a[1])
        os.unlink(path)
        if p.returncode and ("Killed" in p.stderr or "error" not in p.stderr):
            raise CheckError("the compiler was stopped: " + p.stderr[-500:])
        return p.returncode == 0
    with ThreadPoolExecutor(JOBS) as ex:
        out = list(ex.map(one, enumerate(sources)))
    shutil.rmtree(d)
    return out


def regex_items(patterns, full=False):
    """patterns: {id: bytes}"""
    return [(i, (f"using R{i} = e_regex::regex<{literal(p)}>;",
                 f"under_test<R{i}, {'true' if full else 'false'}>::add({i});"))
            for i, p in patterns.items()]


REGEX_HEADER = '#include "regex_under_test.hpp"'
TOKENIZER_HEADER = '#include "tokenizer_under_test.hpp"'
# the values of the types of tokens
KINDS = [0, 1, 2, 300, -7, 70000, 2000000000, -2000000000, 7, 65537]


def tokenizer_items(tokenizers):
    """tokenizers: {id: [("t", type, bytes) | ("s", bytes)]}"""
    out = []
    for i, defs in tokenizers.items():
        args = ", ".join(
            f"e_regex::token {{kind::k{d[1]}, {literal(d[2])}}}" if d[0] == "t"
            else f"e_regex::separator {{{literal(d[1])}}}" for d in defs)
        out.append((i, (f"using T{i} = e_regex::tokenization::tokenizer<{args}>;",
                        f"tokenizer_under_test<T{i}>::add({i});")))
    return out


def hexed(q):
    return q.hex() if q else "-"


def run_jobs(work, binary, groups, jobs=JOBS, timeout=600):
    """groups: list of (head line, [job lines]); output records by id"""
    d = work.sub("run")
    parts = [[] for _ in range(min(jobs, max(1, len(groups))))]
    order = sorted(groups, key=lambda g: -len(g[1]))
    load = [0] * len(parts)
    for g in order:
        k = load.index(min(load))
        parts[k].append(g)
        load[k] += len(g[1]) + 1

    def one(k):
        path = os.path.join(d, f"jobs{k}")
        with open(path, "w") as f:
            for head, lines in parts[k]:
                f.write(head + "\n" + "\n".join(lines) + "\n")
        with open(os.path.join(d, f"out{k}"), "w") as out:
            try:
                p = subprocess.run([binary, path], stdout=out, stderr=subprocess.PIPE, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("the driver did not finish")
        if p.returncode != 0:
            raise CheckError(f"the driver failed: {p.returncode} {p.stderr[-500:]!r}")
        return os.path.join(d, f"out{k}")

    with ThreadPoolExecutor(len(parts)) as ex:
        files = list(ex.map(one, range(len(parts))))
    records = []
    for f in files:
        with open(f) as h:
            for line in h:
                records.append(json.loads(line))
    return sorted(records, key=lambda r: r["r"])


def run_static(binary):
    p = subprocess.run([binary, "static"], capture_output=True, text=True, timeout=120)
    if p.returncode != 0:
        raise CheckError(f"the driver failed: {p.returncode} {p.stderr[-500:]}")
    return [json.loads(line) for line in p.stdout.splitlines()]


# --- TLC --------------------------------------------------------------------------
class Tlc:
    def __init__(self, module, cfg, env=None, workers=JOBS, timeout=700, args=(), heap="6g", stack="256m"):
        d = tempfile.mkdtemp(prefix="vf-tlc-")
        try:
            for f in os.listdir(SPEC):
                if f.endswith(".tla"):
                    shutil.copy(os.path.join(SPEC, f), d)
            with open(os.path.join(d, "run.cfg"), "w") as f:
                f.write(cfg)
            e = dict(os.environ)
            e.pop("JAVA_TOOL_OPTIONS", None)
            e.update(env or {})
            cmd = ["java", "-Xmx" + heap, "-Xss" + stack, "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
                   "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
                   "-config", "run.cfg"] + list(args) + [module + ".tla"]
            t = time.time()
            try:
                p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, errors="replace",
                                   timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError(f"TLC did not finish {module}")
            self.wall = time.time() - t
            self.out = p.stdout + p.stderr
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.module = module
        self.code = p.returncode
        self.ok = "Model checking completed. No error has been found." in self.out
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", self.out)
        self.generated, self.distinct = (int(m[1]), int(m[2])) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", self.out)
        self.depth = int(m[1]) if m else 0

    def lines(self, prefix):
        """What PrintT("PREFIX ...") printed"""
        out = []
        for line in self.out.splitlines():
            if line.startswith('"' + prefix + " ") and line.endswith('"'):
                out.append(json.loads(line)[len(prefix) + 1:])
        return out

    def reports(self):
        return [json.loads(x) for x in self.lines("REPORT")]

    def require(self):
        if not self.ok:
            raise CheckError(f"TLC, {self.module}:\n" + self.out[-3000:])
        return self


def write_ndjson(path, records):
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
