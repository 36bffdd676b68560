#!/usr/bin/env python3
"""Mutation testing of the checks.

Makes small changes to the library's sources, one at a time, in scratch copies
below WORK, keeps those that compile and pass the project's own tests, and runs
the checks (with fewer cases) on them.

  mutate.py WORK OUT.jsonl [--files REGEX] [--sample N] [--seed N] [--scale F]
            [--all-checks] [--only KEY...]
"""
import argparse
import concurrent.futures
import json
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
CXX = "clang++"
ASAN = ["-std=c++20", "-O1", "-fno-omit-frame-pointer", "-fPIC",
        "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
        "-D_GLIBCXX_ASSERTIONS", "-w"]
PLAIN = ["-std=c++20", "-O0", "-fPIC", "-w"]
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:max_allocation_size_mb=512:abort_on_error=0",
           UBSAN_OPTIONS="print_stacktrace=0", LC_ALL="C")


def sh(*a, timeout=None, **k):
    try:
        return subprocess.run(a, capture_output=True, text=True, errors="replace",
                              timeout=timeout, stdin=subprocess.DEVNULL, **k)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(a, 124, "", "timeout")


TOKEN = re.compile(r'''
  (?P<comment>//[^\n]*|/\*.*?\*/) | (?P<pre>^[ \t]*\#[^\n]*) |
  (?P<str>"(?:\\.|[^"\\\n])*") | (?P<chr>'(?:\\.|[^'\\\n])+') |
  (?P<num>\b\d[\w.]*) | (?P<id>[A-Za-z_]\w*) |
  (?P<op><<=|>>=|->\*|<=>|==|!=|<=|>=|&&|\|\||\+\+|--|\+=|-=|->|::|<<|>>|[-+*/%<>=!&|^~?:;,.(){}\[\]])
  ''', re.X | re.S | re.M)

SWAP_OP = {"==": ["!="], "!=": ["=="], "<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"],
           "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"], "++": [], "+=": ["-=", "="],
           "-=": ["+="], "!": [""]}
SWAP_ID = {"true": ["false"], "false": ["true"], "min": ["max"], "max": ["min"],
           "front": ["back"], "back": ["front"], "break": [""], "continue": [""],
           "find": ["rfind"], "lower_bound": ["upper_bound"], "upper_bound": ["lower_bound"],
           "find_first_of": ["find_last_of"], "find_last_of": ["find_first_of"],
           "any_of": ["all_of"], "all_of": ["any_of"],
           "isspace": ["isdigit"], "else": []}
ENUMS = {}


def load_enums(repo):
    for root in ("include", "src"):
        for d, _, files in os.walk(os.path.join(repo, root)):
            for f in files:
                text = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(os.path.join(d, f)).read(), flags=re.S)
                for m in re.finditer(r"enum\s+(?:class\s+)?(\w+)[^{;]*\{([^}]*)\}", text):
                    names = [x.split("=")[0].strip() for x in m[2].split(",") if x.strip()]
                    ENUMS[m[1]] = names


def mutants(path, text):
    """(start, end, replacement, kind) of every mutation of a file."""
    toks = []
    for m in TOKEN.finditer(text):
        if m.lastgroup not in ("comment",):
            toks.append((m.lastgroup, m.group(), m.start(), m.end()))
    sig = [t for t in toks if t[0] != "pre"]
    for i, (kind, tok, a, b) in enumerate(sig):
        prev = sig[i - 1] if i else ("", "", 0, 0)
        nxt = sig[i + 1] if i + 1 < len(sig) else ("", "", 0, 0)
        if kind == "op":
            if tok in ("<", ">") and not (text[a - 1] == " " and text[b:b + 1] == " "):
                continue
            if tok == "-" or tok == "+":
                if prev[0] == "op" and prev[1] not in (")", "]"):
                    continue
            if tok == "!" and nxt[1] == "=":
                continue
            for r in SWAP_OP.get(tok, ()):
                yield a, b, r, "op"
        elif kind == "id":
            if tok in ("if", "while") and nxt[1] == "(":
                depth, j = 0, i + 1
                while j < len(sig):
                    if sig[j][1] == "(":
                        depth += 1
                    elif sig[j][1] == ")":
                        depth -= 1
                        if depth == 0:
                            break
                    j += 1
                inner = text[nxt[3]:sig[j][2]]
                decl = re.match(r"\s*(auto|const)\b", inner)
                if ";" in inner:
                    k = nxt[3] + inner.rindex(";") + 1
                    yield k, sig[j][2], " false", "cond"
                    if tok == "if":
                        yield k, sig[j][2], " true", "cond"
                elif not decl:
                    yield nxt[3], sig[j][2], "false", "cond"
                    if tok == "if":
                        yield nxt[3], sig[j][2], "true", "cond"
            elif prev[1] == "::" and i > 1 and sig[i - 2][1] in ENUMS:
                names = ENUMS[sig[i - 2][1]]
                if tok in names and len(names) > 1:
                    k = names.index(tok)
                    yield a, b, names[(k + 1) % len(names)], "enum"
                    if len(names) > 2:
                        yield a, b, names[(k + 2) % len(names)], "enum"
            else:
                for r in SWAP_ID.get(tok, ()):
                    yield a, b, r, "id"
        elif kind == "num":
            if re.fullmatch(r"\d+", tok):
                yield a, b, str(int(tok) + 1), "num"
                if int(tok) > 0:
                    yield a, b, str(int(tok) - 1), "num"
        elif kind == "chr":
            yield a, b, "'~'", "chr"
        elif kind == "str":
            here = text.rfind("ARGOS_THROW", 0, a)
            misuse = here >= 0 and ";" not in text[here:a]
            if tok != '""' and prev[1] != "include" and not misuse:
                yield a, b, '"~"', "str"
    # Statements on lines of their own, possibly continued.
    for m in re.finditer(r"^[ \t]+(?!return\b|using\b|case\b|default\b|break|continue|else|if\b|for\b|while\b|throw\b|public|private)"
                         r"[A-Za-z_+\-*(][^;{}#]*;[ \t]*$", text, re.M):
        s = m.group()
        if s.count("(") == s.count(")"):
            yield m.start(), m.end(), re.sub(r"[^\n]", "", s) + ";", "delete"
    for m in re.finditer(r"^[ \t]+throw\b[^;{}#]*;[ \t]*$|^[ \t]+ARGOS_THROW\b[^;{}#]*;[ \t]*$", text, re.M):
        yield m.start(), m.end(), ";", "throw"
    for m in re.finditer(r"^[ \t]+return;[ \t]*$", text, re.M):
        yield m.start(), m.end(), ";", "return"
    for m in re.finditer(r"\belse\b(?!\s+if)", text):
        yield m.start(), m.end(), ";", "else"


def line_of(text, pos):
    return text.count("\n", 0, pos) + 1


class Worker:
    def __init__(self, base, index, ctx):
        self.ctx = ctx
        self.dir = os.path.join(base, "w%d" % index)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        for d in ("src", "include"):
            shutil.copytree(os.path.join(ctx.repo, d), os.path.join(self.dir, d))
        os.makedirs(os.path.join(self.dir, "out"))

    def build(self, flags, kind, rel, header):
        """Compiles the mutated file (or everything that uses the header) and
        links the library."""
        inc = ["-I" + self.dir + "/include", "-I" + self.ctx.gen, "-I" + self.dir + "/src/Argos"]
        objs = []
        for s in self.ctx.sources:
            src = "src/Argos/" + s
            if src == rel or header:
                o = os.path.join(self.dir, "out", kind + "-" + s + ".o")
                r = sh(CXX, *flags, *inc, "-c", os.path.join(self.dir, src), "-o", o, timeout=200)
                if r.returncode:
                    return None
                objs.append(o)
            else:
                objs.append(os.path.join(self.ctx.base_dir, kind + "-" + s + ".o"))
        lib = os.path.join(self.dir, "out", kind, "libArgos.so")
        os.makedirs(os.path.dirname(lib), exist_ok=True)
        r = sh(CXX, *flags, "-shared", *objs, "-o", lib, timeout=200)
        if r.returncode:
            return None
        return os.path.dirname(lib)

    def tests(self, rel, header):
        d = self.build(PLAIN, "plain", rel, header)
        if not d:
            return "compile"
        exe = self.ctx.test_exe
        if header:
            exe = os.path.join(self.dir, "out", "ArgosTest")
            if not self.ctx.build_tests(self.dir, os.path.join(self.dir, "out"), exe):
                return "compile"
        r = sh(exe, timeout=20, env=dict(os.environ, LD_LIBRARY_PATH=d), cwd=self.dir)
        if r.returncode:
            return "tests"
        return None

    def checks(self, rel, header, order, scale, all_checks):
        d = self.build(ASAN, "asan", rel, header)
        if not d:
            return ["asan-compile"], []
        bins = self.ctx.bins
        if header:
            bins = self.ctx.build_checks(self.dir, os.path.join(self.dir, "out"), d)
            if bins is None:
                return ["harness-compile"], []
        caught, odd = [], []
        for prop in order:
            tmp = os.path.join(self.dir, "tmp")
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            cases = max(200, int(self.ctx.quick[prop] * scale))
            r = sh(bins[prop], "--tmp", tmp, "--replay-dir", tmp, "--cases", str(cases),
                   "--workers", "1", "--shrink", "0",
                   "--known", VERIF + "/known_findings.jsonl", timeout=900,
                   env=dict(ENV, LD_LIBRARY_PATH=d))
            if r.returncode == 1:
                caught.append(prop)
                if not all_checks:
                    break
            elif r.returncode != 0:
                odd.append("%s:%d" % (prop, r.returncode))
        return caught, odd


class Context:
    def __init__(self, work, repo):
        import check
        self.repo = repo
        self.work = work
        self.base_dir = os.path.join(work, "base")
        os.makedirs(self.base_dir, exist_ok=True)
        self.gen = os.path.join(work, "gen")
        os.makedirs(self.gen, exist_ok=True)
        with open(os.path.join(self.gen, "ArgosVersion.hpp"), "wb") as f:
            f.write(check.version_header())
        self.sources = [f for f in sorted(os.listdir(os.path.join(repo, "src/Argos"))) if f.endswith(".cpp")]
        self.quick = {}
        self.props = check.properties()
        for p in self.props:
            text = open(os.path.join(VERIF, "harness/props", p + ".cpp")).read()
            m = re.search(r"quick_cases\s*=\s*(\d+)", text) or re.search(r"(\d+)\s*,\s*(\d+)\s*,\s*(?:run|\[|test|check)", text)
            self.quick[p] = int(m[1])
        self.support = check.SUPPORT + ["outcome"]
        jobs = []
        inc = ["-I" + repo + "/include", "-I" + self.gen, "-I" + repo + "/src/Argos"]
        for s in self.sources:
            for kind, flags in (("plain", PLAIN), ("asan", ASAN)):
                jobs.append([CXX, *flags, *inc, "-c", repo + "/src/Argos/" + s,
                             "-o", self.base_dir + "/" + kind + "-" + s + ".o"])
        self.parallel(jobs)
        for kind, flags in (("plain", PLAIN), ("asan", ASAN)):
            os.makedirs(self.base_dir + "/" + kind, exist_ok=True)
            r = sh(CXX, *flags, "-shared", *[self.base_dir + "/" + kind + "-" + s + ".o" for s in self.sources],
                   "-o", self.base_dir + "/" + kind + "/libArgos.so")
            assert r.returncode == 0, r.stderr
        self.test_exe = os.path.join(self.base_dir, "ArgosTest")
        assert self.build_tests(repo, self.base_dir, self.test_exe, 8)
        self.bins = self.build_checks(repo, self.base_dir, self.base_dir + "/asan", 8)
        assert self.bins

    @staticmethod
    def parallel(jobs, n=8):
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            return all(r.returncode == 0 or (sys.stderr.write(r.stderr[-800:]) and False)
                       for r in ex.map(lambda j: sh(*j), jobs))

    def build_tests(self, root, out, exe, n=1):
        tests = [f for f in os.listdir(self.repo + "/tests/ArgosTest") if f.endswith(".cpp")]
        jobs = [[CXX, *PLAIN, "-I" + root + "/src", "-I" + root + "/include", "-I" + self.gen,
                 "-c", self.repo + "/tests/ArgosTest/" + t, "-o", out + "/t-" + t + ".o"] for t in tests]
        if not self.parallel(jobs, n):
            return False
        r = sh(CXX, *PLAIN, *[out + "/t-" + t + ".o" for t in tests],
               "-L" + self.base_dir + "/plain", "-lArgos", "-lCatch2Main", "-lCatch2", "-o", exe)
        if r.returncode:
            sys.stderr.write(r.stderr[-800:])
        return r.returncode == 0

    def build_checks(self, root, out, libdir, n=1):
        flags = [*ASAN, "-I" + root + "/include", "-I" + self.gen, "-I" + VERIF + "/harness"]
        names = self.support + ["api"] + ["props/" + p for p in self.props if p != "C20"]
        jobs = [[CXX, *flags, "-c", VERIF + "/harness/" + x + ".cpp",
                 "-o", out + "/h-" + x.replace("/", "-") + ".o"] for x in names]
        if not self.parallel(jobs, n):
            return None
        bins = {}
        links = []
        for p in self.props:
            if p == "C20":
                continue
            bins[p] = out + "/" + p
            links.append([CXX, *ASAN, *[out + "/h-" + s + ".o" for s in self.support + ["api"]],
                          out + "/h-props-" + p + ".o", "-L" + libdir, "-lArgos", "-o", bins[p]])
        if not self.parallel(links, n):
            return None
        return bins


ORDER = {
    "HelpText": ["C16", "C17"], "TextFormatter": ["C17", "C16"], "TextWriter": ["C17", "C16"],
    "WordSplitter": ["C17", "C16"], "ParseValue": ["C08"], "ArgumentValue": ["C09", "C08"],
    "ArgumentValues": ["C09", "C08", "C21"], "ConsoleWidth": ["C17", "C16"],
    "OptionIterator": ["C02"], "StandardOptionIterator": ["C01", "C04"],
    "ArgumentCounter": ["C03"], "ArgumentIteratorImpl": ["C04", "C14", "C13"],
    "ParsedArgumentsImpl": ["C05", "C21", "C13"], "View": ["C21"],
    "Option.cpp": ["C07", "C21"], "Argument.cpp": ["C07", "C21"],
    "Command": ["C07", "C06", "C15"], "ArgumentParser": ["C15", "C18", "C13"],
    "OptionData": ["C07", "C06"],
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("work")
    ap.add_argument("out")
    ap.add_argument("--files", default=r"src/Argos/.*\.cpp")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", type=float, default=0.1)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--all-checks", action="store_true")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--only", nargs="*")
    a = ap.parse_args()
    repo = os.environ.get("ARGOS_REPO", "/repo")
    load_enums(repo)
    todo = []
    for root in ("src/Argos", "include/Argos"):
        for f in sorted(os.listdir(os.path.join(repo, root))):
            rel = root + "/" + f
            if not f.endswith((".cpp", ".hpp")) or not re.search(a.files, rel):
                continue
            text = open(os.path.join(repo, rel)).read()
            for s, e, r, kind in mutants(rel, text):
                key = hashlib.sha256(("%s|%s|%s|%s|%d" % (rel, text[max(0, s - 60):e + 60], r, kind, s)).encode()).hexdigest()[:10]
                todo.append(dict(key=key, file=rel, line=line_of(text, s), kind=kind,
                                 old=text[s:e], new=r, s=s, e=e))
    if a.only:
        todo = [m for m in todo if m["key"] in a.only]
    random.Random(a.seed).shuffle(todo)
    if a.sample:
        todo = todo[:a.sample]
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(l)["key"] for l in open(a.out)}
    todo = [m for m in todo if m["key"] not in done]
    print(len(todo), "mutants", flush=True)
    if a.list:
        return
    ctx = Context(a.work, repo)
    pool = queue.Queue()
    for i in range(a.jobs):
        pool.put(Worker(a.work, i, ctx))
    out = open(a.out, "a")

    def one(m):
        w = pool.get()
        try:
            path = os.path.join(w.dir, m["file"])
            text = open(os.path.join(repo, m["file"])).read()
            with open(path, "w") as f:
                f.write(text[:m["s"]] + m["new"] + text[m["e"]:])
            header = m["file"].endswith(".hpp")
            res = w.tests(m["file"], header)
            m["result"] = res
            if res is None:
                order = [p for k, v in ORDER.items() if k in m["file"] for p in v]
                order += [p for p in ctx.props if p not in order and p != "C20"]
                m["caught"], m["odd"] = w.checks(m["file"], header, order, a.scale, a.all_checks)
            with open(path, "w") as f:
                f.write(text)
            return m
        finally:
            pool.put(w)

    n = survived = 0
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        for m in ex.map(one, todo):
            out.write(json.dumps(m) + "\n")
            out.flush()
            n += 1
            if m["result"] is None and not m["caught"]:
                survived += 1
                print("SURVIVED", m["key"], "%s:%d" % (m["file"], m["line"]), m["kind"],
                      repr(m["old"][:70]), "->", repr(m["new"][:30]), m["odd"], flush=True)
            if n % 50 == 0:
                print(n, "done", survived, "survived", flush=True)


if __name__ == "__main__":
    main()
