"""C22: tools/make_single_src/mergecpp.py merges source files without loss.

Random trees of source files and command lines for the tool; what it writes
is compared with what must be in it, see check_output(). Run by check.py.
"""
import argparse
import hashlib
import io
import json
import multiprocessing
import os
import random
import re
import runpy
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from contextlib import redirect_stderr, redirect_stdout

from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis import strategies as st

RULE = ("Random trees of headers and source files (several directories, includes by different spellings, "
        "same names in different directories, cycles, conditional blocks, comments, missing final line "
        "breaks, byte order marks) and random command lines (order, repetitions, patterns, -i, -f, -p, "
        "--no-pragma-once, output to stdout, new and existing files). Non-trivial: at least three files "
        "are merged and one of them is included more than once.")

INCLUDE = re.compile(r'\s*#\s*include\s*(?:"([^"]+)"|<([^>]+)>)')
PRAGMA = re.compile(r'\s*#\s*pragma\s+once\b')


class Failure(Exception):
    pass


# A case is a dict (so that it can be stored as a replay file):
#   files: {path: text}, bom: [path], args: [str], inputs: [path],
#   dirs: [str] (-i), filters: [str], prepend: [str], pragma: bool,
#   out: str or None, existing: str or None

DIRS = ["inc", "inc/sub", "other", "src", "src/detail"]


@st.composite
def projects(draw):
    chance = lambda p: draw(st.integers(0, 99)) >= 100 - p
    n = draw(st.integers(1, 8))
    paths = []
    for i in range(n):
        d = draw(st.sampled_from(DIRS))
        stem = draw(st.sampled_from(["common", "util"])) if chance(15) else "h%d" % i
        p = d + "/" + stem + ".hpp"
        if p not in paths:
            paths.append(p)
    headers = list(paths)
    for i in range(draw(st.integers(0, 3))):
        paths.append(draw(st.sampled_from(["src", "src", "src/detail"])) + "/s%d.cpp" % i)
    dirs = draw(st.permutations(["inc", "other"] + (["src"] if chance(30) else [])))
    dirs = dirs[:draw(st.integers(1, len(dirs)))] if chance(30) else dirs
    externals = ["vector", "ext/a.h", "ext/b.h", "e0"]
    index = {p: i for i, p in enumerate(paths)}

    def resolve(path, name):
        for d in [os.path.dirname(path)] + dirs:
            p = d + "/" + name
            if p in index:
                return p
        return None

    files = {}
    for i, path in enumerate(paths):
        lines = []
        count = [0]

        def code():
            count[0] += 1
            ident = "%s_%d" % (re.sub(r"\W", "_", path), count[0])
            kind = draw(st.integers(0, 9))
            if kind == 0:
                return ["// comment %s" % ident]
            if kind == 1:
                return ["/* %s" % ident, " * more %s */" % ident]
            if kind == 2:
                return ["#define %s %d" % (ident.upper(), count[0])]
            if kind == 3:
                return ["    int %s; // #include <%s>" % (ident, ident)]
            if kind == 4:
                return ['const char* %s = "#include \\"h0.hpp\\"";' % ident]
            if kind == 5:
                return ["#pragma GCC message_%s" % ident]
            if kind == 6:
                return ["int %s; // \u00e9\u65e5" % ident]
            return ["int %s;" % ident]

        if chance(50):
            lines.append("// Copyright %s" % path)
        header = path in headers
        if header:
            lines.append(draw(st.sampled_from(["#pragma once", "#pragma once", "#pragma once // x",
                                               " #pragma  once", "#pragma once "])))
        for _ in range(draw(st.integers(0, 5))):
            if chance(20):
                lines.extend([""] * draw(st.integers(1, 3)))
            if chance(25):
                name = draw(st.sampled_from(externals))
                form = '#include <%s>'
            else:
                # Cycles are allowed, but rare
                pool = [h for h in headers if h != path and (index[h] < i or chance(3))]
                if not pool:
                    continue
                target = draw(st.sampled_from(pool))
                names = [os.path.relpath(target, d) for d in dirs + [os.path.dirname(path)]]
                names = [x for x in names if not x.startswith("..") and resolve(path, x)]
                if not names:
                    continue
                name = draw(st.sampled_from(sorted(set(names))))
                # <> doesn't look in the file's own directory
                own = os.path.dirname(path) + "/" + name in index
                form = '#include <%s>' if not own and chance(30) else '#include "%s"'
            form = draw(st.sampled_from(["%s", "%s", "%s", "%s // why", "  %s"])) % form
            if chance(25):
                form = form.replace("#include ", draw(st.sampled_from(
                    ["#include", "#include  ", "#include\t", "# include ", "#\tinclude"])))
            lines.append(form % name)
        if chance(20):
            name = draw(st.sampled_from(externals))
            lines += ["#if defined(X_%d)" % i, "#include <%s>" % name, "#endif"]
        for _ in range(draw(st.integers(0, 4))):
            if chance(30):
                lines.extend([""] * draw(st.integers(1, 3)))
            if chance(15):
                lines += ["#ifdef Y_%d_%d" % (i, count[0])] + code() + ["#else"] + code() + ["#endif"]
            else:
                lines += code()
        if chance(8):
            lines.append("#include <%s>" % draw(st.sampled_from(externals)))
            lines += code()
        text = "\n".join(lines)
        if not chance(25):
            text += "\n" * draw(st.sampled_from([1, 1, 1, 2, 3]))
        files[path] = text
    bom = [p for p in paths if chance(6)]
    if chance(50):
        inputs = [p for p in paths if p.endswith(".cpp")] or [draw(st.sampled_from(paths))]
    else:
        inputs = [draw(st.sampled_from(paths)) for _ in range(draw(st.integers(1, 4)))]
    spelled = []
    for p in inputs:
        d = os.path.dirname(p)
        spelled.append(p if not chance(10) else d + "/../" + os.path.basename(d) + p[len(d):])
    if chance(10) and any(p.startswith("src/") and p.endswith(".cpp") for p in paths):
        spelled.append("src/*.cpp")
    filters = []
    if chance(35):
        for _ in range(draw(st.integers(1, 2))):
            f = draw(st.sampled_from(headers + dirs))
            # It isn't specified what happens to inputs that are filtered out
            if not any(x == f or x.startswith(f + "/") for x in inputs) and (f != "src" or len(spelled) == len(inputs)):
                filters.append(f)
    prepend = []
    if chance(30):
        prepend = [draw(st.sampled_from(["// first\n", '#include "Merged.hpp"\n', "// a\n// b\n"]))
                   for _ in range(draw(st.integers(1, 2)))]
    out = draw(st.sampled_from([None, "out/deep/merged.hpp", "out.hpp", "built/x.cpp"]))
    existing = draw(st.sampled_from([None, "", "old text\n", "same"])) if out else None
    return dict(files=files, bom=bom, inputs=spelled, dirs=dirs, filters=filters, prepend=prepend,
                pragma=not chance(40), out=out, existing=existing, absolute=chance(30))


def write_tree(case, root):
    for path, text in case["files"].items():
        p = os.path.join(root, path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            if path in case["bom"]:
                f.write(b"\xef\xbb\xbf")
            f.write(text.encode())


def arguments(case, root):
    full = (lambda p: os.path.join(root, p)) if case["absolute"] else (lambda p: p)
    args = [full(p) for p in case["inputs"]]
    for d in case["dirs"]:
        args += ["-i", full(d)]
    for f in case["filters"]:
        args += ["-f", full(f)]
    for p in case["prepend"]:
        args += ["-p", p]
    if not case["pragma"]:
        args.append("--no-pragma-once")
    if case["out"]:
        args += ["-o", case["out"]]
    return args


def run_tool(tool, root, args):
    """Returns standard output; the tool runs in this process."""
    out, err = io.StringIO(), io.StringIO()
    old_argv, old_cwd = sys.argv, os.getcwd()
    code = 0

    def too_long(*_):
        raise Failure("the tool doesn't finish: " + " ".join(args))

    signal.signal(signal.SIGPROF, too_long)
    signal.setitimer(signal.ITIMER_PROF, 20)
    try:
        os.chdir(root)
        sys.argv = [tool] + args
        with redirect_stdout(out), redirect_stderr(err):
            try:
                runpy.run_path(tool, run_name="__main__")
            except SystemExit as e:
                code = e.code or 0
    except Failure:
        raise
    except Exception:
        raise Failure("the tool failed:\n" + traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.argv = old_argv
        os.chdir(old_cwd)
    if code != 0:
        raise Failure("the tool's exit code is %r: %s" % (code, err.getvalue()))
    return out.getvalue()


class Model:
    """What must be in the merged file."""

    def __init__(self, files, inputs, dirs, filters):
        self.files = files  # path: text
        self.dirs = dirs
        self.ignored = set()
        for f in filters:
            self.ignored |= {p for p in files if p == f or p.startswith(f + "/")}
        self.order = []     # files that are merged, in the order they're reached
        self.deps = {}
        self.included = {}
        todo = [p for p in inputs if p not in self.ignored]
        while todo:
            p = todo.pop()
            if p in self.deps:
                continue
            self.order.append(p)
            self.deps[p] = []
            for line in files[p].split("\n"):
                m = INCLUDE.match(line)
                target = m and self.resolve(p, m[1] or m[2])
                if target and target not in self.ignored:
                    if target not in self.deps[p]:
                        self.deps[p].append(target)
                        self.included[target] = self.included.get(target, 0) + 1
                    todo.append(target)

    def resolve(self, path, name):
        for d in [os.path.dirname(path)] + self.dirs:
            p = d + "/" + name
            if p in self.files:
                return p
        return None

    def reaches(self, a, b):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            for d in self.deps[x]:
                if d == b:
                    return True
                if d not in seen:
                    seen.add(d)
                    todo.append(d)
        return False


def depth_lines(lines):
    """(line, depth of conditionals)"""
    depth = 0
    for line in lines:
        if re.match(r"\s*#\s*endif", line):
            depth -= 1
        yield line, depth
        if re.match(r"\s*#\s*if", line):
            depth += 1


def check_output(model, text, prepend, pragma):
    head = "".join(prepend)
    if not text.startswith(head):
        raise Failure("the output doesn't start with the prepended text")
    lines = text[len(head):].split("\n")
    # The code
    where = {}
    for k, line in enumerate(lines):
        if line.strip() and not INCLUDE.match(line) and not PRAGMA.match(line):
            where.setdefault(line, []).append(k)
    expected = {}
    blocks = {}
    for path in model.order:
        code = [x for x in model.files[path].split("\n")
                if x.strip() and not INCLUDE.match(x) and not PRAGMA.match(x)]
        blocks[path] = code
        for x in code:
            expected[x] = expected.get(x, 0) + 1
    for x, n in expected.items():
        if len(where.get(x, [])) != n:
            raise Failure("%d instead of %d times in the output: %r" % (len(where.get(x, [])), n, x))
    for x in where:
        if x not in expected:
            raise Failure("not in any of the files: %r" % x)
    # Each file in one piece
    spans = {}
    code_lines = sorted(k for v in where.values() for k in v)
    rank = {k: i for i, k in enumerate(code_lines)}
    for path, code in blocks.items():
        if not code:
            continue
        unique = [i for i, x in enumerate(code) if expected[x] == 1]
        if not unique:
            continue
        start = rank[where[code[unique[0]]][0]] - unique[0]
        if start < 0 or start + len(code) > len(code_lines):
            raise Failure("the lines of %s aren't in one piece" % path)
        for i, x in enumerate(code):
            k = code_lines[start + i]
            if lines[k] != x:
                raise Failure("%s: expected %r, found %r" % (path, x, lines[k]))
        spans[path] = (code_lines[start], code_lines[start + len(code) - 1])
    for path in spans:
        for d in model.deps[path]:
            if d in spans and d != path and not model.reaches(d, path) and spans[d][1] > spans[path][0]:
                raise Failure("%s comes before %s, which it includes" % (path, d))
    # What is still included
    kept = {}
    for k, (line, depth) in enumerate(depth_lines(lines)):
        m = INCLUDE.match(line)
        if m:
            kept.setdefault(m[1] or m[2], []).append((k, depth))
    wanted = set()
    for path in model.order:
        source = model.files[path].split("\n")
        n = 0
        for line, depth in depth_lines(source):
            m = INCLUDE.match(line)
            if not m:
                if line.strip() and not PRAGMA.match(line):
                    n += 1
                continue
            name = m[1] or m[2]
            if model.resolve(path, name):
                continue
            wanted.add(name)
            found = kept.get(name, [])
            if not found:
                raise Failure("#include of %s is missing" % name)
            if path not in spans:
                continue
            # Code that comes after it, and the nearest line before it
            unconditional = [k for k, d in found if d == 0]
            code = blocks[path]
            first, last = spans[path]
            at = [k for k in code_lines if first <= k <= last]
            if depth == 0:
                if n < len(code) and not any(k < at[n] for k in unconditional):
                    raise Failure("%s: #include of %s doesn't come before %r" % (path, name, code[n]))
            elif not any(k < at[n] for k in unconditional):
                lo = at[n - 1] if n > 0 else -1
                if not any(lo < k < at[n] for k, _ in found):
                    raise Failure("%s: the conditional #include of %s before %r is missing"
                                  % (path, name, code[n]))
    for name, found in kept.items():
        if name not in wanted:
            raise Failure("#include of %s is not in any file, or of a file that's merged" % name)
        if sum(1 for _, d in found if d == 0) > 1:
            raise Failure("#include of %s is repeated" % name)
    # #pragma once
    n = sum(1 for x in lines if PRAGMA.match(x))
    has = any(PRAGMA.match(x) for p in model.order for x in model.files[p].split("\n"))
    if n != (1 if pragma and has else 0):
        raise Failure("#pragma once occurs %d times" % n)


def preprocess(root, path, dirs):
    args = ["g++", "-E", "-P", "-x", "c++", "-w", path]
    for d in dirs:
        args += ["-I", d]
    r = subprocess.run(args, cwd=root, capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr
    return sorted(x.strip() for x in r.stdout.split("\n") if x.strip()), ""


def expand(inputs, files):
    """The files that the command line's names mean."""
    result = []
    for p in inputs:
        if p == "src/*.cpp":
            names = sorted(x for x in files if re.fullmatch(r"src/[^/]*\.cpp", x))
        else:
            names = [os.path.normpath(p)]
        for x in names:
            if x not in result:
                result.append(x)
    return result


def run_case(case, tool, tmp, stats, compile_it):
    stats["evaluations"] += 1
    root = tempfile.mkdtemp(dir=tmp)
    try:
        write_tree(case, root)
        model = Model(case["files"], expand(case["inputs"], case["files"]), case["dirs"], case["filters"])
        args = arguments(case, root)
        out = case["out"] and os.path.join(root, case["out"])
        if out and case["existing"] == "same":
            run_tool(tool, root, args)
        elif out and case["existing"] is not None:
            os.makedirs(os.path.dirname(out), exist_ok=True)
            with open(out, "w") as f:
                f.write(case["existing"])
        printed = run_tool(tool, root, args)
        if out:
            with open(out, "rb") as f:
                text = f.read().decode()
        else:
            text = printed
        for path, content in case["files"].items():
            with open(os.path.join(root, path), "rb") as f:
                data = f.read()
            if data[3 if path in case["bom"] else 0:].decode() != content:
                raise Failure("the tool has changed " + path)
        check_output(model, text, case["prepend"], case["pragma"])
        # The merged file is a file like any other
        os.makedirs(os.path.join(root, "again"))
        body = text[len("".join(case["prepend"])):]
        with open(os.path.join(root, "again", "merged_again.hpp"), "w", encoding="utf-8") as f:
            f.write(body)
        again = run_tool(tool, root, ["again/merged_again.hpp"] + ([] if case["pragma"] else ["--no-pragma-once"]))
        if again != body:
            raise Failure("merging the merged file changes it")
        compiled = False
        if compile_it and not case["filters"] and not case["prepend"] and model.order:
            compiled = True
            ext = os.path.join(root, "externals")
            for name in ["vector", "ext/a.h", "ext/b.h", "e0"]:
                os.makedirs(os.path.dirname(os.path.join(ext, name)), exist_ok=True)
                with open(os.path.join(ext, name), "w") as f:
                    f.write("#pragma once\nint external_%s;\n" % re.sub(r"\W", "_", name))
            os.makedirs(os.path.join(root, "all"))
            inputs = expand(case["inputs"], case["files"])
            with open(os.path.join(root, "all", "umbrella.cpp"), "w") as f:
                # An input can also be included by another one
                f.write("".join('#include "../%s"\n' % p for p in inputs
                                if not any(p != q and model.reaches(q, p) for q in inputs)
                                or any(model.reaches(p, q) for q in inputs if p != q)))
            a, error = preprocess(root, "all/umbrella.cpp", case["dirs"] + ["externals"])
            if a is not None:
                with open(os.path.join(root, "all", "merged.cpp"), "w", encoding="utf-8") as f:
                    f.write(text)
                b, error = preprocess(root, "all/merged.cpp", ["externals"])
                if a != b:
                    raise Failure("the merged file isn't equivalent for the compiler: %s\noriginal %r\nmerged %r"
                                  % (error, a, b))

        nontrivial = len(model.order) >= 3 and any(n > 1 for n in model.included.values())
        key = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
        if nontrivial:
            stats["nontrivial"].add(key)
            if len(stats["samples"]) < 3:
                stats["samples"].append(json.dumps({k: v for k, v in case.items()})[:1500])
        for name, on in [("filters", case["filters"]), ("output file", out), ("conditional blocks",
                         any("#if" in x for x in case["files"].values())),
                         ("byte order marks", case["bom"]), ("compiled", compiled),
                         ("three or more files", len(model.order) > 2),
                         ("an input is included by another", any(p in model.included for p in
                                                                 expand(case["inputs"], case["files"]))),
                         ("cycle", any(model.reaches(p, p) for p in model.order))]:
            if on:
                stats["labels"][name] = stats["labels"].get(name, 0) + 1
    finally:
        shutil.rmtree(root, ignore_errors=True)


def worker(tool, tmp, n, number, out):
    stats = dict(evaluations=0, nontrivial=set(), samples=[], labels={})
    failing = []
    rnd = random.Random(number)

    # deadline=None: the machine may be busy
    @seed(number)
    @settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck),
              phases=[Phase.generate, Phase.shrink], print_blob=False, report_multiple_bugs=False)
    @given(projects())
    def prop(case):
        try:
            run_case(case, tool, tmp, stats, 
                     "for the compiler" in failing[0][1] if failing else rnd.random() < 0.15)
        except Failure as e:
            failing[:] = [(case, str(e))]
            raise

    try:
        prop()
        failing = []
    except Failure:
        pass
    except BaseException:
        if not failing:
            out.put(("error", traceback.format_exc()))
            return
    stats["nontrivial"] = list(stats["nontrivial"])
    out.put(("done", stats, failing))


def real_tree(tool, repo, tmp):
    """The library itself: returns the number of files merged."""
    files = {}
    for d in ["include", "src"]:
        for top, _, names in os.walk(os.path.join(repo, d)):
            for name in names:
                if name.endswith((".hpp", ".cpp")):
                    p = os.path.join(top, name)
                    with open(p, encoding="utf-8-sig") as f:
                        files[os.path.relpath(p, repo)] = f.read()
    n = 0
    for inputs, filters, pragma in [
            (["include/Argos/Argos.hpp"], [], True),
            (sorted(p for p in files if re.fullmatch(r"src/Argos/[^/]*\.cpp", p)), ["include"], False)]:
        out = os.path.join(tmp, "real.txt")
        args = inputs + ["-i", "include", "-o", out]
        for f in filters:
            args += ["-f", f]
        if not pragma:
            args.append("--no-pragma-once")
        run_tool(tool, repo, args)
        with open(out, encoding="utf-8") as f:
            text = f.read()
        os.remove(out)
        model = Model(files, inputs, ["include"], filters)
        n += len(model.order)
        # Lines such as "}" occur many times
        expected = {}
        for path in model.order:
            for x in files[path].split("\n"):
                if x.strip() and not INCLUDE.match(x) and not PRAGMA.match(x):
                    expected[x] = expected.get(x, 0) + 1
        actual = {}
        for x in text.split("\n"):
            if x.strip() and not INCLUDE.match(x) and not PRAGMA.match(x):
                actual[x] = actual.get(x, 0) + 1
        if actual != expected:
            diff = [(x, actual.get(x, 0), expected.get(x, 0)) for x in {**actual, **expected}
                    if actual.get(x, 0) != expected.get(x, 0)]
            raise Failure("the library's own sources are merged wrongly: %r" % diff[:5])
    return n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--repo", required=True)
    ap.add_argument("--tmp", required=True)
    ap.add_argument("--replay-dir", required=True)
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--wall-offset", type=float, default=0)
    ap.add_argument("--out")
    a = ap.parse_args()
    tool = os.path.join(os.path.realpath(a.repo), "tools/make_single_src/mergecpp.py")
    start = time.time()
    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)
        stats = dict(evaluations=0, nontrivial=set(), samples=[], labels={})
        try:
            if case.get("real"):
                real_tree(tool, a.repo, a.tmp)
            else:
                run_case(case, tool, a.tmp, stats, True)
        except Failure as e:
            print(e)
            print("VIOLATION property=C22 replay=%s" % a.replay)
            return 1
        print("the case passes")
        return 0

    def violation(case, text):
        os.makedirs(a.replay_dir, exist_ok=True)
        path = os.path.join(a.replay_dir, "C22-%s.replay" % hashlib.sha256(
            json.dumps(case).encode()).hexdigest()[:8])
        with open(path, "w") as f:
            json.dump(case, f, indent=1)
        for name, content in case.get("files", {}).items():
            print("--- %s%s\n%s" % (name, " (byte order mark)" if name in case["bom"] else "", content))
        print({k: v for k, v in case.items() if k != "files"})
        print(text)
        print("VIOLATION property=C22 replay=%s" % path, flush=True)
        return 1

    real = 0
    result = 0
    try:
        real = real_tree(tool, a.repo, a.tmp)
    except Failure as e:
        result = violation({"real": True}, str(e))
    cases = a.cases or (24000 if a.tier == "quick" else 500000)
    queue = multiprocessing.Queue()
    procs = []
    if result == 0:
        for w in range(a.workers):
            tmp = os.path.join(a.tmp, "w%d" % w)
            os.makedirs(tmp)
            p = multiprocessing.Process(target=worker, args=(tool, tmp, cases // a.workers + 1,
                                                             a.seed * 1000 + w, queue))
            p.start()
            procs.append(p)
    total = dict(evaluations=0, nontrivial=set(), samples=[], labels={})
    failures = []
    for _ in procs:
        r = queue.get()
        if r[0] == "error":
            print(r[1], file=sys.stderr)
            return 3
        total["evaluations"] += r[1]["evaluations"]
        total["nontrivial"] |= set(r[1]["nontrivial"])
        total["samples"] = (total["samples"] + r[1]["samples"])[:5]
        for k, v in r[1]["labels"].items():
            total["labels"][k] = total["labels"].get(k, 0) + v
        failures += r[2]
    for p in procs:
        p.join()
    if failures:
        case, text = min(failures, key=lambda x: len(json.dumps(x[0])))
        result = violation(case, text)
    wall = time.time() - start + a.wall_offset
    if a.out:
        with open(a.out, "w") as f:
            json.dump({
                "property": "C22", "tier": a.tier, "seed": a.seed, "level": "exploration",
                "coverage": {"evaluations": total["evaluations"] + 2,
                             "distinct_nontrivial": len(total["nontrivial"]),
                             "rule": RULE, "labels": total["labels"],
                             "files_of_the_library_merged": real,
                             "samples": total["samples"]},
                "wall_s": wall}, f, indent=1)
            f.write("\n")
    print("C22 %s: %d evaluations, %d distinct non-trivial cases, %g s"
          % (a.tier, total["evaluations"], len(total["nontrivial"]), round(wall, 2)))
    return result


if __name__ == "__main__":
    sys.exit(main())
