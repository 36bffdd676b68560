#!/usr/bin/env python3
"""Builds and runs the check of one property (see DESIGN.md).

  check.py setup               build everything
  check.py C01                 run a check (VERIF_SEED, VERIF_TIER)
  check.py C01 --replay FILE   repeat a failing case
"""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ARGOS_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"
FLAGS = ["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer",
         "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
         "-D_GLIBCXX_ASSERTIONS", "-Wno-deprecated-declarations"]
TSAN_FLAGS = ["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread",
              "-Wno-deprecated-declarations"]
SUPPORT = ["engine", "spec", "build", "model", "gen", "check", "layout", "help"]
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:max_allocation_size_mb=512:abort_on_error=0",
           UBSAN_OPTIONS="print_stacktrace=0", LC_ALL="C",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66")


def flags_of(prop):
    if prop == "C24":
        return list(TSAN_FLAGS)
    return list(FLAGS)


def die(text):
    print(text, file=sys.stderr)
    sys.exit(3)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def tree(root, exts):
    """Relative paths of the files below root."""
    result = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                result.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(result)


def version_header():
    """What CMake's configure_file makes of ArgosVersion.hpp.in."""
    text = read(os.path.join(REPO, "src/Argos/ArgosVersion.hpp.in")).decode()
    cmake = read(os.path.join(REPO, "CMakeLists.txt")).decode()
    m = re.search(r"project\s*\(\s*Argos[^)]*?VERSION\s+(\d+)\.(\d+)\.(\d+)", cmake, re.S)
    v = m.groups() if m else ("0", "0", "0")
    for name, value in (("VERSION", ".".join(v)), ("VERSION_MAJOR", v[0]),
                        ("VERSION_MINOR", v[1]), ("VERSION_PATCH", v[2])):
        text = text.replace("@Argos_%s@" % name, value)
        text = text.replace("${Argos_%s}" % name, value)
    return text.encode()


class Builder:
    """Content-addressed objects: an object is reused only if its source, all
    headers, the compiler flags and the compiler are the same."""

    def __init__(self):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        self.gen = os.path.join(BUILD, "gen")
        os.makedirs(self.gen, exist_ok=True)
        header = version_header()
        path = os.path.join(self.gen, "ArgosVersion.hpp")
        if not os.path.exists(path) or read(path) != header:
            tmp = "%s.%d" % (path, os.getpid())
            with open(tmp, "wb") as f:
                f.write(header)
            os.replace(tmp, path)
        self.version = header
        self.src_root = os.path.join(REPO, "src")
        self.inc_root = os.path.join(REPO, "include")
        self.ss_root = os.path.join(REPO, "single_src")
        self.lib_sources = [p for p in tree(os.path.join(self.src_root, "Argos"), (".cpp",))]
        self.pub_headers = self._digest(self.inc_root)
        self.all_headers = sha(self.pub_headers, self._digest(self.src_root), header)
        self.own_headers = self._digest(HARNESS)
        self.compiler = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
        self.jobs = []

    @staticmethod
    def _digest(root):
        return sha(*[x for p in tree(root, (".hpp", ".h", ".inc", ".in"))
                     for x in (p, read(os.path.join(root, p)))])

    def obj(self, source, headers, flags):
        key = sha(source, read(source), headers, " ".join(flags), self.compiler)
        path = os.path.join(BUILD, "obj", key + ".o")
        self.jobs.append((source, path, flags))
        return path

    def compile_all(self):
        todo = {p: (s, f) for s, p, f in self.jobs if not os.path.exists(p)}
        self.jobs = []

        def one(item):
            path, (source, flags) = item
            tmp = "%s.%d.tmp" % (path, os.getpid())
            r = subprocess.run([CXX, *flags, "-c", source, "-o", tmp],
                               capture_output=True, text=True)
            if r.returncode != 0:
                return source, r.stderr
            os.replace(tmp, path)
            return source, None

        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for source, err in ex.map(one, todo.items()):
                if err is not None:
                    die("compiling %s failed:\n%s" % (source, err[:4000]))

    def lib_objects(self, flags):
        inc = ["-I" + self.inc_root, "-I" + self.gen, "-I" + os.path.join(self.src_root, "Argos")]
        return [self.obj(os.path.join(self.src_root, "Argos", s), self.all_headers, flags + inc)
                for s in self.lib_sources]

    def own_object(self, name, flags, extra=()):
        inc = ["-I" + self.inc_root, "-I" + self.gen, "-I" + HARNESS, "-Wall", "-Wextra"]
        return self.obj(os.path.join(HARNESS, name + ".cpp"),
                        sha(self.own_headers, self.pub_headers, self.version),
                        flags + inc + list(extra))

    def ss_objects(self, flags):
        """The amalgamated edition in a namespace of its own, and the adapter
        compiled against its header."""
        rename = ["-Dargos=argos_ss"]
        ss_digest = self._digest(self.ss_root)
        objs = [self.obj(os.path.join(self.ss_root, p), ss_digest, flags + rename + ["-I" + self.ss_root + "/Argos"])
                for p in tree(self.ss_root, (".cpp",))]
        for name in ("build", "outcome", "api"):
            objs.append(self.obj(os.path.join(HARNESS, name + ".cpp"), sha(self.own_headers, ss_digest),
                                 flags + rename + ["-DBUILD_NS=ssbuild", "-I" + self.ss_root, "-I" + HARNESS]))
        return objs

    def objects(self, prop, fuzz=False):
        flags = flags_of(prop)
        if prop == "C19":
            # Containers and iterators that check how they are used.
            flags.append("-D_GLIBCXX_DEBUG")
        own = []
        if fuzz:
            flags.append("-fsanitize=fuzzer-no-link")
            own.append("-DPBT_FUZZ")
        objs = self.lib_objects(flags)
        objs += [self.own_object(s, flags, own if s == "engine" else ()) for s in SUPPORT]
        objs.append(self.own_object("outcome", flags))
        if prop in ("C19", "C20"):
            objs.append(self.own_object("api", flags))
        if prop == "C20":
            objs += self.ss_objects(flags)
        objs.append(self.own_object("props/" + prop, flags))
        return objs

    def link(self, prop, objs, fuzz=False):
        path = os.path.join(BUILD, "bin", "%s-%s" % (prop + ("-fuzz" if fuzz else ""), sha(*objs)))
        if not os.path.exists(path):
            tmp = "%s.%d.tmp" % (path, os.getpid())
            r = subprocess.run([CXX, *flags_of(prop), *(["-fsanitize=fuzzer"] if fuzz else []), *objs, "-o", tmp],
                               capture_output=True, text=True)
            if r.returncode != 0:
                die("linking %s failed:\n%s" % (prop, r.stderr[:4000]))
            os.replace(tmp, path)
        return path

    def example_objects(self):
        """{program: objects} of the programs in examples/."""
        root = os.path.join(REPO, "examples")
        lib = self.lib_objects(FLAGS)
        flags = FLAGS + ["-I" + self.inc_root, "-I" + self.gen]
        return {os.path.basename(p)[:-4]:
                [self.obj(os.path.join(root, p), sha(self.pub_headers, self.version, self._digest(root)), flags)] + lib
                for p in tree(root, (".cpp",))}

    def link_examples(self, programs):
        """Returns the directory with the programs."""
        path = os.path.join(BUILD, "bin", "C23-" + sha(*[x for p in sorted(programs) for x in [p] + programs[p]]))
        if not os.path.exists(path):
            tmp = "%s.%d.tmp" % (path, os.getpid())
            os.makedirs(tmp)
            for name, objs in programs.items():
                r = subprocess.run([CXX, *FLAGS, *objs, "-o", os.path.join(tmp, name)],
                                   capture_output=True, text=True)
                if r.returncode != 0:
                    die("linking %s failed:\n%s" % (name, r.stderr[:4000]))
            os.rename(tmp, path)
        return path

    def binary(self, prop, fuzz=False):
        objs = self.objects(prop, fuzz)
        self.compile_all()
        return self.link(prop, objs, fuzz)


def properties():
    return sorted(p[:-4] for p in os.listdir(os.path.join(HARNESS, "props"))
                  if re.fullmatch(r"C\d\d\.cpp", p))


# Property whose subject is a Python program: the check's own program
PYTHON = {"C22": "mergecpp", "C23": "examples"}


# property: (executions, greatest input size) of the quick and thorough tiers
FUZZ = {"C19": ((120000, 2000), (4000000, 4000))}


def fuzz_run(builder, prop, tier, seed, tmp):
    """Coverage-guided search over the same property; returns the failing
    input's path or None, and statistics."""
    runs, max_len = FUZZ[prop][0 if tier == "quick" else 1]
    binary = builder.binary(prop, fuzz=True)
    procs = []
    workers = 8
    for w in range(workers):
        corpus = os.path.join(tmp, "corpus%d" % w)
        os.makedirs(corpus)
        log = open(os.path.join(tmp, "fuzz%d.log" % w), "wb")
        procs.append((subprocess.Popen(
            [binary, "-runs=%d" % (runs // workers), "-seed=%d" % (seed * 1000 + w + 1),
             "-max_len=%d" % max_len, "-len_control=20", "-timeout=25", "-rss_limit_mb=3000",
             "-max_total_time=%d" % (300 if tier == "quick" else 10000),
             "-print_final_stats=1", "-artifact_prefix=%s/" % tmp, "-verbosity=1",
             corpus], stdout=log, stderr=log, env=ENV, cwd=tmp), w, corpus))
    execs, edges, units, failing = 0, 0, 0, None
    for proc, w, corpus in procs:
        rc = proc.wait()
        text = read(os.path.join(tmp, "fuzz%d.log" % w)).decode(errors="replace")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", text)
        if m:
            execs += int(m.group(1))
        for m in re.finditer(r"cov: (\d+)", text):
            edges = max(edges, int(m.group(1)))
        units += len(os.listdir(corpus))
        if rc != 0 and failing is None:
            m = re.search(r"Test unit written to (\S+)", text)
            if m:
                failing = m.group(1)
            else:
                die("the fuzzer failed:\n" + text[-3000:])
    stats = {"executions": execs, "edges_covered": edges, "corpus_units": units,
             "max_input_bytes": max_len}
    return failing, stats


def fuzz_again(builder, prop, failing, replays, tmp):
    """The failing input of the fuzzer passed in the other program: repeats it
    where it failed."""
    name = os.path.basename(failing)
    r = subprocess.run([builder.binary(prop, fuzz=True), "-timeout=25", "-rss_limit_mb=3000",
                        "-artifact_prefix=%s/" % tmp, failing],
                       capture_output=True, env=ENV, cwd=tmp)
    kept = os.path.join(replays, "%s-%s" % (prop, name))
    shutil.copyfile(failing, kept)
    if r.returncode == 0:
        # Time and memory limits, or a machine that was short of either.
        print("note: the input %s of the fuzzer did not fail when repeated" % kept)
        return 0
    sys.stdout.write(r.stderr.decode(errors="backslashreplace")[-3000:] + "\n")
    print("VIOLATION property=%s replay=%s" % (prop, kept), flush=True)
    return 1


def run_engine(args):
    """Runs a check's program; what it prints is made valid UTF-8."""
    proc = subprocess.Popen(args, env=ENV, stdout=subprocess.PIPE)
    for line in proc.stdout:
        sys.stdout.write(line.decode(errors="backslashreplace"))
        sys.stdout.flush()
    return proc.wait()


def main():
    if len(sys.argv) < 2:
        die(__doc__)
    start = time.time()
    prop = sys.argv[1]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    builder = Builder()
    if prop == "setup":
        links = []
        for p in properties():
            links.append((p, builder.objects(p), False))
            if p in FUZZ:
                links.append((p, builder.objects(p, True), True))
        programs = builder.example_objects()
        builder.compile_all()
        builder.link_examples(programs)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda x: builder.link(*x), links))
        return 0
    if prop not in properties() and prop not in PYTHON:
        die("unknown property " + prop)
    binary = subject = None
    if prop not in PYTHON:
        binary = builder.binary(prop)
    elif prop == "C22":
        subject = ["--repo", REPO]
    else:
        programs = builder.example_objects()
        builder.compile_all()
        subject = ["--programs", builder.link_examples(programs)]
    fcntl.flock(lock, fcntl.LOCK_UN)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("bad VERIF_TIER")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="argos-%s-" % prop)
    try:
        if prop in PYTHON:
            args = ["python3-vt", os.path.join(HARNESS, PYTHON[prop] + ".py"), *subject,
                    "--tmp", tmp, "--replay-dir", replays]
            if len(sys.argv) == 4 and sys.argv[2] == "--replay":
                return run_engine(args + ["--replay", sys.argv[3]])
            if "VERIF_CASES" in os.environ:
                args += ["--cases", os.environ["VERIF_CASES"]]
            return run_engine(args + ["--tier", tier, "--seed", str(seed),
                                      "--wall-offset", str(time.time() - start),
                                      "--out", os.path.join(VERIF, "evidence", prop + ".json")])
        common = [binary, "--tmp", tmp, "--replay-dir", replays]
        if len(sys.argv) == 4 and sys.argv[2] == "--replay":
            return run_engine(common + ["--replay", sys.argv[3]])
        if len(sys.argv) == 4 and sys.argv[2] == "--bytes":
            return run_engine(common + ["--bytes", sys.argv[3]])
        cases = ["--cases", os.environ["VERIF_CASES"]] if "VERIF_CASES" in os.environ else []
        extra = ""
        failing = None
        if prop in FUZZ and not cases:
            failing, stats = fuzz_run(builder, prop, tier, seed, tmp)
            extra = ', "libfuzzer": ' + json.dumps(stats)
        rc = run_engine(
            common + cases + ["--tier", tier, "--seed", str(seed), "--extra", extra,
                              "--known", os.path.join(VERIF, "known_findings.jsonl"),
                              "--wall-offset", str(time.time() - start),
                              "--out", os.path.join(VERIF, "evidence", prop + ".json")])
        if rc == 0 and failing:
            rc = run_engine(common + ["--bytes", failing])
            if rc == 0:
                rc = fuzz_again(builder, prop, failing, replays, tmp)
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
