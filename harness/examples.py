"""C23: the example programs do what their documentation says.

Random command lines for the programs in examples/, which are run as separate
processes; what they write, where, and their exit codes are compared with an
independent description of the programs. Run by check.py.
"""
import argparse
import hashlib
import json
import math
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis import strategies as st

RULE = ("Random command lines for the eight example programs: options in every spelling (clusters, attached "
        "values, '=', separate), values that look like options, wrong numbers, unknown options, missing and "
        "superfluous arguments, help and version options, different argv[0]. Non-trivial: at least three tokens "
        "and the program runs to its end.")


class Failure(Exception):
    pass


class Error(Exception):
    """The program ends with an error; text is what the message must be, or
    None if only its existence is documented."""

    def __init__(self, text=None, command=""):
        Exception.__init__(self, text)
        self.text = text
        self.command = command


class Known(Exception):
    """A listed finding."""


class Done(Exception):
    """The program ends after a help or version option."""

    def __init__(self, kind, command=""):
        Exception.__init__(self, kind)
        self.kind = kind
        self.command = command


# name: (flags, has argument)
PROGRAMS = {
    "hello": dict(options={"number": (["-n", "--number"], True)}, args=(0, 1)),
    "rot13": dict(options={"verbose": (["-v", "--verbose"], False), "number": (["-n", "--number"], True),
                           "last": (["--"], False)}, args=(1, 1000), name="example2"),
    "area": dict(options={}, args=(3, 4), name="example2"),
    "append_clear_option": dict(options={"append": (["-i", "--include="], True),
                                         "clear": (["--include"], False)}, args=(0, 0)),
    "list_options": dict(options={"single": (["-s", "--add-single"], True),
                                  "multi": (["-m", "--add-multi"], True)}, args=(0, 0)),
    "table": dict(options={"output": (["-o", "--output"], True), "row": (["-r", "--row"], False),
                           "column": (["-c", "--column"], False), "borders": (["--borders"], False)},
                  args=(1, 1000)),
    "whereis": dict(options={"paths": (["-p", "--paths"], True), "extensions": (["-e", "--extensions"], True),
                             "last": (["--"], False), "quiet": (["-q", "--quiet"], False),
                             "verbose": (["-v", "--verbose"], False), "version": (["--version"], False)},
                    args=(1, 1000), name="whereis"),
    "commands": dict(options={"version": (["--version"], False)}, args=(0, 0), commands={
        "greet": dict(options={"number": (["-n", "--number"], True)}, args=(0, 1)),
        "congratulate": dict(options={"occasion": (["-o", "--occasion"], True),
                                      "number": (["-n", "--number"], True)}, args=(0, 1))}),
}


def parse(program, tokens, command=""):
    """A parser for the programs' option style. Returns a list of (key, value)
    in the order of the command line; the key of positional values is None."""
    events = []
    options = dict(program["options"])
    options["help"] = (["-h", "--help"], False)
    by_flag = {f: k for k, (flags, _) in options.items() for f in flags}
    most = program["args"][1]
    count = 0
    only_values = False
    rest = list(tokens)

    def use(key, value):
        nonlocal only_values
        if key in ("help", "version"):
            raise Done(key, command)
        if key == "last":
            only_values = True
        events.append((key, value))

    while rest:
        token = rest.pop(0)
        if only_values or token == "-" or not token.startswith("-"):
            if program.get("commands"):
                if token not in program["commands"]:
                    raise Error("Unknown command: " + token, command)
                return [("command", token)] + parse(program["commands"][token], rest, " " + token)
            count += 1
            if count > most:
                raise Error('Too many arguments, starting from "%s".' % token, command)
            events.append((None, token))
        elif token.startswith("--"):
            name, sign, value = token.partition("=")
            if token in by_flag and not token.endswith("="):
                key = by_flag[token]
                if not options[key][1]:
                    use(key, None)
                elif rest:
                    use(key, rest.pop(0))
                else:
                    raise Error(token + ": no value given.", command)
            elif sign and name + "=" in by_flag:
                use(by_flag[name + "="], value)
            elif sign and name in by_flag:
                key = by_flag[name]
                if not options[key][1]:
                    raise Error(None, command)
                use(key, value)
            else:
                raise Error("Unknown option: " + token if not sign else None, command)
        else:
            for i, c in enumerate(token[1:], 1):
                key = by_flag.get("-" + c)
                if key is None:
                    raise Error("Unknown option: " + token if i == 1 and len(token) == 2 else None, command)
                if not options[key][1]:
                    use(key, None)
                    continue
                if token[i + 1:]:
                    use(key, token[i + 1:])
                elif rest:
                    use(key, rest.pop(0))
                else:
                    raise Error("-%s: no value given." % c, command)
                break
    if program.get("commands"):
        raise Error("No command was given.", command)
    if count < program["args"][0]:
        raise Error("Too few arguments. Expected at least %d, received %d." % (program["args"][0], count)
                    if program["args"][1] > 4 else None, command)
    return events


def integer(text, flags):
    if not re.fullmatch(r"\s*[+-]?\d+", text) or not -2 ** 31 <= int(text) < 2 ** 31:
        raise Error("%s: Invalid value: %s." % (flags, text))
    return int(text)


def last(events, key, default):
    return ([default] + [v for k, v in events if k == key])[-1]


def values(events, key=None):
    return [v for k, v in events if k == key]


# What the programs write to standard output, as (text, file name or None)

def hello(events, env):
    n = last(events, "number", None)
    n = 1 if n is None else integer(n, "-n, --number")
    return ("Hello %s!\n" % last(events, None, "world")) * max(n, 0), None


def rot13(events, env):
    n = last(events, "number", None)
    n = 13 if n is None else integer(n, "-n, --number")

    def rotate(c):
        for a in "Aa":
            if a <= c <= chr(ord(a) + 25):
                return chr(ord(a) + (ord(c) - ord(a) + n) % 26)
        return c

    text = " ".join("".join(map(rotate, word)) for word in values(events)) + "\n"
    return ("n = %d\n" % n if "verbose" in dict(events) else "") + text, None


def area(events, env):
    p = []
    for text in values(events):
        parts = text.split(",", 1)
        if len(parts) != 2:
            raise Error()
        for x in parts:
            if not re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?", x):
                raise Error("X,Y: Invalid value: %s." % x)
        p.append([float(x) for x in parts])
    if len(p) == 3:
        a, b, c, d = p[0], p[1], p[0], p[2]
    else:
        a, b, c, d = p[0], p[2], p[1], p[3]
    dx1, dy1, dx2, dy2 = b[0] - a[0], b[1] - a[1], d[0] - c[0], d[1] - c[1]
    return "%g\n" % (abs(dx1 * dy2 - dx2 * dy1) / 2), None


def append_clear_option(events, env):
    items = []
    for k, v in events:
        items = [] if k == "clear" else items + [v]
    return "".join(v + "\n" for v in items), None


def list_options(events, env):
    single = values(events, "single")
    multi = [x for v in values(events, "multi") for x in v.split(":")]
    text = ""
    for name, items in (("single", single), ("multi", multi)):
        for how in ("one value at a time", "all at once"):
            text += "%s (%s):\n" % (name, how) + "".join("  %s\n" % x for x in items)
    return text, None


def table(events, env):
    row = col = 0
    cells = {}
    for k, v in events:
        if k is None:
            cells[row, col] = v.encode()
            col += 1
        elif k == "row":
            row, col = row + 1, 0
        elif k == "column":
            col += 1
    columns = max(c for _, c in cells) + 1
    widths = [max([len(t) for (_, c), t in cells.items() if c == j] + [0]) for j in range(columns)]
    borders = any(k == "borders" for k, _ in events)
    lines = []
    for i in range(max(r for r, _ in cells) + 1):
        if borders and i:
            lines.append(b"+".join(b"-" * w for w in widths))
        lines.append((b"|" if borders else b" ").join(cells.get((i, j), b"").ljust(w)
                                                       for j, w in enumerate(widths)))
    text = b"".join(x + b"\n" for x in lines).decode()
    name = last(events, "output", None)
    return text, name if name and name != "dir" else None


def whereis(events, env):
    dirs = last(events, "paths", env["path"] or None)
    # An empty initial value is none at all
    dirs = [] if dirs is None else dirs.split(":")
    extensions = [x for v in values(events, "extensions") for x in v.split(":")] or [""]
    switches = [k for k, _ in events if k in ("quiet", "verbose")]
    verbose = bool(switches) and switches[-1] == "verbose"
    text = ""
    for d in dirs:
        for name in values(events):
            found = [p for p in (os.path.join(d, name + x) for x in extensions) if env["exists"](p)]
            text += "".join(p + "\n" for p in found)
            if not found and verbose:
                text += "not found: %s\n" % d
    return text, None


def commands(events, env):
    name = events[0][1]
    text = "Hello" if name == "greet" else "Congratulations"
    occasion = last(events, "occasion", None)
    if occasion is not None:
        text += " on your " + occasion
    n = last(events, "number", None)
    try:
        n = 1 if n is None else integer(n, "-n, --number")
    except Error as e:
        raise Error(e.text, " " + name)
    return ("%s, %s!\n" % (text, last(events, None, "world"))) * max(n, 0), None


NUMBERS = ["0", "1", "2", "3", "7", "-1", "-3", "+2", "13", "x", "", "3x", "99999999999", "-27", "1.5", "0x3", "2147483647", "-2147483648",
           "2147483648", "-2147483649", "26", "0013", " 5", "5 "]
SMALL = ["0", "1", "2", "3", "7", "-1", "+2", "x", "", "3x", "99999999999", "1.5"]
WORDS = ["a", "planet", "Hello", "x y", "The", "painting.", "-", "", "Zz", "\u00e9t\u00e9", "a=b", "=", "greet",
         "congratulate"]
COORDINATES = ["1,1", "5.5,2", "2,6", "6,4.75", "0,0", "-1,2", "3,-2.5", "1e2,3", "1", "1,2,3", "a,1", ",", "2,",
               "+1,.5", "10,10", "100000,3", "0.001,7"]
LISTS = ["a", "b:c", ":", "", "foo:bar:baz", "x=y", "-i", "--include", "a:", "1,2"]
FILES = ["f", "g", "f.txt", "d", "g.x", "missing", "", "-dash"]
PATHS = ["d1", "d1:d2", "d2:d1", "d1/", "none:d1", "", ":d2", "d3"]
EXTENSIONS = ["", ".txt", ".x", ".txt:.x", ":.txt", "no"]
POOLS = {"hello": (WORDS, {"number": SMALL}), "rot13": (WORDS, {"number": NUMBERS}), "area": (COORDINATES, {}),
         "append_clear_option": (WORDS, {"append": LISTS}),
         "list_options": (WORDS, {"single": LISTS, "multi": LISTS}),
         "table": (WORDS, {"output": ["out.txt", "table", "dir", ""]}),
         "whereis": (FILES, {"paths": PATHS, "extensions": EXTENSIONS}),
         "commands": (WORDS, {"number": SMALL, "occasion": ["birthday", "", "new job", "-n"]})}


@st.composite
def cases(draw):
    chance = lambda p: draw(st.integers(0, 99)) >= 100 - p
    pick = lambda x: draw(st.sampled_from(x))
    program = pick(sorted(PROGRAMS))
    words, pools = POOLS[program]

    def word():
        if chance(60):
            return pick(words)
        if program == "area":
            numbers = [draw(st.floats(-1e6, 1e6, allow_subnormal=False)) if chance(50) else draw(st.integers(-99, 999)) for _ in "xy"]
            # It isn't specified whether subnormal numbers are valid
            numbers = [x if abs(x) > 1e-300 else 0 for x in numbers]
            return ",".join(("%%.%dg" % draw(st.integers(1, 17))) % x for x in numbers)
        return draw(st.text(alphabet="abXZ -=\u00e9\u65e5:,\t", max_size=7))

    def tokens_for(spec, wanted):
        tokens = []
        options = spec["options"]
        for _ in range(wanted):
            tokens.append([word()])
        for _ in range(draw(st.integers(0, 5 if options else 0))):
            key = pick(sorted(options))
            if key in ("version", "last") and not chance(12):
                continue
            flags, has_arg = options[key]
            flag = pick(flags)
            if not has_arg:
                t = [flag]
            else:
                value = pick(pools[key]) if chance(80) or program in ("table", "whereis") else word()
                if flag.endswith("="):
                    t = [flag + value]
                elif flag.startswith("--") and chance(50):
                    t = [flag + "=" + value]
                elif not flag.startswith("--") and value and chance(50):
                    t = [flag + value]
                else:
                    t = [flag, value]
            # Clusters
            if tokens and re.fullmatch("-[rcvq]+", tokens[-1][0]) and not flag.startswith("--") and chance(60):
                tokens[-1] = [tokens[-1][0] + t[0][1:]] + t[1:]
            else:
                at = draw(st.integers(0, len(tokens)))
                tokens.insert(at, t)
        if chance(15):
            tokens.insert(draw(st.integers(0, len(tokens))),
                          [pick(["--option", "-x", "-xh", "--", "-h", "--help", "-hx", "--help=x", "--version",
                                 "-vx", "--number", "-n", "--quiet=1", "--unknown=2", "--row=1", "-1"])])
        result = [x for t in tokens for x in t]
        if result and chance(4):
            result.pop()
        return result

    spec = PROGRAMS[program]
    if "commands" in spec:
        tokens = tokens_for(spec, 0)
        if not chance(5):
            name = pick(sorted(spec["commands"]))
            tokens += [name if not chance(3) else "gree"] + tokens_for(
                spec["commands"][name], pick([0, 1, 1, 1, 2]))
    else:
        low, high = spec["args"]
        n = draw(st.integers(low, min(high, 6))) if not chance(10) else draw(st.integers(0, 6))
        tokens = tokens_for(spec, n)
        # Only this way is anything written (see known_findings.jsonl)
        if program == "table" and not any(t.startswith(("-o", "--output")) for t in tokens) and chance(85):
            at = draw(st.integers(0, len(tokens)))
            tokens[at:at] = pick([["-o", "out.txt"], ["--output=out.txt"], ["-otable"], ["--output", "dir"]])
    argv0 = pick([program, program, "./" + program, "/a b/renamed", "d.x/prog.exe"])
    return dict(program=program, argv0=argv0, tokens=tokens, path=pick(["d1:d2", "d2", "", "d1"]))


# Of known_findings.jsonl
LISTED = set()


def known_finding(program, events, stdout, code):
    """The id of the finding that the difference is due to, if any."""
    if (program == "table" and not values(events, "output") and code == 0 and not stdout
            and "C23-table-without-output" in LISTED):
        return "C23-table-without-output"
    if program == "rot13" and "C23-rot13-number" in LISTED:
        n = int(last(events, "number", "13"))
        if n > 2 ** 31 - 26 and code != 0:
            return "C23-rot13-number"

        def rotate(c):
            a = 65 if 65 <= c <= 90 else 97 if 97 <= c <= 122 else None
            return c if a is None else (a + int(math.fmod(c - a + n, 26))) % 256

        lines = ["n = %d\n" % n if "verbose" in dict(events) else "", " ".join(values(events)) + "\n"]
        if n < 0 and code == 0 and stdout == lines[0].encode() + bytes(map(rotate, lines[1].encode())):
            return "C23-rot13-number"
    return None


FINDINGS = [
    ("C23-table-without-output", dict(program="table", argv0="table", tokens=["foo"], path="d1")),
    ("C23-rot13-number", dict(program="rot13", argv0="rot13", tokens=["-n", "-1", "a"], path="d1")),
]

TREE = ["d1/f", "d1/g.x", "d1/f.txt", "d2/f", "d2/g", "d2/-dash", "f", "d3"]


def run_case(case, programs, tmp, stats):
    stats["evaluations"] += 1
    root = tempfile.mkdtemp(dir=tmp)
    try:
        os.makedirs(os.path.join(root, "dir"))
        for p in TREE:
            os.makedirs(os.path.dirname(os.path.join(root, p)), exist_ok=True)
            open(os.path.join(root, p), "w").close()
        program = case["program"]
        env = dict(path=case["path"], exists=lambda p: p != "" and os.path.exists(os.path.join(root, p)))
        name = PROGRAMS[program].get("name") or os.path.basename(case["argv0"])
        error = done = None
        text, out = "", None
        try:
            events = parse(PROGRAMS[program], case["tokens"])
            text, out = globals()[program](events, env)
        except Error as e:
            error = e
        except Done as e:
            done = e
        r = subprocess.run([case["argv0"]] + case["tokens"], cwd=root,
                           executable=os.path.join(programs, program), stdin=subprocess.DEVNULL,
                           capture_output=True, timeout=120,
                           env={"PATH": case["path"], "LC_ALL": "C",
                                "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0"})
        stdout = r.stdout.decode(errors="backslashreplace")
        stderr = r.stderr.decode(errors="backslashreplace")

        def fail(why):
            raise Failure("%s\nexit code %d\nstdout:\n%s\nstderr:\n%s" % (why, r.returncode, stdout, stderr))

        if error:
            start = name + error.command + ": "
            if r.returncode != 64:
                fail("expected exit code 64 and an error message" + (": " + error.text if error.text else ""))
            if stdout:
                fail("the error isn't the only thing that's written")
            # Long lines are broken
            words = stderr.split("\nUSAGE\n")
            if len(words) != 2 or not stderr.startswith(start):
                fail("expected an error message, %s..., and the usage" % start)
            if error.text and words[0].split() != (start + error.text).split():
                fail("expected the error message " + start + error.text)
        elif done:
            if r.returncode != 0 or stderr:
                fail("expected an ordinary end")
            if done.kind == "version":
                if stdout != name + " 1.0.0\n":
                    fail("expected the version, 1.0.0")
            elif not stdout.startswith("USAGE\n  %s%s --" % (name, done.command)):
                fail("expected the help text")
        else:
            if r.returncode != 0 or stdout != text:
                # The findings concern what goes to standard output
                finding = not out and known_finding(program, events, r.stdout, r.returncode)
                if finding:
                    stats["labels"][finding] = stats["labels"].get(finding, 0) + 1
                    raise Known(finding)
            if r.returncode != 0 or stderr:
                fail("expected an ordinary end")
            written = {}
            for d, _, names in os.walk(root):
                for x in names:
                    p = os.path.relpath(os.path.join(d, x), root)
                    if p not in TREE:
                        with open(os.path.join(root, p), "rb") as f:
                            written[p] = f.read().decode(errors="backslashreplace")
            if out:
                if written != {out: text} or stdout:
                    fail("expected this in %s only:\n%s\nfiles: %r" % (out, text, written))
            elif written or stdout != text:
                fail("expected this on standard output:\n%s\nfiles: %r" % (text, written))
        label = "%s: %s" % (program, "error" if error else done.kind if done else "runs")
        stats["labels"][label] = stats["labels"].get(label, 0) + 1
        if not error and not done and len(case["tokens"]) >= 3:
            key = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
            stats["nontrivial"].add(key)
            if len(stats["samples"]) < 3:
                stats["samples"].append(json.dumps(case))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def worker(programs, tmp, n, number, out):
    stats = dict(evaluations=0, nontrivial=set(), samples=[], labels={})
    failing = []

    @seed(number)
    @settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck),
              phases=[Phase.generate, Phase.shrink], print_blob=False, report_multiple_bugs=False)
    @given(cases())
    def prop(case):
        try:
            run_case(case, programs, tmp, stats)
        except Known:
            pass
        except (Failure, subprocess.TimeoutExpired) as e:
            failing[:] = [(case, str(e))]
            raise Failure(str(e))

    try:
        prop()
        failing = []
    except Failure:
        pass
    except BaseException:
        if not failing:
            out.put(("error", traceback.format_exc()))
            return
    stats["nontrivial"] = list(stats["nontrivial"])
    out.put(("done", stats, failing))


# The documents' own examples
DOCUMENTED = [
    ("hello", [], "d1"), ("hello", ["planet"], "d1"), ("hello", ["-n", "2"], "d1"),
    ("hello", ["--option"], "d1"), ("hello", ["planet", "Earth"], "d1"), ("hello", ["-n", "foo"], "d1"),
    ("append_clear_option", ["--include=foo", "--include=bar", "--include", "--include=baz"], "d1"),
    ("area", ["1,1", "5.5,2", "2,6"], "d1"), ("area", ["1,1", "5.5,2", "6,4.75", "2,6"], "d1"),
    ("rot13", ["The", "key", "is", "hidden", "behind", "the", "painting."], "d1"),
    ("table", ["foo", "-c", "bar", "-r", "boom", "bang", "-r", "-cc", "trim", "--borders"], "d1"),
    ("commands", ["--version"], "d1"), ("whereis", ["--version"], "d1"), ("whereis", ["-v", "-q", "x"], "d1")]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--programs", required=True)
    ap.add_argument("--tmp", required=True)
    ap.add_argument("--replay-dir", required=True)
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--wall-offset", type=float, default=0)
    ap.add_argument("--out")
    a = ap.parse_args()
    start = time.time()
    stats = dict(evaluations=0, nontrivial=set(), samples=[], labels={})
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")) as f:
        findings = {x["id"]: x["what"] for x in map(json.loads, f) if x.get("property") == "C23" and "id" in x}
    LISTED.update(findings)
    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)
        try:
            run_case(case, a.programs, a.tmp, stats)
        except Known as e:
            if a.replay:
                print("KNOWN-FINDING: property=C23 " + findings[str(e)])
        except (Failure, subprocess.TimeoutExpired) as e:
            print(e)
            print("VIOLATION property=C23 replay=%s" % a.replay)
            return 1
        print("the case passes")
        return 0

    def violation(case, text):
        path = os.path.join(a.replay_dir, "C23-%s.replay" % hashlib.sha256(
            json.dumps(case).encode()).hexdigest()[:8])
        with open(path, "w") as f:
            json.dump(case, f, indent=1)
        print(json.dumps(case))
        print(text)
        print("VIOLATION property=C23 replay=%s" % path, flush=True)
        return 1

    for name, case in FINDINGS:
        try:
            run_case(case, a.programs, a.tmp, stats)
        except Known as e:
            print("KNOWN-FINDING: property=C23 " + findings[str(e)], flush=True)
        except (Failure, subprocess.TimeoutExpired) as e:
            return violation(case, str(e))
    failures = []
    for program, tokens, path in DOCUMENTED:
        case = dict(program=program, argv0=program, tokens=tokens, path=path)
        try:
            run_case(case, a.programs, a.tmp, stats)
        except Known as e:
            if a.replay:
                print("KNOWN-FINDING: property=C23 " + findings[str(e)])
        except (Failure, subprocess.TimeoutExpired) as e:
            failures.append((case, str(e)))
    cases_wanted = a.cases or (40000 if a.tier == "quick" else 600000)
    queue = multiprocessing.Queue()
    procs = []
    if not failures:
        for w in range(a.workers):
            tmp = os.path.join(a.tmp, "w%d" % w)
            os.makedirs(tmp)
            p = multiprocessing.Process(target=worker, args=(a.programs, tmp, cases_wanted // a.workers + 1,
                                                             a.seed * 1000 + w, queue))
            p.start()
            procs.append(p)
    for _ in procs:
        r = queue.get()
        if r[0] == "error":
            print(r[1], file=sys.stderr)
            for p in procs:
                p.terminate()
            return 3
        stats["evaluations"] += r[1]["evaluations"]
        stats["nontrivial"] |= set(r[1]["nontrivial"])
        stats["samples"] = (stats["samples"] + r[1]["samples"])[:6]
        for k, v in r[1]["labels"].items():
            stats["labels"][k] = stats["labels"].get(k, 0) + v
        failures += r[2]
    for p in procs:
        p.join()
    result = 0
    if failures:
        result = violation(*min(failures, key=lambda x: len(json.dumps(x[0]))))
    wall = time.time() - start + a.wall_offset
    if a.out:
        with open(a.out, "w") as f:
            json.dump({
                "property": "C23", "tier": a.tier, "seed": a.seed, "level": "exploration",
                "coverage": {"evaluations": stats["evaluations"],
                             "distinct_nontrivial": len(stats["nontrivial"]),
                             "rule": RULE, "labels": dict(sorted(stats["labels"].items())),
                             "samples": stats["samples"]},
                "wall_s": wall}, f, indent=1)
            f.write("\n")
    print("C23 %s: %d evaluations, %d distinct non-trivial cases, %g s"
          % (a.tier, stats["evaluations"], len(stats["nontrivial"]), round(wall, 2)))
    return result


if __name__ == "__main__":
    sys.exit(main())
