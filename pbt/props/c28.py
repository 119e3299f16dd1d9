"""C28: log against a model of level, stream and write operations."""

import datetime
import io
import json
import os
import re
import subprocess
import sys
import tempfile
import threading

from diamondback import Log
from hypothesis import strategies as st
from loguru import logger

from pbt import gen
from pbt.core import ensure, facet, fail, raises

ASSUMPTIONS = [
    "Handlers assigned by Log are not removed through loguru; custom levels have upper case names.",
    "Streams accept every entry.",
]
SEVERITY = dict(CRITICAL=50, ERROR=40, WARNING=30, SUCCESS=25, INFO=20, DEBUG=10, TRACE=5)
CUSTOM = {"NOTICE": 22, "AUDIT": 60, "FINE": 3, "EVEN": 30, "VERBOSE": 7, "BASE": 0}
ALL = dict(SEVERITY, **CUSTOM)
ENTRY = re.compile(r"(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d\d[+-]\d\d:?\d\d) ([A-Z]+) (.*)\n\Z", re.S)


def custom():
    for name, no in CUSTOM.items():
        try:
            logger.level(name)
        except ValueError:
            logger.level(name, no=no)


class Plain:
    """A stream which only has write."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def getvalue(self):
        return "".join(self.parts)


class Switch(Plain):
    """A stream with flush, whose truth value is usual, which records flushes."""

    def flush(self):
        pass


def spelled(name, how):
    return dict(u=name, l=name.lower(), t=name.title(), s=name[0].lower() + name[1:])[how]


LEVELS = st.tuples(st.sampled_from(list(SEVERITY) * 2 + list(CUSTOM)), st.sampled_from("ults")).map(list)
LONG = st.integers(0, 12).flatmap(lambda k: gen.sizes(1000, 70000 if k == 5 else 9000).map(lambda n: ("0123456789" * (n // 10 + 1))[:n]) if k > 10 or k == 5 else st.just("short"))
MESSAGE = st.one_of(
    LONG,
    st.sampled_from(["", "entry", "{}", "{0} {name}", "<red>x</red>", "</>", "%s %d", "a\nb", "\\n", "tab\tx", "{{}}", "{message}", "{level}", "{exception}", "\\<red>", "caf\u00e9 \u4e2d\u6587", "'\"", "  lead", "trail  ", "x" * 3000, "{extra[0]}"]),
    st.text(max_size=12).filter(lambda s: "\r" not in s and all(not 0xD800 <= ord(c) <= 0xDFFF for c in s)),
)
STREAM = st.sampled_from(["string", "plain", "switch", "file", "text", "again", "again"])
BADLEVEL = st.one_of(st.sampled_from(["", "none", "INFORM", " info", "info ", "20", "INF", "All"]), st.text("abcdef ", max_size=5)).filter(lambda s: s.upper() not in ALL)
BADSTREAM = st.sampled_from(["none", "zero", "empty", "text", "number", "object", "bytes", "list", "false"])


@st.composite
def operation(draw):
    k = draw(st.integers(0, 19))
    if k < 9:
        return ["write", draw(LEVELS), draw(MESSAGE)]
    if k < 12:
        return ["level", draw(LEVELS)]
    if k < 14:
        return ["stream", draw(STREAM), draw(st.integers(0, 3))]
    if k == 14:
        return ["badlevel", draw(BADLEVEL), draw(st.booleans())]
    if k == 15:
        return ["badstream", draw(BADSTREAM)]
    if k == 16:
        return ["outside", draw(LEVELS), draw(st.sampled_from(["probe", "note {}"]))]
    if k == 17:
        return ["handler", draw(st.sampled_from(["DEBUG", "WARNING", "TRACE"]))]
    return ["raise", draw(LEVELS), draw(st.sampled_from(["ValueError", "KeyError", "Exception", "ZeroDivisionError", "Custom", "None"])), draw(MESSAGE), draw(st.one_of(st.integers(0, 3), st.integers(0, 40))), draw(st.sampled_from(["handled", "handled", "saved", "nested", "cause", "files"]))]


@st.composite
def cases(draw):
    return dict(level=draw(LEVELS), ops=draw(st.lists(operation(), min_size=1, max_size=14)))


class CustomError(Exception):
    pass


def descend(n, ex):
    if n:
        descend(n - 1, ex)
    else:
        raise ex


FILES = {}


def through(n, ex):
    """Raises ex through n functions of different files and lines."""
    if not n:
        raise ex
    if n not in FILES:
        scope = dict(through=through)
        exec(compile("\n" * (3 * n) + "def call(n, ex):\n    through(n, ex)\n", f"/no/such.d/part {n % 5}.py", "exec"), scope)
        FILES[n] = scope["call"]
    FILES[n](n - 1, ex)


def report(ex, depth, how, write):
    """Raises and writes an exception, and returns the expected message."""
    raiser = through if how == "files" else descend
    if how == "saved":  # written when it is no longer handled
        saved = None
        try:
            raiser(depth, ex)
        except Exception as caught:
            saved = caught
        write(saved)
    elif how == "nested":  # written while another exception is handled
        try:
            raiser(depth, ex)
        except Exception as caught:
            try:
                descend(2, LookupError("other"))
            except LookupError:
                write(caught)
    elif how == "cause":
        try:
            try:
                descend(2, LookupError("other"))
            except LookupError as cause:
                try:
                    raiser(depth, ex)
                except Exception as caught:
                    raise caught from cause
        except Exception as caught:
            write(caught)
    else:
        try:
            raiser(depth, ex)
        except Exception as caught:
            write(caught)
    message = f"Exception = {type(ex).__name__} {ex}"
    tb = ex.__traceback__
    while tb:
        message += f" @ File = {os.path.basename(tb.tb_frame.f_code.co_filename)} Line = {tb.tb_lineno}"
        tb = tb.tb_next
    return message


class World:
    """Streams of one case, and the entries expected in each."""

    def __init__(self, folder):
        self.folder, self.streams, self.files = folder, [], []

    def open(self, kind, index):
        if kind == "again" and self.streams:
            return self.streams[index % len(self.streams)]
        if kind == "file" or kind == "text":
            path = os.path.join(self.folder, f"{len(self.streams)}.log")
            s = open(path, "w" if kind == "file" else "a", encoding="utf-8", newline="", buffering=-1)
            self.files.append(s)
            e = dict(s=s, path=path, want=[])
        else:
            e = dict(s=dict(plain=Plain, switch=Switch).get(kind, lambda: io.StringIO(newline=""))(), want=[])
        self.streams.append(e)
        return e

    def text(self, e):
        if "path" in e:
            e["s"].flush()
            with open(e["path"], encoding="utf-8", newline="") as fin:
                return fin.read()
        return e["s"].getvalue()


def matches(text, want, what, began, ended):
    """text is the sequence of entries want: (level, message), where message is a string or a function judging it."""
    at = 0
    for k, (level, message) in enumerate(want):
        m = re.compile(r"(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d\d[+-]\d\d:?\d\d) ").match(text, at)
        ensure(m, lambda: f"{what}: entry {k} of {len(want)} has no ISO 8601 time at {text[at : at + 90]!r}")
        t = datetime.datetime.fromisoformat(m.group(1))
        ensure(began - datetime.timedelta(seconds=0.02) <= t <= ended + datetime.timedelta(seconds=0.02), f"{what}: time {m.group(1)} is outside of [{began}, {ended}]")
        at = m.end()
        ensure(text.startswith(level + " ", at), lambda: f"{what}: entry {k} has level at {text[at : at + 40]!r} expected {level}")
        at += len(level) + 1
        ensure(text.startswith(message + "\n", at), lambda: f"{what}: entry {k} has message {text[at : at + len(message) + 20]!r} expected {message!r}")
        at += len(message) + 1
    ensure(at == len(text), lambda: f"{what}: additional output {text[at:][:200]!r} after {len(want)} entries")


def now():
    return datetime.datetime.now(datetime.timezone.utc)


@facet("C28", "history", cases, n=1600, shards=8, rule="history of level, stream, write, invalid and loguru operations; non-trivial when an entry is delivered.")
def history(case):
    custom()
    external, added = [], []
    delivered = 0
    with tempfile.TemporaryDirectory(prefix="pbt-log-") as folder:
        w = World(folder)
        began = now()
        try:
            current = w.open("string", 0)
            Log.stream(current["s"])
            Log.level(spelled(*case["level"]))
            level = ALL[case["level"][0]]
            added.append((logger.add(lambda m: external.append((m.record["level"].name, m.record["message"])), level=0), 0))
            wanted = []
            for op in case["ops"]:
                if op[0] == "write":
                    name = op[1][0]
                    Log.write(spelled(*op[1]), op[2])
                    if ALL[name] >= level:
                        current["want"].append((name, op[2]))
                        wanted.append((name, op[2]))
                        delivered += 1
                elif op[0] == "level":
                    Log.level(spelled(*op[1]))
                    level = ALL[op[1][0]]
                elif op[0] == "stream":
                    current = w.open(op[1], op[2])
                    Log.stream(current["s"])
                elif op[0] == "badlevel":
                    if op[2]:
                        raises(ValueError, lambda: Log.level(op[1]), f"level {op[1]!r}")
                    else:
                        raises(ValueError, lambda: Log.write(op[1], "rejected"), f"write at level {op[1]!r}")
                elif op[0] == "badstream":
                    bad = dict(none=None, zero=0, empty="", text="stdout", number=3.5, object=object(), bytes=b"x", list=[], false=False)[op[1]]
                    raises(ValueError, lambda: Log.stream(bad), f"stream {bad!r}")
                elif op[0] == "outside":
                    logger.log(op[1][0], op[2])
                    wanted.append((op[1][0], op[2]))
                    if True:  # delivered to every handler, the stream of the log included
                        current["want"].append((op[1][0], op[2]))
                elif op[0] == "handler":
                    added.append((logger.add(Plain(), level=op[1]), 1))
                else:
                    name, text = op[1][0], op[3]
                    kinds = dict(ValueError=ValueError, KeyError=KeyError, Exception=Exception, ZeroDivisionError=ZeroDivisionError, Custom=CustomError)
                    if op[2] == "None":
                        ex = ValueError(text)
                        Log.write(spelled(*op[1]), ex)
                        message = f"Exception = ValueError {ex}"
                    else:
                        ex = kinds[op[2]](text)
                        message = report(ex, op[4], op[5], lambda entry: Log.write(spelled(*op[1]), entry))
                    if ALL[name] >= level:
                        current["want"].append((name, message))
                        wanted.append((name, message))
                        delivered += 1
            ended = now()
            for k, e in enumerate(w.streams):
                matches(w.text(e), e["want"], f"stream {k}", began, ended)
            ensure(external == wanted, lambda: f"a handler added to loguru received {external[-3:]} expected {wanted[-3:]} ({len(external)} and {len(wanted)} entries)")
            for ident, _ in added:
                try:
                    logger.remove(ident)
                except ValueError:
                    fail(f"handler {ident} added to loguru was removed")
            added.clear()
        finally:
            for ident, _ in added:
                try:
                    logger.remove(ident)
                except ValueError:
                    pass
            Log.stream(io.StringIO())
            for s in w.files:
                s.close()
    return ("streams" if len(w.streams) > 1 else "stream") if delivered else ""


@st.composite
def concurrent_cases(draw):
    return dict(
        threads=draw(st.integers(2, 6)), entries=draw(st.integers(1, 25)), swaps=draw(st.integers(0, 12)), levels=draw(st.integers(0, 12)),
        size=draw(st.sampled_from([1, 40, 400])), exception=draw(st.booleans()),
    )  # fmt: skip


@facet("C28", "threads", concurrent_cases, n=160, shards=8, rule="concurrent writers, stream assignments and level assignments; every case is non-trivial.")
def threads(case):
    custom()
    streams = [Plain() for _ in range(case["swaps"] + 1)]
    errors = []
    interval = sys.getswitchinterval()
    begin = threading.Barrier(case["threads"] + 1)

    def write(t):
        try:
            begin.wait()
            for k in range(case["entries"]):
                Log.write("error", f"{t}:{k}:" + "e" * case["size"])  # always delivered
                Log.write("trace", f"{t}:{k}:trace")  # never delivered
                if case["exception"]:
                    try:
                        descend(t % 3, KeyError(f"{t}-{k}"))
                    except KeyError as ex:
                        Log.write("critical", ex)
        except Exception as ex:  # reported below
            errors.append(repr(ex))

    began = now()
    try:
        Log.stream(streams[0])
        Log.level("info")
        sys.setswitchinterval(1e-6)
        v = [threading.Thread(target=write, args=(t,)) for t in range(case["threads"])]
        for t in v:
            t.start()
        begin.wait()
        for k in range(max(case["swaps"], case["levels"])):
            if k < case["swaps"]:
                Log.stream(streams[k + 1])
            if k < case["levels"]:
                Log.level(("warning", "info", "error")[k % 3])
        for t in v:
            t.join()
    finally:
        sys.setswitchinterval(interval)
        Log.stream(io.StringIO())
        Log.level("info")
    ended = now()
    ensure(not errors, lambda: f"writers failed: {errors[:2]}")
    order = {}
    for s in streams:
        for part in re.split(r"(?<=\n)", s.getvalue())[:-1]:
            m = ENTRY.match(part)
            ensure(m, lambda: f"incomplete entry {part[:120]!r}")
            t = datetime.datetime.fromisoformat(m.group(1))
            ensure(began - datetime.timedelta(seconds=0.02) <= t <= ended + datetime.timedelta(seconds=0.02), f"time {m.group(1)}")
            level, message = m.group(2), m.group(3)
            if level == "ERROR":
                e = re.fullmatch(r"(\d+):(\d+):e{%d}" % case["size"], message)
                ensure(e, lambda: f"message {message[:80]!r} of level ERROR")
                order.setdefault((int(e.group(1)), "e"), []).append(int(e.group(2)))
            elif level == "CRITICAL":
                e = re.match(r"Exception = KeyError '(\d+)-(\d+)'( @ File = c28.py Line = \d+)+\Z", message)
                ensure(e, lambda: f"message {message[:120]!r} of level CRITICAL")
                n = message.count(" @ ")
                ensure(n == int(e.group(1)) % 3 + 2, lambda: f"{n} locations in {message!r} of thread {e.group(1)}")
                order.setdefault((int(e.group(1)), "c"), []).append(int(e.group(2)))
            else:
                fail(f"entry below the level was delivered: {part[:80]!r}")
    for t in range(case["threads"]):
        for k in "ec" if case["exception"] else "e":
            ensure(order.get((t, k), []) == list(range(case["entries"])), lambda: f"entries {order.get((t, k))} of thread {t} expected {case['entries']} in order")
    return "swaps" if case["swaps"] else "levels" if case["levels"] else "writers"


# A new interpreter, in which no stream was assigned.

FRESH = """
import sys, json
sys.dont_write_bytecode = True
import os
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from loguru import logger
from diamondback import Log
received = []
ident = None
for op in json.loads(sys.argv[1]):
    if op[0] == "handler": ident = logger.add(lambda m: received.append(m.record["message"]))
    elif op[0] == "level": Log.level(op[1])
    elif op[0] == "write": Log.write(op[1], op[2])
    elif op[0] == "stderr": Log.stream(sys.stderr)
    elif op[0] == "stdout": Log.stream(sys.stdout)
    elif op[0] == "bad":
        try:
            Log.stream(None)
            print("ACCEPTED")
        except ValueError:
            pass
    elif op[0] == "debug": logger.debug(op[1])
if ident is not None:
    logger.remove(ident)
    sys.stderr.write("RECEIVED " + json.dumps(received) + "\\n")
"""


def fresh_cases(tier):
    w, out = ["write", "info", "one"], []
    out.append([w, ["write", "DEBUG", "hidden"], ["write", "Error", "two"]])
    out.append([["level", "debug"], ["write", "debug", "a"], ["write", "trace", "b"], ["stderr"], ["write", "debug", "c"]])
    out.append([["handler"], w, ["stderr"], ["write", "warning", "x"], ["stdout"], ["write", "success", "y"]])
    out.append([["stderr"], w, ["handler"], ["bad"], ["write", "info", "again"], ["stdout"], ["write", "trace", "no"], ["write", "critical", "yes"]])
    out.append([["bad"], w, w])
    return [dict(ops=v) for v in out]


@facet("C28", "fresh", cases=fresh_cases, shards=4, rule="histories of a new interpreter: entries go to standard output until a stream is assigned; every case is non-trivial.")
def fresh(case):
    began = now()
    env = {k: v for k, v in os.environ.items() if not k.startswith("LOGURU")}
    r = subprocess.run([sys.executable, "-B", "-c", FRESH, json.dumps(case["ops"])], capture_output=True, text=True, timeout=300, cwd="/", env=env)
    ended = now()
    ensure(r.returncode == 0, lambda: f"failed: {r.stderr[-600:]}")
    level, stream, want, received = 20, "stdout", dict(stdout=[], stderr=[]), None
    for op in case["ops"]:
        if op[0] == "level":
            level = ALL[op[1].upper()]
        elif op[0] in ("stdout", "stderr"):
            stream = op[0]
        elif op[0] == "handler":
            received = []
        elif op[0] == "write" and ALL[op[1].upper()] >= level:
            want[stream].append((op[1].upper(), op[2]))
            if received is not None:
                received.append(op[2])
    err = r.stderr
    if received is not None:
        err, _, tail = err.rpartition("RECEIVED ")
        ensure(json.loads(tail) == received, lambda: f"a handler added to loguru received {tail} expected {received}")
    matches(r.stdout, want["stdout"], "standard output", began, ended)
    matches(err, want["stderr"], "standard error", began, ended)
    return "fresh"
