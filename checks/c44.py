"""C44: the log is complete and never fails an operation."""

import functools
import pathlib
import re
import sys

from sx.scenario import Scenario

from .common import *

ASSUMPTIONS = [
    "the log file and the console are files whose writes succeed or fail "
    "with any of the given errors",
]

COLORS = ["RESET_ALL", "BRIGHT", "DIM", "RED", "BACKRED", "BLUE", "CYAN",
          "MAGENTA", "YELLOW", "GREEN"]
LEVELS = ["critical", "error", "warning", "info", "debug"]


class Sink:
    """A text file; some of the writes fail."""

    def __init__(self, fails=lambda: None):
        self.text = []
        self.fails = fails

    def write(self, s):
        e = self.fails()
        if e:
            raise e
        self.text.append(str(s))
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        return 2

    def get(self):
        r, self.text = "".join(self.text), []
        return r


def start(ctx, env, verbose, file, console, defaults=None, color=False):
    """-> a logger set up by the real code"""
    import structlog

    import backy.logging

    p = env.p
    p.setattr(sys, "stderr", console)
    if color:
        p.setattr(backy.logging, "COLORIZED_TTY_OUTPUT", True)
        if backy.logging.colorama:
            p.setattr(backy.logging.colorama, "init", lambda *a, **k: None)
        for i, c in enumerate(COLORS):
            p.setattr(backy.logging, c, f"\x1b[{i}m")
    path = env.tmp / "log"
    real = pathlib.Path.open
    p.setattr(
        pathlib.Path, "open",
        lambda self, *a, **kw: file if self == path else real(self, *a, **kw),
    )
    p.setattr(backy.logging, "open", lambda *a, **kw: file)
    backy.logging.init_logging(verbose, path, defaults)
    return structlog.stdlib.get_logger()


def configured(fn):
    @functools.wraps(fn)
    def run(ctx, env):
        import structlog

        try:
            fn(ctx, env)
        finally:
            structlog.reset_defaults()

    return run


class Boom(Exception):
    pass


def plain(s):
    return re.sub("\x1b\\[[0-9]+m", "", s)


@configured
def events(ctx, env):
    P = ctx.params
    file, console = Sink(), Sink()
    verbose = ctx.flag("verbose")
    color = ctx.flag("color")
    defaults = ctx.choice("defaults", [None, {"taskid": "T4"},
                                       {"subsystem": "dflt"}])
    log = start(ctx, env, verbose, file, console, defaults, color)
    kw, want = {}, ["some-event"]
    log = log.bind(subsystem="sub", job_name="job17")
    want += ["sub/some-event", "job17"]
    what = ctx.choice("what", P["what"])
    if what == "text":
        k = ctx.choice("key", ["_output", "stdout", "stderr", "other"])
        v = ctx.choice("value", ["", "one\ntwo", "{x} {", "%s", None, "\u20ac"])
        kw[k] = v
        if k == "other":
            want.append("other=" + repr(v))
        elif v:
            want += v.split("\n")
    elif what == "value":
        v = ctx.choice(
            "value", [7, None, "a b", b"\xff", ["x"], {"k": 1}, "\ud800",
                      "\x1b[31m"],
        )
        k = ctx.choice("key", ["x", "zero", "_y"])
        kw[k] = v
        want.append(k + "=" + repr(v))
    elif what == "message":
        fmt, out = ctx.choice(
            "fmt",
            [("plain text", "plain text"), ("a {x} b", "a 5 b"),
             ("a {nope} b", "a <missing> b"),
             ("a {x.nope} b", "a <missing> b"),
             ("a {x:zz} b", "a <bad format> b"),
             ("a {none} b", "a <missing> b"),
             ("{t}{t!r}", "{q}'{q}'")],
        )
        kw = dict(_fmt_msg=fmt, x=5, none=None, t="{q}")
        want += [out, "x=5", "t='{q}'"]
    elif what == "sub":
        kw["sub_taskid"] = "ab12"
        want.append("job17[ab12]")
    level = ctx.choice("level", LEVELS + ["exception"])
    style = None
    if what == "exception":
        style = ctx.choice("style", [None, "short", "banner", "long"])
        if style:
            kw["exc_style"] = style
        info = ctx.choice("info", ["flag", "object", "tuple", "active"])
        try:
            try:
                raise Boom("it went wrong")
            except Boom as e:
                if info == "flag":
                    kw["exc_info"] = True
                elif info == "object":
                    kw["exc_info"] = e
                elif info == "tuple":
                    kw["exc_info"] = (Boom, e, e.__traceback__)
                elif not style:
                    level = "exception"
                getattr(log, level)("some-event", **kw)
        except Exception as e:
            ctx.check(False, f"logging raises {type(e).__name__}")
        want += ["it went wrong", "Boom"]
        if style in (None, "long"):
            want.append("Traceback (most recent call last)")
    else:
        if level == "exception":
            level = "error"
        try:
            getattr(log, level)("some-event", **kw)
        except Exception as e:
            ctx.check(False, f"logging raises {type(e).__name__}")
    if level == "exception":
        level = "error"
    f, c = file.get(), console.get()
    if defaults and "taskid" in defaults:
        want.append("T4")
    want.append(f" {level[0].upper()} ")
    for w in want:
        ctx.check(w in f, "the log file has everything about the event")
    ctx.check(f.count("some-event") == 1, "once")
    if what != "value":
        ctx.check("\x1b" not in f, "without terminal codes")
    if style == "short":
        ctx.check("Traceback" not in f, "no traceback if it is not wanted")
    shown = verbose or level != "debug"
    if shown:
        for w in want:
            ctx.check(w in plain(c), "the console shows the event")
        ctx.cover("shown")
    else:
        ctx.check(not c, "only important events are shown")
        ctx.cover("hidden")
    ctx.cover(what)


ERRORS = [
    OSError(28, "No space left on device"), OSError(5, "I/O error"),
    BrokenPipeError(32, "Broken pipe"), ValueError("closed file"),
    UnicodeEncodeError("ascii", "\u20ac", 0, 1, "ordinal not in range"),
]


@configured
def sinks(ctx, env):
    """Some writes to one of the logs fail."""
    P = ctx.params
    lo, hi = ctx.int("lo", 0, 9), ctx.int("hi", 0, 9)
    e = ctx.choice("error", ERRORS)
    bad = ctx.choice("bad", ["file", "console", "both"])
    n = [0]

    def fails():
        if lo <= n[0] and n[0] < hi:
            ctx.cover("write failed")
            return e

    file = Sink(fails if bad != "console" else lambda: None)
    console = Sink(fails if bad != "file" else lambda: None)
    log = start(ctx, env, True, file, console)
    for i in range(P["events"]):
        n[0] = i
        try:
            log.info(f"event-{i}")
        except Exception as x:
            ctx.check(False, f"logging raises {type(x).__name__}")
        broken = fails() is not None
        for name, s in (("file", file), ("console", console)):
            t = s.get()
            if broken and bad in (name, "both"):
                continue
            ctx.check(
                f"event-{i}" in t, "the event is in the log that works"
            )


@configured
def operation(ctx, env):
    """Maintenance with a broken log has the same effects."""
    import backy.repository
    import backy.schedule

    e = ctx.choice("error", ERRORS)
    at = ctx.pick("at", 12)
    bad = ctx.choice("bad", ["file", "console"])
    n = [0]

    def fails():
        n[0] += 1
        if n[0] > at:
            ctx.cover("write failed")
            return e

    good = lambda: None
    file = Sink(fails if bad == "file" else good)
    console = Sink(fails if bad == "console" else good)
    log = start(ctx, env, True, file, console)
    path = env.tmp / "repo"
    path.mkdir()
    for i in range(4):
        write_rev(path, f"r{i}", D0 + hours(24 * i), ["daily"],
                  trust="distrusted" if i == 3 else "trusted")
    sched = backy.schedule.Schedule()
    sched.configure({"daily": {"interval": "1d", "keep": 1}})
    env.set_now(lambda: D0 + hours(24 * 30))
    repo = backy.repository.Repository(path, sched, log)
    repo.connect()
    repo.expire()
    left = read_revs(path)
    ctx.check(
        left and all(r["tags"] for r in left.values()), "expired"
    )
    ctx.check("r0" not in left, "the oldest one is gone")
    repo.distrust(repo.find_revisions("all"))
    ctx.check(
        all(r["trust"] == "distrusted" for r in read_revs(path).values()),
        "distrusted",
    )
    repo.rm(repo.find_revisions("all"))
    ctx.check(not read_revs(path), "removed")


def scenarios(tier):
    return [
        Scenario(
            "events", events,
            "one event of any level with additional values, texts, messages "
            "and exceptions, verbose or not, with and without colors",
            dict(what=["nothing", "text", "value", "message", "sub",
                       "exception"]),
            covers=["shown", "hidden", "text", "message", "exception"],
        ),
        Scenario(
            "sinks", sinks,
            "five events; any range of the writes to any of the logs fails",
            dict(events=9 if tier == "thorough" else 5),
            covers=["write failed"],
        ),
        Scenario(
            "operation", operation,
            "expiry, distrust and removal; a log stops working at any event",
            dict(),
            covers=["write failed"],
        ),
    ]
