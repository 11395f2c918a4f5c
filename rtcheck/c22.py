"""C22: the logging configuration is idempotent and confined to the package."""
import importlib
import io
import logging
import re

from hypothesis import strategies as st

from .core import Sub
from .sut import Sut, check

RULE = (
    "random sequences of set_loglevel() calls (level names in any case, numeric levels, all presets, "
    "arbitrary format strings, rejected calls) and messages of the package logger, its children and other "
    "loggers, starting from a fresh package; non-trivial: >= 2 accepted calls and >= 2 messages, some of "
    "which are suppressed and some emitted"
)

LEVELS = {"notset": 0, "debug": 10, "info": 20, "warning": 30, "error": 40, "critical": 50}
PRESETS = ["plain", "basic", "minimal", "timed", "debug"]
FORMATS = [
    "%(message)s", "%(levelname)s|%(message)s", "%(name)s - %(levelname)s - %(message)s", "[%(levelno)d] %(message)s",
    "constant: %(message)s", "%(message)s;%(module)s;%(funcName)s", "x %(name)s",
]
# (a logger with a level of its own)
CHATTY = "rt1_model.chatty"
NAMES = ["rt1_model", "rt1_model", "rt1_model._calc", "rt1_model.a.b", CHATTY]
OTHER = ["", "rt1", "other", "rt1_modelx", "matplotlib"]

T = r"\d\d:\d\d:\d\d(\.\d+)?"
PATTERN = {
    "plain": r"{m}", "basic": T + r"\W+{m}", "minimal": T + r"\W+{m}", "timed": T + r"\W+{l}\W+{m}",
    "debug": T + r"\W+{l}\W+{n}\W+{m}",
}


def level():
    names = st.sampled_from(sorted(LEVELS)).flatmap(
        lambda n: st.sampled_from([n, n.upper(), n.capitalize(), n[:2] + n[2:].upper()])
    )
    return st.one_of(names, names, st.sampled_from([0, 1, 5, 10, 15, 20, 25, 30, 40, 50, 60]))


@st.composite
def op(draw):
    k = draw(st.sampled_from(["set", "set", "msg", "msg", "msg", "other", "bad"]))
    if k == "set":
        fmt = draw(st.one_of(st.just("-"), st.sampled_from(PRESETS), st.sampled_from(PRESETS), st.sampled_from(FORMATS), st.none()))
        return ["set", draw(level()), fmt]
    if k == "bad":
        return ["bad", draw(st.sampled_from(["verbose", "", "inf0", "loud"])), draw(st.sampled_from(PRESETS))]
    lv = draw(st.sampled_from([1, 5, 10, 15, 20, 25, 30, 35, 40, 50, 60]))
    return [k, draw(st.sampled_from(NAMES if k == "msg" else OTHER)), lv, draw(st.integers(0, 999))]


@st.composite
def cases(draw):
    return {
        "ops": draw(st.lists(op(), min_size=3, max_size=14)),
        "root": draw(st.sampled_from([30, 30, 10, 20, 40])), "root_handler": draw(st.booleans()),
        "user_handler": draw(st.integers(0, 3)) == 0,
    }


class Count(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())


def run(case):
    import rt1_model

    log, root = logging.getLogger("rt1_model"), logging.getLogger()
    # the state of a fresh interpreter
    for h in list(log.handlers):
        log.removeHandler(h)
    log.setLevel(0)
    with Sut("import"):
        m = importlib.reload(rt1_model)
    check(log.level == 30, f"the initial level is {log.level}")
    rlevel, rh = root.level, list(root.handlers)
    counter = Count()
    user = Count()
    try:
        root.setLevel(case["root"])
        logging.getLogger(CHATTY).setLevel(1)
        if case["root_handler"]:
            root.addHandler(counter)
        if case["user_handler"]:
            log.addHandler(user)
        return sequence(case, m, log, root)
    finally:
        root.setLevel(rlevel)
        root.removeHandler(counter)
        log.removeHandler(user)


def sequence(case, m, log, root):
    own = list(log.handlers)
    others = {n: logging.getLogger(n) for n in OTHER}
    before = {n: (lg.level, list(lg.handlers), lg.propagate, lg.disabled) for n, lg in others.items()}
    cur, fmt, buf, nset = None, None, None, 0
    hit, miss = 0, 0
    for i, o in enumerate(case["ops"]):
        what = f"(operation {i} {o})"
        if o[0] == "set":
            with Sut(f"set_loglevel {what}"):
                m.set_loglevel(o[1]) if o[2] == "-" else m.set_loglevel(o[1], fmt=o[2])
            cur = LEVELS[o[1].lower()] if isinstance(o[1], str) else o[1]
            if o[2] is not None:
                fmt = "timed" if o[2] == "-" else o[2]
            nset += 1
        elif o[0] == "bad":
            try:
                m.set_loglevel(o[1], fmt=o[2])
            except Exception:
                pass
            else:
                check(False, f"an unknown level is accepted {what}")
        added = [h for h in log.handlers if h not in own]
        if cur is not None:
            check(len(added) == 1, f"{len(added)} handlers {what}")
            check(log.level == cur, f"the level of the logger is {log.level} instead of {cur} {what}")
            if buf is None:
                buf = io.StringIO()
                added[0].setStream(buf)
        else:
            check(len(added) <= 1, f"{len(added)} handlers {what}")
        if o[0] == "msg":
            text = f"message {o[3]} of {i}"
            if buf:
                buf.seek(0)
                buf.truncate()
            if cur is None:
                continue
            logging.getLogger(o[1]).log(o[2], text)
            out = buf.getvalue()
            # (NOTSET delegates to the root logger)
            thr = cur if cur > 0 or o[1] == CHATTY else root.level
            if o[2] < thr:
                check(out == "", f"a message below the level {thr} is emitted: {out!r} {what}")
                miss += 1
                continue
            hit += 1
            check(out.endswith("\n") and out.count("\n") == 1, f"the message is emitted as {out!r} {what}")
            line = out[:-1]
            ln = logging.getLevelName(o[2])
            if fmt is None:
                check(text in line, f"the message is emitted as {line!r} {what}")
            elif fmt in PATTERN:
                pat = PATTERN[fmt].format(m=re.escape(text), l=re.escape(ln), n=re.escape(o[1]))
                check(re.fullmatch(pat, line), f"the message is emitted as {line!r} with format {fmt!r} {what}")
            else:
                rec = logging.LogRecord(o[1], o[2], __file__, 1, text, (), None, func="sequence")
                want = logging.Formatter(fmt).format(rec)
                check(line == want, f"the message is emitted as {line!r} instead of {want!r} with format {fmt!r} {what}")
        elif o[0] == "other":
            if buf:
                buf.seek(0)
                buf.truncate()
            others[o[1]].log(o[2], "text")
            check(not buf or buf.getvalue() == "", f"a message of the logger {o[1]!r} is emitted {what}")
        for n, lg in others.items():
            check(
                (lg.level, list(lg.handlers), lg.propagate, lg.disabled) == before[n],
                f"the logger {n!r} is affected {what}",
            )
    return nset >= 2 and hit >= 1 and miss >= 1


SUBS = [Sub("sequences", cases(), run, 2400)]
