"""Checks of the stream algorithms, through whole Beam pipelines in this process (bounded and streaming)."""
import logging
import math
import warnings

from hypothesis import strategies as st

from vchk import gen
from vchk.engine import Info, Violation, require
from vchk.model import close, evaluate, padd

SLIDING = ("Window", "Attenuation", "Partial")
ALL = ("Window", "Delta", "Incremental", "Partial", "Attenuation")

VALUE = st.one_of(st.integers(-9, 9), st.sampled_from(["keep", "drop", "", None, 1.5, True]), st.sampled_from([[1, 2], {"a": 1}, [], {"x": [0]}]))


@st.composite
def stream_case(draw, algorithms=ALL, values=VALUE, max_events=12, min_events=0, whole=False, late=False):
    algorithm = draw(st.sampled_from(list(algorithms)))
    streaming = draw(st.sampled_from([False, False, True]))
    options = {}
    long = not whole and max_events >= 8 and (gen.LARGE or draw(st.integers(0, 9)) == 0)
    unit = draw(st.sampled_from([1, 1, 1, 1, 1, 60, 3600, 0.5])) if not whole else 1
    if algorithm in SLIDING:
        size, period = draw(
            st.sampled_from([(10, 5), (4, 2), (3, 1), (5, 5), (6, 2), (2, 4), (5, 3), (7, 2), (2.5, 1.25), (4, 4), (20, 5)] if not whole else [(10, 5), (4, 2), (3, 1), (5, 5), (5, 3), (6, 3)])
        )
        if long:
            size, period = draw(st.sampled_from([(20, 10), (30, 15), (16, 4), (12, 12), (40, 20)] + [(100, 50), (300, 100), (60, 60)] * gen.LARGE))
        size, period = size * unit, period * unit
        options["window.size"], options["window.period"] = size, period
        streaming = streaming and period <= size  # Beam's streaming runner cannot take an event that is in no window
    else:
        size = draw(st.sampled_from([5, 2, 3, 10, 2.5, 1] if not long else [10, 20, 15] + [100, 50, 4] * gen.LARGE)) * unit
        options["incremental.size" if algorithm == "Incremental" else "window.size"] = size
    if algorithm == "Partial":
        options["filter_fn"] = draw(st.sampled_from(["even", "marked", "old", "none", "all"]))
    if algorithm == "Attenuation":
        options["attenuation.key"] = draw(st.sampled_from(["attributes.t", "timestamp"])) if whole else "timestamp"
        options["attenuation.min_scale"] = draw(st.sampled_from([0.1, 0.5, 0.0, 1.0, 0.25, 1.5]))
    # times: a walk, mostly forward, with gaps, repetitions and some disorder; the origin may be anything
    base = draw(st.sampled_from([0, 0, 100, -20, 1600000000, -7.5]))
    n = max(min_events, draw(st.sampled_from([max_events, max_events - 1, max_events // 2, max_events * 2 // 3, 3, 2, 1, 0, max_events])))
    if long:
        n = draw(st.integers(22, 34)) if not gen.LARGE else draw(st.integers(70, 160))
    elif gen.LARGE and whole:
        n = draw(st.integers(12, 24))
    t = base + draw(st.integers(0, 8)) / 2.0
    events = []
    # Beam ships times in milliseconds: multiples of 1/8 are exact there and as floating-point numbers
    # (a bounded input keeps the microseconds, where multiples of 1/64 are exact)
    fine = draw(st.sampled_from([0.0, 0.0, 1 / 8, 3 / 8] if streaming else [0.0, 0.0, 1 / 8, 3 / 64, 1 / 64]))
    for _ in range(n):
        events.append([t, draw(values)])
        t += fine
        t += draw(st.sampled_from([0, 0.5, 1, 1, 1, 2, 3, 0.25, -1, -3, 6, 14])) * unit
    if draw(st.sampled_from([False, False, True])) and len(events) > 1:
        events = draw(st.permutations(events))
    case = {
        "algorithm": algorithm,
        "options": options,
        "events": [list(e) for e in events],
        "streaming": streaming,
        "advance": draw(st.lists(st.booleans(), min_size=1, max_size=4)),
        "args": draw(st.booleans()),
        "cut": base + 6,
    }
    if late and streaming and draw(st.booleans()):
        # (a watermark exactly at the end of a window is avoided: Beam then hands out late events of this window on their own)
        case["late"] = [k * unit + (k > 0) * 0.06 for k in draw(st.lists(st.sampled_from([0, 0, 1, 2, 4]), min_size=1, max_size=3))]
    if draw(st.sampled_from([False, False, False, False, True])):
        options["input.reassign_timestamp"] = True
        case["cut"] = 6
        case["streaming"] = False  # times given by the input do not matter then
    return case


def timed(case):
    """[(time, (index, value))] as the algorithms see the events."""
    if "input.reassign_timestamp" in case["options"]:
        return [(float(i), (i, e[1])) for i, e in enumerate(case["events"])]
    return [(float(e[0]), (i, e[1])) for i, e in enumerate(case["events"])]


def windows(case):
    """end of window -> elements in it, by time and then index"""
    o = case["options"]
    size = o.get("incremental.size", o.get("window.size"))
    period = o.get("window.period", size)
    out = {}
    closed = [None] * len(case["events"])
    if case.get("streaming") and case.get("late"):
        from vchk.streams import watermarks

        closed = watermarks(case)
    for e, mark in zip(timed(case), closed):
        k = math.floor(e[0] / period)
        while k * period > e[0] - size:
            if mark is None or k * period + size > mark:
                out.setdefault(k * period + size, []).append(e)
            k -= 1
    return {end: sorted(es, key=lambda e: (e[0], e[1][0])) for end, es in out.items()}


def idx(es):
    return [e[1][0] for e in es]


def plain(es):
    return [(float(e[0]), (int(e[1][0]), e[1][1])) for e in es]


class Run:
    """One pipeline run: outputs in order, each with its window, and the calls made for it."""

    def __init__(self, case, log, out):
        self.windows = windows(case)
        self.case = case
        require(not any(e["fn"] == "options-changed" for e in log), "the given options were changed")
        self.steps = []
        calls = {}
        for e in log:
            calls.setdefault(e["step"], []).append(e)
        self.calls = calls
        self.out = out
        step = 0
        self.faults = case.get("faults", {})
        order = []
        for ts, dt, value in out:
            end = [w for w in self.windows if abs(w - ts) <= 0.0011]
            require(len(end) == 1, "output {!r} has timestamp {}, windows end at {}", value, ts, sorted(self.windows))
            order.append(end[0])
        self.order = order
        # what must have been processed: every window not older than the newest one before it
        newest = None
        for (ts, dt, value), end in zip(out, order):
            stale = newest is not None and end < newest[0]
            if stale:
                self.steps.append({"end": end, "stale": True, "value": value, "dt": dt, "newest": newest, "step": None})
            else:
                step += 1
                self.steps.append({"end": end, "stale": False, "value": value, "dt": dt, "step": step, "calls": calls.get(step, [])})
                newest = (end, dt)

    def processed(self):
        return [s for s in self.steps if not s["stale"]]

    def call(self, s, fn):
        found = [c for c in s["calls"] if c["fn"] == fn]
        require(len(found) <= 1, "{} was called {} times for one window", fn, len(found))
        return found[0] if found else None

    # ---- aspects
    def check_outputs(self):
        """Each window with events gives exactly one output."""
        require(sorted(self.order) == sorted(self.windows), "outputs for windows ending at {}, windows with events end at {}", sorted(self.order), sorted(self.windows))

    def check_windows(self):
        self.check_outputs()
        for s in self.processed():
            c = self.call(s, "map")
            require(c is not None, "the window ending at {} was not mapped", s["end"])
        require(len(self.calls) == len(self.processed()), "{} windows were mapped, {} should be", len(self.calls), len(self.processed()))

    def check_elements(self):
        """The elements of each step against the reference of the algorithm."""
        alg = self.case["algorithm"]
        prev = []
        for s in self.processed():
            c = self.call(s, "map")
            want = list(self.windows[s["end"]])
            if alg == "Incremental":
                want = sorted(want + prev, key=lambda e: (e[0], e[1][0]))
            elif alg == "Partial":
                have = set(idx(want))
                want = sorted(want + [e for e in prev if self.keeps(e) and e[1][0] not in have], key=lambda e: (e[0], e[1][0]))
            got = plain(c["elements"])
            require(got == want, "the window ending at {} is mapped with elements {}, expected {}", s["end"], got, want)
            prev = want

    def keeps(self, e):
        return {"none": lambda: False, "all": lambda: True, "even": lambda: e[1][0] % 2 == 0, "old": lambda: e[0] < self.case["cut"], "marked": lambda: e[1][1] in (3, "keep", 0)}[
            self.case["options"]["filter_fn"]
        ]()

    def check_diff(self):
        """current = previous + incoming - outgoing, each list in time order."""
        prev = []
        for s in self.processed():
            c = self.call(s, "map")
            require(c is not None, "the window ending at {} was not mapped", s["end"])
            cur, inc, out = plain(c["elements"]), plain(c["incoming"]), plain(c["outgoing"])
            was, now = set(idx(prev)), set(idx(cur))
            want_in = [e for e in cur if e[1][0] not in was]
            want_out = [e for e in prev if e[1][0] not in now]
            require(inc == want_in, "window ending at {}: incoming {}, expected {} (previous {}, current {})", s["end"], inc, want_in, prev, cur)
            require(out == want_out, "window ending at {}: outgoing {}, expected {} (previous {}, current {})", s["end"], out, want_out, prev, cur)
            for e in inc + cur + out:
                require(cur.count(e) <= 1, "element {} occurs twice in {}", e, cur)
            prev = cur


def same(a, b):
    return type(a) is type(b) and a == b


def stale_message(s):
    v = s["value"]
    require(isinstance(v, str) and "outdated" in v, "an event for a window older than the last one gives {!r}", v)
    require(s["dt"] in v and s["newest"][1] in v, "the message {!r} does not name {} and {}", v, s["dt"], s["newest"][1])


def quiet():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


class StreamCheck:
    QUICK = (400, 40)
    MIN_CASES = 40
    THOROUGH = (20000, 400)
    BATCH = 60
    SHRINK_S = 45
    PINNED = ()
    ASSUMPTIONS = (
        "pipelines run on Beam's local runners (bounded input, and streaming input with an advancing watermark); Beam decides the order in which windows arrive, the check follows it",
        "an event that arrives when some of its windows have been closed (C21, C22, C29) belongs to those still open, as Beam has it; elsewhere none arrives that late",
    )

    def go(self, case, **kw):
        from vchk import streams

        quiet()
        plan = {k: case[k] for k in ("faults", "fresh", "compile", "result", "away", "cut", "sampleset", "rich", "odd") if k in case}
        if case.get("attr"):
            plan["attr"] = getattr(streams, case["attr"])
        real = case.get("real")
        fns = (streams.map_pairs, streams.solve_exact, streams.unmap_energy) if real else (streams.map_tokens, streams.solve_tokens, streams.unmap_tokens)
        log, out = streams.run_pipeline(case, *fns, plan, **kw)
        return Run(case, log, out)

    def tags(self, case):
        return [case["algorithm"], "streaming" if case["streaming"] else "bounded"] + (["late"] if case["streaming"] and any(case.get("late", ())) else []) + (["reassigned"] if "input.reassign_timestamp" in case["options"] else [])


class C20(StreamCheck):
    PROPERTY = "C20"
    RULE = (
        "Generated event sequences (gaps, ties, disorder, times before the epoch, any values) through the pipelines of all five algorithms with generated window sizes and periods, bounded and streaming; each call of the "
        "mapping function must see exactly the events of its window (plus what the algorithm retains), in time order, with the arrival index, and every window with events is handled once. Non-trivial: at least three windows with events."
    )

    def strategy(self, tier):
        return stream_case(max_events=12 if tier == "quick" else 30)

    def run_case(self, case):
        r = self.go(case)
        r.check_windows()
        r.check_elements()
        return Info(nontrivial=len(r.windows) >= 3, tags=self.tags(case), weight=len(r.steps))


class C21(StreamCheck):
    PROPERTY = "C21"
    RULE = (
        "As C20, with injected failures of the user functions; at every step the incoming and outgoing lists must be exactly the difference between the elements of this step and of the previous one, in time order, "
        "and the same lists must reach the solving and unmapping functions. Non-trivial: some step has outgoing or (for the accumulating algorithms) incoming elements after the first."
    )
    PINNED = (
        {"algorithm": "Window", "options": {"window.size": 10, "window.period": 5}, "events": [[6.0, 1], [8.0, 2], [7.0, 3], [12.0, 4], [16.0, 5]], "streaming": True, "advance": [True], "late": [0, 4.06], "cut": 6, "faults": {}},
        {"algorithm": "Partial", "options": {"window.size": 10, "window.period": 5, "filter_fn": "even"}, "events": [[float(i), i] for i in range(14)], "streaming": True, "advance": [True], "cut": 6, "faults": {}},
        {"algorithm": "Partial", "options": {"window.size": 4, "window.period": 2, "filter_fn": "old"}, "events": [[float(i), i] for i in range(12)], "streaming": True, "advance": [True], "cut": 6, "faults": {}},
    )

    @st.composite
    def _s(draw, self, tier):
        case = draw(stream_case(min_events=2, max_events=12 if tier == "quick" else 30, late=True))
        case["faults"] = {}
        if draw(st.integers(0, 3)) == 0:
            for _ in range(draw(st.integers(1, 3))):
                case["faults"][f"{draw(st.integers(1, 6))}:{draw(st.sampled_from(['map', 'solve', 'unmap']))}"] = "value"
        return case

    def strategy(self, tier):
        return C21._s(self, tier)

    def run_case(self, case):
        r = self.go(case)
        r.check_diff()
        moved = 0
        for i, s in enumerate(r.processed()):
            c = r.call(s, "map")
            moved += i > 0 and bool(c["incoming"] or c["outgoing"])
            for fn in ("solve", "unmap"):
                d = r.call(s, fn)
                if d is not None:
                    for k in ("elements", "incoming", "outgoing"):
                        require(plain(d[k]) == plain(c[k]), "{} got {} {}, the mapping got {}", fn, k, d[k], c[k])
        return Info(nontrivial=moved > 0, tags=self.tags(case) + (["faults"] if case["faults"] else []), weight=len(r.steps))


class C22(StreamCheck):
    PROPERTY = "C22"
    RULE = (
        "Pipelines with failures injected into the mapping, solving and unmapping functions at generated steps, models changed in place or replaced, both model types, given and default solvers; each call must get the last model "
        "that was mapped and the last result that was solved, and a failure yields one message and nothing else. Non-trivial: at least two processed windows."
    )

    @st.composite
    def _s(draw, self, tier):
        case = draw(stream_case(min_events=2, max_events=12 if tier == "quick" else 30, late=True))
        case["faults"] = {}
        for _ in range(draw(st.integers(0, 3))):
            case["faults"][f"{draw(st.integers(1, 7))}:{draw(st.sampled_from(['map', 'solve', 'unmap']))}"] = draw(st.sampled_from(["value", "key", "boom", "zero", "stop", "lines", "assert", "os", "not"]))
        case["odd"] = {}
        if case["algorithm"] != "Attenuation":  # which reads the model itself
            for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
                case["odd"][str(draw(st.integers(1, 6)))] = draw(st.sampled_from(["none", "none", "text", "empty", "dict"]))
        case["fresh"] = draw(st.booleans())
        case["compile"] = draw(st.booleans())
        case["mtype"] = draw(st.sampled_from([None, "ising", "qubo", "qubo"]))
        case["solver"] = draw(st.sampled_from([None, "one", "two"]))
        case["sampleset"] = draw(st.sampled_from(["dict", "dict", "falsy", "list", "number", "text"]))
        case["rich"] = draw(st.booleans())
        return case

    def strategy(self, tier):
        return C22._s(self, tier)

    def run_case(self, case):
        from vchk import streams

        kw = {}
        if case["mtype"]:
            kw["initial_mtype"] = case["mtype"]
        if case["solver"]:
            kw["solver"] = streams.Token(case["solver"])
        r = self.go(case, **kw)
        r.check_windows()
        mtype = case["mtype"] or "ising"
        model = {"mtype": mtype, "offset": 0.0, "shapes": {}, "interactions": [], "constraints": [], "deleted": [], "fixed": []}
        sampleset = None
        n = 0
        for s in r.steps:
            if s["stale"]:
                stale_message(s)
                continue
            n += 1
            what = f"window ending at {s['end']} (step {s['step']})"
            failed = [w for w in ("map", "solve", "unmap") if f"{s['step']}:{w}" in case["faults"]][:1]
            names = [c["fn"] for c in s["calls"]]
            want = ["map", "solve", "unmap"]
            if failed:
                want = want[: want.index(failed[0]) + 1]
            require(names == want, "{}: called {}, expected {}", what, names, want)
            c = r.call(s, "map")
            require(c["prev_model"] == model, "{}: the mapping got the model {}, the last one mapped is {}", what, c["prev_model"], model)
            require(same(c["prev_sampleset"], sampleset), "{}: the mapping got the result {}, the last one solved is {}", what, c["prev_sampleset"], sampleset)
            if failed != ["map"]:
                model = c["model"]
                d = r.call(s, "solve")
                require(d["model"] == model, "{}: the solving got the model {}, the mapping returned {}", what, d["model"], model)
                require(same(d["prev_sampleset"], sampleset), "{}: the solving got the result {}, the last one is {}", what, d["prev_sampleset"], sampleset)
                require(d["solver"] == (case["solver"] or "LocalSolver"), "{}: the solver is {}, given {}", what, d["solver"], case["solver"])
                if failed != ["solve"]:
                    sampleset = streams.solved(s["step"], case["sampleset"])
                    u = r.call(s, "unmap")
                    require(same(u["sampleset"], sampleset), "{}: the unmapping got {}, the solving returned {}", what, u["sampleset"], sampleset)
            if failed:
                err = streams.ERRORS[case["faults"][f"{s['step']}:{failed[0]}"]](f"injected {failed[0]} {s['step']}")
                head = f"Failed to {failed[0]}: {err}"
                require(isinstance(s["value"], str) and s["value"].startswith(head), "{}: output {!r}, expected {!r} ...", what, s["value"], head)
            else:
                require(s["value"] == streams.unmapped(s["step"], "str"), "{}: output {!r}", what, s["value"])
        hit = [k for k in case["faults"] if int(k.split(":")[0]) <= n]
        return Info(nontrivial=n >= 2, tags=self.tags(case) + sorted({"fail-" + k.split(":")[1] for k in hit}) + [mtype], weight=n)


class C23(StreamCheck):
    PROPERTY = "C23"
    RULE = (
        "Attenuation pipelines over models kept up to date with the events (variables deleted or interactions removed as they leave): at each solve, the scale of every live interaction must be the documented linear function of its reference time, "
        "and the compiled energy must be coefficient times scale. Non-trivial: some step has at least three different reference times."
    )

    @st.composite
    def _s(draw, self, tier):
        case = draw(stream_case(algorithms=("Attenuation",), values=st.integers(1, 5), min_events=1, max_events=9, whole=True))
        case["real"] = True
        case["attr"] = draw(st.sampled_from(["newest", "oldest"]))
        case["exact"] = not gen.LARGE
        case["away"] = draw(st.sampled_from(["delete", "remove"]))
        return case

    def strategy(self, tier):
        return C23._s(self, tier)

    def run_case(self, case):
        from sawatabi.solver import LocalSolver

        r = self.go(case, solver=LocalSolver(exact=case.get("exact", True)))
        lo = case["options"]["attenuation.min_scale"]
        col = 3 if case["options"]["attenuation.key"] == "attributes.t" else 4
        r.check_windows()
        rich = 0
        last = {}
        for s in r.steps:
            if s["stale"]:
                continue
            d = r.call(s, "solve")
            require(d is not None, "the window ending at {} was not solved: {!r}", s["end"], s["value"])
            ts = [row[col] for row in d["rows"]]
            want, poly = {}, {}
            if ts and min(ts) < max(ts):
                for row in d["rows"]:
                    want[row[0]] = lo + (1.0 - lo) * (row[col] - min(ts)) / (max(ts) - min(ts))
                    require(close(row[2], want[row[0]]), "window ending at {}: the scale of {} with time {} in [{}, {}] is {}, expected {}", s["end"], row[0], row[col], min(ts), max(ts), row[2], want[row[0]])
            for row in d["rows"]:
                if row[0] not in want:
                    require(close(row[2], last.get(row[0], 1.0)), "window ending at {}: all times are equal, the scale of {} went from {} to {}", s["end"], row[0], last.get(row[0], 1.0), row[2])
                last[row[0]] = row[2]
                padd(poly, tuple(sorted(row[0].split("*"))), -row[1] * row[2])
            for k in set(poly) | set(d["poly"]):
                if k:
                    require(close(poly.get(k, 0.0), d["poly"].get(k, 0.0), 10.0), "window ending at {}: the energy has {} at {}, coefficient times scale is {}", s["end"], d["poly"].get(k), k, poly.get(k))
            rich += len(set(ts)) >= 3
        return Info(nontrivial=rich > 0, tags=self.tags(case) + [case["away"], case["options"]["attenuation.key"]], weight=len(r.steps))


class C24(StreamCheck):
    PROPERTY = "C24"
    RULE = (
        "All algorithms with generated combinations of the output options (timestamp, prefix, suffix), result types and failures: exactly one output per window with events, being prefix + [time of the window] + result + suffix as asked. "
        "Non-trivial: at least one formatting option and two windows."
    )

    @st.composite
    def _s(draw, self, tier):
        case = draw(stream_case(min_events=1, max_events=10 if tier == "quick" else 30))
        o = case["options"]
        if draw(st.booleans()):
            o["output.with_timestamp"] = True
        if draw(st.booleans()):
            o["output.prefix"] = draw(st.sampled_from(["<<\n", "p", "", "%s {} ", "é "]))
        if draw(st.booleans()):
            o["output.suffix"] = draw(st.sampled_from(["\n>>\n", "s", "", "{}%d"]))
        text = "output.prefix" in o or "output.suffix" in o
        case["result"] = draw(st.sampled_from(["str", "lines", "empty"] + ([] if text and "output.with_timestamp" not in o else ["number", "dict"])))
        case["faults"] = {f"{draw(st.integers(1, 4))}:{draw(st.sampled_from(['map', 'solve', 'unmap']))}": "boom"} if draw(st.integers(0, 4)) == 0 else {}
        return case

    def strategy(self, tier):
        return C24._s(self, tier)

    def run_case(self, case):
        from vchk import streams

        r = self.go(case)
        r.check_outputs()
        o = case["options"]
        pre, post = o.get("output.prefix", ""), o.get("output.suffix", "")
        for s in r.steps:
            v = s["value"]
            body = streams.unmapped(s["step"], case["result"]) if not s["stale"] else None
            failed = [w for w in ("map", "solve", "unmap") if not s["stale"] and f"{s['step']}:{w}" in case["faults"]][:1]
            stamp = f"[{s['dt']}] " if "output.with_timestamp" in o else ""
            if not s["stale"] and not failed:
                want = body if not (pre or post or stamp) and "output.prefix" not in o and "output.suffix" not in o else f"{pre}{stamp}{body}{post}"
                require(v == want and type(v) is type(want), "window ending at {}: output {!r}, expected {!r}", s["end"], v, want)
                continue
            head = pre + stamp + (f"Failed to {failed[0]}: injected {failed[0]} {s['step']}" if failed else "The received event is outdated")
            require(isinstance(v, str) and v.startswith(head) and v.endswith(post), "window ending at {}: output {!r} does not start with {!r} and end with {!r}", s["end"], v, head, post)
        fmt = [k for k in o if k.startswith("output.")]
        return Info(nontrivial=len(r.windows) >= 2 and bool(fmt), tags=self.tags(case) + fmt + [case["result"]], weight=len(r.steps))


class C29(StreamCheck):
    PROPERTY = "C29"
    RULE = (
        "A real model (one variable per event, linear and pairwise terms) is kept up to date from the incoming and outgoing events only, across windows and saved state; at each step its compiled energy must equal the one built from scratch from the "
        "elements of that step, and the exact solver's answer must be its ground state. Non-trivial: variables left and others came after the first step."
    )

    @st.composite
    def _s(draw, self, tier):
        case = draw(stream_case(algorithms=("Window", "Window", "Delta", "Incremental", "Partial", "Partial"), values=st.integers(0, 5), min_events=1, max_events=9, whole=True, late=True))
        if case["algorithm"] in ("Window", "Delta") and draw(st.integers(0, 3)) == 0:
            # a longer stream: more than ten variables over time, few at once
            t = case["events"][-1][0]
            for _ in range(draw(st.integers(4, 8))):
                t += draw(st.sampled_from([1, 2, 3, 1.5]))
                case["events"].append([t, draw(st.integers(0, 5))])
        case["real"] = True
        case["away"] = draw(st.sampled_from(["delete", "remove"]))
        case["mtype"] = draw(st.sampled_from(["ising", "qubo"]))
        case["exact"] = not gen.LARGE
        return case

    def strategy(self, tier):
        return C29._s(self, tier)

    def run_case(self, case):
        from sawatabi.solver import LocalSolver

        r = self.go(case, solver=LocalSolver(exact=case.get("exact", True)), initial_mtype=case["mtype"])
        r.check_windows()
        moved = 0
        for i, s in enumerate(r.processed()):
            c, d, u = r.call(s, "map"), r.call(s, "solve"), r.call(s, "unmap")
            if d is None or (u is None and "poly" not in d):
                raise Violation(f"window ending at {s['end']}: {s['value']!r}")
            es = plain(c["elements"])
            poly = {}
            for k, (t, (j, v)) in enumerate(es):
                padd(poly, (f"x[{j}]",), -float(v))
                for t2, (j2, v2) in es[:k]:
                    padd(poly, tuple(sorted((f"x[{j}]", f"x[{j2}]"))), float(v) * float(v2))
            for k in set(poly) | set(d["poly"]):
                require(close(poly.get(k, 0.0), d["poly"].get(k, 0.0), 10.0), "window ending at {}: the maintained model has {} at {}, built from the elements {} it is {}", s["end"], d["poly"].get(k, 0.0), k, es, poly.get(k, 0.0))
            moved += i > 0 and bool(c["incoming"]) and bool(c["outgoing"])
            present = sorted({x for k, v in poly.items() for x in k if abs(v) > 1e-12})
            if present and len(present) <= 9 and case.get("exact", True):
                require(u is not None, "window ending at {}: no result: {!r}", s["end"], s["value"])
                vals = (-1, 1) if case["mtype"] == "ising" else (0, 1)
                best = _minimum(poly, present, vals)
                require(close(u["energy"], best, 100.0), "window ending at {}: the result has energy {}, the ground state {}", s["end"], u["energy"], best)
                require(s["value"] == f"energy {u['energy']:.6f}", "window ending at {}: output {!r}", s["end"], s["value"])
        return Info(nontrivial=moved > 0, tags=self.tags(case) + [case["away"], case["mtype"]], weight=len(r.steps))


def _minimum(poly, labels, vals):
    import itertools

    return min(evaluate({k: v for k, v in poly.items() if abs(v) > 1e-12}, dict(zip(labels, t))) for t in itertools.product(vals, repeat=len(labels)))


CHECKS = [C20(), C21(), C22(), C23(), C24(), C29()]
