"""The number partitioning applications of sample/, by their functions and as whole programs."""
import ast
import contextlib
import datetime
import glob
import importlib.util
import io
import os
import re
import shutil
import sys
import tempfile

from hypothesis import strategies as st

from vchk import gen
from vchk.boot import REPO, _SourceOnlyLoader
from vchk.checks_stream import quiet, windows
from vchk.engine import Info, require
from vchk.model import bqm_poly, close

APPS = {"npp_window": "Window", "npp_delta": "Delta", "npp_incremental": "Incremental", "npp_partial": "Partial", "npp_attenuation": "Attenuation"}


def load(name):
    """A module of sample/algorithm, from its source text."""
    if name not in sys.modules:
        if name != "npp_window":
            load("npp_window")  # which the others import
        path = os.path.join(REPO, "sample", "algorithm", name + ".py")
        spec = importlib.util.spec_from_file_location(name, path, loader=_SourceOnlyLoader(name, path))
        module = importlib.util.module_from_spec(spec)
        sys.modules[name] = module
        spec.loader.exec_module(module)
    return sys.modules[name]


BLOCK = re.compile(
    r"INPUT -->\n\s*(\[[^\n]*\])\n\s*\(length: (\d+)\)\nSOLUTION ==>\n\s*Set\(\+\) : sum=(\d+), elements=(\[[^\n]*\])\n\s*Set\(-\) : sum=(\d+), elements=(\[[^\n]*\])\n\s*diff   : (\d+)"
)


def check_answer(text, numbers, what):
    """The text shows the numbers and divides them in two."""
    m = BLOCK.search(text)
    require(m is not None, "{}: no partition of {} in {!r}", what, numbers, text)
    shown, length, sp, p, sn, n, diff = (ast.literal_eval(g) for g in m.groups())
    require(shown == numbers and length == len(numbers), "{}: the input is shown as {} of length {}, it is {}", what, shown, length, numbers)
    require(sorted(p + n) == sorted(numbers), "{}: {} and {} are no partition of {}", what, p, n, numbers)
    require(sp == sum(p) and sn == sum(n) and diff == abs(sum(p) - sum(n)), "{}: {} and {} are reported with sums {} and {} and difference {}", what, p, n, sp, sn, diff)
    return diff


def best_difference(numbers):
    reach = 1
    for v in numbers:
        reach |= reach << v
    total = sum(numbers)
    return min(abs(total - 2 * s) for s in range(total + 1) if reach >> s & 1)


class C31:
    PROPERTY = "C31"
    QUICK = (1500, 34)
    THOROUGH = (20000, 400)
    BATCH = 40
    MIN_CASES = 20
    RULE = (
        "Files of numbers (with lines that are none) through the five number partitioning programs, their printed partitions compared with the numbers of each window by definition; and the functions of these programs driven "
        "window by window over generated streams and geometries, the maintained model compared with the sum of products over all pairs and the exact solver's answer with the smallest difference by dynamic programming. "
        "Non-trivial: at least two windows with two or more numbers."
    )
    ASSUMPTIONS = ("numbers are positive and no two have the same time, as when read from a file", "the programs run on Beam's local runner")
    PINNED = ({"kind": "app", "app": "npp_window", "lines": ["47", "60", "87", "60", "91", "71", "28"]},)

    @st.composite
    def _s(draw, self):
        kind = draw(st.sampled_from(["fold"] * 5 + ["app"]))
        top = draw(st.sampled_from([99, 99, 3, 1, 120, 5000]))
        if kind == "app":
            n = draw(st.sampled_from([1, 2, 3, 9, 10, 11, 12, 16, 21, 25, 33])) if not gen.LARGE else draw(st.integers(50, 120))
            lines = []
            for _ in range(n):
                lines.append(str(draw(st.integers(1, top))))
                if draw(st.integers(0, 11)) == 0:
                    lines.append(draw(st.sampled_from(["", "x", "-3", "4.5", "# 7", " 8"])))
            return {"kind": kind, "app": draw(st.sampled_from(sorted(APPS))), "lines": lines}
        algorithm = draw(st.sampled_from(["Window", "Window", "Incremental", "Partial"]))
        size, period = draw(st.sampled_from([(10, 5), (4, 2), (3, 1), (5, 5), (6, 2), (5, 3), (7, 2), (4, 4)]))
        n, t, events = draw(st.integers(1, 12 if algorithm == "Incremental" else 25)), draw(st.integers(0, 6)), []
        for _ in range(n):
            events.append([t, draw(st.integers(1, min(top, 500)))])
            t += draw(st.sampled_from([1, 1, 1, 2, 0.5, 6, 13]))
        options = {"incremental.size": size} if algorithm == "Incremental" else {"window.size": size, "window.period": period}
        return {"kind": kind, "algorithm": algorithm, "options": options, "events": events, "keep": draw(st.integers(1, top))}

    def strategy(self, tier):
        return C31._s(self)

    def run_case(self, case):
        quiet()
        return self.app(case) if case["kind"] == "app" else self.fold(case)

    def fold(self, case):
        from sawatabi.model import LogicalModel
        from sawatabi.solver import LocalSolver

        app = load("npp_window")
        model, sampleset, prev, real = LogicalModel(mtype="ising"), None, [], 0
        w = windows(case)
        for end in sorted(w):
            cur = list(w[end])
            if case["algorithm"] == "Incremental":
                cur = prev + cur
            elif case["algorithm"] == "Partial":
                cur = [e for e in prev if e[1][1] >= case["keep"] and e not in cur] + cur
            cur.sort(key=lambda e: e[0])
            inc, out = [e for e in cur if e not in prev], [e for e in prev if e not in cur]
            what = f"window ending at {end}"
            args = (list(cur), list(inc), list(out))
            model = app.npp_mapping(model, sampleset, *args)
            got = bqm_poly(model.to_physical().to_bqm())
            want = {}
            for i, (_, (a, v)) in enumerate(cur):
                for _, (b, u) in cur[:i]:
                    want[tuple(sorted((f"x[{a}]", f"x[{b}]")))] = float(v) * float(u)
            for k in set(want) | set(got):
                require(close(want.get(k, 0.0), got.get(k, 0.0), 1.0 + abs(want.get(k, 0.0))), "{}: the model of {} has {} at {}, expected {}", what, cur, got.get(k, 0.0), k, want.get(k, 0.0))
            numbers = [e[1][1] for e in cur]
            if len(cur) >= 2:
                exact = len(cur) <= 9
                sampleset = app.npp_solving(LocalSolver(exact=exact), model, sampleset, *args)
                diff = check_answer(app.npp_unmapping(sampleset, *args), numbers, what)
                if exact:
                    require(diff == best_difference(numbers), "{}: the exact solver's partition of {} differs by {}, the best by {}", what, numbers, diff, best_difference(numbers))
                real += 1
            require(args == (cur, inc, out), "{}: the functions changed the lists they were given", what)
            prev = cur
        return Info(nontrivial=real >= 2, tags=["fold", case["algorithm"]], weight=len(w))

    def app(self, case):
        import sawatabi.algorithm

        app = load(case["app"])
        name = APPS[case["app"]]
        algorithm = getattr(sawatabi.algorithm, name)
        seen = []
        create = algorithm.create_pipeline

        def record(*args, **kw):
            seen.append(kw["algorithm_options"] if "algorithm_options" in kw else args[0])
            return create(*args, **kw)

        scratch = tempfile.mkdtemp(prefix="vchk-app-")
        own = "create_pipeline" in vars(algorithm)
        saved = vars(algorithm).get("create_pipeline")
        try:
            with open(os.path.join(scratch, "in.txt"), "w") as f:
                f.write("".join(x + "\n" for x in case["lines"]))
            algorithm.create_pipeline = record
            with contextlib.redirect_stdout(io.StringIO()):
                getattr(app, case["app"])(input_path=os.path.join(scratch, "in.txt"), output_path=os.path.join(scratch, "out"))
            text = ""
            for path in sorted(glob.glob(os.path.join(scratch, "out*"))):
                with open(path) as f:
                    text += f.read()
        finally:
            if own:
                algorithm.create_pipeline = saved
            else:
                del algorithm.create_pipeline
            shutil.rmtree(scratch, ignore_errors=True)
        require(len(seen) == 1, "{} made {} pipelines of {}", case["app"], len(seen), name)
        options = seen[0]
        numbers = [int(x) for x in case["lines"] if re.fullmatch("[0-9]+", x)]
        w = windows({"options": options, "events": [[None, v] for v in numbers]})
        blocks = {}
        for block in text.split("<<<\n")[1:]:
            require(block.rstrip("\n").endswith(">>>"), "{}: the output {!r} is not closed", case["app"], block)
            m = re.match(r"\[(\d+-\d+-\d+ \d+:\d+:\d+(?:\.\d+)?)\]", block)
            require(m is not None, "{}: no time in {!r}", case["app"], block)
            t = (datetime.datetime.fromisoformat(m.group(1)) - datetime.datetime(1970, 1, 1)).total_seconds()
            end = [x for x in w if abs(x - t) <= 0.0011]
            require(len(end) == 1 and end[0] not in blocks, "{}: an output has the time {}, windows end at {}", case["app"], m.group(1), sorted(w))
            blocks[end[0]] = block
        require(sorted(blocks) == sorted(w), "{}: outputs for windows ending at {}, windows with numbers end at {}", case["app"], sorted(blocks), sorted(w))
        prev, real = [], 0
        for end in sorted(w):
            if "outdated" in blocks[end]:  # the runner decides the order of windows
                continue
            cur = list(w[end])
            if name == "Incremental":
                cur = prev + cur
            elif name == "Partial":
                cur = [e for e in prev if options["filter_fn"](e) and e not in cur] + cur
            cur.sort(key=lambda e: e[0])
            what = f"{case['app']}, window ending at {end}"
            if len(cur) >= 2:
                check_answer(blocks[end], [e[1][1] for e in cur], what)
                real += 1
            else:
                require("Failed to solve" in blocks[end], "{}: a single number gives {!r}", what, blocks[end])
            prev = cur
        return Info(nontrivial=real >= 2, tags=["app", case["app"]], weight=len(w))


CHECKS = [C31()]
