"""Checks of imports from PyQUBO, placeholders, input/output transforms and the utilities."""
import contextlib
import io
import itertools
import json
import os
import shutil
import tempfile
import time

from hypothesis import strategies as st

from vchk import gen
from vchk.engine import HarnessError, Info, Violation, require
from vchk.gen import Profile
from vchk.model import Real, Ref, all_labels, bqm_poly, check_physical, close, evaluate, parse, tgt

# ---------------------------------------------------------------- C10: PyQUBO


def degree(t):
    if isinstance(t, (int, float)):
        return 0
    if isinstance(t, str):
        return 1
    if t[0] in ("+", "-"):
        return max(degree(t[1]), degree(t[2]))
    if t[0] == "*":
        return degree(t[1]) + degree(t[2])
    if t[0] == "**":
        return degree(t[1]) * t[2]
    return degree(t[1])


def has_variable(t):
    if isinstance(t, (int, float)):
        return False
    if isinstance(t, str):
        return True
    return any(has_variable(u) for u in t[1:] if not isinstance(u, int) or t[0] != "**")


def calc(t, leaf):
    if isinstance(t, (int, float)):
        return t
    if isinstance(t, str):
        return leaf(t)
    if t[0] == "+":
        return calc(t[1], leaf) + calc(t[2], leaf)
    if t[0] == "-":
        return calc(t[1], leaf) - calc(t[2], leaf)
    if t[0] == "*":
        return calc(t[1], leaf) * calc(t[2], leaf)
    if t[0] == "**":
        return calc(t[1], leaf) ** t[2]
    if t[0] == "neg":
        return -calc(t[1], leaf)
    raise HarnessError(str(t))


NUM = st.one_of(st.integers(-4, 4), st.integers(-12, 12).map(lambda i: i / 4.0))


@st.composite
def affine(draw, labels):
    t = draw(st.sampled_from(labels))
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.sampled_from(["+", "-", "+", "scale", "neg", "const"]))
        if k in "+-":
            t = [k, t, draw(st.sampled_from(labels))]
        elif k == "scale":
            t = ["*", draw(NUM), t]
        elif k == "neg":
            t = ["neg", t]
        else:
            t = ["+", t, draw(NUM)]
    return t


@st.composite
def quadratic_expr(draw, labels):
    t = None
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["prod", "square", "lin", "const"]))
        if k == "prod":
            u = ["*", draw(affine(labels)), draw(affine(labels))]
        elif k == "square":
            u = ["**", draw(affine(labels)), 2]
        elif k == "lin":
            u = draw(affine(labels))
        else:
            u = draw(NUM)
        if draw(st.integers(0, 2)) == 0 and not isinstance(u, (int, float)):
            u = ["*", draw(NUM), u]
        t = u if t is None else [draw(st.sampled_from(["+", "-"])), t, u]
    if not has_variable(t):
        t = ["+", t, draw(st.sampled_from(labels))]
    return t


class C10:
    PROPERTY = "C10"
    QUICK = (6000, 32)
    THOROUGH = (100000, 300)
    ASSUMPTIONS = ("expressions of degree at most 2 without placeholders (PyQUBO compiles those with placeholders differently in the installed version, the import then fails before and after)",)
    RULE = (
        "Generated PyQUBO expressions of degree at most two (products and squares of affine forms over one- and two-dimensional arrays, given as an expression or as a compiled model, over binaries or "
        "spins) are imported into QUBO and Ising models which may already hold other terms; the compiled energy is compared with the expression on every assignment. Non-trivial: a genuine product."
    )
    PINNED = (
        {"mtype": "ising", "vartype": "SPIN", "shapes": [["x", [2]]], "expr": ["+", ["*", "x[0]", "x[1]"], "x[0]"], "compiled": False, "prior": [], "constraint": False},
        {"mtype": "ising", "vartype": "SPIN", "shapes": [["x", [2]]], "expr": ["**", ["+", "x[0]", "x[1]"], 2], "compiled": True, "prior": [["w[0]", 2.0]], "constraint": False},
    )

    @st.composite
    def _s(draw, self):
        shapes = draw(st.sampled_from([[["x", [2]]], [["x", [4]]], [["x", [2, 2]]], [["x", [2]], ["y", [1, 2]]], [["xy", [3]], ["y", [2]]], [["x", [12]]], [["x", [1, 1, 2]]]]))
        labels = all_labels({k: v for k, v in shapes})
        if len(labels) > 5:
            labels = labels[:1] + labels[1:2] + labels[-2:]
        expr = draw(quadratic_expr(labels))
        return {
            "mtype": draw(st.sampled_from(["qubo", "ising"])),
            "vartype": draw(st.sampled_from(["BINARY", "SPIN"])),
            "shapes": shapes,
            "expr": expr,
            "compiled": draw(st.booleans()),
            "prior": draw(st.lists(st.sampled_from([["w[0]", 2.0], ["w[1]", -0.5]] + [[x, 1.5] for x in labels]), unique_by=lambda e: e[0], max_size=3)),
            "offset": draw(st.sampled_from([0.0, 0.0, 2.5, -3])),
            "second": draw(quadratic_expr(["v[0]", "v[1]"])) if draw(st.integers(0, 3)) == 0 else None,
            "constraint": draw(st.integers(0, 3)) == 0,
        }

    def strategy(self, tier):
        return C10._s(self)

    def run_case(self, case):
        import pyqubo
        from sawatabi.model import LogicalModel

        shapes = {k: v for k, v in case["shapes"]}
        arrays = {k: pyqubo.Array.create(k, shape=tuple(v), vartype=case["vartype"]) for k, v in dict(shapes, v=[2]).items()}
        offset, second = case.get("offset", 0.0), case.get("second")

        def leaf(lab):
            name, idx = parse(lab)
            return arrays[name][idx] if len(idx) > 1 else arrays[name][idx[0]]

        h = calc(case["expr"], leaf)
        if case["constraint"]:
            h = pyqubo.Constraint(h, "c")
        given = h.compile() if case["compiled"] else h

        def make():
            m = LogicalModel(mtype=case["mtype"])
            for k, v in shapes.items():
                m.variables(k, shape=tuple(v))
            m.variables("w", shape=(2,))
            m.variables("v", shape=(2,))
            m.offset(offset)
            for lab, c in case["prior"]:
                m.add_interaction(tgt(m, lab), name=f"prior {lab}", coefficient=c * 2, scale=0.5, timestamp=7)
            m.from_pyqubo(given)
            if second is not None:
                m.from_pyqubo(calc(second, leaf))
            sizes = {k: list(a.shape) for k, a in m.get_variables().items()}
            require(sizes == dict(shapes, w=[2], v=[2]), "the variables became {}, declared {}", sizes, shapes)
            for lab, c in case["prior"]:
                row = m.get_attributes(name=f"prior {lab}")
                require(len(m.select_interaction(f"name == 'prior {lab}' and timestamp == 7 and scale == 0.5 and coefficient == {c * 2}")) == 1, "the interaction {} was changed: {}", lab, row)
            return m

        used = {x for x in _leaves(case["expr"])} | {x for x, _ in case["prior"] if x[0] != "w"} | set(_leaves(second) if second else [])
        labels = sorted(used)
        n = 0
        # the second import shows that the first left the given object alone
        for what in ("", " (second import of the same object)"):
            m = make()
            poly = bqm_poly(m.to_physical().to_bqm())
            vals = (0, 1) if case["mtype"] == "qubo" else (-1, 1)
            for t in itertools.product((0, 1), repeat=len(labels)):
                mine = {x: vals[b] for x, b in zip(labels, t)}
                mine.update({"w[0]": vals[1], "w[1]": vals[0]})
                theirs = {x: (b if case["vartype"] == "BINARY" else 2 * b - 1) for x, b in zip(labels, t)}
                want = calc(case["expr"], theirs.__getitem__) - sum(c * mine[x] for x, c in case["prior"]) + offset
                if second is not None:
                    want += calc(second, theirs.__getitem__)
                unknown = {x for k in poly for x in k} - set(mine)
                require(not unknown, "variables {} appeared", unknown)
                got = evaluate(poly, mine)
                require(close(got, want, sum(abs(v) for v in poly.values())), "energy of {} is {}, the expression has {}{}", mine, got, want, what)
                n += 1
        return Info(nontrivial=degree(case["expr"]) == 2, tags=[case["mtype"] + "/" + case["vartype"], "compiled" if case["compiled"] else "expression"] + (["prior"] if case["prior"] else []), weight=n)


def _leaves(t):
    if isinstance(t, str):
        yield t
    elif isinstance(t, list):
        for u in t[1:]:
            yield from _leaves(u)


# ---------------------------------------------------------------- C11: placeholders

PH = ["A", "B", "a_long name"]
PHNUM = st.sampled_from([1.0, 2.0, -0.5, 3, 0.25, -2, 4.0])


@st.composite
def ph_expr(draw):
    t = draw(st.sampled_from(PH))
    for _ in range(draw(st.integers(0, 2))):
        k = draw(st.sampled_from(["scale", "plus", "ph+", "ph*", "rscale"]))
        if k == "scale":
            t = ["*", draw(PHNUM), t]
        elif k == "rscale":
            t = ["*", t, draw(PHNUM)]
        elif k == "plus":
            t = ["+", t, draw(PHNUM)]
        elif k == "ph+":
            t = ["+", t, ["*", draw(PHNUM), draw(st.sampled_from(PH))]]
        else:
            t = ["*", t, draw(st.sampled_from(PH))] if isinstance(t, str) else t
    return {"x": t}


def map_values(op, fn):
    """Applies fn to every coefficient, scale and offset of an operation."""
    if op[0] in ("add", "upd"):
        return op[:3] + [fn(op[3]), fn(op[4])] + op[5:]
    if op[0] == "off":
        return ["off", fn(op[1])]
    if op[0] == "merge":
        return ["merge", op[1], [map_values(o, fn) for o in op[2]]]
    return op


def _feed_inner(op, feed):
    if op[0] == "merge":
        return ["merge", op[1], [_feed_inner(o, feed) for o in op[2]]]
    return ["phys", feed] if op[0] == "phys" else op


def to_number(feed):
    return lambda v: calc(v["x"], feed.__getitem__) if isinstance(v, dict) else v


def to_placeholder(v):
    import pyqubo

    return calc(v["x"], pyqubo.Placeholder) if isinstance(v, dict) else v


class C11:
    PROPERTY = "C11"
    LARGE = False  # PyQUBO takes very long for large sums of placeholders
    QUICK = (6000, 32)
    THOROUGH = (60000, 300)
    ASSUMPTIONS = ("placeholders are given in add_interaction, update_interaction and offset, as (sums and products of) PyQUBO placeholders",)
    RULE = (
        "Histories (add, update, remove, fix, delete, conversions, merges, constraints) in which coefficients, scales and offsets are placeholder expressions; the model is compiled several times "
        "with different values and each result compared with the reference model built from the substituted numbers. Non-trivial: a placeholder occurs and two different value sets are used."
    )
    PROFILE = Profile(
        {"append": 1, "add": 8, "upd": 3, "rem": 2, "off": 1, "del": 1, "fix": 1, "con": 1, "ising": 1, "qubo": 1, "merge": 1, "phys": 3}, max_ops=9, max_vars=4, coef=gen.coef_exact, min_ops=2, start=("add",), focus=("ising", "qubo", "fix", "merge", "upd")
    )
    PINNED = (
        {"mtype": "ising", "ops": [["var", "x", [2]], ["add", "x[0]", None, 1.0, None, None, None], ["upd", "x[0]", None, {"x": "A"}, None, None, None]], "feeds": [{"A": 3, "B": 1, "a_long name": 1}, {"A": 1, "B": 1, "a_long name": 1}]},
    )

    @st.composite
    def _s(draw, self):
        case = draw(gen.history(self.PROFILE))

        def ph(v):
            if v is None or draw(st.integers(0, 2)) == 0:
                return v
            return draw(ph_expr())

        case["ops"] = [map_values(op, ph) for op in case["ops"]]
        case["feeds"] = [{k: draw(PHNUM) for k in PH} for _ in range(draw(st.integers(2, 3)))]
        # with which values the model is compiled in between
        case["ops"] = [[op[0], draw(st.integers(0, 1))] if op[0] == "phys" else op for op in case["ops"]]
        return case

    def strategy(self, tier):
        return C11._s(self)

    def run_case(self, case):
        real = Real(case["mtype"])
        refs = [Ref(case["mtype"]) for _ in case["feeds"]]
        known, tags = set(), set()
        for i, op in enumerate(case["ops"]):
            tags.add(op[0])
            if op[0] == "phys":
                feed = case["feeds"][op[1]]
                check_physical(real.m.to_physical(placeholder=dict(feed)), refs[op[1]], known, f"compiled with {feed} after operation {i}")
                for ref in refs:
                    ref.apply(["phys"])
                continue
            real.apply(_feed_inner(map_values(op, to_placeholder), case["feeds"][0]))
            for ref, feed in zip(refs, case["feeds"]):
                ref.apply(map_values(op, to_number(feed)))
        for rnd in range(2):
            for ref, feed in zip(refs, case["feeds"]):
                given = dict(feed)
                phys = real.m.to_physical(placeholder=given)
                require(given == feed, "to_physical changed the given placeholder values")
                check_physical(phys, ref, known, f"compiled with {feed}")
                for r in refs:
                    r.apply(["phys"])
        used = json.dumps(case["ops"]).count('{"x":')
        return Info(nontrivial=used > 0 and case["feeds"][0] != case["feeds"][1], tags=sorted(tags), known=known, weight=2 * len(refs))


# ---------------------------------------------------------------- C25: input and output


WORD = st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=0x24F, blacklist_categories=("Cc", "Cs"), blacklist_characters="\x85\x1c\x1d\x1e"), max_size=8)
LINE = st.one_of(
    st.integers(0, 10**6).map(str),
    st.integers(0, 2**63 - 1).map(str),
    st.integers(0, 99).map(lambda i: f"{i:05d}"),
    st.sampled_from(["", " ", "-5", "+5", "5 ", " 5", "1.5", "1e3", "0x10", "12a", "a12", "1_000", "1,000", "٣", "²", "５", "0", "00", "#1", "1 2", "5\t"]),
    WORD,
)
JSONV = st.recursive(
    st.one_of(st.integers(-(2**53), 2**53), st.booleans(), st.none(), WORD, st.floats(-1e9, 1e9, allow_nan=False)),
    lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(WORD, c, max_size=3)),
    max_leaves=6,
)


class C25:
    PROPERTY = "C25"
    QUICK = (800, 32)
    THOROUGH = (5000, 300)
    BATCH = 100
    ASSUMPTIONS = ("Pub/Sub itself is replaced by a stand-in source and sink; lines contain no line separators", "every line of a JSON input is a JSON document", "numbers below 2**63 (Beam's integer coder)")
    RULE = (
        "Generated text files, JSON-lines files and Pub/Sub messages are read, and generated values are written to text, stdout and Pub/Sub, each through a Beam pipeline; the elements are compared with "
        "what a plain reading of the lines gives (a line of ASCII digits only is a number, every other line is skipped). Non-trivial: at least one element passes and, for numbers, at least one is filtered out."
    )

    @st.composite
    def _s(draw, self):
        kind = draw(st.sampled_from(["number", "number", "json", "text", "write", "stdout", "pubsub-number", "pubsub-json", "pubsub-text", "pubsub-write"]))
        case = {"kind": kind, "files": draw(st.integers(1, 2)) if kind in ("number", "json", "text") else 1, "newline": draw(st.booleans())}
        if "json" in kind:
            case["lines"] = [json.dumps(v, ensure_ascii=draw(st.booleans())) for v in draw(st.lists(JSONV, min_size=300 * gen.LARGE, max_size=320 * gen.LARGE + 6))]
        elif "write" in kind or kind == "stdout":
            case["lines"] = draw(st.lists(st.one_of(WORD, st.integers(0, 99).map(str)), min_size=800 * gen.LARGE, max_size=850 if gen.LARGE else 6 if draw(st.integers(0, 5)) else 30))
            if kind in ("write", "stdout") and draw(st.integers(0, 2)) == 0:
                # elements need not be text
                case["lines"] = draw(st.lists(st.one_of(st.integers(-99, 10**12), st.sampled_from([1.5, True, None, [1, "a"], {"k": 0}, "t", -0.0])), min_size=1, max_size=8))
        else:
            case["lines"] = draw(st.lists(LINE, min_size=800 * gen.LARGE, max_size=850 if gen.LARGE else 10 if draw(st.integers(0, 5)) else 40))
        case["sub"] = draw(st.booleans())
        case["name"] = draw(st.sampled_from(["topic-1", "abc", "T_est"]))
        return case

    def strategy(self, tier):
        return C25._s(self)

    def run_case(self, case):
        d = tempfile.mkdtemp(prefix="vchk-io-")
        try:
            return self._run(case, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _run(self, case, d):
        from sawatabi.algorithm import IO
        from vchk import streams

        kind, lines = case["kind"], case["lines"]
        if kind in ("number", "json", "text"):
            k = case["files"]
            parts = [lines[i::k] for i in range(k)]
            for i, part in enumerate(parts):
                with open(os.path.join(d, f"in-{i}.txt"), "w", encoding="utf-8", newline="\n") as f:
                    f.write("\n".join(part) + ("\n" if part and (case["newline"] or part[-1] == "") else ""))
            path = os.path.join(d, "in-*.txt" if k > 1 else "in-0.txt")
            fn = {"number": IO.read_from_text_as_number, "json": IO.read_from_text_as_json, "text": IO.read_from_text}[kind](path)
            got = streams.collect(fn)
            want = self._expected(kind, parts[0] if k == 1 else lines)
            self._compare(got, want, ordered=k == 1, lines=lines)
        elif kind.startswith("pubsub") and kind != "pubsub-write":
            name = case["name"]
            kw = {"project": "test-project", ("subscription" if case["sub"] else "topic"): name}
            with streams.pubsub([x.encode("utf-8") for x in lines]) as log:
                make = {"pubsub-number": IO.read_from_pubsub_as_number, "pubsub-json": IO.read_from_pubsub_as_json, "pubsub-text": IO.read_from_pubsub}[kind]
                got = streams.collect(make(**kw))
            path = {"subscription": f"projects/test-project/subscriptions/{name}"} if case["sub"] else {"topic": f"projects/test-project/topics/{name}"}
            require(log == [("read", path)], "subscribed to {}, expected {}", log, path)
            want = self._expected(kind[7:], lines)
            self._compare(got, want, ordered=True, lines=lines)
        elif kind == "pubsub-write":
            with streams.pubsub([]) as log:
                streams.emit(lines, IO.write_to_pubsub(project="test-project", topic=case["name"]))
            require(log[:1] == [("write", {"topic": f"projects/test-project/topics/{case['name']}"})], "published to {}", log[:1])
            want = lines
            got = log[1:]
            require(sorted(got) == sorted(x.encode("utf-8") for x in lines), "published {}, expected {}", got, lines)
        elif kind == "write":
            out = os.path.join(d, "out")
            streams.emit(lines, IO.write_to_text(out))
            lines = [str(x) for x in lines]
            got = []
            for f in sorted(os.listdir(d)):
                require(f.startswith("out"), "file {} written", f)
                with open(os.path.join(d, f), encoding="utf-8", newline="\n") as fh:
                    got += fh.read().split("\n")[:-1]
            want = lines
            require(sorted(got) == sorted(lines), "text output has {}, expected {}", got, lines)
            if lines:
                back = streams.collect(IO.read_from_text(out + "*"))
                require(sorted(back) == sorted(lines), "reading back gives {}, expected {}", back, lines)
        else:
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                streams.emit(lines, IO.write_to_stdout())
            want = lines = [str(x) for x in lines]
            require(sorted(buf.getvalue().split("\n")[:-1]) == sorted(lines), "printed {!r}, expected {}", buf.getvalue(), lines)
        return Info(nontrivial=len(want) > 0 and ("number" not in kind or len(want) < len(lines)), tags=[kind], weight=max(1, len(want)))

    @staticmethod
    def _expected(kind, lines):
        if kind == "number":
            return [int(x) for x in lines if x and all(c in "0123456789" for c in x)]
        if kind == "json":
            return [json.loads(x) for x in lines]
        return list(lines)

    @staticmethod
    def _compare(got, want, ordered, lines):
        def k(v):
            return json.dumps([type(v).__name__, v], sort_keys=True)

        a, b = [k(v) for v in got], [k(v) for v in want]
        if not ordered:
            a, b = sorted(a), sorted(b)
        require(a == b, "lines {!r} read as {!r}, expected {!r}", lines, got, want)


# ---------------------------------------------------------------- C26: number partitioning


class C26:
    PROPERTY = "C26"
    QUICK = (10000, 25)
    THOROUGH = (200000, 200)
    ASSUMPTIONS = ("positive integers (the domain of the dynamic programme)",)
    RULE = (
        "Lists of up to 12 (at times 26) positive integers (repeated values frequent, also scaled, also numpy integers); the answer is compared with the enumeration of all subsets: flag, optimal difference, completeness and "
        "uniqueness of the enumeration, complements. Non-trivial: at least three numbers."
    )
    PINNED = ({"numbers": [3], "np": False}, {"numbers": [], "np": False})

    @st.composite
    def _s(draw, self):
        hi = draw(st.sampled_from([2, 5, 12, 40]))
        xs = draw(st.lists(st.integers(1, hi), min_size=draw(st.sampled_from([0, 2, 3, 4])), max_size=draw(st.sampled_from([4, 8, 12]))))
        if draw(st.integers(0, 3)) == 0:
            xs = [2 * x for x in xs]
        if draw(st.integers(0, 4)) == 0:
            xs = xs + [sum(xs) + draw(st.integers(0, 3))] if xs else xs
        if draw(st.integers(0, 9)) == 0:
            # longer lists and larger numbers: compared with a count of the subsets of each sum
            xs = draw(st.lists(st.integers(1, draw(st.sampled_from([3, 30, 120]))), min_size=10, max_size=26))
        if gen.LARGE:
            xs = draw(st.lists(st.integers(1, draw(st.sampled_from([3, 30, 400]))), min_size=20, max_size=60))
        return {"numbers": xs, "np": draw(st.integers(0, 3)) == 0, "table": draw(st.integers(0, 7)) == 0}

    def strategy(self, tier):
        return C26._s(self)

    def _large(self, case, solve):
        xs = case["numbers"]
        n, total = len(xs), sum(xs)
        ways = {0: 1}
        for x in xs:
            new = dict(ways)
            for k, v in ways.items():
                new[k + x] = new.get(k + x, 0) + v
            ways = new
        best = max(k for k in ways if 2 * k <= total)
        for every in (False, True):
            if every and (ways[best] > 300 or n > 16):
                continue
            flag, ps, qs = solve(list(xs), enumerate_all=every)
            require(bool(flag) == (2 * best == total), "{}: exact partition reported {}", xs, flag)
            require(len(ps) == len(qs) == (ways[best] if every else 1), "{}: {} partitions and {} complements, there are {}", xs, len(ps), len(qs), ways[best])
            require(len({tuple(sorted(p)) for p in ps}) == len(ps), "{}: a partition is repeated", xs)
            for p, q in zip(ps, qs):
                require(sorted(list(p) + list(q)) == list(range(n)), "{}: {} and {} do not partition the indices", xs, p, q)
                require(sum(xs[i] for i in p) == best, "{}: {} sums to {}, the best is {}", xs, p, sum(xs[i] for i in p), best)
        return Info(nontrivial=True, tags=["large"], weight=n)

    def run_case(self, case):
        import numpy as np
        from sawatabi.utils import solve_npp_with_dp

        xs = case["numbers"]
        if len(xs) > 12:
            return self._large(case, solve_npp_with_dp)
        given = [np.int64(x) for x in xs] if case["np"] else list(xs)
        n, total = len(xs), sum(xs)
        best, subsets = -1, []
        for mask in range(2**n):
            s = 0
            for i in range(n):
                if mask >> i & 1:
                    s += xs[i]
            if 2 * s <= total:
                if s > best:
                    best, subsets = s, []
                if s == best:
                    subsets.append(mask)
        exact = 2 * best == total
        for every in (False, True):
            text = io.StringIO()
            with contextlib.redirect_stdout(text):
                if case.get("table"):
                    flag, ps, qs = solve_npp_with_dp(given, enumerate_all=every, print_dp_table=True)
                else:
                    flag, ps, qs = solve_npp_with_dp(given, enumerate_all=every)
            require(bool(text.getvalue()) == bool(case.get("table")), "{}: the table was printed or not printed against the request", xs)
            require(bool(flag) == exact, "{}: exact partition reported {}, it is {}", xs, flag, exact)
            require(len(ps) == len(qs), "{}: {} partitions, {} complements", xs, len(ps), len(qs))
            masks = []
            for p, q in zip(ps, qs):
                require(sorted(list(p) + list(q)) == list(range(n)), "{}: {} and {} do not partition the indices", xs, p, q)
                require(sum(xs[i] for i in p) == best, "{}: {} sums to {}, the best is {}", xs, p, sum(xs[i] for i in p), best)
                masks.append(sum(1 << i for i in p))
            if every:
                require(sorted(masks) == sorted(subsets), "{}: {} partitions enumerated, there are {}", xs, len(set(masks)), len(subsets))
            else:
                require(len(ps) == 1, "{}: {} partitions returned", xs, len(ps))
            require([int(x) for x in given] == xs, "the given list was changed")
        return Info(nontrivial=n >= 3, tags=[f"n={min(n, 12)}", "exact" if exact else "inexact"], weight=2**n)


# ---------------------------------------------------------------- C28: utilities


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


ERRORS = {e.__name__: e for e in (KeyError, ValueError, TypeError, StopIteration, RuntimeError, AttributeError, AssertionError, OSError, TimeoutError, GeneratorExit, SystemExit, KeyboardInterrupt, Boom, BaseBoom)}


class C28:
    PROPERTY = "C28"
    QUICK = (8000, 15)
    THOROUGH = (60000, 60)
    RULE = (
        "Elementwise operations on generated tuples and lists against plain Python (and the rejection of mixed types), the profiling decorator on generated calls (results, exceptions, call counts, measured "
        "time), and the clock functions against the system clock. Non-trivial: at least two elements, or a decorated call."
    )
    ASSUMPTIONS = ("operands of equal length", "the system clock is not set while the check runs")

    @st.composite
    def _s(draw, self):
        kind = draw(st.sampled_from(["elementwise", "elementwise", "mixed", "profile", "clock"]))
        n = draw(st.integers(0, 5)) if draw(st.integers(0, 4)) else draw(st.integers(6, 40))
        num = st.one_of(st.integers(-1000, 1000), st.integers(-64, 64).map(lambda i: i / 8.0))
        if draw(st.integers(0, 3)) == 0:
            num = st.one_of(st.integers(-(2**60), 2**60), st.integers(-2, 2))
        return {
            "kind": kind,
            "a": draw(st.lists(num, min_size=n, max_size=n)),
            "b": draw(st.lists(num, min_size=n, max_size=n)),
            "tuple": draw(st.booleans()),
            "raise": draw(st.sampled_from([None] * 8 + sorted(ERRORS))),
            "long": kind == "profile" and draw(st.integers(0, 150)) == 77,
        }

    def strategy(self, tier):
        return C28._s(self)

    def run_case(self, case):
        import sawatabi.utils as u
        from sawatabi.utils import Functions

        kind, a, b = case["kind"], case["a"], case["b"]
        ops = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "max": max, "min": min}
        wrap = tuple if case["tuple"] else list
        if kind == "elementwise":
            for name, fn in ops.items():
                x, y = wrap(a), wrap(b)
                got = getattr(Functions, "elementwise_" + name)(x, y)
                require(type(got) is wrap, "elementwise_{} of {}s gives a {}", name, wrap.__name__, type(got).__name__)
                require(len(got) == len(a) and all(v == fn(p, q) for v, p, q in zip(got, a, b)), "elementwise_{}({}, {}) gives {}", name, x, y, got)
                require(list(x) == a and list(y) == b, "elementwise_{} changed its arguments", name)
        elif kind == "mixed":
            for name in ops:
                for x, y in ((tuple(a), list(b)), (list(a), tuple(b)), (1, 2), (wrap(a), None), ("ab", "cd")):
                    try:
                        got = getattr(Functions, "elementwise_" + name)(x, y)
                    except TypeError:
                        continue
                    raise Violation(f"elementwise_{name}({x!r}, {y!r}) gives {got!r} instead of TypeError")
        elif kind == "profile":
            calls = []
            value = [tuple(a), None, 0, {}, "r", {"return": 1, "profile": 2}][len(a) % 6]
            extra = [{}, {"func": 1, "self": 2}, {"args": (), "kargs": {}, "name": None}][len(a) % 3]
            error = ERRORS[case["raise"]]("boom") if case["raise"] else None

            pause = 0.8 if case["long"] and case["raise"] is None else 0.002
            fname = ["work", "work", "f", "other name"][len(a) % 4]

            def work(*args, **kw):
                """doc"""
                calls.append((args, kw))
                time.sleep(pause)
                if error is not None:
                    raise error
                return value

            work.__name__ = fname
            work = u.profile(work)
            require(work.__name__ == fname and work.__doc__ == "doc", "the decorated function is called {}", work.__name__)
            for times in (1, 2):
                t0 = time.perf_counter()
                try:
                    r = work(*a, key=b, **extra)
                except BaseException as e:
                    if e is not error:
                        raise
                    r = None
                else:
                    require(error is None, "an exception in the profiled function was lost")
                t1 = time.perf_counter()
                require(calls == [(tuple(a), dict(extra, key=b))] * times, "the function was called with {}", calls)
                if error is None:
                    require(r["return"] is value, "profile returned {} for {}", r, a)
                    require(r["profile"]["function_name"] == fname, "profiled name {}", r["profile"])
                    require(pause <= r["profile"]["execution_sec"] <= t1 - t0, "profiled {} s, the call took {} s", r["profile"]["execution_sec"], t1 - t0)
            # a decorated function within a decorated function
            if error is None:
                r = u.profile(lambda: (time.sleep(0.001), work(*a))[1])()
                require(r["profile"]["function_name"] == "<lambda>" and r["return"]["profile"]["function_name"] == fname and r["return"]["return"] is value, "nested: {}", r)
                require(r["profile"]["execution_sec"] >= r["return"]["profile"]["execution_sec"] + 0.001, "nested durations: {}", r)
        else:
            for name, unit in (("", 1), ("_ms", 10**3), ("_us", 10**6), ("_ns", 10**9)):
                for as_int in (False, True):
                    t0 = time.time()
                    v = getattr(u, f"current_time{name}" + ("_as_int" if as_int else ""))()
                    t1 = time.time()
                    if as_int:
                        require(isinstance(v, int), "current_time{}_as_int() is a {}", name, type(v))
                    slack = 2e-6 + (1.0 / unit if as_int else 0.0)
                    require(t0 - slack <= v / unit <= t1 + 2e-6, "current_time{}{}() is {}, the clock says {}", name, "_as_int" if as_int else "", v, t0)
        return Info(nontrivial=kind in ("profile",) or len(a) >= 2, tags=[kind])


CHECKS = [C10(), C11(), C25(), C26(), C28()]
