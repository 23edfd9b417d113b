"""Checks of the logical and physical models: generated histories against the reference model."""
import copy
import itertools
import random
import pickle

from hypothesis import strategies as st

from vchk import gen
from vchk.engine import HarnessError, Info, Violation, require
from vchk.gen import Profile
from vchk.model import (
    EVERY,
    Real,
    Ref,
    bqm_poly,
    check_physical,
    check_row,
    check_store,
    close,
    constraint_view,
    default_name,
    evaluate,
    isnan,
    label,
    parse,
    ref_constraint_view,
    rowkey,
    rows,
    snapshot,
    tgt,
    var,
)

SLACK = 0.02


def norm(v):
    """An attribute value as the queries show it: numbers may come back as floats, missing ones as NaN or None."""
    if v is None or isnan(v):
        return "-"
    if isinstance(v, (bool, int, float)):
        return repr(float(v))
    return repr(v)


def assignments(labels, values):
    """All assignments, or 200 of them if they are too many."""
    rng = random.Random(len(labels))
    for t in itertools.product(values, repeat=len(labels)) if len(labels) <= 8 else ([rng.choice(values) for _ in labels] for _ in range(200)):
        yield dict(zip(labels, t))


def same_attr(got, want):
    """The table shows an attribute set to None as None or, among numbers, as NaN."""
    return got is None or isnan(got) if want is None else got == want


class HistoryCheck:
    """Runs a history on both models; compares after every step."""

    QUICK = (5000, 34)
    THOROUGH = (60000, 400)
    PROFILE = None
    NAMES = False
    STEP = ("phys",)
    NEED = ()
    PINNED = ()
    ASSUMPTIONS = (
        "variables are registered in the model they are used with; nothing is added to a deleted or fixed variable",
        "floating-point tolerance 1e-9 relative to the magnitude of the coefficients",
    )

    def strategy(self, tier):
        return gen.history(self.PROFILE)

    def on_step(self, op, real, ref, known, result):
        pass

    def run_case(self, case):
        real, ref = Real(case["mtype"]), Ref(case["mtype"])
        known, tags, n = set(), set(), 0
        for i, op in enumerate(case["ops"]):
            before = self.before(op, real, ref)
            result = real.apply(op)
            self.clock(op, real, ref)
            ref.apply(op)
            what = f"after operation {i} {op!r}"
            tags.add(op[0])
            if op[0] == "phys":
                check_physical(result, _uncompiled(ref), known, what)
            if op[0] in self.STEP:
                check_store(real.m, ref, real.t_call, known, names=self.NAMES, what=what)
                n += 1
            self.on_step(op, real, ref, known, (before, result, what))
        n += self.at_end(real, ref, known, tags)
        return Info(nontrivial=all(t in tags for t in self.NEED) and len(ref.inter) + len(ref.cons) > 0, tags=sorted(tags | self.more_tags(case, ref)), known=known, weight=n)

    def before(self, op, real, ref):
        return None

    def clock(self, op, real, ref):
        pass

    def more_tags(self, case, ref):
        return {ref.mtype + "-model"}

    def at_end(self, real, ref, known, tags):
        """Compiles twice: both results must be right, and the model unaffected."""
        p1 = real.m.to_physical()
        check_physical(p1, ref, known, "at the end")
        ref.apply(["phys"])
        check_store(real.m, ref, real.t_call, known, names=self.NAMES, what="after compiling")
        p2 = real.m.to_physical()
        check_physical(p2, ref, known, "compiling again")
        return 3


def _uncompiled(ref):
    return ref


class C01(HistoryCheck):
    PROPERTY = "C01"
    RULE = (
        "Histories of declare/append/add/update/remove/offset/compile operations (1..18, up to 9 variables, both model types, named and unnamed, "
        "scales) applied to the real model and to a reference; every compiled energy is compared coefficient by coefficient. "
        "Non-trivial: at least one live interaction remains and an update or removal or append happened after an add."
    )
    PROFILE = Profile({"var": 1, "append": 2, "add": 9, "upd": 4, "rem": 4, "off": 1, "phys": 2}, max_ops=18, max_vars=5, coef=gen.coef_any, attrs=True, times=True, start=("add", "add"), focus=("upd", "rem", "append"))
    STEP = ()
    NEED = ("add",)
    PINNED = (
        {"mtype": "ising", "ops": [["var", "x", [2]], ["add", "x[0]", None, 1.0, 2.0, None, None], ["add", ["x[1]", "x[0]"], None, -1.5, None, None, None], ["rem", None, "x[0]"], ["phys"], ["add", "x[0]", None, 3.0, 0.5, None, None]]},
        {"mtype": "qubo", "ops": [["var", "x", [1]], ["upd", "x[0]", None, 1.0, None, {"a": 1}, None], ["var", "y", [1]], ["add", "y[0]", None, 1.0, None, None, None]]},
    )

    def run_case(self, case):
        info = super().run_case(case)
        kinds = {op[0] for op in case["ops"]}
        info.nontrivial = info.nontrivial and bool(kinds & {"upd", "rem", "append"})
        return info


class C02(HistoryCheck):
    PROPERTY = "C02"
    RULE = (
        "Histories of add/update/remove/compile with attributes, timestamps and names; after every step every public query (select_interaction in both formats with "
        "several queries, select by variable, get_attributes, get_attribute) is compared with the reference store. Non-trivial: an attribute was given and an "
        "interaction was updated or removed."
    )
    PROFILE = Profile({"var": 1, "append": 1, "add": 8, "upd": 6, "rem": 3, "off": 1, "phys": 2}, max_ops=14, max_vars=4, coef=gen.coef_any, attrs=True, times=True, final_cap=6, start=("add", "add"), focus=("upd", "rem"))
    NAMES = True
    STEP = ('var', 'append', 'add', 'upd', 'rem', 'off', 'phys')
    NEED = ("add",)
    PINNED = (
        {"mtype": "ising", "ops": [["var", "x", [3]], ["add", "x[0]", None, 1.0, None, None, None], ["upd", "x[0]", None, None, None, {"a": 5}, None], ["add", "x[1]", None, 1.0, None, {"b.c": 2}, None], ["phys"]]},
        {"mtype": "qubo", "ops": [["var", "x", [2]], ["upd", ["x[1]", "x[0]"], None, 2.0, 0.5, {"a": 5}, 12.5], ["upd", "x[0]", None, None, None, None, None]]},
    )

    def clock(self, op, real, ref):
        self._t = real.t_call

    def run_case(self, case):
        self._keys, self._n = [], len(case["ops"])
        info = super().run_case(case)
        has_attr = any(op[0] in ("add", "upd") and op[5] for op in case["ops"])
        kinds = {op[0] for op in case["ops"]}
        info.nontrivial = info.nontrivial and has_attr and bool(kinds & {"upd", "rem"})
        return info

    def on_step(self, op, real, ref, known, extra):
        what = extra[2]
        m = real.m
        self._n += 1
        if op[0] in ("add", "upd"):
            it = ref.find(op[2] or default_name(op[1]))
            if op[6] is None:
                it["ts_range"] = real.t_call
            else:
                it["ts_range"] = None
            for k in op[5] or {}:
                if k not in self._keys:
                    self._keys.append(k)
        # rows: attributes, timestamps; removed ones stay visible until compiled
        every = rows(m, EVERY)
        require(len(every) == len(ref.inter), "{}: {} interactions listed, expected {}", what, len(every), len(ref.inter))
        for g, w in zip(every, ref.inter):
            check_row(g, w, what)
            self._attrs_and_time(g, w, what)
        # other queries and formats
        for query, pred in (
            ("body == 2", lambda w: len(w["key"]) == 2),
            ("coefficient > 0.5 and dirty == True", lambda w: w["coef"] > 0.5 and w["dirty"]),
            ("scale != 1.0", lambda w: w["scale"] != 1.0),
            ("removed == True", lambda w: w["removed"]),
        )[self._n % 4 : self._n % 4 + 1]:
            df = m.select_interaction(query)
            names = list(df["name"])
            want = [w["name"] for w in ref.inter if pred(w)]
            require(names == want, "{}: query {!r} selects {}, expected {}", what, query, names, want)
            d = m.select_interaction(query, fmt="dict")
            require(list(d) == list(df.index) and [d[i]["name"] for i in d] == want, "{}: query {!r} as a dict gives {}", what, query, d)
        if op[0] in ("add", "upd", "rem", "phys"):
            for lab in ref.labels() if op[0] == "phys" else list(ref.find(op[2] or default_name(op[1]))["key"])[:1]:
                got_names = list(m.select_interactions_by_variable(var(m, lab)))
                want = [w["name"] for w in ref.inter if lab in w["key"]]
                require(got_names == want, "{}: interactions with {} are {}, expected {}", what, lab, got_names, want)
        if op[0] in ("add", "upd", "rem"):
            name = op[2] or default_name(op[1])
            it = ref.find(name)
            keyset = {"attributes." + k for k in self._keys}
            a = m.get_attributes(name=name)
            require(set(a) == keyset, "{}: attributes of {} are {}, expected keys {}", what, name, a, sorted(keyset))
            if op[1] and not op[2]:
                b = m.get_attributes(target=tgt(m, op[1]))
                require(set(b) == set(a), "{}: get_attributes by target and by name differ", what)
            for k in self._keys:
                v = m.get_attribute(name=name, key="attributes." + k)
                if k in it["attrs"]:
                    require(same_attr(v, it["attrs"][k]), "{}: attribute {} of {} is {!r}, expected {!r}", what, k, name, v, it["attrs"][k])
                    require(same_attr(a["attributes." + k], it["attrs"][k]), "{}: attribute {} of {} is {!r}", what, k, name, a)
                else:
                    require(isnan(v), "{}: attribute {} of {} is {!r} but was never set", what, k, name, v)

    def _attrs_and_time(self, g, w, what):
        for k in self._keys:
            require("attributes." + k in g, "{}: attribute column {} is missing", what, k)
            v = g["attributes." + k]
            if k in w["attrs"]:
                require(same_attr(v, w["attrs"][k]), "{}: attribute {} of {} is {!r}, expected {!r}", what, k, w["name"], v, w["attrs"][k])
            else:
                require(v is None or isnan(v), "{}: attribute {} of {} is {!r} but was never set", what, k, w["name"], v)
        rng = w.get("ts_range")
        if rng is None:
            require(float(g["timestamp"]) == float(w["ts"]), "{}: timestamp of {} is {!r}, expected {!r}", what, w["name"], g["timestamp"], w["ts"])
        else:
            require(
                rng[0] - SLACK <= float(g["timestamp"]) <= rng[1] + SLACK,
                "{}: timestamp of {} is {!r}, but the call was made at {!r}",
                what,
                w["name"],
                g["timestamp"],
                rng[0],
            )


class C05(HistoryCheck):
    PROPERTY = "C05"
    RULE = (
        "Histories of add/update/remove/constraint/compile interleaved with conversions between Ising and QUBO (any number of times, scaled and removed interactions, "
        "constraints present); the energy polynomial must stay the same function of the spins/bits. Non-trivial: a conversion with at least one quadratic "
        "interaction of a scale other than 1 or a conversion back."
    )
    PROFILE = Profile({"append": 1, "add": 8, "upd": 3, "rem": 2, "off": 1, "phys": 1, "ising": 2, "qubo": 2, "con": 1}, clock=True, max_ops=14, max_vars=5, coef=gen.coef_exact, attrs=True, start=("add", "add", "add"), focus=("ising", "qubo"))
    STEP = ('ising', 'qubo')
    NEED = ("add",)
    PINNED = (
        {"mtype": "qubo", "ops": [["var", "x", [2]], ["add", ["x[0]", "x[1]"], None, 3.0, 2.0, None, None], ["ising"]]},
        {"mtype": "ising", "ops": [["var", "x", [2]], ["add", ["x[0]", "x[1]"], None, 3.0, 0.5, None, None], ["add", "x[0]", None, 1.0, 4.0, None, None], ["qubo"]]},
        {"mtype": "ising", "ops": [["var", "x", [2]], ["qubo"], ["append", "x", [1]], ["add", "x[2]", None, 1.0, None, None, None]]},
        {"mtype": "qubo", "ops": [["var", "x", [1, 2]], ["ising"], ["qubo"], ["ising"]]},
        {"mtype": "qubo", "ops": [["var", "x", [2]], ["add", ["x[0]", "x[1]"], None, 3.0, 2.0, None, None], ["ising"], ["qubo"], ["ising"]], "clock": 0},
    )

    def before(self, op, real, ref):
        return ref.clone() if op[0] in ("ising", "qubo") else None

    def on_step(self, op, real, ref, known, extra):
        before, _, what = extra
        if before is None:
            return
        # the reference itself is checked independently: same energies on every corresponding assignment
        p0, _ = before.poly()
        p1, _ = ref.poly()
        labels = sorted({x for k in list(p0) + list(p1) for x in k})[:6]
        if len({x for k in list(p0) + list(p1) for x in k}) <= 6:
            for bits in itertools.product((0, 1), repeat=len(labels)):
                e = []
                for r, p in ((before, p0), (ref, p1)):
                    s = {x: (b if r.mtype == "qubo" else 2 * b - 1) for x, b in zip(labels, bits)}
                    e.append(evaluate(p, s))
                if not close(e[0], e[1], ref.magnitude() * 16):
                    raise HarnessError(f"reference conversion is wrong: {e}")
        import pyqubo

        want = pyqubo.Spin if ref.mtype == "ising" else pyqubo.Binary
        for lab in ref.labels():
            require(isinstance(var(real.m, lab), want), "{}: variable {} is a {}", what, lab, type(var(real.m, lab)))
        for r in rows(real.m):
            for v in r["interacts"] if isinstance(r["interacts"], tuple) else (r["interacts"],):
                require(isinstance(v, want), "{}: interaction {} is over a {}", what, r["name"], type(v))

    def run_case(self, case):
        info = super().run_case(case)
        convs = [op[0] for op in case["ops"] if op[0] in ("ising", "qubo")]
        info.nontrivial = info.nontrivial and len(convs) > 0 and any(op[0] == "add" and isinstance(op[1], list) for op in case["ops"])
        mt, changes = case["mtype"], 0
        for c in convs:
            if c != mt:
                changes += 1
                mt = c
        info.nontrivial = info.nontrivial and changes > 0
        info.tags += (f"conversions={min(changes, 4)}",)
        return info


class C06(HistoryCheck):
    PROPERTY = "C06"
    RULE = (
        "Histories on a model with merges of second models (own histories, shared/new variables of other sizes, same or other model type, attributes, constraints, "
        "equal interaction names); energies, shapes, attributes and constraints must be the combination, the argument stays unchanged. Non-trivial: a merge of a "
        "model with an interaction or a constraint."
    )
    PROFILE = Profile({"append": 1, "add": 6, "upd": 2, "rem": 2, "off": 1, "phys": 1, "merge": 5, "con": 1, "conadd": 1, "conrem": 1, "conswap": 1, "del": 1, "fix": 1}, clock=True, max_ops=9, max_vars=4, coef=gen.coef_exact, attrs=True, times=True, start=("add",), focus=("merge",))
    STEP = ('merge',)
    NEED = ("merge",)
    PINNED = (
        {"mtype": "qubo", "ops": [["var", "x", [3]], ["merge", "qubo", [["var", "x", [3]], ["con", {"kind": "nhot", "label": "c1", "strength": 1.0, "form": "list", "vars": ["x[0]", "x[1]", "x[2]"], "n": 1}]]], ["del", "x[1]"]]},
        {"mtype": "ising", "ops": [["var", "x", [2]]] + [["add", "x[0]", None, 1.0, None, None, None], ["merge", "ising", [["var", "x", [1]], ["add", "x[0]", None, 2.0, None, None, None]]]] * 3},
        {"mtype": "ising", "ops": [["var", "x", [2]], ["add", "x[0]", None, 1.0, 2.0, {"a": 1}, None], ["merge", "qubo", [["var", "x", [3]], ["add", ["x[0]", "x[2]"], None, 2.0, 0.5, {"ts": 3}, None], ["add", "x[0]", None, 1.0, None, None, None], ["con", {"kind": "nhot", "label": "c1", "strength": 2.25, "form": "list", "vars": ["x[0]", "x[1]"], "n": 1}]]]]},
    )

    def before(self, op, real, ref):
        return None

    def on_step(self, op, real, ref, known, extra):
        if op[0] != "merge":
            return
        _, other, what = extra
        oref = Ref(op[1])
        for o in op[2]:
            oref.apply(o)
        w2 = what + ": the merged-in model"
        # the argument is unchanged: same observable state, and it still compiles to the same energy
        check_store(other.m, oref, (0, 0), known, names=False, what=w2)
        check_physical(copy.deepcopy(other.m).to_physical(), oref, known, w2)
        # attributes of every interaction survive with the right interaction
        keys = sorted({k for it in ref.inter for k in it["attrs"]})
        want = sorted((it["key"], round(it["coef"] * it["scale"], 6), tuple((k, norm(it["attrs"].get(k))) for k in keys)) for it in ref.live())
        got = []
        for r in rows(real.m):
            got.append(
                (
                    rowkey(r),
                    round(float(r["coefficient"]) * float(r["scale"]), 6),
                    tuple((k, norm(r.get("attributes." + k))) for k in keys),
                )
            )
        require(sorted(got) == want, "{}: interactions with attributes {}, expected {}", what, sorted(got), want)
        names = [r["name"] for r in rows(real.m)]
        require(len(set(names)) == len(names), "{}: interaction names are not unique: {}", what, names)
        every = [r["name"] for r in real.m.select_interaction("body > 0", fmt="dict").values()]
        require(len(set(every)) == len(every), "{}: the names of the interactions, removed ones included, are not unique: {}", what, every)
        have = set(names)
        for it in ref.live():
            if it["name"] is not None:
                require(it["name"] in have, "{}: interaction {!r} lost its name", what, it["name"])
        # both models go on independently
        # (the rest of the history only touches the first one)
        self._others.append((other, oref, what))

    def run_case(self, case):
        self._others = []
        info = super().run_case(case)
        info.nontrivial = info.nontrivial and any(op[0] == "merge" and any(o[0] in ("add", "con") for o in op[2]) for op in case["ops"])
        if any(op[0] == "merge" and op[1] != case["mtype"] for op in case["ops"]):
            info.tags += ("cross-type",)
        return info

    def at_end(self, real, ref, known, tags):
        n = super().at_end(real, ref, known, tags)
        for other, oref, what in self._others:
            check_physical(other.m.to_physical(), oref, known, what + ": the merged-in model at the end")
        # nor does the first one see what is done to the others
        before = snapshot(real.m)
        for other, oref, what in self._others:
            other.m.offset(12345.0)
            for x in sorted(oref.alive()):
                other.m.delete_variable(var(other.m, x))
            other.m.variables("after all", shape=(1,))
        after = snapshot(real.m)
        for k in before:
            require(after[k] == before[k], "edits of the merged-in models changed {} to {}, it was {}", k, after[k], before[k])
        return n + len(self._others)


class C07(HistoryCheck):
    PROPERTY = "C07"
    RULE = (
        "Histories with variables fixed at any point (several, adjacent ones, before/after removals, updates, compiles, conversions, with constraints over fixed "
        "variables); the compiled energy must be the energy before with the value substituted, without the fixed variables. Non-trivial: a variable is fixed "
        "that has an interaction or a constraint."
    )
    PROFILE = Profile(
        {"append": 1, "add": 8, "upd": 2, "rem": 2, "off": 1, "phys": 1, "fix": 4, "con": 2, "ising": 1, "qubo": 1}, clock=True, max_ops=14, max_vars=5, coef=gen.coef_exact, start=("add", "add", "add"), focus=("fix",))
    STEP = ('fix',)
    NEED = ("fix",)
    PINNED = (
        {"mtype": "qubo", "ops": [["var", "x", [2]], ["add", ["x[0]", "x[1]"], None, 3.0, 2.0, None, None], ["fix", "x[0]", 1], ["fix", "x[1]", 1]]},
        {"mtype": "ising", "ops": [["var", "x", [3]], ["add", ["x[0]", "x[1]"], "n", 3.0, None, None, None], ["fix", "x[0]", 1], ["phys"], ["add", ["x[1]", "x[2]"], "n", 2.0, None, None, None], ["fix", "x[2]", -1]]},
        {"mtype": "ising", "ops": [["var", "x", [3]], ["add", ["x[0]", "x[1]"], None, 3.0, None, None, None], ["add", "x[0]", None, 3.0, None, None, None], ["rem", None, "x[0]"], ["con", {"kind": "nhot", "label": "c1", "strength": 1.0, "form": "list", "vars": ["x[0]", "x[1]", "x[2]"], "n": 1}], ["fix", "x[0]", -1], ["qubo"], ["fix", "x[1]", 0]]},
    )

    def before(self, op, real, ref):
        return ref.poly() if op[0] == "fix" else None

    def on_step(self, op, real, ref, known, extra):
        if op[0] != "fix":
            return
        (p, _), _, what = extra
        q = substitute_all(p, op[1], op[2])
        p2, _ = ref.poly()
        for k in set(q) | set(p2):
            if not close(q.get(k, 0.0), p2.get(k, 0.0), ref.magnitude() * 8 + 100):
                raise HarnessError(f"reference fix is wrong at {k}: {q.get(k)} {p2.get(k)}")
        self._touched |= any(op[1] in k for k in p if abs(p[k]) > 1e-12)

    def run_case(self, case):
        self._touched = False
        info = super().run_case(case)
        info.nontrivial = self._touched
        return info


def substitute_all(p, lab, value):
    from vchk.model import substitute

    return substitute(p, lab, value)


class C08(HistoryCheck):
    PROPERTY = "C08"
    RULE = (
        "Histories with variables deleted at any point, with all kinds of constraints (containing the variable or not), conversions and compiles; the deleted variable "
        "and every term with it must be gone and nothing else changes. Non-trivial: a variable is deleted that has an interaction or is in a constraint."
    )
    PROFILE = Profile(
        {"append": 1, "add": 8, "upd": 2, "rem": 2, "off": 1, "phys": 1, "del": 4, "con": 2, "ising": 1, "qubo": 1, "fix": 1}, max_ops=14, max_vars=5, coef=gen.coef_exact, start=("add", "add", "con"), focus=("del",))
    STEP = ('del',)
    NEED = ("del",)
    PINNED = (
        {"mtype": "qubo", "ops": [["var", "x", [3]], ["con", {"kind": "nhot", "label": "c1", "strength": 1.0, "form": "list", "vars": ["x[1]", "x[2]"], "n": 1}], ["con", {"kind": "eq", "label": "c2", "strength": 1.0, "form": "list", "vars": ["x[0]"], "vars2": ["x[1]"]}], ["add", ["x[0]", "x[1]"], None, 3.0, None, None, None], ["del", "x[0]"]]},
        {"mtype": "qubo", "ops": [["var", "x", [3]], ["con", {"kind": "zoo", "label": "c1", "strength": 1.0, "form": "set", "vars": ["x[0]", "x[1]", "x[2]"]}], ["ising"], ["del", "x[1]"]]},
    )

    def before(self, op, real, ref):
        if op[0] == "del":
            self._touched |= any(op[1] in it["key"] for it in ref.live()) or any(op[1] in c["vars"] + c.get("vars2", []) for c in ref.cons.values())
        return None

    def run_case(self, case):
        self._touched = False
        info = super().run_case(case)
        info.nontrivial = self._touched
        return info


class C09(HistoryCheck):
    PROPERTY = "C09"
    RULE = (
        "Models with N-hot, zero-or-one-hot and equality constraints whose variable sets are edited through a history; for every assignment of all variables the compiled "
        "energy must be the energy without constraints plus the documented penalty, evaluated directly. Non-trivial: a constraint over at least two variables with a "
        "non-zero strength at the end."
    )
    PROFILE = Profile(
        {"append": 1, "add": 3, "upd": 1, "rem": 1, "phys": 2, "con": 5, "conadd": 3, "conrem": 2, "conswap": 2, "rmcon": 1, "del": 1}, max_ops=12, max_vars=6, coef=gen.coef_exact, start=("con", "con"), focus=("con",))
    STEP = ('conadd', 'conrem', 'conswap', 'rmcon')
    NEED = ("con",)
    PINNED = (
        {"mtype": "qubo", "ops": [["var", "x", [3]], ["con", {"kind": "eq", "label": "c1", "strength": 1.0, "form": "list", "vars": ["x[0]", "x[1]"], "vars2": ["x[1]", "x[2]"]}]]},
        {"mtype": "ising", "ops": [["var", "x", [3]], ["con", {"kind": "eq", "label": "c1", "strength": 2.0, "form": "list", "vars": ["x[0]"], "vars2": ["x[0]"]}]]},
    )

    def at_end(self, real, ref, known, tags):
        n = super().at_end(real, ref, known, tags)
        for was, obj in real.given:
            require(obj == was, "a set of variables given to a constraint has become {}, it was {}", obj, was)
        bqm = real.m.to_physical().to_bqm()
        got = bqm_poly(bqm)
        labels = sorted(ref.labels())
        if len(labels) > 8 and not gen.LARGE:
            return n
        base = {(): ref.off}
        for it in ref.live():
            base[it["key"]] = base.get(it["key"], 0.0) - it["coef"] * it["scale"]
        vals = (-1, 1) if ref.mtype == "ising" else (0, 1)
        shift = None
        for s in assignments(labels, vals):
            x = {a: (1 if v == 1 else 0) for a, v in s.items()}
            want = evaluate(base, s)
            for con in ref.cons.values():
                want += penalty(con, x)
            e = evaluate(got, s)
            d = e - want
            if shift is None:
                shift = d
            # the constant is judged by check_physical (known finding in Ising models); everything else exactly here
            require(close(d, shift, ref.magnitude() + 1000), "for {} the energy is {}, expected {} (up to the constant {})", s, e, want, shift)
        if ref.mtype == "qubo":
            require(close(shift or 0.0, 0.0, 1000), "energies are shifted by {} against the documented penalty", shift)
        # a constraint on its own
        for lab, con in ref.cons.items():
            m = real.m.get_constraints_by_label(lab).to_model()
            require(m.get_mtype() == "qubo", "to_model of a constraint is {}", m.get_mtype())
            q = {(): m.get_offset()}
            for r in rows(m):
                q[rowkey(r)] = q.get(rowkey(r), 0.0) - float(r["coefficient"]) * float(r["scale"])
            vs = sorted(set(con["vars"]) | set(con.get("vars2", [])))
            for s in assignments(vs, (0, 1)):
                require(close(evaluate(q, s), penalty(con, s), 1000), "constraint {} on {}: {} expected {}", con, s, evaluate(q, s), penalty(con, s))
        return n + 2 ** min(8, len(labels))

    def run_case(self, case):
        info = super().run_case(case)
        ref = Ref(case["mtype"])
        for op in case["ops"]:
            ref.apply(op)
        info.nontrivial = any(c["strength"] != 0 and len(c["vars"]) + len(c.get("vars2", [])) >= 2 for c in ref.cons.values())
        info.tags += tuple(sorted({c["kind"] for c in ref.cons.values()}))
        return info


def penalty(con, x):
    s = con["strength"]
    a = sum(x[v] for v in set(con["vars"]))
    if con["kind"] == "nhot":
        return s * ((a - con["n"]) ** 2 - con["n"] ** 2)
    if con["kind"] == "zoo":
        return s * a * (a - 1)
    b = sum(x[v] for v in set(con["vars2"]))
    return s * (a - b) ** 2


class C12(HistoryCheck):
    PROPERTY = "C12"
    RULE = (
        "Models with up to 28 variables in several arrays of one to four dimensions, grown by append, with sparse interactions, zero coefficients, deletions and fixes; "
        "index maps, polynomial and BQM exports are compared with each other and with the declaration order. Non-trivial: at least four indexed variables, "
        "some variable without any term."
    )
    NEED = ("add",)
    STEP = ()

    def strategy(self, tier):
        return big_history()

    def at_end(self, real, ref, known, tags):
        n = super().at_end(real, ref, known, tags)
        # an export belongs to whoever asked for it: changing it changes no later one
        phys = real.m.to_physical()
        for export in (phys.to_bqm, lambda: phys.to_bqm(sign=1.0), lambda: phys.to_bqm(sign=-1.0)):
            bqm = export()
            want = bqm_poly(bqm)
            bqm.scale(3.0)
            bqm.add_variable("another variable", 1.0)
            bqm.offset += 7.0
            got = bqm_poly(export())
            require(got == want, "changing an exported BQM changed the next export from {} to {}", want, got)
        polynomial = phys.to_polynomial()
        want = copy.deepcopy(polynomial)
        for t in polynomial:
            t[2] = t[2] * 3.0 + 1.0
        polynomial.append([0, 0, 1.0])
        require(phys.to_polynomial() == want, "changing an exported polynomial changed the next export")
        check_physical(phys, ref, known, "after its exports have been changed")
        return n + 1

    def run_case(self, case):
        info = super().run_case(case)
        ref = Ref(case["mtype"])
        for op in case["ops"]:
            ref.apply(op)
        p, _ = ref.poly()
        used = {x for k, v in p.items() for x in k if abs(v) > 1e-9}
        info.nontrivial = len(used) >= 4 and len(used) < len(ref.labels())
        info.tags += (f"indexed={len(used) // 4 * 4}+",)
        return info


@st.composite
def big_history(draw):
    mtype = draw(st.sampled_from(["ising", "qubo"]))
    ref = Ref(mtype)
    ops = []

    def push(op):
        ref.apply(op)
        ops.append(op)

    names = draw(st.permutations(["x", "a", "x1", "z"]))
    cap = 230 if gen.LARGE else 26
    prof = Profile({"add": 1}, coef=gen.coef_exact, final_cap=cap, max_vars=cap, names=False)
    for name in names[: draw(st.integers(1, 3))]:
        room = cap - len(ref.labels())
        shapes = [s for s in ([1], [2], [3], [5], [11], [12], [2, 2], [3, 2], [2, 3], [1, 4], [2, 2, 2], [4, 3], [1, 1, 11], [11, 2], [2, 11], [1, 12, 1], [2, 2, 2, 2], [1, 1, 1, 11]) + (([101], [110, 2], [1, 1, 120], [13, 12], [12, 3, 2], [3, 3, 3, 3], [2, 1, 2, 1, 2]) if gen.LARGE else ()) if gen._size(s) <= room]
        if not shapes:
            break
        push(["var", name, draw(st.sampled_from(shapes))])
    for _ in range(draw(st.sampled_from([30, 60, 120] if gen.LARGE else [4, 8, 12, 18, 26]))):
        k = draw(st.sampled_from(["add"] * 10 + ["append", "rem", "upd", "del", "fix", "phys", "con", "ising", "qubo"]))
        op = gen.one_op(draw, ref, prof, k)
        if op is not None:
            push(op)
    return {"mtype": mtype, "ops": ops}


class C04(HistoryCheck):
    PROPERTY = "C04"
    RULE = (
        "Histories of all model operations with compiles in between; around every compile the observable state of the logical model is compared (only removed interactions "
        "vanish and dirty flags clear), compiling twice gives equal results, a compile that fails for a missing placeholder changes nothing, and physical models made "
        "earlier never change. Non-trivial: a compile with a constraint or a removed interaction present."
    )
    PROFILE = Profile(
        {"append": 1, "add": 8, "upd": 2, "rem": 3, "off": 1, "phys": 3, "del": 1, "fix": 1, "con": 3, "rmcon": 1, "conadd": 1, "conrem": 1, "conswap": 1, "merge": 1, "ising": 1, "qubo": 1},
        max_ops=12,
        max_vars=5,
        coef=gen.coef_exact,
        attrs=True,
        times=True, start=("add", "con"), focus=("phys",))
    NEED = ("phys",)
    STEP = ()
    PINNED = (
        {"mtype": "ising", "ops": [["var", "x", [2]], ["con", {"kind": "nhot", "label": "c1", "strength": 1.0, "form": "list", "vars": ["x[0]", "x[1]"], "n": 1}], ["add", "x[0]", "x[0] (c1)", 1.0, None, None, None], ["rem", None, "x[0] (c1)"], ["phys"]], "fail": "coef"},
    )

    @st.composite
    def _s(draw, self):
        case = draw(gen.history(self.PROFILE))
        case["fail"] = draw(st.sampled_from(["coef", "scale", "none"]))
        return case

    def strategy(self, tier):
        return C04._s(self)

    def before(self, op, real, ref):
        if op[0] == "phys":
            self._interesting |= bool(ref.cons) or any(it["removed"] for it in ref.inter)
            return snapshot(real.m)
        return None

    def on_step(self, op, real, ref, known, extra):
        before, result, what = extra
        if op[0] != "phys":
            return
        self._compare(before, snapshot(real.m), what)
        self._kept.append((result, bqm_poly(result.to_bqm()), dict(result._label_to_index), what))

    def _compare(self, before, after, what):
        want = copy.deepcopy(before)
        want["rows"] = [dict(r, dirty=False) for r in want["rows"] if not r["removed"]]
        for k in want:
            require(after[k] == want[k], "{}: compiling changed the model: {} is {}, expected {}", what, k, after[k], want[k])

    def run_case(self, case):
        self._interesting, self._kept = False, []
        self._fail = case.get("fail", "none")
        info = super().run_case(case)
        info.nontrivial = self._interesting
        info.tags += ("fail=" + self._fail,)
        return info

    def at_end(self, real, ref, known, tags):
        import pyqubo

        m = real.m
        alive = ref.alive()
        if self._fail != "none" and alive:
            # a compile that fails leaves everything as it was
            name = "with a placeholder"
            ph = pyqubo.Placeholder("never given")
            if self._fail == "coef":
                m.add_interaction(var(m, alive[0]), name=name, coefficient=ph)
            else:
                m.add_interaction(var(m, alive[-1]), name=name, coefficient=2.0, scale=ph)
            before = strip(snapshot(m), name)
            failed = False
            try:
                m.to_physical()
            except Exception:
                failed = True
            require(failed, "to_physical did not fail although a placeholder has no value")
            after = strip(snapshot(m), name)
            for k in before:
                require(after[k] == before[k], "a failing to_physical changed the model: {} is {}, expected {}", k, after[k], before[k])
            # still usable: give the value
            m.update_interaction(name=name, coefficient=0.25, scale=2.0)
            ref.apply(["add", alive[0] if self._fail == "coef" else alive[-1], name, 0.25, 2.0, None, None])
        before = snapshot(m)
        p1 = m.to_physical()
        check_physical(p1, ref, known, "at the end")
        ref.apply(["phys"])
        after = snapshot(m)
        self._compare(before, after, "at the end")
        p2 = m.to_physical()
        require(p1 == p2 and not (p1 != p2), "compiling twice gives different physical models: {} / {}", p1, p2)
        again = snapshot(m)
        for k in after:
            require(again[k] == after[k], "compiling again changed the model: {} is {}, expected {}", k, again[k], after[k])
        for phys, poly, l2i, what in self._kept:
            now = bqm_poly(phys.to_bqm())
            require(now == poly and dict(phys._label_to_index) == l2i, "{}: the physical model made there was changed later", what)
        return 4 + len(self._kept)


def strip(snap, name):
    """Placeholders do not compare as values: keep only the text of them."""
    out = copy.copy(snap)
    out["rows"] = [{k: (str(v) if k in ("coefficient", "scale") else v) for k, v in r.items()} for r in snap["rows"]]
    return out


class C27(HistoryCheck):
    PROPERTY = "C27"
    RULE = (
        "A model built by a history is deep-copied and pickled/unpickled in the middle; then the original, the copy and the unpickled model get different continuations; "
        "each must behave as if it alone existed. Non-trivial: both continuations change the model."
    )
    PROFILE = Profile(
        {"append": 1, "add": 8, "upd": 3, "rem": 2, "off": 1, "phys": 1, "del": 1, "fix": 1, "con": 2, "conadd": 1, "conswap": 1, "rmcon": 1}, max_ops=8, max_vars=4, coef=gen.coef_exact, attrs=True, times=True, min_ops=2, start=("add", "add"))
    STEP = ()

    @st.composite
    def _s(draw, self):
        case = draw(gen.history(self.PROFILE))
        ref = Ref(case["mtype"])
        for op in case["ops"]:
            ref.apply(op)
        conts = []
        for _ in range(3):
            r, ops = ref.clone(), []
            for _ in range(draw(st.integers(1, 4))):
                op = gen.one_op(draw, r, self.PROFILE, draw(st.sampled_from(self.PROFILE.bag)))
                if op is not None:
                    r.apply(op)
                    ops.append(op)
            conts.append(ops)
        case["conts"] = conts
        return case

    def strategy(self, tier):
        return C27._s(self)

    def run_case(self, case):
        real, ref = Real(case["mtype"]), Ref(case["mtype"])
        known, tags = set(), set()
        for op in case["ops"]:
            real.apply(op)
            ref.apply(op)
        a = copy.deepcopy(real)
        require(a.m == real.m and not (a.m != real.m), "a deep copy does not equal its original")
        b = Real(case["mtype"])
        b.m = pickle.loads(pickle.dumps(real.m))
        refs = [ref, ref.clone(), ref.clone()]
        models = [real, a, b]
        # interleave the continuations
        for i in range(max(len(c) for c in case["conts"])):
            for mdl, r, ops in zip(models, refs, case["conts"]):
                if i < len(ops):
                    mdl.apply(ops[i])
                    r.apply(ops[i])
                    tags.add(ops[i][0])
        for mdl, r, what in zip(models, refs, ("the original", "the deep copy", "the unpickled model")):
            check_store(mdl.m, r, (0, 0), known, names=False, what=what)
            check_physical(mdl.m.to_physical(), r, known, what)
            r.apply(["phys"])
            check_store(mdl.m, r, (0, 0), known, names=False, what=what + " after compiling")
        phys = models[0].m.to_physical()
        p2 = pickle.loads(pickle.dumps(phys))
        p3 = copy.deepcopy(phys)
        require(p2 == phys and p3 == phys, "a copied physical model does not equal its original")
        e = real.m.empty()
        require(e.get_mtype() == real.m.get_mtype() and len(rows(e)) == 0 and e.get_all_size() == 0 and e.get_offset() == 0, "empty() is not an empty model of the same type")
        return Info(nontrivial=sum(1 for c in case["conts"] if c) >= 2 and len(ref.inter) > 0, tags=sorted(tags), known=known, weight=6)


class C30(HistoryCheck):
    PROPERTY = "C30"
    RULE = (
        "Pairs of models: the same history with explicit times twice, or with one value changed, one more operation, or the other model type; they must be equal exactly when the reference states are "
        "(also their constraints and compiled models), symmetrically, with != its negation, and printing them never fails nor changes anything. Non-trivial: at least two interactions or a constraint."
    )
    PROFILE = Profile(
        {"append": 1, "add": 7, "upd": 2, "rem": 2, "off": 1, "phys": 1, "del": 1, "con": 3, "conadd": 1, "conswap": 1}, max_ops=8, max_vars=4, coef=gen.coef_exact, attrs=True, times=True, min_ops=2, start=("add", "con"))
    STEP = ()

    @st.composite
    def _s(draw, self):
        case = draw(gen.history(self.PROFILE))
        for i, op in enumerate(case["ops"]):
            if op[0] in ("add", "upd") and op[6] is None:
                op[6] = 1000 + i
        ops = copy.deepcopy(case["ops"])
        kind = draw(st.sampled_from(["same", "tweak", "tweak", "extra", "mtype", "ends"]))
        case["mtype2"] = case["mtype"]
        if kind == "mtype":
            case["mtype2"] = "ising" if case["mtype"] == "qubo" else "qubo"
        elif kind == "extra":
            ref = Ref(case["mtype"])
            for op in ops:
                ref.apply(op)
            op = gen.one_op(draw, ref, self.PROFILE, draw(st.sampled_from(self.PROFILE.bag)))
            idle = [x for x in ref.alive() if not any(x in it["key"] for it in ref.inter)]
            if idle and draw(st.integers(0, 3)) == 0:
                op = ["fix", idle[0], 1]  # one that turns no interaction into another, whose time would be the clock's
            if op is not None:
                if op[0] in ("add", "upd") and op[6] is None:
                    op[6] = 2000
                ops.append(op)
        elif kind == "ends":
            # the same history with two different ends
            ref = Ref(case["mtype"])
            for op in ops:
                ref.apply(op)
            idle = [x for x in ref.alive() if not any(x in it["key"] for it in ref.inter)]
            if idle:
                x, lo = idle[0], -1 if case["mtype"] == "ising" else 0
                for target in (case["ops"], ops):
                    target.append(draw(st.sampled_from([["fix", x, 1], ["fix", x, lo], ["fix", idle[-1], lo], ["del", x], ["del", idle[-1]]])))
        elif kind == "tweak":
            op = ops[draw(st.integers(0, len(ops) - 1))]
            if op[0] in ("add", "upd"):
                f = draw(st.integers(2 if op[0] == "add" else 3, 6))
                if f == 2:
                    later = {o[2] or default_name(o[1]) for o in ops if o is not op and o[0] in ("add", "upd", "rem")}
                    if (op[2] or default_name(op[1])) not in later:
                        op[2] = "another name"
                elif f == 5:
                    op[5] = dict(op[5] or {}, a=draw(st.sampled_from([7, "p", None])))
                elif op[f] is None:
                    op[f] = 0.75
                else:
                    op[f] = op[f] + draw(st.sampled_from([1, -2.5]))
            elif op[0] == "off":
                op[1] = op[1] + 0.25
            elif op[0] == "var" and len(ops) == 1:
                op[2] = [op[2][0] + 1] + op[2][1:]
            elif op[0] == "con":
                f = draw(st.sampled_from(["strength", "n", "vars"]))
                edited = any(o[0] in ("conadd", "conrem", "conswap", "del") for o in ops)
                if f == "vars" and op[1]["vars"] and not edited:
                    op[1]["vars"] = op[1]["vars"][1:]
                elif f in ("strength", "n") and f in op[1]:
                    op[1][f] += 1
                elif op[1]["kind"] == "eq" and not edited:
                    op[1]["vars"], op[1]["vars2"] = op[1]["vars2"], op[1]["vars"]
        case["ops2"] = ops
        return case

    def strategy(self, tier):
        return C30._s(self)

    def _state(self, ref):
        return (
            ref.mtype,
            ref.shapes,
            [(it["key"], it["name"], it["coef"], it["scale"], tuple(sorted((k, repr(v)) for k, v in it["attrs"].items())), it["ts"], it["dirty"], it["removed"]) for it in ref.inter],
            ref.off,
            ref.deleted,
            ref.fixed,
            {a: ref_constraint_view(c) for a, c in ref.cons.items()},
        )

    def run_case(self, case):
        pair = []
        for mtype, ops in ((case["mtype"], case["ops"]), (case["mtype2"], case["ops2"])):
            real, ref = Real(mtype), Ref(mtype)
            for op in ops:
                real.apply(op)
                ref.apply(op)
            pair.append((real.m, ref))
        (a, ra), (b, rb) = pair
        same = case["ops"] == case["ops2"] and case["mtype"] == case["mtype2"]
        differ = self._state(ra) != self._state(rb)
        if same and differ:
            raise HarnessError("the reference is not deterministic")
        n = 0
        if same or differ:
            self._judge(a, b, same, "the models")
            n += 1
        for m in (a, b):
            require(m == m and not (m != m), "a model does not equal itself")
            for o in (None, 12, "x", {}, [m]):
                require(not (m == o) and m != o, "a model equals {!r}", o)
        for la, ca in a.get_constraints().items():
            for lb, cb in b.get_constraints().items():
                equal = constraint_view(ca) == constraint_view(cb)
                if equal and a.get_mtype() != b.get_mtype():
                    equal = not (constraint_view(ca)["vars"] or constraint_view(ca).get("vars2"))  # spins and binaries of the same label are different variables
                self._judge(ca, cb, equal, f"the constraints {la} and {lb}")
                n += 1
        shown = []
        for m in (a, b):
            before = snapshot(m)
            s1, r1 = str(m), repr(m)
            require(isinstance(s1, str) and isinstance(r1, str), "printing a model gives {!r}", s1)
            after = snapshot(m)
            for k in before:
                require(after[k] == before[k], "printing changed the model: {} is {}, was {}", k, after[k], before[k])
            require(m.get_mtype() in s1 and m.get_mtype() in r1, "the printed model does not show its type: {}", s1)
            for name in ra.shapes if m is a else rb.shapes:
                require(name in s1 and name in r1, "the printed model does not show the variables {}", name)
            for c in m.get_constraints().values():
                require(c.get_label() in str(c) and c.get_label() in repr(c), "a printed constraint does not show its label: {}", c)
            p = m.to_physical()
            require(p.get_mtype() in str(p) and p.get_mtype() in repr(p), "the printed compiled model does not show its type")
            for v in p.to_bqm().variables:
                require(v in str(p) and v in repr(p), "the printed compiled model does not show {}", v)
            require(m != p and not (m == p) and p != m and p != None, "a model equals its compiled model")  # noqa: E711
            shown.append(p)
        pa, pb = shown
        qa, qb = bqm_poly(pa.to_bqm()), bqm_poly(pb.to_bqm())
        if same:
            self._judge(pa, pb, True, "the compiled models")
        elif pa.get_mtype() != pb.get_mtype() or any(not close(qa.get(k, 0.0), qb.get(k, 0.0)) for k in set(qa) | set(qb)):
            self._judge(pa, pb, False, "the compiled models")
        kind = "same" if same else ("different" if differ else "unjudged")
        return Info(nontrivial=len(ra.inter) >= 2 or bool(ra.cons), tags=[kind, ra.mtype], weight=n + 3)

    def _judge(self, a, b, equal, what):
        require((a == b) is equal or (a == b) == equal, "{} are {}: == says {}\n{!r}\n{!r}", what, "equal" if equal else "different", a == b, a, b)
        require((b == a) == equal, "{}: == is not symmetric", what)
        require((a != b) == (not equal), "{}: != does not negate ==", what)


# ---------------------------------------------------------------- C03: rejected operations


BAD_KINDS = [
    "add-duplicate",
    "add-removed",
    "add-notarget",
    "add-badtarget",
    "add-triple",
    "add-single-tuple",
    "add-mixed",
    "add-self",
    "add-coef",
    "add-scale",
    "add-attrs",
    "add-time",
    "add-name",
    "upd-none",
    "upd-both",
    "upd-unknown",
    "upd-removed",
    "upd-coef",
    "upd-scale",
    "upd-attrs",
    "upd-time",
    "upd-badtarget",
    "rem-none",
    "rem-both",
    "rem-unknown",
    "rem-badtarget",
    "del-none",
    "del-type",
    "fix-none",
    "fix-type",
    "fix-value",
    "var-name",
    "var-shape",
    "var-shape-elem",
    "var-array-mismatch",
    "append-name",
    "append-shape",
    "append-shape-elem",
    "con-type",
    "rmcon-type",
    "rmcon-unknown",
    "merge-type",
    "merge-dim",
    "merge-constraint",
    "pyqubo-type",
    "pyqubo-duplicate",
    "pyqubo-unknown",
    "pyqubo-outside",
    "select-fmt",
    "attr-unknown",
    "attr-key",
    "attr-keytype",
    "nhot-n",
    "nhot-ntype",
    "con-label",
    "con-labeltype",
    "con-strength",
    "con-vars",
    "conrem-absent",
    "conadd-type",
    "byvar-type",
    "mtype",
]


# those whose rejection depends on the state of the model come more often
BAD_BAG = BAD_KINDS + ["add-duplicate", "add-removed", "upd-removed", "merge-dim", "merge-constraint", "conrem-absent", "conadd-type", "pyqubo-duplicate"] * 4


class C03(HistoryCheck):
    PROPERTY = "C03"
    RULE = (
        "Histories in which every other operation is an invalid request (62 kinds: duplicate or removed names, wrong types, unknown names, conflicting merges, bad values); each must "
        "raise the documented exception class and leave the observable state of all models involved exactly as before. Non-trivial: an invalid request on a model with "
        "at least two interactions."
    )
    PROFILE = Profile({"append": 1, "add": 8, "upd": 2, "rem": 2, "off": 1, "phys": 1, "con": 2, "del": 1, "fix": 1, "ising": 1, "qubo": 1}, max_ops=9, max_vars=4, coef=gen.coef_exact, attrs=True, times=True, start=("add", "add", "con"))
    STEP = ()

    @st.composite
    def _s(draw, self):
        case = draw(gen.history(self.PROFILE))
        ops = case["ops"]
        where = draw(st.lists(st.tuples(st.integers(0, len(ops)), st.sampled_from(BAD_BAG), st.integers(0, 5)), min_size=1, max_size=8))
        case["bad"] = sorted([list(w) for w in where], key=lambda w: w[0])
        return case

    def strategy(self, tier):
        return C03._s(self)

    def run_case(self, case):
        real, ref = Real(case["mtype"]), Ref(case["mtype"])
        known, tags, done, n = set(), set(), 0, 0
        bad = list(case["bad"])
        for i in range(len(case["ops"]) + 1):
            while bad and bad[0][0] == i:
                _, kind, sel = bad.pop(0)
                if self._reject(real, ref, kind, sel):
                    tags.add(kind)
                    n += 1
                    if len(ref.inter) >= 2:
                        done += 1
            if i < len(case["ops"]):
                real.apply(case["ops"][i])
                ref.apply(case["ops"][i])
        check_store(real.m, ref, (0, 0), known, names=False, what="at the end")
        check_physical(real.m.to_physical(), ref, known, "at the end")
        return Info(nontrivial=done > 0, tags=sorted(tags), known=known, weight=n)

    def _reject(self, real, ref, kind, sel):
        call, exc, others = bad_call(real.m, ref, kind, sel)
        if call is None:
            return False
        before = snapshot(real.m)
        before_others = [snapshot(o) for o in others]
        cons_before = {a: id(c) for a, c in real.m.get_constraints().items()}
        try:
            result = call()
        except exc:
            pass
        except (Violation, HarnessError):
            raise
        except Exception as e:
            raise Violation(f"invalid request '{kind}' raised {type(e).__name__}: {e}, expected {exc}")
        else:
            raise Violation(f"invalid request '{kind}' was accepted (returned {result!r})")
        after = snapshot(real.m)
        for k in before:
            require(after[k] == before[k], "rejected request '{}' changed the model: {} is {}, was {}", kind, k, after[k], before[k])
        require({a: id(c) for a, c in real.m.get_constraints().items()} == cons_before, "rejected request '{}' replaced constraints", kind)
        for o, b in zip(others, before_others):
            a = snapshot(o)
            for k in b:
                require(a[k] == b[k], "rejected request '{}' changed the other model: {} is {}, was {}", kind, k, a[k], b[k])
        return True


def bad_call(m, ref, kind, sel):
    """Returns (callable, expected exception class, other models) for an invalid request, or (None, ...) if not applicable here."""
    import pyqubo
    from sawatabi.model import LogicalModel
    from sawatabi.model.constraint import EqualityConstraint, NHotConstraint, ZeroOrOneHotConstraint

    none = (None, Exception, [])
    alive = ref.alive()
    if not alive:
        return none
    v = var(m, alive[sel % len(alive)])
    w = var(m, alive[(sel + 1) % len(alive)]) if len(alive) > 1 else None
    named = [it for it in ref.live() if it["name"] is not None and all(x in alive for x in it["key"])]
    removed = [it for it in ref.inter if it["name"] is not None and it["removed"]]
    pick = named[sel % len(named)] if named else None
    rpick = removed[sel % len(removed)] if removed else None
    cons = sorted(ref.cons)

    def free(lab):
        return ref.find(lab) is None

    if kind == "add-duplicate":
        if pick is None:
            return none
        if pick["name"] == default_name(list(pick["key"])) and sel % 2:
            t = tgt(m, list(pick["key"])[::-1] if len(pick["key"]) == 2 else pick["key"][0])
            return (lambda: m.add_interaction(t, coefficient=9.0)), ValueError, []
        return (lambda: m.add_interaction(v, name=pick["name"], coefficient=9.0)), ValueError, []
    if kind == "add-removed":
        if rpick is None:
            return none
        return (lambda: m.add_interaction(v, name=rpick["name"], coefficient=9.0)), ValueError, []
    if kind == "add-notarget":
        return (lambda: m.add_interaction([None, "", ()][sel % 3], coefficient=1.0)), ValueError, []
    if kind == "add-badtarget":
        return (lambda: m.add_interaction(["x[0]", 12, [v, v], {"a": 1}][sel % 4], coefficient=1.0)), TypeError, []
    if kind == "add-triple":
        return (lambda: m.add_interaction((v, v, v), coefficient=1.0)), TypeError, []
    if kind == "add-single-tuple":
        return (lambda: m.add_interaction((v,), coefficient=1.0)), TypeError, []
    if kind == "add-mixed":
        return (lambda: m.add_interaction((v, "y") if sel % 2 else (1, v), coefficient=1.0)), TypeError, []
    if kind == "add-self":
        return (lambda: m.add_interaction((v, v), coefficient=1.0)), ValueError, []
    if kind in ("add-coef", "add-scale", "add-attrs", "add-time", "add-name"):
        field = {"add-coef": "coefficient", "add-scale": "scale", "add-attrs": "attributes", "add-time": "timestamp", "add-name": "name"}[kind]
        values = {"coefficient": ["a", [1.0], {}], "scale": ["a", [1.0], {}], "attributes": ["a", [1], 3], "timestamp": ["2020-01-01", [1], {}], "name": [12, ["n"], 3.5]}[field]
        kw = {"coefficient": 1.0, "name": "bad one"}
        kw[field] = values[sel % 3]
        t = v if sel % 2 or w is None else (v, w)
        return (lambda: m.add_interaction(t, **kw)), TypeError, []
    if kind == "upd-none":
        return (lambda: m.update_interaction(coefficient=3.0)), ValueError, []
    if kind == "upd-both":
        return (lambda: m.update_interaction(target=v, name=pick["name"] if pick else "q", coefficient=3.0)), ValueError, []
    if kind == "upd-unknown":
        return (lambda: m.update_interaction(name="no such name", coefficient=3.0)), KeyError, []
    if kind == "upd-removed":
        if rpick is None:
            return none
        return (lambda: m.update_interaction(name=rpick["name"], coefficient=3.0)), ValueError, []
    if kind in ("upd-coef", "upd-scale", "upd-attrs", "upd-time"):
        if pick is None:
            return none
        field = {"upd-coef": "coefficient", "upd-scale": "scale", "upd-attrs": "attributes", "upd-time": "timestamp"}[kind]
        values = {"coefficient": ["a", [1.0], {}], "scale": ["a", [1.0], {}], "attributes": ["a", [1], 3], "timestamp": ["2020-01-01", [1], {}]}[field]
        # a valid change beside the invalid one must not slip in
        kw = {"coefficient": 77.0, "scale": 7.0, "attributes": {"a": 77}, "timestamp": 77.0}
        kw[field] = values[sel % 3]
        return (lambda: m.update_interaction(name=pick["name"], **kw)), TypeError, []
    if kind == "upd-badtarget":
        return (lambda: m.update_interaction(target=["x[0]", 12, (v, v, v)][sel % 3], coefficient=3.0)), TypeError, []
    if kind == "rem-none":
        return (lambda: m.remove_interaction()), ValueError, []
    if kind == "rem-both":
        return (lambda: m.remove_interaction(target=v, name=pick["name"] if pick else "q")), ValueError, []
    if kind == "rem-unknown":
        if sel % 2 and free(v.label):
            return (lambda: m.remove_interaction(target=v)), KeyError, []
        return (lambda: m.remove_interaction(name="no such name")), KeyError, []
    if kind == "rem-badtarget":
        return (lambda: m.remove_interaction(target=["x[0]", 12, (v, v, v)][sel % 3])), TypeError, []
    if kind == "del-none":
        return (lambda: m.delete_variable(None if sel % 2 else "")), ValueError, []
    if kind == "del-type":
        return (lambda: m.delete_variable([alive[0], (v, v), 3][sel % 3])), TypeError, []
    if kind == "fix-none":
        return (lambda: m.fix_variable(None if sel % 2 else "", 1)), ValueError, []
    if kind == "fix-type":
        return (lambda: m.fix_variable([alive[0], (v, v), 3][sel % 3], 1)), TypeError, []
    if kind == "fix-value":
        bad = ([0, 2, 0.5, -2] if ref.mtype == "ising" else [-1, 2, 0.5, -2])[sel % 4]
        return (lambda: m.fix_variable(v, bad)), ValueError, []
    if kind == "var-name":
        return (lambda: m.variables([12, None, ("x",)][sel % 3], shape=(2,))), TypeError, []
    if kind == "var-shape":
        return (lambda: m.variables("fresh", shape=[[2], 2, ()][sel % 3])), TypeError, []
    if kind == "var-shape-elem":
        return (lambda: m.variables("fresh", shape=[("a",), (1.5,), (2, "b")][sel % 3])), TypeError, []
    if kind == "var-array-mismatch":
        arr = pyqubo.Array.create("fresh", shape=(2,), vartype="BINARY" if ref.mtype == "ising" else "SPIN")
        return (lambda: m.variables(arr)), TypeError, []
    if kind == "append-name":
        return (lambda: m.append([12, None, ("x",)][sel % 3], shape=(2,))), TypeError, []
    if kind == "append-shape":
        return (lambda: m.append(list(ref.shapes)[0], shape=[[2], 2, ()][sel % 3])), TypeError, []
    if kind == "append-shape-elem":
        return (lambda: m.append(list(ref.shapes)[0], shape=[("a",), (1.5,), (2, "b")][sel % 3])), TypeError, []
    if kind == "con-type":
        return (lambda: m.add_constraint(["c", 12, None, v][sel % 4])), TypeError, []
    if kind == "rmcon-type":
        return (lambda: m.remove_constraint([12, None, ["c1"]][sel % 3])), TypeError, []
    if kind == "rmcon-unknown":
        return (lambda: m.remove_constraint("no such label")), KeyError, []
    if kind == "merge-type":
        return (lambda: m.merge(["x", None, 12, {}][sel % 4])), TypeError, []
    if kind == "merge-dim":
        name = list(ref.shapes)[sel % len(ref.shapes)]
        o = LogicalModel(mtype=["ising", "qubo"][sel % 2])
        if sel % 3:
            y = o.variables("other", shape=(2,))
            o.variables(name, shape=(2,) * (len(ref.shapes[name]) + 1))
        else:
            o.variables(name, shape=(2,) * (len(ref.shapes[name]) + 1))
            y = o.variables("other", shape=(2,))
        o.add_interaction((y[0], y[1]), coefficient=2.0, scale=0.5, attributes={"zz": 1})
        o.offset(3.0)
        return (lambda: m.merge(o)), ValueError, [o]
    if kind == "merge-constraint":
        if not cons:
            return none
        o = LogicalModel(mtype=["ising", "qubo"][sel % 2])
        y = o.variables("other", shape=(2,))
        o.add_interaction((y[0], y[1]), coefficient=2.0, scale=0.5, attributes={"zz": 1})
        o.add_interaction(y[0], coefficient=2.0)
        o.add_constraint(NHotConstraint(variables=y, n=1, label=cons[sel % len(cons)]))
        o.offset(3.0)
        return (lambda: m.merge(o)), ValueError, [o]
    if kind in ("pyqubo-duplicate", "pyqubo-unknown", "pyqubo-outside"):
        # valid terms together with one that cannot be added
        kind_of = {n: pyqubo.Array.create(n, shape=tuple(s), vartype="BINARY") for n, s in ref.shapes.items()}
        free_terms = [x for x in alive if free(x)]
        bad, exc = [], ValueError
        if kind == "pyqubo-duplicate":
            bad = [x for x in alive if not free(x)]
        elif kind == "pyqubo-unknown":
            bad, exc = ["unknown[0]"], KeyError
            kind_of["unknown"] = pyqubo.Array.create("unknown", shape=(2,), vartype="BINARY")
        else:
            n, shape = sorted(ref.shapes.items())[sel % len(ref.shapes)]
            kind_of[n] = pyqubo.Array.create(n, shape=(shape[0] + 2,) + tuple(shape[1:]), vartype="BINARY")
            bad, exc = [label(n, [shape[0] + 1] + [0] * (len(shape) - 1))], IndexError
        if not bad or not free_terms:
            return none

        def pv(lab):
            n, ix = parse(lab)
            return kind_of[n][ix] if len(ix) > 1 else kind_of[n][ix[0]]

        h = 5.0
        for x in ([bad[sel % len(bad)]] + free_terms) if sel % 2 else (free_terms + [bad[sel % len(bad)]]):
            h = h + 3.0 * pv(x)
        return (lambda: m.from_pyqubo(h.compile() if sel % 3 == 0 else h)), exc, []
    if kind == "pyqubo-type":
        return (lambda: m.from_pyqubo(["a", 12, None][sel % 3])), TypeError, []
    if kind == "select-fmt":
        return (lambda: m.select_interaction("body == 1", fmt=["", "list", "json"][sel % 3])), ValueError, []
    if kind == "attr-unknown":
        return (lambda: m.get_attributes(name="no such name")), KeyError, []
    if kind == "attr-key":
        if pick is None:
            return none
        return (lambda: m.get_attribute(name=pick["name"], key="attributes.no such key")), KeyError, []
    if kind == "attr-keytype":
        if pick is None:
            return none
        return (lambda: m.get_attribute(name=pick["name"], key=12)), TypeError, []
    if kind == "nhot-n":
        return (lambda: m.add_constraint(NHotConstraint(variables=v, n=[0, -1, -5][sel % 3], label="fresh"))), ValueError, []
    if kind == "nhot-ntype":
        return (lambda: m.add_constraint(NHotConstraint(variables=v, n=["1", 1.5, None][sel % 3], label="fresh"))), TypeError, []
    if kind in ("con-label", "con-labeltype", "con-strength", "con-vars"):
        kw = {"label": "fresh", "strength": 1.0}
        vv = v
        exc = TypeError
        if kind == "con-label":
            kw["label"], exc = "", ValueError
        elif kind == "con-labeltype":
            kw["label"] = [12, None, ["l"]][sel % 3]
        elif kind == "con-strength":
            kw["strength"] = ["1", [1], {}][sel % 3]
        else:
            vv = ["x[0]", [1, 2], {"x[0]"}, 12, [v, "x[0]"]][sel % 5]
        which = sel % 3
        if which == 0:
            return (lambda: m.add_constraint(NHotConstraint(variables=vv, **kw))), exc, []
        if which == 1:
            return (lambda: m.add_constraint(ZeroOrOneHotConstraint(variables=vv, **kw))), exc, []
        return (lambda: m.add_constraint(EqualityConstraint(variables_1=vv, variables_2=v, **kw))), exc, []
    if kind in ("conrem-absent", "conadd-type"):
        if not cons:
            return none
        lab = cons[sel % len(cons)]
        con = ref.cons[lab]
        c = m.get_constraints_by_label(lab)
        if kind == "conadd-type":
            bad = ["x[0]", 12, [v, "q"]][sel % 3]
            if con["kind"] == "eq":
                return (lambda: (c.add_variable_to_1 if sel % 2 else c.add_variable_to_2)(bad)), TypeError, []
            return (lambda: c.add_variable(bad)), TypeError, []
        absent = [x for x in alive if x not in con["vars"] and x not in con.get("vars2", [])]
        if not absent:
            return none
        members = [var(m, x) for x in (con["vars"] if con["kind"] != "eq" or sel % 2 else con["vars2"])]
        lst = members[:1] + [var(m, absent[0])]
        if con["kind"] == "eq":
            return (lambda: (c.remove_variable_from_1 if sel % 2 else c.remove_variable_from_2)(lst)), ValueError, []
        return (lambda: c.remove_variable(lst)), ValueError, []
    if kind == "byvar-type":
        return (lambda: m.select_interactions_by_variable([alive[0], 12, None][sel % 3])), TypeError, []
    if kind == "mtype":
        return (lambda: LogicalModel(mtype=["", "spin", "ISING"][sel % 3])), ValueError, []
    raise HarnessError(kind)


CHECKS = [C01(), C02(), C03(), C04(), C05(), C06(), C07(), C08(), C09(), C12(), C27(), C30()]
