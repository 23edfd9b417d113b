"""Checks of the solvers: what they return must be true of the model they were given."""
import copy
import gzip
import http.server
import itertools
import json
import math
import os
import shutil
import tempfile
import threading

import numpy as np
from hypothesis import strategies as st

from vchk import gen
from vchk.engine import Info, Violation, require
from vchk.model import all_labels, close, evaluate, padd, tgt

exact_coef = st.one_of(st.integers(-16, 15).map(lambda i: (i + (i >= 0)) / 4.0), st.sampled_from([1.0, -1.0, 2, -3, 64.0]))
nonzero = st.one_of(exact_coef, exact_coef, exact_coef, st.sampled_from([0.1, -0.3, 1 / 3, 1e-3, -1e5, 2**-20]))
SHAPES = ([1], [2], [3], [4], [5], [2, 2], [1, 3], [3, 2], [2, 1, 2])
WIDE = ([11], [12], [16], [4, 3], [2, 2, 3], [1, 1, 11], [1, 12])
HUGE = ([30], [48], [64], [101], [8, 7], [3, 3, 4], [1, 40], [12, 5])


@st.composite
def model_case(draw, max_vars=6, mtypes=("ising", "qubo"), coef=nonzero, offset=True, wide=False):
    """A small model: arrays, terms in the order they are added, some variables without any term."""
    mtype = draw(st.sampled_from(list(mtypes)))
    shapes = {}
    wide = wide and (gen.LARGE or draw(st.integers(0, 6)) == 0)
    room = (110 if gen.LARGE else 18) if wide else max_vars
    names = draw(st.sampled_from([["x", "b", "y"], ["x", "b", "y"], ["x1", "x", "x10"], ["spin val", "S", "a"]]))
    for name in draw(st.permutations(names))[: draw(st.integers(1, 3))]:
        if room < 1:
            break
        shape = draw(st.sampled_from([s for s in ((HUGE if gen.LARGE else WIDE) if wide and not shapes else SHAPES) if _n(s) <= room]))
        shapes[name] = shape
        room -= _n(shape)
    labels = all_labels(shapes)
    pairs = [list(p) for p in itertools.combinations(labels, 2)]
    terms = [[x] for x in draw(st.lists(st.sampled_from(labels), unique=True, min_size=len(labels) // 2 if gen.LARGE and wide else 1, max_size=len(labels)))]
    if pairs:
        terms += draw(st.lists(st.sampled_from(pairs), unique_by=tuple, min_size=min(len(pairs), 60) if gen.LARGE and wide else 0, max_size=min(len(pairs), (150 if gen.LARGE else 24) if wide else 8)))
        if draw(st.integers(0, 3)) == 0:
            terms = [t for t in terms if len(t) == 2] or terms
    terms = draw(st.permutations(terms)) if len(terms) <= 8 else terms
    return {
        "mtype": mtype,
        "shapes": [[k, v] for k, v in shapes.items()],
        "terms": [[t, draw(coef)] for t in terms],
        "offset": draw(st.one_of(st.just(0.0), nonzero)) if offset else 0.0,
        "delete": None,
    }


def _n(s):
    return int(np.prod(s))


def build(case):
    """(logical model, physical model, energy polynomial, labels with a term in declaration order)"""
    from sawatabi.model import LogicalModel

    m = LogicalModel(mtype=case["mtype"])
    shapes = {k: v for k, v in case["shapes"]}
    for k, v in shapes.items():
        m.variables(k, shape=tuple(v))
    m.offset(case["offset"])
    p = {(): float(case["offset"])}
    for t, c in case["terms"]:
        m.add_interaction(tgt(m, t if len(t) == 2 else t[0]), coefficient=c)
        padd(p, tuple(sorted(t)), -float(c))
    used = {x for t, c in case["terms"] for x in t}
    return m, m.to_physical(), p, [x for x in all_labels(shapes) if x in used]


def values(mtype):
    return (-1, 1) if mtype == "ising" else (0, 1)


def ordered(ss):
    """Everything of a sampleset but its timing, in its order."""
    return [(tuple(sorted((k, int(v)) for k, v in dict(d.sample).items())), float(d.energy), int(d.num_occurrences)) for d in ss.data(["sample", "energy", "num_occurrences"], sorted_by=None)]


def check_sampleset(ss, case, p, labels, reads=None, what="sampleset"):
    import dimod

    require(isinstance(ss, dimod.SampleSet), "{} is a {}", what, type(ss))
    require(ss.vartype is (dimod.SPIN if case["mtype"] == "ising" else dimod.BINARY), "{}: vartype {}", what, ss.vartype)
    require(sorted(ss.variables) == sorted(labels), "{}: variables {}, expected {}", what, list(ss.variables), labels)
    ok = set(values(case["mtype"]))
    total = 0
    seen = set()
    mag = sum(abs(v) for v in p.values())
    for d in ss.data(["sample", "energy", "num_occurrences"]):
        s = {k: int(v) for k, v in dict(d.sample).items()}
        require(set(s.values()) <= ok, "{}: values {}", what, s)
        e = evaluate(p, s)
        require(close(float(d.energy), e, mag), "{}: energy of {} is reported as {}, it is {}", what, s, d.energy, e)
        require(d.num_occurrences >= 1, "{}: num_occurrences {}", what, d.num_occurrences)
        total += int(d.num_occurrences)
        seen.add(tuple(sorted(s.items())))
    if reads is not None:
        require(total == reads, "{}: {} occurrences, expected {}", what, total, reads)
    return seen


def occurrences(ss):
    out = {}
    for d in ss.data(["sample", "energy", "num_occurrences"]):
        k = tuple(sorted((a, int(b)) for a, b in dict(d.sample).items()))
        out[k] = out.get(k, 0) + int(d.num_occurrences)
    return out


def initial_states(draw, labels, mtype, reads):
    vals = values(mtype)
    return [{x: draw(st.sampled_from(vals)) for x in labels} for _ in range(reads)]


def used_labels(case):
    shapes = {k: v for k, v in case["shapes"]}
    used = {x for t, c in case["terms"] for x in t}
    return [x for x in all_labels(shapes) if x in used]


@st.composite
def anneal_case(draw, max_sweeps=12, wide=True):
    case = draw(model_case(wide=wide))
    reads = draw(st.integers(1, 4)) if draw(st.integers(0, 5)) else draw(st.integers(5, 24))
    if gen.LARGE:
        max_sweeps, reads = draw(st.sampled_from([20, 120, 300])), draw(st.sampled_from([1, 2, reads, 40, 130]))
        if reads * max_sweeps > 3000:
            max_sweeps = 20
    kw = {
        "num_reads": reads,
        "num_sweeps": draw(st.integers(1, max_sweeps)) if draw(st.integers(0, 15)) else 0,
        "cooling_rate": draw(st.sampled_from([0.9, 0.5, 0.99, 1.0, 0.9, 0.5, 1, 1e-160, 0.0])),
        "initial_temperature": draw(st.sampled_from([100.0, 1.0, 10, 0.25, 1e-9, 100.0, 1.0, 0.0])),
        "pickup_mode": draw(st.sampled_from(["random", "sequential"])),
        "seed": draw(st.sampled_from([0, 1, 12345, 7, 2**31, 2**40 + 3])),
    }
    if draw(st.integers(0, 2)) == 0:
        # arguments left out
        for k in draw(st.lists(st.sampled_from(["num_sweeps", "cooling_rate", "initial_temperature", "pickup_mode", "num_reads"]), unique=True, max_size=3)):
            del kw[k]
        reads = kw.get("num_reads", 1)
    if draw(st.booleans()):
        kw["initial_states"] = initial_states(draw, used_labels(case), case["mtype"], reads)
        if draw(st.integers(0, 3)) == 0:
            for s in kw["initial_states"]:
                s["not[0]"] = 1
    if draw(st.integers(0, 2)) == 0:
        kw["reverse_options"] = {"reverse_period": draw(st.integers(0, max_sweeps)), "reverse_temperature": draw(st.sampled_from([10.0, 1.0, 0.125]))}
    case["kw"] = kw
    return case


class SolverCheck:
    QUICK = (8000, 30)
    THOROUGH = (100000, 300)
    PINNED = ()
    ASSUMPTIONS = ("models of up to 12 variables; energies compared with tolerance 1e-9 relative to the coefficients",)


class C13(SolverCheck):
    PROPERTY = "C13"
    RULE = (
        "Models of 1..18 variables (both types, offset, unused variables) annealed with generated options, initial states, reverse schedules; every reported sample is "
        "re-evaluated against the model, occurrences are counted, histories are checked against initial states. Non-trivial: a quadratic term and at least two sweeps."
    )

    def strategy(self, tier):
        return anneal_case(max_sweeps=12 if tier == "quick" else 40)

    def run_case(self, case):
        from sawatabi.solver import SawatabiSolver

        m, phys, p, labels = build(case)
        kw = copy.deepcopy(case["kw"])
        before = copy.deepcopy(kw)
        solver = SawatabiSolver()
        ss, stats = solver.solve(phys, need_stats=True, **kw)
        reads, n = kw.get("num_reads", 1), kw.get("num_sweeps", 100)
        seen = check_sampleset(ss, case, p, labels, reads=reads)
        require(len(seen) == len(ss), "equal samples are not aggregated: {}", ss)
        require(kw == before, "solve changed its arguments: {} was {}", kw, before)
        require("timing" in ss.info and ss.info["timing"]["execution_sec"] >= 0, "no timing in {}", ss.info)
        require(len(stats) == reads, "{} stats for {} reads", len(stats), reads)
        mag = sum(abs(v) for v in p.values())
        for r, s in enumerate(stats):
            for k in ("energy_history", "temperature_history", "acceptance_history"):
                require(len(s[k]) == n, "{} has {} entries for {} sweeps", k, len(s[k]), n)
            for a in s["acceptance_history"]:
                require(0 <= a <= len(labels), "{} flips accepted in a sweep over {} variables", a, len(labels))
            if "initial_states" in kw and n:
                e0 = evaluate(p, kw["initial_states"][r])
                require(close(float(s["energy_history"][0]), e0, mag), "read {} starts with energy {}, its initial state has {}", r, s["energy_history"][0], e0)
        if len(labels) <= 7:
            # each sweep proposes every variable once: the histories must belong to a possible run from start to end
            states = list(itertools.product(values(case["mtype"]), repeat=len(labels)))
            levels = np.array([evaluate(p, dict(zip(labels, t))) for t in states])
            arr = np.array(states)
            dist = (arr[:, None, :] != arr[None, :, :]).sum(axis=2)
            finals = np.array([tuple(zip(labels, t)) in {tuple((x, dict(k)[x]) for x in labels) for k in seen} for t in states])

            def at(e):
                e = float(e)
                return np.abs(levels - e) <= 1e-9 * np.maximum(max(1.0, abs(e), mag), np.abs(levels))

            for r, s in enumerate(stats):
                now = at(s["energy_history"][0]) if n else np.ones(len(states), dtype=bool)
                if "initial_states" in kw:
                    now = np.array([all(kw["initial_states"][r][x] == v for x, v in zip(labels, t)) for t in states])
                for i, a in enumerate(s["acceptance_history"]):
                    require(bool(at(s["energy_history"][i]).any()), "energy_history holds {}, which no assignment has", s["energy_history"][i])
                    now = (dist[now] == a).any(axis=0)
                    if i + 1 < n:
                        now = now & at(s["energy_history"][i + 1])
                require(bool((finals & now).any()), "read {}: no run with the histories {} ends in one of {}", r, s, sorted(seen))
        # without stats the same result comes alone
        alone = SawatabiSolver().solve(phys, **copy.deepcopy(case["kw"]))
        check_sampleset(alone, case, p, labels, reads=reads, what="sampleset without stats")
        require(ordered(alone) == ordered(ss), "need_stats changes the result")
        # seedless, the same must hold of whatever comes out
        free = {k: v for k, v in copy.deepcopy(case["kw"]).items() if k != "seed"}
        check_sampleset(solver.solve(phys, **free), case, p, labels, reads=reads, what="sampleset without seed")
        tags = [case["mtype"], kw.get("pickup_mode", "default")] + [k for k in ("initial_states", "reverse_options") if k in kw] + (["offset"] if case["offset"] else [])
        return Info(nontrivial=any(len(t) == 2 for t, _ in case["terms"]) and n >= 2, tags=tags, weight=len(ss) + sum(len(s["energy_history"]) for s in stats))


class C14(SolverCheck):
    PROPERTY = "C14"
    RULE = (
        "The same generated problem is solved repeatedly: equal seeds (0 included) on new and reused solver instances, with the global random state disturbed in between, and with "
        "other problems solved in between; results, stats and the arguments must not depend on any of it. Non-trivial: random start or temperature high enough that runs could differ."
    )

    def strategy(self, tier):
        return st.tuples(anneal_case(), anneal_case(max_sweeps=5, wide=False), st.integers(0, 3)).map(lambda t: dict(t[0], other=t[1], between=t[2]))

    def run_case(self, case):
        from sawatabi.solver import SawatabiSolver

        m, phys, p, labels = build(case)
        _, other, _, _ = build(case["other"])

        def go(solver):
            kw = copy.deepcopy(case["kw"])
            before = copy.deepcopy(kw)
            poly = phys.to_polynomial(), phys.get_offset(), dict(phys._label_to_index)
            ss, stats = solver.solve(phys, need_stats=True, **kw)
            require(kw == before, "solve changed its arguments: {} was {}", kw, before)
            require((phys.to_polynomial(), phys.get_offset(), dict(phys._label_to_index)) == poly, "solve changed the model")
            return ordered(ss), stats

        a_solver = SawatabiSolver()
        np.random.seed(1)
        state = np.random.get_state()[1].tobytes()
        a = go(a_solver)
        require(np.random.get_state()[1].tobytes() == state, "solve uses the global random generator")
        again = go(a_solver)
        require(a == again, "seed {}: the same solver run again differs: {} / {}", case["kw"]["seed"], a, again)
        np.random.seed(99)
        import random as pyrandom

        pyrandom.seed(5)
        b = go(SawatabiSolver())
        require(a == b, "seed {}: two runs differ: {} / {}", case["kw"]["seed"], a, b)
        okw = copy.deepcopy(case["other"]["kw"])
        if case["between"] == 0:
            okw.pop("seed")
        if case["between"] == 1:
            # a refused request in between
            try:
                a_solver.solve(other, **dict(okw, pickup_mode="none such"))
            except ValueError:
                pass
        a_solver.solve(other, **okw)
        c = go(a_solver)
        require(a == c, "seed {}: a reused solver gives another result: {} / {}", case["kw"]["seed"], a, c)
        # another instance of an equal model
        _, phys, _, _ = build(case)
        d = go(SawatabiSolver())
        require(a == d, "seed {}: an equal model gives another result", case["kw"]["seed"])
        kw = case["kw"]
        free = "initial_states" not in kw or kw.get("initial_temperature", 100.0) > 1
        return Info(nontrivial=free, tags=[f"seed={kw['seed']}", kw.get("pickup_mode", "default"), case["mtype"]], weight=4)


def zero_temperature(case, p, labels, start, sweeps):
    """Reference dynamics at vanishing temperature, sequential order: flip whenever the energy does not rise."""
    lo, hi = values(case["mtype"])
    s = dict(start)
    e = evaluate(p, s)
    energies, accepted = [], []
    for _ in range(sweeps):
        energies.append(e)
        n = 0
        for x in labels:
            t = dict(s)
            t[x] = lo if s[x] == hi else hi
            e2 = evaluate(p, t)
            if e2 <= e:
                s, e = t, e2
                n += 1
        accepted.append(n)
    return s, e, energies, accepted


class C15(SolverCheck):
    PROPERTY = "C15"
    RULE = (
        "Annealing dynamics: temperature schedules (forward and reverse) against their formulas; at vanishing temperature the whole trajectory (sequential order) against a reference, "
        "and monotone energies in random order; at unbounded temperature every flip accepted; at a fixed temperature the mean energy against the exact Boltzmann mean. "
        "Non-trivial: at least two variables or a reverse schedule."
    )

    @st.composite
    def _s(draw, self):
        kind = draw(st.sampled_from(["cold", "cold", "cold-random", "hot", "schedule", "reverse", "boltzmann", "rates", "rates"]))
        if kind == "boltzmann":
            case = draw(model_case(max_vars=3, coef=st.sampled_from([1.0, -1.0, 0.5, -0.5, 2.0])))
            case["T"] = draw(st.sampled_from([1.0, 2.0, 4.0]))
        elif kind == "rates":
            n = draw(st.integers(4, 10))
            case = {"mtype": draw(st.sampled_from(["ising", "qubo"])), "shapes": [["x", [n]]], "terms": [[[f"x[{i}]"], draw(exact_coef)] for i in range(n)]}
            case.update(offset=0.0, delete=None)
            case["T"] = draw(st.sampled_from([1.0, 0.5, 3.0, 20.0]))
            case["later"] = draw(st.integers(0, 2))
        else:
            case = draw(model_case(max_vars=5, coef=exact_coef, wide=True))
            # every energy is exact, so that a flip which costs nothing is one however it is computed
            case["offset"] = round(4 * case["offset"]) / 4
        case["kind"] = kind
        case["sweeps"] = draw(st.integers(1, 14))
        case["starts"] = initial_states(draw, used_labels(case), case["mtype"], draw(st.integers(1, 3)))
        case["rate"] = draw(st.sampled_from([0.5, 0.75, 0.9, 1.0, 0.5, 0.75, 0.9, 0.0, 1e-160]))
        case["cold"] = draw(st.sampled_from([1e-9, 1e-9, 1e-12, 0.0, 1e-315]))
        case["reverse"] = draw(st.sampled_from([False, False, True]))
        case["T0"] = draw(st.sampled_from([1.0, 100.0, 8.0]))
        case["period"] = draw(st.integers(0, 16))
        case["mode"] = draw(st.sampled_from(["random", "sequential"]))
        case["seed"] = draw(st.integers(0, 1000))
        return case

    def strategy(self, tier):
        return C15._s(self)

    def run_case(self, case):
        from sawatabi.solver import SawatabiSolver

        m, phys, p, labels = build(case)
        kind, n = case["kind"], case["sweeps"]
        mag = sum(abs(v) for v in p.values())
        solver = SawatabiSolver()
        starts = case["starts"]
        base = dict(num_reads=len(starts), num_sweeps=n, seed=case["seed"], need_stats=True, pickup_mode=case["mode"], initial_states=copy.deepcopy(starts))

        def ints(xs):
            return [int(x) for x in xs]

        def floats(xs):
            return [float(x) for x in xs]

        def finals(want):
            got = occurrences(ss)
            count = {}
            for w in want:
                k = tuple(sorted(w.items()))
                count[k] = count.get(k, 0) + 1
            require(got == count, "from {} the results are {}, expected {}", starts, got, count)

        if kind == "cold":
            base.update(pickup_mode="sequential", initial_temperature=case["cold"], cooling_rate=case["rate"])
            if case["period"] == 1:
                base.update(initial_temperature=100.0, reverse_options={"reverse_period": 0, "reverse_temperature": 100.0})
            ss, stats = solver.solve(phys, **base)
            ref = [zero_temperature(case, p, labels, x, n) for x in starts]
            finals([r[0] for r in ref])
            check_sampleset(ss, case, p, labels, reads=len(starts))
            for (s, e, energies, accepted), stat in zip(ref, stats):
                h = floats(stat["energy_history"])
                require(all(close(a, b, mag) for a, b in zip(h, energies)), "energy_history {}, expected {}", h, energies)
                require(ints(stat["acceptance_history"]) == accepted, "acceptance_history {}, expected {}", stat["acceptance_history"], accepted)
        elif kind == "cold-random":
            base.update(initial_temperature=case["cold"])
            ss, stats = solver.solve(phys, **base)
            for start, stat in zip(starts, stats):
                h = floats(stat["energy_history"])
                if len(starts) == 1:
                    h.append(float(ss.first.energy))
                require(close(h[0], evaluate(p, start), mag), "energy_history starts at {}", h[0])
                require(all(b <= a + 1e-9 * max(1.0, mag) for a, b in zip(h, h[1:])), "energies rise at vanishing temperature: {}", h)
        elif kind == "hot":
            base.update(initial_temperature=1e18, cooling_rate=1.0)
            ss, stats = solver.solve(phys, **base)
            lo, hi = values(case["mtype"])
            for stat in stats:
                require(ints(stat["acceptance_history"]) == [len(labels)] * n, "flips refused at unbounded temperature: {}", stat["acceptance_history"])
            finals([{x: (v if n % 2 == 0 else (lo if v == hi else hi)) for x, v in s.items()} for s in starts])
        elif kind == "schedule":
            base.update(initial_temperature=case["T0"], cooling_rate=case["rate"])
            t0, rate = case["T0"], case["rate"]
            if case["period"] == 0:
                # the documented defaults
                for k in ("initial_temperature", "cooling_rate", "num_sweeps", "pickup_mode"):
                    base.pop(k)
                t0, rate, n = 100.0, 0.9, 100
            ss, stats = solver.solve(phys, **base)
            want = [t0 * rate**i for i in range(n)]
            for stat in stats:
                h = floats(stat["temperature_history"])
                require(len(h) == n and all(abs(a - b) <= 1e-9 * b + 1e-300 for a, b in zip(h, want)), "temperatures {}, expected {}", h, want)
        elif kind == "reverse":
            options = {"reverse_period": case["period"], "reverse_temperature": case["T0"]}
            base.update(cooling_rate=case["rate"], initial_temperature=1e6, reverse_options=options)
            ss, stats = solver.solve(phys, **base)
            t = 0.0
            want = []
            for i in range(n):
                want.append(t)
                t = case["T0"] * (1.0 - case["rate"] ** (i + 1)) if i < case["period"] else t * case["rate"]
            for stat in stats:
                h = floats(stat["temperature_history"])
                require(all(abs(a - b) <= 1e-8 * max(1.0, b) for a, b in zip(h, want)), "reverse annealing temperatures {}, expected {}", h, want)
            check_sampleset(ss, case, p, labels, reads=len(starts))
            require(options == {"reverse_period": case["period"], "reverse_temperature": case["T0"]}, "reverse_options became {}", options)
        elif kind == "rates":
            # Independent variables, all starting in the lower state: sweep by sweep each rises with probability exp(-dE/T) and falls for certain.
            reads = 600
            lo, hi = values(case["mtype"])
            down = {x[0]: (lo if p[(x[0],)] > 0 else hi) for x, _ in case["terms"]}
            sweeps = case["later"] + 1
            rate = 0.5 if case["later"] else 1.0
            # the temperature of the last sweep is T
            base.update(num_reads=reads, num_sweeps=sweeps, initial_temperature=case["T"] / rate ** (sweeps - 1), cooling_rate=rate, initial_states=[dict(down) for _ in range(reads)])
            temps = [case["T"] / rate ** (sweeps - 1 - k) for k in range(sweeps)]
            if case["reverse"] and case["later"]:
                top = case["T"] / (1.0 - rate ** (sweeps - 1))
                temps = [1e-9] + [top * (1.0 - rate**k) for k in range(1, sweeps)]
                base.update(initial_temperature=1e6, reverse_options={"reverse_period": sweeps, "reverse_temperature": top})
            ss, _ = solver.solve(phys, **base)
            ups, expect, var = 0, 0.0, 0.0
            groups = {}
            for d in ss.data(["sample", "num_occurrences"]):
                for x, v in d.sample.items():
                    if v != down[x]:
                        groups[x] = groups.get(x, 0) + int(d.num_occurrences)
            for x in down:
                cost = abs(p[(x,)]) * (hi - lo)
                up = 0.0
                for k in range(sweeps):
                    up = (1.0 - up) * math.exp(-cost / temps[k])
                got = groups.get(x, 0)
                sd = math.sqrt(reads * up * (1.0 - up))
                require(abs(got - reads * up) <= 6.5 * sd + 3, "at temperature {} a flip that costs {} happened in {} of {} reads, the Boltzmann probability gives {}", case["T"], cost, got, reads, reads * up)
                ups, expect, var = ups + got, expect + reads * up, var + sd * sd
            require(abs(ups - expect) <= 6.5 * math.sqrt(var) + 3, "at temperature {} {} flips were accepted, the Boltzmann probabilities give {}", case["T"], ups, expect)
        else:
            N = 1500
            # In sequential order zero-cost flips can go round deterministically for ever (a chain that is not ergodic);
            # in random order every site is proposed in every order.
            base.update(num_reads=1, num_sweeps=N, initial_temperature=case["T"], cooling_rate=1.0, pickup_mode="random")
            base.pop("initial_states")
            ss, stats = solver.solve(phys, **base)
            h = np.array([float(x) for x in stats[0]["energy_history"]])[100:]
            lv = np.array([evaluate(p, dict(zip(labels, t))) for t in itertools.product(values(case["mtype"]), repeat=len(labels))])
            w = np.exp(-(lv - lv.min()) / case["T"])
            w /= w.sum()
            mean = float((lv * w).sum())
            sd = float(np.sqrt(((lv - mean) ** 2 * w).sum()))
            b = h.reshape(20, -1).mean(axis=1)
            se = max(float(b.std(ddof=1)) / math.sqrt(20), sd / math.sqrt(len(h)))
            if w.min() < 0.01:
                return Info(nontrivial=False, tags=["boltzmann-skipped"])
            require(abs(float(h.mean()) - mean) <= 8 * se + 1e-9, "mean energy {} at temperature {}, the Boltzmann mean is {} (standard error {})", h.mean(), case["T"], mean, se)
        return Info(nontrivial=len(labels) >= 2 or kind == "reverse", tags=[kind, case["mtype"]], weight=n)


class C16(SolverCheck):
    PROPERTY = "C16"
    RULE = (
        "LocalSolver on generated models: the exact mode must list every assignment exactly once with its energy (so the first is a ground state), the annealing mode must return as many reads as "
        "asked, each with its true energy, reproducibly for a seed. Non-trivial: at least two variables and a quadratic term."
    )

    @st.composite
    def _s(draw, self):
        case = draw(model_case(max_vars=7, wide=True))
        case["kw"] = {"num_reads": draw(st.one_of(st.integers(1, 8), st.integers(1, 40))), "num_sweeps": draw(st.integers(1, 50)), "seed": draw(st.one_of(st.integers(1, 10000), st.integers(1, 2**32 - 2)))}
        if draw(st.booleans()):
            case["kw"]["beta_range"] = draw(st.sampled_from([[0.1, 3.0], [1.0, 2.0], [0.5, 10.0]]))
        if draw(st.integers(0, 3)) == 0:
            del case["kw"][draw(st.sampled_from(["num_reads", "num_sweeps"]))]
        case["other"] = draw(model_case(max_vars=4))
        return case

    def strategy(self, tier):
        return C16._s(self)

    def run_case(self, case):
        from sawatabi.solver import LocalSolver

        m, phys, p, labels = build(case)
        _, other, op, olabels = build(case["other"])
        mag = sum(abs(v) for v in p.values())
        if len(labels) <= 12:
            solver = LocalSolver(exact=True)
            for _ in range(2):
                ss = solver.solve(phys)
                seen = check_sampleset(ss, case, p, labels, reads=2 ** len(labels), what="exact solution")
                require(len(seen) == 2 ** len(labels), "the exact solver returned {} of {} assignments", len(seen), 2 ** len(labels))
                best = min(evaluate(p, dict(zip(labels, t))) for t in itertools.product(values(case["mtype"]), repeat=len(labels)))
                require(close(float(ss.first.energy), best, mag), "the exact solver's best energy is {}, the ground state has {}", ss.first.energy, best)
                require(ss.info["timing"]["execution_sec"] >= 0, "no timing")
                check_sampleset(solver.solve(other), case["other"], op, olabels, reads=2 ** len(olabels), what="exact solution of another model")
                if len(labels) > 5:
                    break
        sa = LocalSolver(exact=False)
        kw = copy.deepcopy(case["kw"])
        s1 = sa.solve(phys, **kw)
        require(kw == case["kw"], "solve changed its arguments")
        check_sampleset(s1, case, p, labels, reads=case["kw"].get("num_reads", 1), what="annealing solution")
        require(s1.info["timing"]["execution_sec"] >= 0, "no timing")
        if "beta_range" in kw:
            require(list(s1.info["beta_range"]) == kw["beta_range"], "beta_range {} became {}", kw["beta_range"], s1.info)
        s2 = LocalSolver().solve(phys, **case["kw"])
        require(ordered(s1) == ordered(s2), "two runs with the same seed differ")
        import neal

        require(ordered(s1) == ordered(neal.SimulatedAnnealingSampler().sample(phys.to_bqm(), **case["kw"])), "the annealer does not return this for the model with the options given")
        check_sampleset(sa.solve(other, num_sweeps=5), case["other"], op, olabels, reads=1, what="annealing solution of another model")
        require(ordered(sa.solve(phys, **case["kw"])) == ordered(s1), "a second run of the same solver with the same seed differs")
        import dimod

        bqm = dimod.BinaryQuadraticModel("SPIN" if case["mtype"] == "ising" else "BINARY")
        for k, v in p.items():
            if len(k) == 2:
                bqm.add_interaction(k[0], k[1], v)
            elif k:
                bqm.add_variable(k[0], v)
        want, got = neal.default_beta_range(bqm), sa.default_beta_range(phys)
        require(len(got) == 2 and all(abs(a - b) <= 1e-6 * abs(b) for a, b in zip(got, want)), "default_beta_range {}, the model's is {}", got, want)
        check_physical_unchanged(phys, p)
        return Info(nontrivial=len(labels) >= 2 and any(len(t) == 2 for t, _ in case["terms"]), tags=[case["mtype"], f"n={len(labels)}"], weight=2 ** len(labels) + case["kw"].get("num_reads", 1))


def check_physical_unchanged(phys, p):
    from vchk.model import bqm_poly

    got = bqm_poly(phys.to_bqm())
    for k in set(got) | set(p):
        require(close(got.get(k, 0.0), p.get(k, 0.0)), "the solver changed the model at {}", k)


# ---------------------------------------------------------------- Optigan, over loopback HTTP


class _Server:
    """A stand-in for the Optigan service on the loopback interface; answers as the case says."""

    def __init__(self):
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def do_POST(self):
                raw = self.rfile.read(int(self.headers.get("Content-Length") or 0))
                outer.requests.append({"path": self.path, "headers": {k.lower(): v for k, v in self.headers.items()}, "raw": raw})
                status, body = outer.answer(outer.requests[-1])
                enc = None
                if "gzip" in (self.headers.get("Accept-Encoding") or "") and outer.gzip:
                    body, enc = gzip.compress(body), "gzip"
                self.send_response(status)
                self.send_header("Content-Type", "application/json")
                self.send_header("Content-Length", str(len(body)))
                if enc:
                    self.send_header("Content-Encoding", enc)
                self.send_header("Connection", "close")
                self.end_headers()
                self.wfile.write(body)
                self.close_connection = True

        class S(http.server.ThreadingHTTPServer):
            daemon_threads = True
            allow_reuse_address = True

        self.httpd = S(("127.0.0.1", 0), H)
        self.gzip = True
        self.requests = []
        self.answer = None
        self.port = self.httpd.server_address[1]
        threading.Thread(target=self.httpd.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True).start()


_servers = {}


def server():
    """The stand-in service of this process."""
    if os.getpid() not in _servers:
        _servers[os.getpid()] = _Server()
    return _servers[os.getpid()]


class C17(SolverCheck):
    PROPERTY = "C17"
    RULE = (
        "QUBO models solved through a stand-in Optigan service on the loopback interface, which evaluates the polynomial it received and answers with generated spins (or an error status); the request "
        "must carry the options, credentials and the exact polynomial, and the returned samples must have that energy under the model. Non-trivial: a quadratic term and at least two variables."
    )

    @st.composite
    def _s(draw, self):
        case = draw(model_case(max_vars=7, mtypes=("qubo",), wide=True))
        case["other"] = draw(model_case(max_vars=5, mtypes=("qubo",)))
        case["calls"] = []
        for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
            which = draw(st.integers(0, 3)) == 0 and len(case["calls"]) > 0
            n = len(used_labels(case["other"] if which else case))
            spins = [[draw(st.integers(0, 1)) for _ in range(n)] for _ in range(draw(st.integers(1, 4)))]
            if draw(st.integers(0, 4)) == 0:
                spins.append(list(spins[0]))
            kw = {}
            for k, v in (
                ("num_unit_steps", st.integers(1, 50)),
                ("timeout", st.integers(1, 20000)),
                ("duplicate", st.booleans()),
                ("gzip_request", st.booleans()),
                ("gzip_response", st.booleans()),
            ):
                if draw(st.booleans()):
                    kw[k] = draw(v)
            status = draw(st.sampled_from([200, 200, 200, 200, 200, 200, 201, 202, 204, 206, 301, 304, 400, 401, 403, 404, 429, 500, 502, 503]))
            case["calls"].append({"kw": kw, "spins": spins, "status": status, "other": which, "gzip": draw(st.integers(0, 3)) > 0})
        case["cred"] = draw(st.sampled_from(["args", "config", "both", "home", "endpoint-only", "token-only", "both-home"]))
        case["token"] = draw(st.text("abcXYZ019-_.", min_size=1, max_size=20))
        return case

    def strategy(self, tier):
        return C17._s(self)

    def run_case(self, case):
        from sawatabi.solver import OptiganSolver

        srv = server()
        models = [build(case), build(case["other"])]
        endpoint = f"http://127.0.0.1:{srv.port}/method/{len(case['token'])}?v=1"
        scratch = tempfile.mkdtemp(prefix="vchk-optigan-")
        home = os.environ.get("HOME")
        tags = [case["cred"]]
        try:
            cfg, dot = os.path.join(scratch, "conf.yml"), os.path.join(scratch, ".optigan.yml")
            good = f'api:\n  endpoint: "{endpoint}"\n  token: "{case["token"]}"\n'
            bad = 'api:\n  endpoint: "http://127.0.0.1:9/wrong"\n  token: "wrong"\n'
            os.environ["HOME"] = scratch
            cred = case["cred"]
            if cred == "args":
                solver = OptiganSolver(endpoint=endpoint, token=case["token"])
            elif cred == "both":
                _write(cfg, bad)
                solver = OptiganSolver(config=cfg, endpoint=endpoint, token=case["token"])
            elif cred == "both-home":
                _write(dot, bad)
                solver = OptiganSolver(endpoint=endpoint, token=case["token"])
            elif cred == "home":
                # a solver made while the file was another one
                _write(dot, bad)
                try:
                    OptiganSolver().solve(models[0][1])
                    require(False, "the service at an endpoint where there is none gave an answer")
                except (OSError, RuntimeError):  # requests' errors are OSErrors
                    pass
                _write(dot, good)
                solver = OptiganSolver()
            elif cred == "endpoint-only":
                # an endpoint or a token alone is not enough: the file counts
                _write(cfg, good)
                solver = OptiganSolver(config=cfg, endpoint="http://127.0.0.1:9/wrong")
            elif cred == "token-only":
                _write(dot, good)
                solver = OptiganSolver(token="wrong")
            else:
                _write(dot, bad)
                _write(cfg, good)
                solver = OptiganSolver(config=cfg)
            for call in case["calls"]:
                tags += self._call(case, call, srv, solver, models[1 if call["other"] else 0])
        finally:
            if home is None:
                os.environ.pop("HOME", None)
            else:
                os.environ["HOME"] = home
            shutil.rmtree(scratch, ignore_errors=True)
        return Info(
            nontrivial=len(models[0][3]) >= 2 and any(len(t) == 2 for t, _ in case["terms"]),
            tags=tags,
            weight=sum(len(c["spins"]) for c in case["calls"]),
        )

    def _call(self, case, call, srv, solver, built):
        m, phys, p, labels = built
        srv.requests.clear()
        srv.gzip = call["gzip"]
        sent = {}

        def answer(req):
            raw = req["raw"]
            if req["headers"].get("content-encoding") == "gzip":
                raw = gzip.decompress(raw)
            payload = json.loads(raw.decode("utf-8"))
            sent["payload"] = payload
            energies = []
            for spins in call["spins"]:
                e = 0.0
                for i, j, c in payload["polynomial"]:
                    e += c * spins[i] * spins[j]
                energies.append(e)
            sent["energies"] = energies
            return call["status"], json.dumps({"spins": call["spins"], "energies": energies, "execution_time": {"queue_time": 1.5}}).encode()

        srv.answer = answer
        tags = [f"status={call['status']}"]
        if call["status"] != 200:
            try:
                solver.solve(phys, **call["kw"])
            except ValueError as e:
                require(str(call["status"]) in str(e), "the error {!r} does not tell the status {}", str(e), call["status"])
            else:
                raise Violation(f"a response with status {call['status']} was accepted")
            return tags
        ss = solver.solve(phys, **call["kw"])
        kw = call["kw"]
        require(len(srv.requests) == 1, "{} requests were sent", len(srv.requests))
        req, payload = srv.requests[0], sent["payload"]
        require(req["path"] == f"/method/{len(case['token'])}?v=1", "posted to {}", req["path"])
        h = req["headers"]
        require(h.get("authorization") == "Bearer " + case["token"], "authorization header {!r} for token {!r}", h.get("authorization"), case["token"])
        require(payload["num_unit_steps"] == kw.get("num_unit_steps", 10), "num_unit_steps {}", payload["num_unit_steps"])
        require(payload["timeout"] == kw.get("timeout", 10000), "timeout {}", payload["timeout"])
        if kw.get("duplicate", False):
            require(payload.get("outputs") == {"duplicate": True, "num_outputs": 0}, "outputs {}", payload.get("outputs"))
        else:
            require("outputs" not in payload, "outputs {} though duplicates were not asked for", payload.get("outputs"))
        require((h.get("content-encoding") == "gzip") == kw.get("gzip_request", True), "gzip_request {} but content-encoding {}", kw.get("gzip_request", True), h.get("content-encoding"))
        if kw.get("gzip_response", True):
            require("gzip" in h.get("accept-encoding", ""), "gzip_response but accept-encoding {}", h.get("accept-encoding"))
        n = len(labels)
        poly = {(): 0.0}
        for i, j, c in payload["polynomial"]:
            require(0 <= i < n and 0 <= j < n and isinstance(i, int) and isinstance(j, int), "polynomial term {} of a model of {} variables", (i, j, c), n)
            padd(poly, tuple(sorted({labels[i], labels[j]})), float(c))
        mag = sum(abs(v) for v in p.values())
        for k in set(poly) | set(p):
            if k:
                require(close(poly.get(k, 0.0), p.get(k, 0.0)), "the polynomial sent has {} at {}, the model {}", poly.get(k, 0.0), k, p.get(k, 0.0))
        import dimod

        require(isinstance(ss, dimod.SampleSet) and ss.vartype is dimod.BINARY, "result {}", ss)
        require(sorted(ss.variables) == sorted(labels), "variables {}, expected {}", list(ss.variables), labels)
        got = []
        for d in ss.data(["sample", "energy", "num_occurrences"]):
            s = {k: int(v) for k, v in dict(d.sample).items()}
            e = evaluate(p, s) - p[()]
            require(close(float(d.energy), e, mag), "sample {} comes with energy {}, under the model (without offset) it is {}", s, d.energy, e)
            got += [tuple(s[x] for x in labels)] * int(d.num_occurrences)
        want = sorted(tuple(x) for x in call["spins"])
        require(sorted(got) == want, "samples {} from the response {} (order {})", sorted(got), want, labels)
        require(ss.info["energies"] == sent["energies"] and ss.info["spins"] == call["spins"] and ss.info["execution_time"] == {"queue_time": 1.5}, "info {}", ss.info)
        check_physical_unchanged(phys, p)
        return tags + [k for k in kw]


def _write(path, text):
    with open(path, "w") as f:
        f.write(text)


class C18(SolverCheck):
    PROPERTY = "C18"
    RULE = (
        "DWaveSolver with the vendor's sampler and embedding composite replaced by recording stand-ins: the problem handed over must have the model's energy on every assignment, options and credentials "
        "must arrive unchanged, and the returned sampleset must come back as is. Non-trivial: a quadratic term."
    )

    @st.composite
    def _s(draw, self):
        case = draw(model_case(max_vars=7, wide=True))
        case["other"] = draw(model_case(max_vars=5))
        case["init"] = {}
        if draw(st.booleans()):
            case["init"] = {"endpoint": "http://127.0.0.1/x", "token": draw(st.text("abc01", min_size=1, max_size=8))}
            if draw(st.integers(0, 3)) == 0:
                del case["init"][draw(st.sampled_from(["endpoint", "token"]))]
        if draw(st.booleans()):
            case["init"]["solver"] = draw(st.sampled_from(["Advantage_system4.1", "DW_2000Q_6"]))
        if draw(st.booleans()):
            case["init"]["embedding_parameters"] = draw(st.sampled_from([{"random_seed": 1}, {"tries": 3, "timeout": 5}]))
        option = st.dictionaries(st.sampled_from(["num_reads", "chain_strength", "annealing_time", "answer_mode", "num_spin_reversal_transforms"]), st.one_of(st.integers(0, 1000), st.sampled_from([0.5, "raw", False])), max_size=3)
        case["calls"] = draw(st.lists(st.tuples(st.integers(0, 1), option).map(list), min_size=1, max_size=3))
        return case

    def strategy(self, tier):
        return C18._s(self)

    def run_case(self, case):
        import unittest.mock as mock

        import dimod
        from sawatabi.solver import DWaveSolver

        models = [build(case), build(case["other"])]
        log = {"sampler": [], "composite": [], "sample": []}

        def s_init(self, *a, **kw):
            log["sampler"].append((a, kw, self))

        def c_init(self, *a, **kw):
            log["composite"].append((a, kw))

        def c_sample(self, bqm, **kw):
            ss = dimod.SampleSet.from_samples_bqm([{v: (i >> k) & 1 if bqm.vartype is dimod.BINARY else 2 * ((i >> k) & 1) - 1 for k, v in enumerate(bqm.variables)} for i in range(3)], bqm)
            log["sample"].append((bqm.copy(), kw, ss))
            return ss

        with mock.patch("dwave.system.samplers.DWaveSampler.__init__", s_init), mock.patch("dwave.system.composites.EmbeddingComposite.__init__", c_init), mock.patch(
            "dwave.system.composites.EmbeddingComposite.sample", c_sample
        ):
            solver = DWaveSolver(**copy.deepcopy(case["init"]))
            results = [solver.solve(models[i][1], **copy.deepcopy(kw)) for i, kw in case["calls"]]
        require(len(log["sampler"]) == 1, "{} samplers were made", len(log["sampler"]))
        _, skw, sampler = log["sampler"][0]
        init = case["init"]
        require(skw.get("solver") == init.get("solver", "Advantage_system1.1"), "sampler made with {}", skw)
        if "token" in init and "endpoint" in init:
            require(skw.get("token") == init["token"] and skw.get("endpoint") == init["endpoint"], "credentials {} became {}", init, skw)
        else:
            require(skw.get("token") in (None, init.get("token")) and skw.get("endpoint") in (None, init.get("endpoint")), "credentials {} from nowhere", skw)
        a, ckw = log["composite"][0]
        child = a[0] if a else ckw.get("child_sampler")
        require(child is sampler, "the composite is not made over the sampler")
        require(ckw.get("embedding_parameters") == init.get("embedding_parameters"), "embedding_parameters {}", ckw)
        require(len(log["sample"]) == len(case["calls"]), "{} sample calls", len(log["sample"]))
        from vchk.model import bqm_poly

        for (bqm, kw, ss), result, (i, want) in zip(log["sample"], results, case["calls"]):
            _, phys, p, labels = models[i]
            sub = case["other"] if i else case
            require(kw == want, "options {} became {}", want, kw)
            require(bqm.vartype is (dimod.SPIN if sub["mtype"] == "ising" else dimod.BINARY), "vartype {}", bqm.vartype)
            require(sorted(bqm.variables) == sorted(labels), "variables {}", list(bqm.variables))
            got = bqm_poly(bqm)
            for k in set(got) | set(p):
                require(close(got.get(k, 0.0), p.get(k, 0.0)), "the problem handed over has {} at {}, expected {}", got.get(k, 0.0), k, p.get(k, 0.0))
            require(result == ss, "the result is not what the sampler returned")
            check_sampleset(result, sub, p, labels)
            check_physical_unchanged(phys, p)
        return Info(
            nontrivial=any(len(t) == 2 for t, _ in case["terms"]),
            tags=[case["mtype"], f"calls={len(case['calls'])}"] + sorted(init),
            weight=len(case["calls"]),
        )


class C19(SolverCheck):
    PROPERTY = "C19"
    RULE = (
        "Every solver is given requests it must refuse (a logical model, a non-model, an empty model or one whose terms cancel, an Ising model for Optigan, wrong numbers of initial states, unknown pick-up modes, incomplete reverse "
        "options): it must raise the documented exception class without contacting any service, and the same solver must still solve a valid model afterwards. Non-trivial: every case."
    )

    @st.composite
    def _s(draw, self):
        case = draw(model_case(max_vars=4))
        case["solver"] = draw(st.sampled_from(["sawatabi", "local", "exact", "optigan", "dwave"]))
        kinds = ["logical", "none", "str", "empty", "cancel", "no-vars", "all-removed", "all-deleted", "all-fixed", "bqm"]
        if case["solver"] == "sawatabi":
            kinds += ["short-initial", "long-initial", "pickup", "pickup-type", "reverse-period", "reverse-temp", "reverse-type", "reverse-list", "reverse-none"]
            case["extra"] = {}
            for k, v in (("num_sweeps", 3), ("seed", 0), ("need_stats", True), ("initial_temperature", 2.0), ("pickup_mode", "sequential")):
                if draw(st.integers(0, 3)) == 0:
                    case["extra"][k] = v
        if case["solver"] == "optigan":
            kinds += ["ising"]
        if case["solver"] in ("local", "exact"):
            kinds += ["range-logical", "range-empty", "range-cancel"]
        case["bad"] = draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=4))
        return case

    def strategy(self, tier):
        return C19._s(self)

    def run_case(self, case):
        import unittest.mock as mock

        import dimod
        from sawatabi.model import LogicalModel
        from sawatabi.solver import DWaveSolver, LocalSolver, OptiganSolver, SawatabiSolver

        m, phys, p, labels = build(case)
        contacts = []
        srv = server()

        def answer(req):
            contacts.append("post")
            n = len(labels)
            return 200, json.dumps({"spins": [[1] * n], "energies": [evaluate(p, {x: 1 for x in labels}) - p[()]]}).encode()

        srv.answer = answer

        def s_init(self, *a, **kw):
            pass

        def c_sample(self, bqm, **kw):
            contacts.append("sample")
            return dimod.ExactSolver().sample(bqm)

        with mock.patch("dwave.system.samplers.DWaveSampler.__init__", s_init), mock.patch(
            "dwave.system.composites.EmbeddingComposite.__init__", s_init
        ), mock.patch("dwave.system.composites.EmbeddingComposite.sample", c_sample):
            name = case["solver"]
            solver = {
                "sawatabi": SawatabiSolver,
                "local": LocalSolver,
                "exact": lambda: LocalSolver(exact=True),
                "optigan": lambda: OptiganSolver(endpoint=f"http://127.0.0.1:{srv.port}/", token="t"),
                "dwave": DWaveSolver,
            }[name]()
            for bad in case["bad"]:
                kw, target, exc = {}, phys, ValueError
                if bad == "logical":
                    target, exc = m, TypeError
                elif bad == "none":
                    target, exc = None, TypeError
                elif bad == "str":
                    target, exc = "model", TypeError
                elif bad == "bqm":
                    target, exc = phys.to_bqm(), TypeError
                elif bad == "range-logical":
                    target, exc = m, TypeError
                elif bad == "no-vars":
                    target = LogicalModel(mtype=case["mtype"]).to_physical()
                elif bad in ("all-removed", "all-deleted", "all-fixed"):
                    e = LogicalModel(mtype=case["mtype"])
                    x = e.variables("x", shape=(2,))
                    e.add_interaction(x[0], coefficient=1.5)
                    e.add_interaction((x[0], x[1]), coefficient=-2.0)
                    if bad == "all-removed":
                        e.remove_interaction(x[0])
                        e.remove_interaction((x[0], x[1]))
                    elif bad == "all-deleted":
                        e.delete_variable(x[0])
                    else:
                        e.fix_variable(x[0], 1)
                        e.fix_variable(x[1], 1)
                    target = e.to_physical()
                elif bad in ("empty", "range-empty"):
                    e = LogicalModel(mtype=case["mtype"])
                    e.variables("x", shape=(2,))
                    e.offset(3.0)
                    target = e.to_physical()
                elif bad in ("cancel", "range-cancel"):
                    e = LogicalModel(mtype=case["mtype"])
                    x = e.variables("x", shape=(2,))
                    e.add_interaction(x[0], coefficient=1.5)
                    e.add_interaction(x[0], name="back", coefficient=-3.0, scale=0.5)
                    e.add_interaction((x[0], x[1]), coefficient=0.0)
                    target = e.to_physical()
                elif bad == "short-initial":
                    kw = {"num_reads": 3, "initial_states": [{x: 1 for x in labels}]}
                elif bad == "long-initial":
                    kw = {"num_reads": 1, "initial_states": [{x: 1 for x in labels}] * 2}
                elif bad == "pickup":
                    kw = {"pickup_mode": "no such mode"}
                elif bad == "pickup-type":
                    kw = {"pickup_mode": "Random"}
                elif bad == "reverse-list":
                    kw, exc = {"reverse_options": ["reverse_period", "reverse_temperature"]}, TypeError
                elif bad == "reverse-period":
                    kw = {"reverse_options": {"reverse_temperature": 10.0}}
                elif bad == "reverse-temp":
                    kw = {"reverse_options": {"reverse_period": 5}}
                elif bad == "reverse-none":
                    kw = {"reverse_options": {}}
                elif bad == "reverse-type":
                    kw, exc = {"reverse_options": "5"}, TypeError
                elif bad == "ising":
                    e = LogicalModel(mtype="ising")
                    x = e.variables("x", shape=(1,))
                    e.add_interaction(x[0], coefficient=1.5)
                    target = e.to_physical()
                try:
                    if bad.startswith("range"):
                        result = solver.default_beta_range(target)
                    else:
                        result = solver.solve(target, **dict(case.get("extra", {}), **kw))
                except exc:
                    pass
                except Exception as e2:
                    raise Violation(f"{name}: the invalid request '{bad}' raised {type(e2).__name__}: {e2}, expected {exc.__name__}")
                else:
                    raise Violation(f"{name}: the invalid request '{bad}' was accepted: {result}")
                require(not contacts, "{}: the invalid request '{}' reached the service", name, bad)
            if name == "optigan":
                if case["mtype"] == "qubo":
                    check_sampleset(solver.solve(phys), dict(case, offset=0.0), {k: v for k, v in p.items() if k}, labels, reads=1)
            else:
                kw = {"num_reads": 2, "num_sweeps": 2, "seed": 3} if name in ("sawatabi", "local") else {}
                check_sampleset(solver.solve(phys, **kw), case, p, labels)
        return Info(nontrivial=True, tags=[case["solver"] + ":" + b for b in case["bad"]], weight=len(case["bad"]))


CHECKS = [C13(), C14(), C15(), C16(), C17(), C18(), C19()]
