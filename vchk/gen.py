"""Hypothesis strategies of operation histories over logical models (JSON-able)."""
import copy

from hypothesis import strategies as st

from vchk.model import Ref, all_labels, default_name, keyof

LARGE_CON = 14
LARGE = False  # set in the process that runs large cases

NAMES = ["x", "y", "zz", "x1"]
POOLS = [NAMES, NAMES, NAMES, ["b", "a", "x_1", "s"], ["v w", "\u03b2", "X", "x"], ["q10", "q1", "q", "y"], ["x", "xx", "yx", "y"], ["zz", "ax1", "b0b", "a"]]
ATTR_KEYS = ["a", "b.c", "ts"]
CLABELS = ["c1", "c2", "c3"]

_quarter = st.integers(-24, 24).map(lambda i: i / 4.0)
coef_exact = st.one_of(_quarter, st.integers(-5, 5), st.sampled_from([1.0, -1.0, 0.0, 1024.0, -0.0625, 2.0**-23, -(2.0**-21), 1]))
coef_any = st.one_of(coef_exact, coef_exact, st.floats(-1e4, 1e4, allow_nan=False, width=32).map(float))
scale_exact = st.sampled_from([1.0, 1.0, 0.5, 2.0, -1.0, 0.0, 0.25, 3, 1.5])
small_time = st.one_of(st.integers(-5, 2000000000), st.integers(0, 80).map(lambda i: i / 8.0))
attr_value = st.one_of(st.integers(-3, 100), st.sampled_from(["p", "q r", 0, "", True, 1.5, None]))


def shapes_strategy(max_vars=5):
    out = [[n] for n in range(1, max_vars + 1)] + [[1, 1], [2, 1], [1, 2], [2, 2], [1, 3]]
    return st.sampled_from([s for s in out if _size(s) <= max_vars])


WIDE = [[11], [12], [13], [2, 6], [6, 2], [1, 11], [2, 2, 3], [1, 1, 11], [11, 1]]


HUGE = [[101], [120], [30], [25, 2], [5, 5], [3, 3, 3], [1, 101], [2, 2, 2, 2]]


MERGED = {1: [[1], [2], [3]], 2: [[1, 1], [2, 1], [1, 2], [2, 2]], 3: [[1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2]], 4: [[1, 1, 1, 1], [1, 2, 1, 1], [1, 1, 1, 2]]}


def _size(s):
    n = 1
    for x in s:
        n *= x
    return n


def _pick_target(draw, labels, quad=None):
    if quad is None:
        quad = len(labels) > 1 and draw(st.booleans())
    if quad and len(labels) > 1:
        i = draw(st.integers(0, len(labels) - 1))
        j = draw(st.integers(0, len(labels) - 2))
        if j >= i:
            j += 1
        return [labels[i], labels[j]]
    return labels[draw(st.integers(0, len(labels) - 1))]


def draw_attrs(draw):
    keys = draw(st.lists(st.sampled_from(ATTR_KEYS), unique=True, max_size=2))
    return {k: draw(attr_value) for k in keys}


class Profile:
    """Which operations a history consists of, with weights."""

    def __init__(self, weights, max_ops=14, max_vars=5, coef=coef_exact, attrs=False, times=False, final_cap=7, names=True, mtypes=("ising", "qubo"), min_ops=3, start=(), focus=(), wide=True, clock=False):
        self.weights = weights
        self.max_ops = max_ops
        self.min_ops = min_ops
        self.start = start  # kinds of the first operations
        self.focus = focus  # kinds of which one comes at a random place
        self.max_vars = max_vars
        self.coef = coef
        self.attrs = attrs
        self.times = times
        self.final_cap = final_cap
        self.names = names
        self.mtypes = mtypes
        self.wide = wide
        self.clock = clock  # the system clock may stand still or go backwards
        self.bag = [k for k, w in weights.items() for _ in range(w)]

    def enlarged(self):
        p = copy.copy(self)
        p.max_vars, p.final_cap, p.min_ops, p.max_ops = 130, 134, 3 * self.max_ops // 2, 4 * self.max_ops
        if self.slow():
            p.min_ops, p.max_ops = self.max_ops, 2 * self.max_ops
        return p

    def slow(self):
        """Each conversion adds interactions, and each compile goes through all of them."""
        return "ising" in self.weights or "phys" in self.weights and "con" in self.weights

    def widened(self):
        p = copy.copy(self)
        p.max_vars, p.final_cap = 14, 16
        return p


def one_op(draw, ref, prof, k):
    """Draws one valid operation of kind k for the current state, or None."""
    alive = ref.alive()
    if k == "var":
        free = [n for n in ref.pool if n not in ref.shapes]
        if ref.shapes and draw(st.integers(0, 4)) == 0:
            # declaring the same name again, at least as large
            name = draw(st.sampled_from(list(ref.shapes)))
            shape = ref.shapes[name]
            new = [shape[0] + draw(st.integers(0, 2))] + shape[1:]
            if len(ref.labels()) - _size(shape) + _size(new) <= prof.final_cap + 2:
                return ["var", name, new] + (["array"] if draw(st.booleans()) else [])
        if not free or len(ref.labels()) >= prof.final_cap:
            return None
        return ["var", free[0] if draw(st.booleans()) else draw(st.sampled_from(free)), draw(shapes_strategy(prof.final_cap - len(ref.labels())))]
    if k == "append":
        if len(ref.labels()) >= prof.final_cap:
            return None
        if draw(st.integers(0, 5)) == 0:
            free = [n for n in ref.pool if n not in ref.shapes]
            if free:
                return ["append", free[0], draw(st.sampled_from([[1], [2]]))]
        name = draw(st.sampled_from(list(ref.shapes)))
        shape = ref.shapes[name]
        delta = [0] * len(shape)
        delta[draw(st.integers(0, len(shape) - 1))] = draw(st.integers(0, 2))
        new = [a + b for a, b in zip(shape, delta)]
        if len(ref.labels()) - _size(shape) + _size(new) > prof.final_cap + 2:
            return None
        return ["append", name, delta]
    if k == "add":
        if not alive:
            return None
        t = _pick_target(draw, alive)
        name = None
        if ref.find(default_name(t)) is not None or (prof.names and draw(st.integers(0, 4)) == 0):
            name = draw(st.sampled_from([f"n{len(ref.inter)}", f"{keyof(t)[0]} my {len(ref.inter)}", "n"]))
            if name == "n" and ref.find(name) is not None:
                name = f"n{len(ref.inter)}"
            if ref.find(name) is not None:
                return None
        return [
            "add",
            t,
            name,
            draw(prof.coef),
            draw(st.one_of(st.none(), scale_exact)),
            draw_attrs(draw) if prof.attrs and draw(st.booleans()) else None,
            draw(small_time) if prof.times and draw(st.booleans()) else None,
        ]
    if k == "upd":
        if not alive:
            return None
        cands = [it for it in ref.live() if it["name"] is not None and all(x in alive for x in it["key"])]
        common = [
            draw(st.one_of(st.none(), prof.coef)),
            draw(st.one_of(st.none(), scale_exact)),
            draw_attrs(draw) if prof.attrs and draw(st.booleans()) else None,
            draw(small_time) if prof.times and draw(st.booleans()) else None,
        ]
        if cands and draw(st.integers(0, 5)) > 0:
            it = cands[draw(st.integers(0, len(cands) - 1))]
            if default_name(list(it["key"])) == it["name"] and draw(st.booleans()):
                t = list(it["key"])
                if len(t) == 2 and draw(st.booleans()):
                    t = t[::-1]
                return ["upd", t if len(t) == 2 else t[0], None] + common
            return ["upd", None, it["name"]] + common
        t = _pick_target(draw, alive)
        it = ref.find(default_name(t))
        if it is not None and it["removed"]:
            return None
        return ["upd", t, None] + common
    if k == "rem":
        cands = [it for it in ref.inter if it["name"] is not None]
        if not cands:
            return None
        it = cands[draw(st.integers(0, len(cands) - 1))]
        if default_name(list(it["key"])) == it["name"] and draw(st.booleans()):
            t = list(it["key"])
            if len(t) == 2 and draw(st.booleans()):
                t = t[::-1]
            return ["rem", t if len(t) == 2 else t[0], None]
        return ["rem", None, it["name"]]
    if k == "off":
        return ["off", draw(prof.coef)]
    if k == "phys":
        return ["phys"]
    if k in ("ising", "qubo"):
        return [k]
    if k == "del":
        if len(alive) < 2:
            return None
        return ["del", draw(st.sampled_from(alive))]
    if k == "fix":
        if len(alive) < 2:
            return None
        vals = [1, -1] if ref.mtype == "ising" else [1, 0]
        return ["fix", draw(st.sampled_from(alive)), draw(st.sampled_from(vals))]
    if k == "con":
        if not alive:
            return None
        return ["con", draw_constraint(draw, ref, alive)]
    if k == "rmcon":
        if not ref.cons:
            return None
        return ["rmcon", draw(st.sampled_from(sorted(ref.cons)))]
    if k == "conadd":
        if not ref.cons or not alive:
            return None
        lab = draw(st.sampled_from(sorted(ref.cons)))
        con = ref.cons[lab]
        side = draw(st.integers(1, 2)) if con["kind"] == "eq" else 0
        return ["conadd", lab, side, draw(st.lists(st.sampled_from(alive), unique=True, min_size=1, max_size=3)), draw(st.sampled_from(FORMS))]
    if k == "conrem":
        if not ref.cons:
            return None
        lab = draw(st.sampled_from(sorted(ref.cons)))
        con = ref.cons[lab]
        side = draw(st.integers(1, 2)) if con["kind"] == "eq" else 0
        members = con["vars2"] if side == 2 else con["vars"]
        if not members:
            return None
        return ["conrem", lab, side, draw(st.lists(st.sampled_from(sorted(members)), unique=True, min_size=1, max_size=2)), draw(st.sampled_from(FORMS))]
    if k == "conswap":
        cands = [lab for lab in sorted(ref.cons) if ref.cons[lab]["vars"]]
        if not cands:
            return None
        lab = draw(st.sampled_from(cands))
        con = ref.cons[lab]
        side = 1 if con["kind"] == "eq" else 0
        others = [x for x in alive if x not in con["vars"]]
        if not others:
            return None
        return ["conswap", lab, side, draw(st.sampled_from(sorted(con["vars"]))), draw(st.sampled_from(others))]
    if k == "merge":
        return draw_merge(draw, ref, prof)
    raise AssertionError(k)


FORMS = ["list", "set", "single", "dup"]


def draw_constraint(draw, ref, alive, labels=CLABELS):
    kind = draw(st.sampled_from(["nhot", "zoo", "eq", "nhot"]))
    vs = draw(st.lists(st.sampled_from(alive), unique=True, min_size=0 if draw(st.integers(0, 9)) == 0 else min(len(alive), 8) if LARGE else 1, max_size=LARGE_CON if LARGE else 5))
    con = {
        "kind": kind,
        "label": draw(st.sampled_from(labels)),
        "strength": draw(st.sampled_from([1.0, 10, 0.5, 2.25, 0.0, -1.0])),
        "form": draw(st.sampled_from(FORMS + ["array"])),
        "vars": vs,
    }
    if con["form"] == "array":
        whole = [n for n in ref.shapes if _size(ref.shapes[n]) <= 30 and all(x in alive for x in all_labels({n: ref.shapes[n]}))]
        if whole:
            vs = con["vars"] = all_labels({n: ref.shapes[n] for n in [draw(st.sampled_from(whole))]})
    if kind == "nhot":
        con["n"] = draw(st.integers(1, max(1, len(vs) + 1)))
    if kind == "eq":
        cut = len(vs) if con["form"] == "array" else draw(st.integers(0, len(vs)))
        con["vars"], con["vars2"] = vs[:cut], vs[cut:]
        if con["form"] == "array":
            con["vars2"] = draw(st.lists(st.sampled_from(alive), unique=True, max_size=3))
        elif vs and draw(st.integers(0, 6)) == 0:
            con["vars2"] = con["vars2"] + [x for x in vs[:1] if x not in con["vars2"]]
    return con


def draw_merge(draw, ref, prof):
    """A second model: shares some variable names (same number of dimensions) and possibly constraints."""
    mtype = draw(st.sampled_from(["ising", "qubo"]))
    other = Ref(mtype)
    ops = []

    def push(op):
        other.apply(op)
        ops.append(op)

    taken = set(ref.deleted) | set(ref.fixed)
    for name in ref.pool[: draw(st.integers(1, 3))]:
        if len(other.labels()) >= 4:
            break
        if name in ref.shapes:
            shape = draw(st.sampled_from(MERGED[len(ref.shapes[name])]))
        else:
            shape = draw(st.sampled_from([[1], [2], [1, 2]]))
        push(["var", name, shape])
    usable = [x for x in other.labels() if x not in taken]
    sub = Profile({}, coef=prof.coef, attrs=prof.attrs, times=prof.times, names=prof.names)
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.sampled_from(["add", "add", "add", "upd", "rem", "off", "phys", "con", "del", "fix"]))
        if k in ("del", "fix"):
            # a variable gone in one model and used in the other is not defined; it goes where the receiver does not use it
            busy = {x for it in ref.inter for x in it["key"]} | {x for c in ref.cons.values() for x in c["vars"] + c.get("vars2", [])}
            can = [x for x in usable if x not in busy]
            if can:
                x = draw(st.sampled_from(can))
                push(["del", x] if k == "del" else ["fix", x, draw(st.sampled_from([1, -1] if mtype == "ising" else [1, 0]))])
                usable.remove(x)
            continue
        if k == "con":
            free = [x for x in CLABELS if x not in ref.cons and x not in other.cons]
            if not free or not usable:
                continue
            push(["con", draw_constraint(draw, other, usable, free)])
            continue
        # restrict to variables that are alive in both models
        view = other
        if len(usable) != len(other.labels()):
            if not usable:
                continue
            view = _Restricted(other, usable)
        op = one_op(draw, view, sub, k)
        if op is not None:
            push(op)
    if len(set(all_labels({n: [max(a, b) for a, b in zip(ref.shapes[n], s)] if n in ref.shapes else s for n, s in list(other.shapes.items())})) | set(ref.labels())) > prof.final_cap + 3:
        return None
    return ["merge", mtype, ops]


class _Restricted:
    def __init__(self, ref, usable):
        self._ref, self._usable = ref, usable

    def alive(self):
        return list(self._usable)

    def __getattr__(self, name):
        return getattr(self._ref, name)


@st.composite
def history(draw, prof):
    mtype = draw(st.sampled_from(list(prof.mtypes)))
    ref = Ref(mtype)
    ref.pool = draw(st.sampled_from(POOLS))
    ops = []
    each = not LARGE and "phys" in prof.weights and draw(st.integers(0, 5)) == 0
    wide = prof.wide and (LARGE or draw(st.integers(0, 7)) == 0)
    if LARGE:
        prof = prof.enlarged()
    elif wide:
        prof = prof.widened()

    def push(op):
        ref.apply(op)
        ops.append(op)
        if each and op[0] not in ("var", "phys"):
            ref.apply(["phys"])
            ops.append(["phys"])

    for name in ref.pool[: draw(st.integers(1, 2))]:
        room = prof.max_vars - len(ref.labels())
        if room < 1:
            break
        shape = draw(st.sampled_from(HUGE if LARGE else WIDE)) if wide and not ref.shapes else draw(shapes_strategy(min(room, 5)))
        push(["var", name, shape] + (["array"] if draw(st.integers(0, 4)) == 0 else []))
    if len(ref.labels()) == 1:
        push(["append", ops[0][1], [1] + [0] * (len(ops[0][2]) - 1)])
    if prof.wide and not each and "add" in prof.weights and draw(st.integers(0, 1 if LARGE else 15)) == 0:
        # many interactions at once
        targets = ref.labels() + [[a, b] for i, a in enumerate(ref.labels()) for b in ref.labels()[:i]]
        step, cs = draw(st.integers(1, 2)), draw(st.lists(coef_exact, min_size=1, max_size=3))
        few = not LARGE or prof.slow() and draw(st.integers(0, 1)) == 0
        for i, t in enumerate(targets[::step][: draw(st.integers(5, 50) if few else st.integers(60, 220))]):
            push(["add", t, None, cs[i % len(cs)], [None, 0.5, 2.0][i % 3] if step == 1 else None, None, 1000 + i if prof.times else None])
    n = draw(st.integers(prof.min_ops, prof.max_ops))
    kinds = list(prof.start) + [draw(st.sampled_from(prof.bag)) for _ in range(n)]
    if prof.focus:
        at = draw(st.integers(len(prof.start), len(kinds)))
        kinds.insert(at, draw(st.sampled_from(list(prof.focus))))
    if draw(st.integers(0, 9)) == 0:
        kinds = draw(st.permutations(kinds))
    if "phys" in prof.weights and draw(st.integers(0, 3)) == 0:
        # compiled shortly before the end
        kinds.insert(max(0, len(kinds) - draw(st.integers(1, 3))), "phys")
    for k in kinds:
        op = one_op(draw, ref, prof, k)
        if op is None:
            op = one_op(draw, ref, prof, "add" if "add" in prof.weights else k)
        if op is not None:
            push(op)
    case = {"mtype": mtype, "ops": ops}
    if prof.clock and draw(st.integers(0, 4)) == 4:
        case["clock"] = draw(st.sampled_from([0, 0, 0.5, -0.5]))
    return case
