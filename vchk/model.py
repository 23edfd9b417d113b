"""Reference model of LogicalModel, and a driver that applies the same operations to the real one.

Operations are JSON lists; see Ref.apply for their meaning. The reference keeps, beside the correct offset,
`err`: by how much the constant of the real model is known to be off (KNOWN_FINDINGS.json: a model type
conversion adds its constant with the wrong sign).
"""
import copy
import itertools
import re
import time

from vchk.engine import HarnessError, Violation, require

TOL = 1e-9


def close(a, b, mag=1.0):
    return abs(a - b) <= TOL * max(1.0, abs(a), abs(b), mag)


def label(name, idx):
    return name + "".join(f"[{i}]" for i in idx)


_LABEL = re.compile(r"^(.*?)((?:\[\d+\])+)$")


def parse(lab):
    m = _LABEL.match(lab)
    return m.group(1), tuple(int(x) for x in re.findall(r"\[(\d+)\]", m.group(2)))


def all_labels(shapes):
    out = []
    for name, shape in shapes.items():
        for idx in itertools.product(*[range(s) for s in shape]):
            out.append(label(name, idx))
    return out


def keyof(target):
    if isinstance(target, str):
        return (target,)
    return tuple(sorted(target))


def default_name(target):
    return "*".join(keyof(target))


# ---------------------------------------------------------------- polynomials: {key tuple: coefficient}, () is the constant


def padd(p, k, v):
    p[k] = p.get(k, 0.0) + v


def binary_to_spin(p):
    """Rewrites a multilinear polynomial over x in {0,1} with x = (1 + s) / 2."""
    q = {}
    for k, v in p.items():
        w = v / (2.0 ** len(k))
        for r in range(len(k) + 1):
            for sub in itertools.combinations(k, r):
                padd(q, sub, w)
    return q


def spin_to_binary(p):
    """Rewrites a multilinear polynomial over s in {-1,1} with s = 2 x - 1."""
    q = {}
    for k, v in p.items():
        n = len(k)
        for r in range(n + 1):
            for sub in itertools.combinations(k, r):
                padd(q, sub, v * (2.0**r) * ((-1.0) ** (n - r)))
    return q


def substitute(p, lab, value):
    q = {}
    for k, v in p.items():
        if lab in k:
            padd(q, tuple(x for x in k if x != lab), v * value)
        else:
            padd(q, k, v)
    return q


def evaluate(p, sample):
    e = 0.0
    for k, v in p.items():
        t = v
        for x in k:
            t *= sample[x]
        e += t
    return e


def constraint_poly(con):
    """The penalty polynomial over binaries as documented, without the constant the library leaves out."""
    kind, st = con["kind"], con["strength"]
    p = {}
    if kind == "nhot":
        vs = sorted(con["vars"])
        for i, a in enumerate(vs):
            padd(p, (a,), st * (1 - 2 * con["n"]))
            for b in vs[i + 1 :]:
                padd(p, (a, b), 2.0 * st)
    elif kind == "zoo":
        vs = sorted(con["vars"])
        for i, a in enumerate(vs):
            for b in vs[i + 1 :]:
                padd(p, (a, b), 2.0 * st)
    elif kind == "eq":
        sign = {a: 1 for a in con["vars"] if a not in con["vars2"]}
        sign.update({a: -1 for a in con["vars2"] if a not in con["vars"]})
        vs = sorted(sign)
        for i, a in enumerate(vs):
            padd(p, (a,), st)
            for b in vs[i + 1 :]:
                padd(p, (a, b), 2.0 * st * sign[a] * sign[b])
    else:
        raise HarnessError(kind)
    return p


class Ref:
    pool = ("x", "y", "zz", "x1")  # names the generators use

    def __init__(self, mtype):
        self.mtype = mtype
        self.shapes = {}
        self.off = 0.0
        self.err = 0.0
        self.inter = []
        self.deleted = {}
        self.fixed = {}
        self.cons = {}

    # ---- queries
    def clone(self):
        return copy.deepcopy(self)

    def labels(self):
        return all_labels(self.shapes)

    def alive(self):
        return [x for x in self.labels() if x not in self.deleted and x not in self.fixed]

    def find(self, name):
        for it in self.inter:
            if it["name"] is not None and it["name"] == name:
                return it
        return None

    def live(self):
        return [it for it in self.inter if not it["removed"]]

    def attr_keys(self):
        return self.attrs

    def poly(self):
        """(correct polynomial, error of the constant by the known finding)"""
        p = {(): self.off}
        for it in self.live():
            padd(p, it["key"], -it["coef"] * it["scale"])
        err = self.err
        for con in self.cons.values():
            q = constraint_poly(con)
            for lab, val in self.fixed.items():
                q = substitute(q, lab, 1 if val == 1 else 0)
            if self.mtype == "ising":
                before = q.get((), 0.0)
                q = binary_to_spin(q)
                err -= 2.0 * (q.get((), 0.0) - before)
            for k, v in q.items():
                padd(p, k, v)
        return p, err

    def magnitude(self):
        m = abs(self.off)
        for it in self.live():
            m += abs(it["coef"] * it["scale"])
        return m

    # ---- operations
    def _new(self, key, name, coef, scale, attrs, ts):
        self.inter.append(
            {"key": key, "name": name, "coef": coef, "scale": scale, "attrs": dict(attrs or {}), "ts": ts, "dirty": True, "removed": False}
        )

    def convert(self, to):
        if self.mtype == to:
            return
        new = []
        for it in self.live():
            c, s, k = it["coef"], it["scale"], it["key"]
            it["dirty"] = True
            it["ts"] = None
            if to == "ising":
                if len(k) == 1:
                    it["coef"] = c * 0.5
                    self.off -= c * s * 0.5
                    self.err += c * s
                else:
                    it["coef"] = c * 0.25
                    for x in k:
                        new.append((x, c * 0.25, s))
                    self.off -= c * s * 0.25
                    self.err += c * s * 0.5
            else:
                if len(k) == 1:
                    it["coef"] = c * 2.0
                    self.off += c * s
                    self.err -= 2.0 * c * s
                else:
                    it["coef"] = c * 4.0
                    for x in k:
                        new.append((x, -c * 2.0, s))
                    self.off -= c * s
                    self.err += 2.0 * c * s
        for x, c, s in new:
            self._new((x,), None, c, s, None, None)
        self.mtype = to
        for x in list(self.fixed):
            v = self.fixed[x]
            self.fixed[x] = (1 if v == 1 else -1) if to == "ising" else (1 if v == 1 else 0)

    def apply(self, op):
        k = op[0]
        if k == "var":
            self.shapes[op[1]] = list(op[2])
        elif k == "append":
            if op[1] in self.shapes:
                self.shapes[op[1]] = [a + b for a, b in zip(self.shapes[op[1]], op[2])]
            else:
                self.shapes[op[1]] = list(op[2])
        elif k == "add":
            _, target, name, coef, scale, attrs, ts = op
            name = name or default_name(target)
            if self.find(name) is not None:
                raise HarnessError("generated an invalid add")
            self._new(keyof(target), name, 0.0 if coef is None else coef, 1.0 if scale is None else scale, attrs, ts)
        elif k == "upd":
            _, target, name, coef, scale, attrs, ts = op
            it = self.find(name or default_name(target))
            if it is None:
                self._new(keyof(target), default_name(target), 0.0 if coef is None else coef, 1.0 if scale is None else scale, attrs, ts)
            else:
                if it["removed"]:
                    raise HarnessError("generated an invalid update")
                if coef is not None:
                    it["coef"] = coef
                if scale is not None:
                    it["scale"] = scale
                if attrs:
                    it["attrs"].update(attrs)
                it["ts"] = ts
                it["dirty"] = True
        elif k == "rem":
            _, target, name = op
            it = self.find(name or default_name(target))
            it["removed"] = True
            it["dirty"] = True
        elif k == "off":
            self.off = op[1]
            self.err = 0.0
        elif k == "del":
            lab = op[1]
            self.deleted[lab] = True
            for con in self.cons.values():
                con["vars"] = [x for x in con["vars"] if x != lab]
                if "vars2" in con:
                    con["vars2"] = [x for x in con["vars2"] if x != lab]
            for it in self.inter:
                if lab in it["key"]:
                    it["removed"] = True
                    it["dirty"] = True
        elif k == "fix":
            _, lab, val = op
            self.fixed[lab] = val
            for it in list(self.inter):
                if it["removed"] or lab not in it["key"]:
                    continue
                it["removed"] = True
                it["dirty"] = True
                if val == 0:
                    continue
                if len(it["key"]) == 1:
                    self.off -= val * it["coef"] * it["scale"]
                else:
                    rest = [x for x in it["key"] if x != lab][0]
                    self._new((rest,), None, val * it["coef"] * it["scale"], 1.0, None, None)
        elif k == "con":
            self.cons[op[1]["label"]] = copy.deepcopy(op[1])
        elif k == "rmcon":
            self.cons.pop(op[1])
        elif k == "conadd":
            con = self.cons[op[1]]
            f = "vars2" if op[2] == 2 else "vars"
            con[f] = sorted(set(con[f]) | set(op[3]))
        elif k == "conrem":
            con = self.cons[op[1]]
            f = "vars2" if op[2] == 2 else "vars"
            con[f] = sorted(set(con[f]) - set(op[3]))
        elif k == "conswap":
            self.apply(["conrem", op[1], op[2], [op[3]]])
            self.apply(["conadd", op[1], op[2], [op[4]]])
        elif k == "phys":
            self.inter = [it for it in self.inter if not it["removed"]]
            for it in self.inter:
                it["dirty"] = False
        elif k == "ising":
            self.convert("ising")
        elif k == "qubo":
            self.convert("qubo")
        elif k == "merge":
            other = Ref(op[1])
            for o in op[2]:
                other.apply(o)
            self.merge(other)
        else:
            raise HarnessError(f"unknown op {op}")

    def merge(self, other):
        other = other.clone()
        other.convert(self.mtype)
        dup = {it["name"] for it in self.inter if it["name"] is not None} & {it["name"] for it in other.inter if it["name"] is not None}
        for it in self.inter + other.inter:
            if it["name"] in dup:
                it["name"] = None
        self.inter += other.inter
        for name, shape in other.shapes.items():
            if name in self.shapes:
                self.shapes[name] = [max(a, b) for a, b in zip(self.shapes[name], shape)]
            else:
                self.shapes[name] = list(shape)
        self.off += other.off
        self.err += other.err
        self.cons.update(other.cons)
        self.deleted.update(other.deleted)
        self.fixed.update(other.fixed)


# ---------------------------------------------------------------- the real model


def var(m, lab):
    name, idx = parse(lab)
    arr = m.get_variables_by_name(name)
    return arr[idx] if len(idx) > 1 else arr[idx[0]]


def tgt(m, target, pick=var):
    if isinstance(target, str):
        return pick(m, target)
    return tuple(pick(m, t) for t in target)


def number(v):
    """Some numbers are handed over as numpy's."""
    import numpy as np

    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return {3: np.int64, 5: np.int64, -4: np.int32, 1.25: np.float64, -0.75: np.float64}.get(v, lambda x: x)(v)
    return v


def kw_add(m, op, pick=var):
    _, target, name, coef, scale, attrs, ts = op
    coef, scale = number(coef), number(scale)
    kw = {}
    if target:
        kw["target"] = tgt(m, target, pick)
    if name:
        kw["name"] = name
    if coef is not None:
        kw["coefficient"] = coef
    if scale is not None:
        kw["scale"] = scale
    if attrs:
        kw["attributes"] = dict(attrs)
    if ts is not None:
        kw["timestamp"] = ts
    return kw


def pack(m, labels, form, held=None, given=None):
    """A collection of variables in one of the forms constraints take.

    `held` maps labels to variable objects a constraint already has: converting a model makes new
    variable objects, and a constraint knows a variable by the object it was given.
    `given` are the collections handed over so far: they belong to the caller, who may use one
    for several constraints and must find it unchanged.
    """
    v = [(held or {}).get(x) or var(m, x) for x in labels]
    if form == "set":
        if given is None:
            return set(v)
        for was, obj in given:
            if was == set(v):
                return obj
        given.append((set(v), set(v)))
        return given[-1][1]
    if form == "single" and len(v) == 1:
        return v[0]
    if form == "dup":
        return v + v[:1]
    if form == "array" and v:
        name = parse(labels[0])[0]
        arr = m.get_variables_by_name(name)
        if sorted(labels) == sorted(all_labels({name: [int(n) for n in arr.shape]})):
            return arr
    return v


def make_constraint(m, con, given=None):
    from sawatabi.model.constraint import EqualityConstraint, NHotConstraint, ZeroOrOneHotConstraint

    form = con.get("form", "list")
    kw = {"label": con["label"]}
    if con["strength"] != 1.0 or form in ("list", "set"):
        kw["strength"] = con["strength"]
    v = pack(m, con["vars"], form, given=given) if con["vars"] else None
    if con["kind"] == "nhot":
        if con["n"] != 1 or form in ("list", "single"):
            kw["n"] = con["n"]
        return NHotConstraint(variables=v, **kw)
    if con["kind"] == "zoo":
        return ZeroOrOneHotConstraint(variables=v, **kw)
    return EqualityConstraint(variables_1=v, variables_2=pack(m, con["vars2"], form, given=given) if con["vars2"] else None, **kw)


class Real:
    """Applies operations to a real LogicalModel; remembers when each call was made."""

    def __init__(self, mtype):
        from sawatabi.model import LogicalModel

        self.m = LogicalModel(mtype=mtype)
        self.last_physical = None
        self.t_call = (0.0, 0.0)
        self.objects = {}
        self.uses = 0
        self.given = []

    def pick(self, m, lab):
        """The variable object of the model now, or now and then the one it had first."""
        now = var(m, lab)
        self.uses += 1
        first = self.objects.setdefault((m.get_mtype(), lab), now)
        return first if self.uses % 3 == 0 else now

    def apply(self, op):
        t0 = time.time()
        try:
            return self._apply(op)
        finally:
            self.t_call = (t0, time.time())

    def _apply(self, op):
        m, k = self.m, op[0]
        if k == "var":
            if len(op) > 3:
                import pyqubo

                return m.variables(pyqubo.Array.create(op[1], shape=tuple(op[2]), vartype="SPIN" if m.get_mtype() == "ising" else "BINARY"))
            return m.variables(op[1], shape=tuple(op[2]))
        if k == "append":
            return m.append(op[1], shape=tuple(op[2]))
        if k == "add":
            return m.add_interaction(**kw_add(m, op, self.pick))
        if k == "upd":
            return m.update_interaction(**kw_add(m, op, self.pick))
        if k == "rem":
            kw = {}
            if op[1]:
                kw["target"] = tgt(m, op[1], self.pick)
            if op[2]:
                kw["name"] = op[2]
            return m.remove_interaction(**kw)
        if k == "off":
            return m.offset(number(op[1]))
        if k == "del":
            return m.delete_variable(self.pick(m, op[1]))
        if k == "fix":
            return m.fix_variable(self.pick(m, op[1]), op[2])
        if k == "con":
            return m.add_constraint(make_constraint(m, op[1], self.given))
        if k == "rmcon":
            return m.remove_constraint(op[1])
        if k == "conswap":
            self._apply(["conrem", op[1], op[2], [op[3]]])
            return self._apply(["conadd", op[1], op[2], [op[4]]])
        if k in ("conadd", "conrem"):
            con = m.get_constraints_by_label(op[1])
            sets = [con.get_variables()] if op[2] == 0 else [con.get_variables_1(), con.get_variables_2()]
            vs = pack(m, op[3], op[4] if len(op) > 4 else "list", {v.label: v for s in sets for v in s}, self.given)
            if op[2] == 0:
                return con.add_variable(vs) if k == "conadd" else con.remove_variable(vs)
            if k == "conadd":
                return con.add_variable_to_1(vs) if op[2] == 1 else con.add_variable_to_2(vs)
            return con.remove_variable_from_1(vs) if op[2] == 1 else con.remove_variable_from_2(vs)
        if k == "phys":
            self.last_physical = m.to_physical(placeholder=dict(op[1])) if len(op) > 1 else m.to_physical()
            return self.last_physical
        if k == "ising":
            return m.to_ising()
        if k == "qubo":
            return m.to_qubo()
        if k == "merge":
            other = Real(op[1])
            for o in op[2]:
                other.apply(o)
            m.merge(other.m)
            return other
        raise HarnessError(f"unknown op {op}")


def isnan(v):
    try:
        return v != v
    except Exception:
        return False


EVERY = "removed == removed"


def rows(m, query="removed == False"):
    """The interactions that select_interaction returns, in order, as dicts."""
    df = m.select_interaction(query)
    cols = df.to_dict("list")
    names = list(cols)
    return [dict(zip(names, vals)) for vals in zip(*[cols[c] for c in names])]


def rowkey(r):
    k = r["key"]
    return (k,) if isinstance(k, str) else tuple(k)


def snapshot(m):
    """Everything observable of a logical model, for 'nothing changed' comparisons."""
    rs = []
    for r in rows(m, EVERY):
        r = dict(r)
        r["key"] = list(rowkey(r))
        r["interacts"] = [x.label for x in (r["interacts"] if isinstance(r["interacts"], tuple) else (r["interacts"],))]
        rs.append({a: (None if isnan(b) else b) for a, b in r.items()})
    return {
        "mtype": m.get_mtype(),
        "rows": rs,
        "offset": m.get_offset(),
        "shapes": {a: list(v.shape) for a, v in m.get_variables().items()},
        "types": {a: type(_first(v)).__name__ for a, v in m.get_variables().items()},
        "deleted": sorted(m.get_deleted_array()),
        "fixed": sorted(m.get_fixed_array()),
        "cons": {a: constraint_view(c) for a, c in m.get_constraints().items()},
    }


def _first(arr):
    v = arr.bit_list
    while isinstance(v, list):
        v = v[0]
    return v


def constraint_view(c):
    kind = c.get_constraint_class()
    d = {"kind": kind, "label": c.get_label(), "strength": c.get_strength()}
    if kind == "EqualityConstraint":
        d["vars"] = sorted(v.label for v in c.get_variables_1())
        d["vars2"] = sorted(v.label for v in c.get_variables_2())
    else:
        d["vars"] = sorted(v.label for v in c.get_variables())
    if kind == "NHotConstraint":
        d["n"] = c.get_n()
    return d


KINDS = {"nhot": "NHotConstraint", "zoo": "ZeroOrOneHotConstraint", "eq": "EqualityConstraint"}


def ref_constraint_view(con):
    d = {"kind": KINDS[con["kind"]], "label": con["label"], "strength": con["strength"], "vars": sorted(set(con["vars"]))}
    if con["kind"] == "eq":
        d["vars2"] = sorted(set(con["vars2"]))
    if con["kind"] == "nhot":
        d["n"] = con["n"]
    return d


def check_offset(value, off, err, mag, known, what="the offset"):
    """Accepts the correct constant or exactly the known wrong one."""
    if close(value, off, mag):
        return
    if not close(err, 0.0, mag) and close(value, off + err, mag + abs(err)):
        known.add("conversion-constant-sign")
        return
    raise Violation(f"{what} is {value!r}, expected {off!r}")


def check_poly(got, want, err, mag, known, what, exact_support=False):
    """Compares two polynomials coefficient by coefficient (they agree on every assignment iff these agree)."""
    for k in set(got) | set(want):
        if k == ():
            continue
        a, b = got.get(k, 0.0), want.get(k, 0.0)
        if not close(a, b, mag):
            raise Violation(f"{what}: coefficient of {'*'.join(k)} in the energy is {a!r}, expected {b!r}")
    check_offset(got.get((), 0.0), want.get((), 0.0), err, mag, known, what + ": the constant of the energy")


def bqm_poly(bqm):
    p = {(): float(bqm.offset)}
    for v, c in bqm.linear.items():
        padd(p, (v,), float(c))
    for (a, b), c in bqm.quadratic.items():
        padd(p, tuple(sorted((a, b))), float(c))
    return p


def check_physical(phys, ref, known, what="physical model"):
    import dimod
    from sawatabi.model import PhysicalModel

    require(isinstance(phys, PhysicalModel), "{}: to_physical returned {}", what, type(phys))
    require(phys.get_mtype() == ref.mtype, "{}: its type is {}, expected {}", what, phys.get_mtype(), ref.mtype)
    bqm = phys.to_bqm()
    require(bqm.vartype is (dimod.SPIN if ref.mtype == "ising" else dimod.BINARY), "{}: vartype {}", what, bqm.vartype)
    want, err = ref.poly()
    mag = ref.magnitude()
    alive = set(ref.alive())
    for v in bqm.variables:
        require(v in alive, "{}: variable {} must not be in it", what, v)
    check_poly(bqm_poly(bqm), want, err, mag, known, what)
    # which variables are present
    present = set(bqm.variables)
    for k, c in want.items():
        if k and abs(c) > 1e-6 * max(1.0, mag):
            for x in k:
                require(x in present, "{}: variable {} is missing", what, x)
    check_maps(phys, ref, bqm, known, want, err, mag, what)
    return bqm


def check_maps(phys, ref, bqm, known, want, err, mag, what):
    l2i, i2l = dict(phys._label_to_index), dict(phys._index_to_label)
    n = len(l2i)
    require(sorted(l2i.values()) == list(range(n)), "{}: indices are {}", what, l2i)
    require({i: a for a, i in l2i.items()} == i2l, "{}: index maps disagree: {} {}", what, l2i, i2l)
    require(set(l2i) == set(bqm.variables), "{}: indexed {} but has {}", what, sorted(l2i), sorted(bqm.variables))
    order = [x for x in ref.labels() if x in l2i]
    require([i2l[i] for i in range(n)] == order, "{}: index order {} but declared {}", what, i2l, order)
    # what is iterated over when samples are labelled
    require(list(i2l.values()) == order, "{}: index order {} but declared {}", what, i2l, order)
    got = {}
    for i, j, c in phys.to_polynomial():
        key = (i2l[i],) if i == j else tuple(sorted((i2l[i], i2l[j])))
        padd(got, key, float(c))
    got[()] = float(phys.get_offset())
    check_poly(got, want, err, mag, known, what + " (polynomial export)")
    flip = {k: -v for k, v in bqm_poly(phys.to_bqm(sign=1.0)).items()}
    flip[()] = -flip[()]
    check_poly(flip, want, err, mag, known, what + " (sign=+1 export)")


def check_store(m, ref, call, known, names=True, what="model", got=None):
    """Compares what the public queries say about the interactions with the reference."""
    mag = ref.magnitude()
    if got is None:
        got = rows(m)
    want = ref.live()
    require(len(got) == len(want), "{}: {} live interactions, expected {}", what, len(got), len(want))
    if names:
        for g, w in zip(got, want):
            check_row(g, w, what, mag)
    else:
        def order(key, eff):
            return (key, round(eff, 6))

        g2 = sorted(got, key=lambda r: order(rowkey(r), float(r["coefficient"]) * float(r["scale"])))
        w2 = sorted(want, key=lambda r: order(r["key"], r["coef"] * r["scale"]))
        for g, w in zip(g2, w2):
            require(rowkey(g) == w["key"], "{}: interaction {} found, expected {}", what, rowkey(g), w["key"])
            a, b = float(g["coefficient"]) * float(g["scale"]), w["coef"] * w["scale"]
            require(close(a, b, mag), "{}: {} has coefficient*scale {}, expected {}", what, w["key"], a, b)
    check_offset(m.get_offset(), ref.off, ref.err, mag, known, what + ": get_offset()")
    check_shape(m, ref, what)


def check_row(g, w, what, mag=1.0):
    require(rowkey(g) == w["key"], "{}: interaction {} found where {} was expected", what, rowkey(g), w["key"])
    require(g["body"] == len(w["key"]), "{}: body of {} is {}", what, w["key"], g["body"])
    if w["name"] is not None:
        require(g["name"] == w["name"], "{}: name {!r}, expected {!r}", what, g["name"], w["name"])
    require(g["key_0"] == w["key"][0], "{}: key_0 of {} is {}", what, w["key"], g["key_0"])
    if len(w["key"]) == 2:
        require(g["key_1"] == w["key"][1], "{}: key_1 of {} is {}", what, w["key"], g["key_1"])
    it = g["interacts"] if isinstance(g["interacts"], tuple) else (g["interacts"],)
    require(tuple(x.label for x in it) == w["key"], "{}: interacts of {} is {}", what, w["key"], it)
    require(close(float(g["coefficient"]), w["coef"], mag), "{}: coefficient of {} is {}, expected {}", what, w["key"], g["coefficient"], w["coef"])
    require(close(float(g["scale"]), w["scale"]), "{}: scale of {} is {}, expected {}", what, w["key"], g["scale"], w["scale"])
    require(bool(g["dirty"]) == w["dirty"], "{}: dirty flag of {} is {}, expected {}", what, w["key"], g["dirty"], w["dirty"])
    require(bool(g["removed"]) == w["removed"], "{}: removed flag of {} is {}", what, w["key"], g["removed"])


def check_shape(m, ref, what):
    shapes = {a: [int(x) for x in v.shape] for a, v in m.get_variables().items()}
    require(shapes == ref.shapes, "{}: variables {}, expected {}", what, shapes, ref.shapes)
    require(list(shapes) == list(ref.shapes), "{}: variables declared in order {}, expected {}", what, list(shapes), list(ref.shapes))
    require(m.get_mtype() == ref.mtype, "{}: type {}, expected {}", what, m.get_mtype(), ref.mtype)
    require(sorted(m.get_deleted_array()) == sorted(ref.deleted), "{}: deleted {}", what, m.get_deleted_array())
    require(sorted(m.get_fixed_array()) == sorted(ref.fixed), "{}: fixed {}", what, m.get_fixed_array())
    n = len(ref.labels())
    require(m.get_all_size() == n, "{}: get_all_size() {}, expected {}", what, m.get_all_size(), n)
    require(m.get_deleted_size() == len(ref.deleted), "{}: get_deleted_size() {}", what, m.get_deleted_size())
    require(m.get_fixed_size() == len(ref.fixed), "{}: get_fixed_size() {}", what, m.get_fixed_size())
    require(m.get_size() == n - len(ref.deleted) - len(ref.fixed), "{}: get_size() {}", what, m.get_size())
    got = {a: constraint_view(c) for a, c in m.get_constraints().items()}
    want = {a: ref_constraint_view(c) for a, c in ref.cons.items()}
    require(got == want, "{}: constraints {}, expected {}", what, got, want)
