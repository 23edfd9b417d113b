"""Helpers that run Beam pipelines in this process; what flows out is collected in module globals."""
import contextlib

import apache_beam as beam

GOT = []
SENT = []


def _take(x):
    GOT.append(x)
    return x


def _send(x):
    SENT.append(x)
    return x


def run(p):
    result = p.run()
    result.wait_until_finish()
    return result


def collect(transform):
    GOT.clear()
    p = beam.Pipeline(argv=["--runner=DirectRunner"])
    p | "In" >> transform | "Take" >> beam.Map(_take)
    run(p)
    return list(GOT)


def emit(values, transform):
    p = beam.Pipeline(argv=["--runner=DirectRunner"])
    p | "Make" >> beam.Create(list(values), reshuffle=False) | "Out" >> transform
    run(p)


@contextlib.contextmanager
def pubsub(messages):
    """Replaces Beam's Pub/Sub source and sink by stand-ins; yields the log of what was asked and sent."""
    import sawatabi.algorithm.io as mod

    log = []
    SENT.clear()
    old_read, old_write = beam.io.ReadFromPubSub, beam.io.WriteToPubSub

    def read(topic=None, subscription=None, **kw):
        log.append(("read", {k: v for k, v in (("topic", topic), ("subscription", subscription)) if v is not None}))
        return "ReadFromPubSub" >> beam.Create(list(messages), reshuffle=False)

    def write(topic=None, **kw):
        log.append(("write", {"topic": topic}))
        return "WriteToPubSub" >> beam.Map(_send)

    patched = [(beam.io, "ReadFromPubSub", old_read, read), (beam.io, "WriteToPubSub", old_write, write)]
    for name, value in list(vars(mod).items()):
        if value is old_read:
            patched.append((mod, name, old_read, read))
        elif value is old_write:
            patched.append((mod, name, old_write, write))
    for holder, name, _, new in patched:
        setattr(holder, name, new)
    try:
        yield log
        log.extend(SENT)
    finally:
        for holder, name, old, _ in patched:
            setattr(holder, name, old)


# ---------------------------------------------------------------- algorithm pipelines
#
# User functions handed to a pipeline are pickled by reference, so they live here and read PLAN / write LOG.

PLAN = {}
LOG = []
OUT = []


class Boom(Exception):
    pass


class Odd(Exception):
    """An error with a message of several lines."""

    def __str__(self):
        return "first line\n" + ", ".join(map(str, self.args))


ERRORS = {"value": ValueError, "key": KeyError, "boom": Boom, "zero": ZeroDivisionError, "stop": StopIteration, "lines": Odd, "assert": AssertionError, "os": OSError, "not": NotImplementedError}


class Token:
    """Stands in for a solver; knows who it is."""

    def __init__(self, name):
        self.name = name


def describe(m):
    """What a model says, without the fields an attenuation or a compilation may touch."""
    if not hasattr(m, "select_interaction"):
        return {"other": m}
    rows = m.select_interaction("removed == False", fmt="dict").values()
    return {
        "mtype": m.get_mtype(),
        "offset": float(m.get_offset()),
        "shapes": {k: [int(s) for s in v.shape] for k, v in m.get_variables().items()},
        "interactions": sorted([r["name"], float(r["coefficient"]), float(r["timestamp"]) if r["name"].startswith("t ") else None, str(r.get("attributes.k"))] for r in rows),
        "constraints": sorted([k, type(c).__name__, float(c.get_strength()), sorted(v.label for v in c.get_variables())] for k, c in m.get_constraints().items()),
        "deleted": sorted(m.get_deleted_array()),
        "fixed": sorted(m.get_fixed_array()),
    }


def _fail(where):
    kind = PLAN["faults"].get(f"{PLAN['step']}:{where}")
    if kind is not None:
        raise ERRORS[kind](f"injected {where} {PLAN['step']}")


ODD = {"none": lambda step: None, "text": lambda step: f"model {step}", "empty": lambda step: [], "dict": lambda step: {"m": step}}


def map_tokens(prev_model, prev_sampleset, elements, incoming, outgoing):
    """Marks the model with the step; either changes the model given or makes a new one."""
    PLAN["step"] += 1
    step = PLAN["step"]
    entry = {"fn": "map", "step": step, "prev_model": describe(prev_model), "prev_sampleset": prev_sampleset, "elements": list(elements), "incoming": list(incoming), "outgoing": list(outgoing)}
    LOG.append(entry)
    _fail("map")
    odd = PLAN["odd"].get(str(step))
    if odd is not None:  # what the mapping returns is the user's matter
        entry["model"] = describe(ODD[odd](step))
        return ODD[odd](step)
    if not hasattr(prev_model, "empty"):
        from sawatabi.model import LogicalModel

        prev_model = LogicalModel(mtype="qubo")
    model = prev_model.empty() if PLAN["fresh"] and step % 2 == 0 else prev_model
    x = model.append("x", shape=(1,))
    model.add_interaction(x[int(x.shape[0]) - 1], coefficient=float(step))
    if PLAN["rich"]:
        from sawatabi.model.constraint import NHotConstraint

        model.add_interaction(x[int(x.shape[0]) - 1], name=f"t {step}", coefficient=0.5, attributes={"k": f"a{step}"}, timestamp=100 + step)
        model.add_constraint(NHotConstraint(variables=[x[int(x.shape[0]) - 1]], n=1, label="c", strength=float(step)))
    if step % 3 == 0 and x.shape[0] > 1:
        model.delete_variable(x[0])
    model.offset(float(step))
    entry["model"] = describe(model)
    return model


def solve_tokens(solver, model, prev_sampleset, elements, incoming, outgoing):
    LOG.append(
        {
            "fn": "solve",
            "step": PLAN["step"],
            "solver": getattr(solver, "name", type(solver).__name__),
            "model": describe(model),
            "prev_sampleset": prev_sampleset,
            "elements": list(elements),
            "incoming": list(incoming),
            "outgoing": list(outgoing),
        }
    )
    if PLAN["compile"] and hasattr(model, "to_physical"):
        model.to_physical()
    _fail("solve")
    return solved(PLAN["step"], PLAN["sampleset"])


def solved(step, kind):
    """What the solving function returns at a step; it may be anything, also something that counts as false."""
    return {"dict": {"sampleset": step}, "falsy": {} if step % 2 else {"sampleset": step}, "list": [step] * (step % 3), "number": step % 2, "text": "" if step % 3 == 0 else f"s{step}"}[kind]


def unmap_tokens(sampleset, elements, incoming, outgoing):
    LOG.append({"fn": "unmap", "step": PLAN["step"], "sampleset": sampleset, "elements": list(elements), "incoming": list(incoming), "outgoing": list(outgoing)})
    _fail("unmap")
    return unmapped(PLAN["step"], PLAN["result"])


def unmapped(step, kind):
    return {"str": f"result {step}", "lines": f"result\n{step}\n", "empty": "", "number": step, "dict": {"r": step}}[kind]


# real models: one variable per element, pairwise interactions


def map_pairs(prev_model, prev_sampleset, elements, incoming, outgoing):
    """Keeps the model up to date from the differences only, as the samples do."""
    PLAN["step"] += 1
    LOG.append({"fn": "map", "step": PLAN["step"], "elements": list(elements), "incoming": list(incoming), "outgoing": list(outgoing), "mtype": prev_model.get_mtype()})
    model = prev_model
    if incoming:
        need = max(e[1][0] for e in incoming) + 1 - model.get_all_size()
        x = model.append("x", shape=(max(need, 0),)) if need > 0 else model.get_variables_by_name("x")
    elif elements or outgoing:
        x = model.get_variables_by_name("x")
    done = [e for e in elements if e[1][0] not in {i[1][0] for i in incoming}]
    for e in incoming:
        model.add_interaction(x[e[1][0]], coefficient=float(e[1][1]), attributes={"t": e[0]}, timestamp=e[0])
        for o in done:
            model.add_interaction((x[e[1][0]], x[o[1][0]]), coefficient=-float(e[1][1]) * float(o[1][1]), attributes={"t": PLAN["attr"](e, o)}, timestamp=o[0])
        done.append(e)
    for e in outgoing:
        if PLAN["away"] == "delete":
            model.delete_variable(x[e[1][0]])
        else:
            for name in model.select_interactions_by_variable(x[e[1][0]]):
                model.remove_interaction(name=name)
    _fail("map")
    return model


def newest(e, o):
    return max(e[0], o[0])


def oldest(e, o):
    return min(e[0], o[0])


def solve_exact(solver, model, prev_sampleset, elements, incoming, outgoing):
    from vchk.model import bqm_poly

    rows = model.select_interaction("removed == False", fmt="dict").values()
    entry = {
        "fn": "solve",
        "step": PLAN["step"],
        "rows": [[r["name"], float(r["coefficient"]), float(r["scale"]), r.get("attributes.t"), float(r["timestamp"])] for r in rows],
        "prev": None if prev_sampleset is None else dict(prev_sampleset.info),
    }
    LOG.append(entry)
    phys = model.to_physical()
    entry["poly"] = bqm_poly(phys.to_bqm())
    ss = solver.solve(phys)
    ss.info["step"] = PLAN["step"]
    return ss


def unmap_energy(sampleset, elements, incoming, outgoing):
    e = float(sampleset.first.energy)
    LOG.append({"fn": "unmap", "step": PLAN["step"], "energy": e, "sample": {k: int(v) for k, v in dict(sampleset.first.sample).items()}})
    return f"energy {e:.6f}"


# filters of the partial algorithm


def keep_none(e):
    return False


def keep_all(e):
    return True


def keep_even_index(e):
    return e[1][0] % 2 == 0


def keep_old(e):
    return e[0] < PLAN["cut"]


def keep_marked(e):
    return e[1][1] in (3, "keep", 0)


FILTERS = {"none": keep_none, "all": keep_all, "even": keep_even_index, "old": keep_old, "marked": keep_marked}


class Recorder(beam.DoFn):
    def process(self, x, timestamp=beam.DoFn.TimestampParam):
        OUT.append((float(timestamp), str(timestamp.to_utc_datetime()), x))
        yield x


def _stamp(e):
    return beam.window.TimestampedValue(e[1], e[0])


def watermarks(case):
    """The watermark at the arrival of each event (None: not yet set).

    It advances to the oldest time still to come; with case["late"], beyond it, so that events arrive when
    some of their windows have closed: they are in those still open only.
    """
    events, late = case["events"], case.get("late") or [0]
    out, mark = [], None
    for i in range(len(events)):
        out.append(mark)
        rest = [e[0] for e in events[i + 1 :]]
        if rest and case["advance"][i % len(case["advance"])]:
            w = round(min(rest) + late[i % len(late)], 3)  # whole milliseconds
            if mark is None or w > mark:
                mark = w
    return out


def source(case):
    """The input of a pipeline: a bounded collection, or a stream whose watermark advances as the case says."""
    from apache_beam.testing.test_stream import TestStream
    from apache_beam.utils.timestamp import Timestamp

    events = case["events"]
    if not case["streaming"]:
        return beam.Create([tuple(e) for e in events], reshuffle=False) | "Stamp" >> beam.Map(_stamp)
    s = TestStream()
    mark = None
    for (t, v), w in zip(events, watermarks(case)):
        if w is not None and w != mark:
            s = s.advance_watermark_to(Timestamp(micros=round(w * 1000) * 1000))
            mark = w
        s = s.add_elements([beam.window.TimestampedValue(v, t)])
    return s.advance_watermark_to_infinity()


def run_pipeline(case, map_fn, solve_fn, unmap_fn, plan, **kw):
    import sawatabi

    LOG.clear()
    OUT.clear()
    PLAN.clear()
    PLAN.update(step=0, faults={}, fresh=False, compile=False, result="str", attr=oldest, away="delete", cut=0, sampleset="dict", rich=False, odd={})
    PLAN.update(plan)
    opts = dict(case["options"])
    if "filter_fn" in opts:
        opts["filter_fn"] = FILTERS[opts["filter_fn"]]
    cls = getattr(sawatabi.algorithm, case["algorithm"])
    args = ["--runner=DirectRunner"] + (["--streaming"] if case["streaming"] else [])
    if case["streaming"] or case.get("args", True):
        kw["pipeline_args"] = args
    before = dict(opts)
    p = cls.create_pipeline(opts, input_fn=source(case), map_fn=map_fn, solve_fn=solve_fn, unmap_fn=unmap_fn, output_fn=beam.ParDo(Recorder()), **kw)
    run(p)
    if before != opts:
        LOG.append({"fn": "options-changed"})
    return list(LOG), list(OUT)
