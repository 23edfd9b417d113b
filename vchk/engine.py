"""Generated-case search: runs one check over many workers, shrinks a failure, writes evidence.

A check is an object with
  PROPERTY  property id
  RULE      text: how cases are made and which ones are non-trivial
  strategy(tier)   a Hypothesis strategy of JSON-able cases
  run_case(case)   raises Violation when the property is broken; returns Info(nontrivial, tags)
  PINNED    list of cases that are always run first (past failures)
  QUICK / THOROUGH  (cases per worker, seconds) bounds
"""
import hashlib
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VCHK_OUT") or VERIF  # for trials on scratch copies; checks write to /verif


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check itself misbehaved: never reported as a violation."""


class Info:
    __slots__ = ("nontrivial", "tags", "known", "weight")

    def __init__(self, nontrivial=True, tags=(), known=(), weight=1):
        self.nontrivial = nontrivial
        self.tags = tuple(tags)
        self.known = tuple(known)
        self.weight = weight


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def _touches_repo(tb):
    from vchk.boot import REPO

    pref = os.path.join(REPO, "sawatabi") + os.sep
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(pref):
            return True
        tb = tb.tb_next
    return False


def _exc_touches_repo(e, depth=0):
    while e is not None and depth < 10:
        if _touches_repo(e.__traceback__):
            return True
        e = e.__cause__ or e.__context__
        depth += 1
    return False


class _Hang(Exception):
    pass


class _Stop(KeyboardInterrupt):
    """Leaves Hypothesis at once when a budget is used up."""


def _alarm(signum, frame):
    raise _Hang()


HANG_S = 120


def execute(check, case):
    """Runs one case. Any exception that passes through the code under test is a violation."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG_S)
    real_time = time.time
    try:
        if isinstance(case, dict) and case.get("clock") is not None:
            # a clock that stands still, moves in steps or goes backwards
            time.time = _clock(case["clock"])
        return check.run_case(case)
    except Violation:
        raise
    except _Hang:
        raise Violation(f"an operation did not finish within {HANG_S} s")
    except HarnessError:
        raise
    except RecursionError as e:
        raise Violation(f"unbounded recursion: {e}")
    except Exception as e:
        # An exception in the oracle means that the code under test handed it something malformed;
        # only what the environment may cause on its own is not held against the code.
        if _exc_touches_repo(e) or not isinstance(e, (OSError, MemoryError, ImportError)):
            tail = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
            raise Violation(f"unexpected {type(e).__name__}: {e}\n{tail}") from e
        raise HarnessError("".join(traceback.format_exception(type(e), e, e.__traceback__))) from e
    finally:
        time.time = real_time
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _clock(step):
    start, calls = 1600000000.0, itertools.count()
    return lambda: start + step * (next(calls) // 5)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(case):
    return hashlib.blake2b(canon(case).encode(), digest_size=8).digest()


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.seen = set()
        self.tags = {}
        self.known = {}
        self.samples = []
        self.weight = 0

    def note(self, case, info):
        self.evaluations += 1
        self.weight += info.weight
        for t in info.tags:
            self.tags[t] = self.tags.get(t, 0) + 1
        for k in info.known:
            self.known[k] = self.known.get(k, 0) + 1
        if info.nontrivial:
            d = digest(case)
            if d not in self.seen:
                self.seen.add(d)
                n = len(self.seen)
                if n in (1, 5, 25, 125, 625):
                    self.samples.append(case)


def _worker(check, tier, seed, wid, conn, stop, max_cases, max_s):
    try:
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        stats = Stats()
        t0 = time.monotonic()
        best = [None, None, None]  # size, case, message
        first_fail = [None]
        broken = [None]
        shrink_s = getattr(check, "SHRINK_S", 40)
        min_cases = getattr(check, "MIN_CASES", 60)

        def over(now):
            # a busy machine gets more time, so that the search is never empty
            return now - t0 > max_s * (1 if stats.evaluations >= min_cases else 4)

        def one(case):
            now = time.monotonic()
            if broken[0] is not None:
                raise _Stop()
            if first_fail[0] is None:
                if over(now) or stop.is_set():
                    raise _Stop()
            elif now - first_fail[0] > shrink_s:
                raise _Stop()
            try:
                info = execute(check, case)
            except Violation as v:
                if first_fail[0] is None:
                    first_fail[0] = now
                size = len(canon(case))
                if best[0] is None or size <= best[0]:
                    best[0], best[1], best[2] = size, case, str(v)
                raise
            except HarnessError as h:
                broken[0] = str(h)
                raise _Stop()
            if first_fail[0] is None:
                stats.note(case, info)

        n = max_cases
        batch = 0
        while n > 0 and best[1] is None and broken[0] is None and not over(time.monotonic()) and not stop.is_set():
            m = min(n, getattr(check, "BATCH", 500))
            n -= m
            runner = settings(
                max_examples=m,
                database=None,
                deadline=None,
                derandomize=False,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
                print_blob=False,
            )(given(check.strategy(tier))(one))
            runner = hypothesis.seed((seed * 1000003 + wid) * 1009 + batch)(runner)
            batch += 1
            try:
                runner()
            except (Violation, _Stop):
                pass
            except BaseException as e:
                if best[1] is None and broken[0] is None:
                    broken[0] = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        conn.send((stats, best[1], best[2], broken[0]))
    except BaseException as e:
        conn.send((Stats(), None, None, "".join(traceback.format_exception(type(e), e, e.__traceback__))))
    finally:
        conn.close()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)


def replay_path(prop):
    return os.path.join(OUT, "replays", f"{prop}.json")


def report_violation(check, tier, seed, case, message, stats, t0):
    path = replay_path(check.PROPERTY)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump({"property": check.PROPERTY, "case": case, "message": message}, f, indent=1)
    print(message)
    print(f"case: {canon(case)[:4000]}")
    write_evidence(check, tier, seed, stats, t0, violations=1)
    print(f"VIOLATION property={check.PROPERTY} replay={path}")
    sys.stdout.flush()


def write_evidence(check, tier, seed, stats, t0, violations):
    cov = {
        "evaluations": stats.evaluations,
        "distinct_nontrivial": len(stats.seen),
        "rule": check.RULE,
        "samples": stats.samples[:5],
        "classes": dict(sorted(stats.tags.items())),
    }
    if stats.weight != stats.evaluations:
        cov["oracle_comparisons"] = stats.weight
    if stats.known:
        cov["known_findings_observed"] = stats.known
    doc = {
        "property": check.PROPERTY,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": list(getattr(check, "ASSUMPTIONS", ())),
        "wall_s": round(time.monotonic() - t0, 3),
        "violations": violations,
    }
    d = os.path.join(OUT, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{check.PROPERTY}.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(d, f"{check.PROPERTY}.json"))


def run_check(check, tier, seed, workers=None, scale=1.0):
    t0 = time.monotonic()
    if hasattr(check, "prepare"):
        check.prepare()
    total = Stats()
    # Past failures first, in this process only when they cannot disturb the workers.
    max_cases, max_s = check.QUICK if tier == "quick" else check.THOROUGH
    max_s *= scale
    workers = workers or int(os.environ.get("VCHK_WORKERS") or 0) or getattr(check, "WORKERS", None) or min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context("fork")
    stop = ctx.Event()

    procs = []
    pinned = list(getattr(check, "PINNED", ()))

    def start(target, args):
        r, w = ctx.Pipe(duplex=False)
        p = ctx.Process(target=target, args=args[:4] + (w,) + args[4:])
        p.start()
        w.close()
        procs.append((p, r))

    if pinned:
        start(_pinned_worker, (check, tier, seed, -1, stop, pinned, None))
    if getattr(check, "LARGE", True):
        start(_large_worker, (check, tier, seed, -2, stop, None, max_s))
    for wid in range(workers):
        start(_worker, (check, tier, seed, wid, stop, max_cases, max_s))
    failures, broken = [], []
    pending = list(procs)
    while pending:
        ready = multiprocessing.connection.wait([r for _, r in pending])
        for p, r in list(pending):
            if r in ready:
                try:
                    stats, case, message, err = r.recv()
                except EOFError:
                    stats, case, message, err = Stats(), None, None, "a worker died"
                pending.remove((p, r))
                total.evaluations += stats.evaluations
                total.weight += stats.weight
                total.seen |= stats.seen
                for k, v in stats.tags.items():
                    total.tags[k] = total.tags.get(k, 0) + v
                for k, v in stats.known.items():
                    total.known[k] = total.known.get(k, 0) + v
                for s in stats.samples[:2]:
                    total.samples.append(s)
                if case is not None:
                    failures.append((len(canon(case)), case, message))
                    stop.set()
                if err is not None:
                    broken.append(err)
                    stop.set()
    for p, _ in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    if failures:
        failures.sort(key=lambda f: f[0])
        _, case, message = failures[0]
        report_violation(check, tier, seed, case, message, total, t0)
        return 1
    if broken:
        print("the check itself failed:\n" + broken[0], file=sys.stderr)
        return 2
    if not total.samples and total.seen:
        total.samples.append("(no sample kept)")
    write_evidence(check, tier, seed, total, t0, violations=0)
    findings = known_findings(check.PROPERTY)
    for k in sorted(total.known):
        if k not in findings:
            print(f"unlisted known-finding key {k!r}", file=sys.stderr)
            return 2
    for k in sorted(findings):
        print(f"KNOWN-FINDING: property={check.PROPERTY} {findings[k]}")
    print(
        f"{check.PROPERTY}: held on {total.evaluations} cases, {len(total.seen)} distinct and non-trivial, "
        f"{time.monotonic() - t0:.1f} s; classes {dict(sorted(total.tags.items()))}"
    )
    return 0


def _pinned_worker(check, tier, seed, wid, conn, stop, pinned, _unused):
    stats = Stats()
    out = (stats, None, None, None)
    try:
        for case in pinned:
            try:
                info = execute(check, case)
                stats.note(case, info)
            except Violation as v:
                out = (stats, case, str(v), None)
                break
            except HarnessError as h:
                out = (stats, None, None, str(h))
                break
    except BaseException as e:
        out = (stats, None, None, repr(e))
    conn.send(out)
    conn.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def draws(strategy, seed):
    """Examples of a strategy without Hypothesis' bound on their size."""
    from random import Random

    from hypothesis.control import BuildContext
    from hypothesis.errors import StopTest
    from hypothesis.internal.conjecture.data import ConjectureData

    rng = Random(seed)
    while True:
        data = ConjectureData(random=Random(rng.getrandbits(64)))
        data.max_length = 10**8
        try:
            with BuildContext(data, is_final=False, wrapped_test=draws):
                case = data.draw(strategy)
        except StopTest:
            continue
        yield case


def _smaller(check, case, message, seconds):
    """Cuts histories at the end and thins event lists, as long as the case still fails (both keep a case valid)."""
    t0 = time.monotonic()

    def fails(c):
        try:
            execute(check, c)
        except Violation as v:
            return str(v)
        except HarnessError:
            pass
        return None

    for key in [k for k in ("ops", "events", "lines", "numbers") if isinstance(case.get(k), list)]:
        size = max(1, len(case[key]) // 2)
        while size and time.monotonic() - t0 < seconds:
            at = len(case[key]) - size
            done = False
            while at >= 0 and time.monotonic() - t0 < seconds:
                c = dict(case, **{key: case[key][:at] + case[key][at + size :]})
                got = fails(c)
                if got is not None:
                    case, message, done = c, got, True
                if key == "ops":
                    break
                at -= size
            if not done:
                size //= 2
            size = min(size, len(case[key]))
    return case, message


def _large_worker(check, tier, seed, wid, conn, stop, _unused, max_s):
    """Cases far beyond the usual sizes, drawn at random and run for most of the time budget."""
    stats = Stats()
    out = (stats, None, None, None)
    try:
        from vchk import gen

        global HANG_S
        HANG_S = 400
        gen.LARGE = True
        t0 = time.monotonic()
        for case in draws(check.strategy("large"), seed * 7919 + 17):
            if stop.is_set() or (stats.evaluations >= 1 and time.monotonic() - t0 > 0.6 * max_s) or stats.evaluations >= 3000:
                break
            try:
                info = execute(check, case)
                info.tags = list(info.tags) + ["large"]
                stats.note(case, info)
            except Violation as v:
                case, message = _smaller(check, case, str(v), getattr(check, "SHRINK_S", 40))
                out = (stats, case, message, None)
                break
            except HarnessError as h:
                out = (stats, None, None, str(h))
                break
    except BaseException as e:
        out = (stats, None, None, "".join(traceback.format_exception(type(e), e, e.__traceback__)))
    stats.samples = []
    conn.send(out)
    conn.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def known_findings(prop):
    """Entries of the committed KNOWN_FINDINGS.json for this property: key -> text."""
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.json")) as f:
        doc = json.load(f)
    return {e["key"]: e["text"] for e in doc["known"] if e["property"] == prop}


def replay(check, path):
    with open(path) as f:
        doc = json.load(f)
    if hasattr(check, "prepare"):
        check.prepare()
    try:
        info = execute(check, doc["case"])
    except Violation as v:
        print(str(v))
        print(f"VIOLATION property={check.PROPERTY} replay={path}")
        return 1
    print(f"{check.PROPERTY}: the saved case holds ({info.tags})")
    return 0
