import importlib
import json
import os

from vchk.engine import VERIF

MODULES = ["checks_model", "checks_solver", "checks_stream", "checks_misc", "checks_sample"]


def all_checks():
    out = {}
    for name in MODULES:
        if not os.path.exists(os.path.join(VERIF, "vchk", name + ".py")):
            continue
        mod = importlib.import_module("vchk." + name)
        for c in mod.CHECKS:
            assert c.PROPERTY not in out, c.PROPERTY
            out[c.PROPERTY] = c
    return out


def load(prop):
    return all_checks()[prop]


def selftest():
    """Checks that the tools the checks need are here, and that MANIFEST and properties agree."""
    import hypothesis
    import sawatabi

    checks = all_checks()
    with open(os.path.join(VERIF, "MANIFEST.json")) as f:
        man = json.load(f)
    claimed = {c["property"] for c in man["checks"]}
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        props = {json.loads(line)["id"] for line in f if line.strip()}
    na = {e["property"] for e in man.get("not_applicable", [])}
    assert claimed <= set(checks), claimed - set(checks)
    assert claimed | na == props, (claimed | na) ^ props
    print(f"hypothesis {hypothesis.__version__}, sawatabi {sawatabi.__version__} from {sawatabi.__file__}, {len(claimed)} checks")
    return 0
