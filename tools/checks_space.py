"""W01, W02: layers, prefixes and path resolution; the scan for addons: against
spec/Space.tla."""
import gen_space as g
import vlib

KEEP = {"disk", "dirs", "layers", "ops", "discover", "says"}


def judge(rep, cases, name):
    vlib.judge(rep, "TraceSpace", cases, name=name, keep=KEEP)


def same(e, o):
    """the answers, and what is left on disk"""
    return o.get("disk") == e["left"] and o["out"] == [op["exp"] for op in e["ops"]]


def case(l, **kw):
    """TLC prints its empty function as a list"""
    return dict({k: {} if k in ("disk", "left") and v == [] else v for k, v in l.items()}, sys="space", says={}, **kw)


def w01(rep):
    lines = vlib.model(rep, "MCSpace", "MCSpace_find.cfg", "requests", consts=dict(MaxFiles=3) if rep.thorough else None)
    judge(rep, [case(l, discover=True) for l in lines], "replayed_requests")
    lines = vlib.model(rep, "MCSpace", "MCSpace_write.cfg", "histories", consts=None if rep.thorough else dict(MaxOps=2))
    lines = [case(l, discover=False) for l in lines]
    vlib.replay(rep, lines, lines, same, "replayed_histories")
    r = rep.rng("spaces")
    judge(rep, [g.space(r) for _ in range(2400 * (8 if rep.thorough else 1))], "random_spaces")


def w02(rep):
    lines = vlib.model(rep, "MCScan", "MCScan.cfg", "arrangements", consts=dict(MaxDirs=4) if rep.thorough else None)
    judge(rep, [case(l, discover=d) for l in lines for d in (False, True)], "replayed_arrangements")
    r = rep.rng("scans")
    judge(rep, [g.scan(r) for _ in range(2500 * (8 if rep.thorough else 1))], "random_scans")


def f04(rep):
    lines = vlib.model(rep, "MCMissing", "MCMissing.cfg", "models", consts=dict(Wide="TRUE") if rep.thorough else None)
    r = rep.rng("missing")
    r.shuffle(lines)
    ask = lambda l, t: {"op": "missing", "models": l.pop("models"), "threads": t}
    judge(rep, [case(dict(l, ops=[ask(l, i % 2 == 0)]), discover=True) for i, l in enumerate(lines[: 40000 if rep.thorough else 2000])], "replayed_models")
    judge(rep, [g.missing(r) for _ in range(900 * (8 if rep.thorough else 1))], "random_models")


CHECKS = {"W01": w01, "W02": w02, "F04": f04}
