"""L01: the lint manager against spec/Lint.tla."""
import gen_lint
import vlib


def settings(r):
    return {"sev": r["sev"], "enabled": r["enabled"], "options": sorted([k, v] for k, v in dict(r["options"]).items())}


def calls(e):
    """the specification's calls in the form of the executor's"""
    out = []
    for c in e:
        if "group" in c:
            out.append(("group", c["group"], tuple(sorted((k, str(settings(v))) for k, v in c["settings"].items()))))
        else:
            out.append((c["lint"], c["runner"], "again" in c, str(settings(c["settings"]))))
    return out


def told(o):
    out = []
    for c in o:
        if "group" in c:
            out.append(("group", c["group"], tuple(sorted((k["lint"], str(settings(k))) for k in c["configs"]))))
        elif "lint" in c:
            out.append((c["lint"], c["runner"], "again" in c, str(settings(c))))
        else:
            out.append(c)
    return out


def same(e, o):
    if "out" not in o:
        return False
    n = len(e["answers"])
    return ([("ok" in x) for x in o["out"][:n]] == e["answers"] and len(o["out"]) == n + 2
            and told(o["out"][n]["told"]) == calls(e["a"]) and told(o["out"][n + 1]["told"]) == calls(e["b"]))


def check(rep):
    big = rep.thorough
    rep.assumptions += ["severities of the real config lints are exercised up to Error", "settings name each lint once"]
    for consts in [dict(), dict(Overs='"two"')] + ([dict(MaxOps=3)] if big else []):
        lines = vlib.model(rep, "MCLint", "MCLint.cfg", "exhaustive", consts=consts)
        runs = [{"op": "run", "on": "A"}, {"op": "run", "on": "B"}]
        vlib.replay(rep, [gen_lint.wrap(l["over"], l["hist"] + runs) for l in lines], lines, same, "replayed_behaviours", rep.prop)
    for k in range(10 if big else 1):
        rng = rep.rng("lint%d" % k)
        vlib.judge(rep, "TraceLint", [gen_lint.manager(rng) for _ in range(4000)], name="random_managers", what=rep.prop)
        vlib.judge(rep, "TraceLint", [gen_lint.config(rng) for _ in range(2500)], name="real_lints", what=rep.prop)


CHECKS = {"L01": check}
