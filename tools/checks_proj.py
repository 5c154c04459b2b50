"""J01 to J05: launch presets, versions, project files, prefixes against spec/Proj.tla,
Ver.tla and Prefix.tla."""
import gen_proj as g
import vlib

KEEP = {"kind", "text", "texts", "conf", "hist", "repo", "project", "launchfile", "lintsfile", "overlay"}


def judge(rep, cases, name):
    vlib.judge(rep, "TraceProj", cases, name=name, keep=KEEP)


def rand(rep, f, n, name):
    r = rep.rng(name)
    judge(rep, [f(r) for _ in range(n * (8 if rep.thorough else 1))], name)


def j01(rep):
    r = rep.rng("model")
    lines = vlib.model(rep, "MCPresets", "MCPresets.cfg", "exhaustive")
    if rep.thorough:
        lines += vlib.model(rep, "MCPresets", "MCPresets.cfg", "exhaustive_four", consts=dict(Names='{"p", "q", "r", "s"}', Contents="2"))
    judge(rep, [g.presets(l["presets"], r.choice([["p", "q"], ["q", "p", "q"], ["r", "gone", "p"]]), r, r.random() < 0.3) for l in lines], "replayed_presets")
    rand(rep, g.launch_case, 2500, "random_presets")


def j02(rep):
    lines = vlib.model(rep, "MCVerCache", "MCVerCache.cfg", "exhaustive", consts=dict(MaxOps=5) if rep.thorough else None)
    judge(rep, [g.history(l["conf"], l["head"] != "", l["hist"]) for l in lines], "replayed_histories")
    rand(rep, g.a_history, 2500, "random_histories")
    rand(rep, g.script, 1500, "random_scripts")


def j03(rep):
    rep.assumptions += ["no string in a separate file contains the heading text of the project file"]
    r = rep.rng("model")
    for part, consts in (("options", dict(MaxOpts=4) if rep.thorough else {}), ("places", {})):
        lines = vlib.model(rep, "MCProj", "MCProj.cfg", part, consts=dict(consts, Part='"%s"' % part))
        judge(rep, [g.case(l, r) for l in lines], "replayed_" + part)
    rand(rep, g.project_case, 2000, "random_projects")
    rand(rep, g.malformed, 300, "malformed_projects")


def answer(e, o):
    """the specification's printed version, or the reason there is none"""
    if "err" in e:
        return o.get("err") == e["err"]
    return o.get("print") == e["print"] and o["again"] and o["stored"]


def j04(rep):
    lines = vlib.model(rep, "MCVer", "MCVer.cfg", "texts", consts=dict(MaxToks=6) if rep.thorough else None)
    lines += vlib.model(rep, "MCVer", "MCVer.cfg", "texts_begun", consts=dict(MaxToks=6 if rep.thorough else 4, Start='"1.0.20"'))
    vlib.replay(rep, [{"sys": "proj", "kind": "version", "text": l["text"]} for l in lines], [l["exp"] for l in lines], answer, "replayed_texts")
    lines = vlib.model(rep, "MCVerOrder", "MCVerOrder.cfg", "order")
    vlib.replay(rep, [{"sys": "proj", "kind": "order", "texts": [l["a"], l["b"]]} for l in lines], lines,
                lambda e, o: o.get("cmp") == [[0, e["cmp"]], [-e["cmp"], 0]] and o["eq"] == [[True, e["cmp"] == 0], [e["cmp"] == 0, True]], "replayed_pairs")
    rand(rep, g.version_text, 4000, "random_texts")
    rand(rep, g.order, 500, "random_orders")
    rand(rep, g.float_text, 500, "decimals")
    rand(rep, g.script, 1500, "scripts")


def prefix(e, o):
    if "err" in e:
        return o.get("err") == {"empty": "Empty", "invalid": "InvalidPrefix"}[e["err"]]
    return o.get("parts") == e["parts"] and o["shown"] == e["shown"] and o["main"] == e["parts"][0] and ("=" in e["shown"] or o["again"])


def j05(rep):
    lines = vlib.model(rep, "MCPrefix", "MCPrefix.cfg", "texts", consts=dict(MaxToks=5) if rep.thorough else None)
    vlib.replay(rep, [{"sys": "proj", "kind": "prefix", "text": l["text"]} for l in lines], [l["exp"] for l in lines], prefix, "replayed_texts")
    rand(rep, g.prefix, 4000, "random_texts")


CHECKS = {"J01": j01, "J02": j02, "J03": j03, "J04": j04, "J05": j05}
