"""C01-C03: configs against spec/Cfg.tla."""
import gen_cfg
import vlib


def batches(rep, n, make, name, step=2000, what=""):
    for k in range(0, n, step):
        rng = rep.rng("%s%d" % (name, k))
        vlib.judge(rep, "TraceCfg", [make(rng) for _ in range(min(step, n - k))], name="random_" + name, what=rep.prop)


def names(rep, consts):
    """the specification's answer is the set of reports"""
    lines = vlib.model(rep, "MCCfg", "MCCfg_names.cfg", "exhaustive", consts=consts)

    def same(e, o):
        if "codes" not in o or any(not c["shown"] for c in o["codes"]):
            return False
        ids = ("L-C02", "L-C03", "L-C04")
        got = set((c["id"], frozenset(a[1] for a in c["at"])) for c in o["codes"] if c["id"] in ids)
        cased = set(c["at"][0][1] for c in o["codes"] if c["id"] == "L-C05")
        return (got == set((c["id"], frozenset(c["at"])) for c in e["codes"])
                and set(e["cased"]) <= cased <= set(e["perhaps"])
                and all(c["id"] in ids + ("L-C05",) for c in o["codes"])
                and ("bytes" in o) == (not any(c["sev"] == "error" for c in o["codes"])))
    for k in range(0, len(lines), 20000):
        part = lines[k:k + 20000]
        vlib.replay(rep, [gen_cfg.wrap(l["text"]) for l in part], part, same, "replayed_behaviours", rep.prop)


def tokens(rep, kind, n):
    """what is not derived has to be an error; what is, goes to the judge"""
    lines = vlib.model(rep, "MCCfg", "MCCfg_%s.cfg" % kind, "exhaustive", consts=dict(MaxToks=n))
    bad = [l for l in lines if not l["ok"]]

    def same(e, o):
        return "rejected" in o or "err" in o or any(c["sev"] == "error" and c["shown"] for c in o.get("codes", []))
    vlib.replay(rep, [gen_cfg.wrap(l["text"]) for l in bad], bad, same, "replayed_behaviours", rep.prop)
    vlib.judge(rep, "TraceCfg", [gen_cfg.wrap(l["text"]) for l in lines if l["ok"]], name="derived_texts", what=rep.prop)


def check(rep):
    rep.assumptions += ["no preprocessor directives or macros in the texts; comments are allowed", "decimal numbers within the range of 32-bit floats",
                        "the value of arithmetic is decided for results below 30000"]
    big = rep.thorough
    p = rep.prop
    t = 10 if big else 1
    if p == "C01":
        lines = vlib.model(rep, "MCCfg", "MCCfg_tree.cfg", "exhaustive", consts=dict(MaxOps=3))
        vlib.judge(rep, "TraceCfg", [gen_cfg.wrap(l["text"]) for l in lines], name="replayed_trees", what=p)
        batches(rep, 1200 * t, gen_cfg.config, "configs")
        batches(rep, 8 * t, gen_cfg.sizes, "large_configs")
        batches(rep, 200 * t, gen_cfg.lint, "class_names")
    elif p == "C02":
        names(rep, dict(MaxOps=3))
        names(rep, dict(MaxOps=4, Parents="{}"))
        if big:
            names(rep, dict(MaxOps=4, Parents='{"a", "A"}'))
        batches(rep, 2500 * t, gen_cfg.lint, "class_names")
        batches(rep, 400 * t, gen_cfg.config, "configs")
    else:
        tokens(rep, "value", 5 if big else 4)
        tokens(rep, "array", 5 if big else 4)
        tokens(rep, "entry", 5 if big else 4)
        batches(rep, 800 * t, gen_cfg.config, "configs")
        batches(rep, 1200 * t, gen_cfg.wrong, "wrong_entries")
        batches(rep, 1500 * t, gen_cfg.damaged, "damaged_configs")


CHECKS = {"C01": check, "C02": check, "C03": check}
