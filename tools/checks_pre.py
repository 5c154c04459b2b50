"""P01-P05: the preprocessor against spec/Pre.tla."""
import gen_pre
import vlib

# exhaustive families and their bounds: quick, thorough
FAMILIES = {
    "P01": [("MCPre_P01.cfg", dict(MaxLen=5), dict(MaxLen=6)), ("MCPre_P01_dead.cfg", dict(DeadLen=2), dict(DeadLen=3)), ("MCPre_P01_compare.cfg", {}, {})],
    "P02": [("MCPre_P02.cfg", dict(Defs3=3), dict(Defs3=4))],
    "P03": [("MCPre_P03.cfg", dict(RootLen=3, SubLen=1), dict(RootLen=3, SubLen=2)), ("MCPre_P03_graph.cfg", dict(Lines7=2), dict(Lines7=3))],
    "P04": [("MCPre_P04.cfg", dict(MaxLen=5), dict(MaxLen=6))],
    "P05": [("MCPre_P05.cfg", dict(RootLen=3, SubLen=2), dict(RootLen=4, SubLen=2))],
}
QUICK, THOROUGH = 5000, 60000


def same(e, o):
    if "err" in e or "err" in o:
        return e == o
    o = dict(o)
    if "warn" in o:
        o["warn"] = sorted(w for w in o["warn"] if w[:3] in ("PW1", "PW3"))
    e = dict(e, warn=sorted(e["warn"]))
    if "maps" not in e:
        o.pop("maps", None), o.pop("leaves", None)
    return e == o


def check(rep):
    p = rep.prop
    rep.assumptions += ["workspaces are in memory; text is UTF-8", "specified domain: see Pre.tla (programs outside it are counted separately)"]
    for cfg, quick, thorough in FAMILIES[p]:
        lines = vlib.model(rep, "MCPre", cfg, "exhaustive", consts=thorough if rep.thorough else quick)
        cases = [{"sys": "pre", "root": "/a.hpp", "files": l["files"], "maps": p == "P04"} for l in lines]
        vlib.replay(rep, cases, [l["exp"] for l in lines], same, "replayed_behaviours", p)
        del lines, cases
    n = THOROUGH if rep.thorough else QUICK
    for k in range(0, n, 5000):
        rng = rep.rng("random%d" % k)
        vlib.judge(rep, "TracePre", [gen_pre.case(p, rng) for _ in range(min(5000, n - k))],
                   name="random_programs", what=p, keep=("root", "files"))
    # the other profiles exercise the same machine on different mixtures
    for q in FAMILIES:
        if q != p:
            rng = rep.rng("other" + q)
            vlib.judge(rep, "TracePre", [gen_pre.case(q, rng) for _ in range(n // 20)],
                       name="random_programs_other_mixtures", what=p, keep=("root", "files"))


CHECKS = {p: check for p in FAMILIES}
