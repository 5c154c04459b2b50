"""S01, S02: signatures and the files of keys against spec/Sign.tla."""
import gen_sign
import vlib


def check(rep):
    rep.assumptions += ["hashes and RSA are symbolic in the specification: distinct terms have distinct values",
                        "key lengths are multiples of 16 bits; authorities are UTF-8 without NUL"]
    big = rep.thorough
    lines = vlib.model(rep, "MCSign", "MCSign.cfg", "exhaustive")
    cases, exp = [], []
    for l in lines:
        t = l["t"]
        cases.append({"sys": "sign", "kind": "sign", "key": t["key"], "with": t["with"], "archive": t["archive"], "checked": t["checked"],
                      "version": t["version"], "alter": {"what": t["alter"], "at": 0}, "files": len(cases) % 2 == 1})
        exp.append(l["exp"])
    vlib.replay(rep, cases, exp, None, "replayed_behaviours", rep.prop)
    n, m = (6000, 200) if rep.prop == "S01" else (1500, 800)
    for k in range(10 if big else 1):
        rng = rep.rng("sign%d" % k)
        vlib.judge(rep, "TraceSign", [gen_sign.case(rng) for _ in range(n)], name="random_signings", what=rep.prop)
        vlib.judge(rep, "TraceSign", [gen_sign.files(rng) for _ in range(m)], name="random_key_files", what=rep.prop)


CHECKS = {"S01": check, "S02": check}
