"""B01, B02: archives against spec/Pbo.tla."""
import gen_pbo
import vlib


def batches(rep, n, salt, make, name):
    for k in range(0, n, 4000):
        rng = rep.rng("%s%d" % (salt, k))
        vlib.judge(rep, "TracePbo", [make(rng) for _ in range(min(4000, n - k))], name=name, what=rep.prop)


def check(rep):
    rep.assumptions += ["names, keys and values are not empty and contain no NUL", "contents below 2^31 bytes"]
    lines = vlib.model(rep, "MCPbo", "MCPbo.cfg", "exhaustive", consts=dict(MaxOps=3, Slow=3 if rep.thorough else 2))
    cases = [{"sys": "pbo", "ops": l["ops"], "queries": l["queries"]} for l in lines]
    vlib.replay(rep, cases, [l["exp"] for l in lines], None, "replayed_behaviours", rep.prop)
    t = 10 if rep.thorough else 1
    batches(rep, 4000 * t, "hist", gen_pbo.history, "random_histories")
    batches(rep, 4000 * t, "read", gen_pbo.archive, "random_bytes")
    batches(rep, 40 * t, "big", gen_pbo.big, "histories_with_large_files")


CHECKS = {"B01": check, "B02": check}
