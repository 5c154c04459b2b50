"""F01: compression and decompression, against spec/Lzo.tla."""
import gen_lzo as g
import vlib

KEEP = {"kind", "data", "stream", "cap"}


def judge(rep, cases, name):
    vlib.judge(rep, "TraceLzo", cases, name=name, keep=KEEP)


def f01(rep):
    r = rep.rng("streams")
    t = rep.thorough
    lines = vlib.model(rep, "MCLzo", "MCLzo.cfg", "streams", consts=dict(Wide="TRUE") if t else None)
    small = [l for l in lines if l["cap"] < 3000]
    large = [l for l in lines if l["cap"] >= 3000]
    r.shuffle(small)
    r.shuffle(large)
    cases = []
    for l in small[: 60000 if t else 4000]:
        cases += g.altered(l["stream"], l["cap"], r, 2)
    for l in large[: 600 if t else 25]:
        cases += g.altered(l["stream"], l["cap"], r, 1)
    judge(rep, cases, "replayed_streams")
    judge(rep, [g.noise(r) for _ in range(60000 if t else 4000)], "random_streams")
    n = [1, 2, 3, 4, 16, 17, 18, 19, 20, 21, 22, 24, 25, 40, 237, 238, 239, 240, 255, 256, 257, 273, 274, 292, 293]
    judge(rep, [g.round_trip(r, r.choice(n) if r.random() < 0.5 else r.randrange(1, 1200)) for _ in range(12000 if t else 1200)]
          + [g.room(r, r.choice(n) if r.random() < 0.5 else r.randrange(1, 1200)) for _ in range(4000 if t else 400)], "random_data")
    big = [3000, 5000, 17000, 20000, 40000, 49152, 49153, 49155, 49172, 49173, 50000, 70000, 98304, 98310, 110000]
    judge(rep, [g.round_trip(r, k) for k in big for _ in range(12 if t else 1)]
          + [g.far(r, k) for k in [36000, 45000, 60000, 90000] for _ in range(6 if t else 1)], "large_data")


CHECKS = {"F01": f01}
