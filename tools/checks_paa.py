"""F03: texture containers, against spec/Paa.tla."""
import gen_paa as g
import vlib

KEEP = {"kind", "file", "w", "h", "px", "fill", "cap"}


def judge(rep, cases, name):
    vlib.judge(rep, "TracePaa", cases, name=name, keep=KEEP)


def f03(rep):
    r = rep.rng("textures")
    t = rep.thorough
    lines = vlib.model(rep, "MCPaa", "MCPaa.cfg", "containers", consts=dict(MaxTags=2) if t else None)
    r.shuffle(lines)
    cut = lambda f: f[: r.randrange(len(f))]
    judge(rep, [g.read(f) for l in lines[: 20000 if t else 2500] for f in (l["file"], cut(l["file"]))], "containers_read")
    judge(rep, [g.random_read(r) for _ in range(30000 if t else 2500)], "random_containers")
    judge(rep, [g.image(r) for _ in range(12000 if t else 1000)], "pictures_read")
    judge(rep, g.large(t) + [g.write(r) for _ in range(10000 if t else 800)], "pictures_written")


CHECKS = {"F03": f03}
