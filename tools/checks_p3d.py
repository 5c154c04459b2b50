"""F02: model files, against spec/P3d.tla."""
import gen_p3d as g
import vlib

KEEP = {"kind", "model", "file", "cap"}
# what is known to be lost, shown every time
EMPTY = {"major": [28, 0, 0, 0], "minor": [0, 1, 0, 0], "res": [0, 0, 128, 63], "points": [], "normals": [], "faces": [], "tags": []}
TRIANGLE = {"verts": [[0] * 16] * 3, "flags": [0] * 4, "texture": [97, 233], "material": []}


def known(r):
    tags = [{"name": list(b"#Property#"), "data": list(d)} for d in (b"autocenter", b"class")]
    quiet = lambda m: g.read(g.laid_out(dict(version=[1, 1, 0, 0], lods=[m]), Quiet()))
    return [quiet(dict(EMPTY, tags=tags)), quiet(dict(EMPTY, faces=[TRIANGLE]))]


class Quiet:
    def random(self):
        return 1.0

    def choice(self, q):
        return q[0]


def judge(rep, cases, name):
    vlib.judge(rep, "TraceP3d", cases, name=name, keep=KEEP)


def f02(rep):
    r = rep.rng("models")
    t = rep.thorough
    lines = vlib.model(rep, "MCP3d", "MCP3d.cfg", "models", consts=dict(MaxParts=4) if t else None)
    r.shuffle(lines)
    n = 8000 if t else 700
    judge(rep, known(r) + [g.write(l["model"], r) for l in lines[:n]], "models_written")
    judge(rep, [g.read(l["file"]) for l in lines[:n]] + [g.read(g.altered(l["file"], r)) for l in lines[:n] for _ in range(3)], "files_read")
    judge(rep, [g.random_write(r) for _ in range(12000 if t else 1500)] + [g.random_read(r) for _ in range(30000 if t else 3000)], "random")


CHECKS = {"F02": f02}
