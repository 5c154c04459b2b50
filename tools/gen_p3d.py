"""Model files: random models, files with changed, missing and extra bytes.
Only makes inputs."""
NAMES = ["", "a", "a3\\data_f\\x_co.paa", "#(argb,8,8,3)color(1,0,0,1)", "\\z\\m\\é.paa", "€", "#Mass#", "#SharpEdges#", "proxy:\\x\\y.001", "#UVSet#", "x" * 40]


def u32(r):
    return list((r.choice([0, 1, 28, 256, 257, 2 ** 31, 2 ** 32 - 1, r.randrange(2 ** 32)])).to_bytes(4, "little"))


FLOATS = [[0, 0, 0, 0], [0, 0, 0, 128], [0, 0, 128, 63], [0, 0, 128, 127], [0, 0, 192, 127], [1, 0, 160, 127], [1, 0, 128, 255], [1, 0, 0, 0], [0, 64, 28, 70]]


def f32(r):
    return r.choice(FLOATS) if r.random() < 0.4 else list(r.randbytes(4))


def name(r):
    return list(r.choice(NAMES).encode())


def raw_name(r):
    return r.choice([[255], [65, 195], [128, 65], [237, 160, 128], [240, 143, 128, 128], [239, 191, 189], [97, 233], [224, 159, 128], [244, 144, 128, 128], [194, 0xBF]])


def face(r, raw, verts=(3, 4)):
    n = r.choice(verts)
    pick = (lambda: raw_name(r) if raw and r.random() < 0.3 else name(r))
    return {"verts": [u32(r) + u32(r) + f32(r) + f32(r) for _ in range(n)], "flags": u32(r), "texture": pick(), "material": pick()}


def lod(r, raw=False, verts=(3, 4), twice=False):
    n = lambda: r.choice([0, 0, 1, 1, 2, 3, 5])
    tags = []
    for _ in range(n()):
        t = raw_name(r) if raw and r.random() < 0.3 else name(r)
        if twice or t not in [x["name"] for x in tags]:
            tags.append({"name": t, "data": list(r.randbytes(r.choice([0, 0, 1, 4, 24, 64, 300])))})
    return {"major": u32(r), "minor": u32(r), "res": f32(r), "points": [{"at": f32(r) + f32(r) + f32(r), "flags": u32(r)} for _ in range(n())],
            "normals": [f32(r) + f32(r) + f32(r) for _ in range(n())], "faces": [face(r, raw, verts) for _ in range(n())], "tags": tags}


def model(r, **k):
    return {"version": u32(r), "lods": [lod(r, **k) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]}


def write(m, r):
    c = {"sys": "p3d", "kind": "write", "model": m}
    if r.random() < 0.3:
        c["cap"] = r.choice([0, 4, 11, 12, r.randrange(1, 400), r.randrange(1, 3000), 100000])
    return c


def random_write(r):
    k = r.random()
    return write(model(r, verts=(3, 4) if k < 0.8 else (3, 4, 3, 4, 2, 5, 0, 1, 8)), r)


def le(n):
    return list(n.to_bytes(4, "little"))


def laid_out(m, r, slots=False):
    """the bytes of a model, with anything in the places that carry nothing"""
    junk = (lambda n: list(r.randbytes(n))) if r.random() < 0.4 else (lambda n: [0] * n)
    one = (lambda: r.choice([0, 1, 2, 255])) if r.random() < 0.3 else (lambda: 1)
    f = list(b"MLOD") + m["version"] + le(len(m["lods"]))
    for l in m["lods"]:
        f += list(b"P3DM") + l["major"] + l["minor"] + le(len(l["points"])) + le(len(l["normals"])) + le(len(l["faces"])) + junk(4)
        for p in l["points"]:
            f += p["at"] + p["flags"]
        for n in l["normals"]:
            f += n
        for x in l["faces"]:
            f += le(len(x["verts"])) + sum(x["verts"], []) + (junk(16 * max(0, 4 - len(x["verts"]))) if slots or len(x["verts"]) == 3 else []) + x["flags"] + x["texture"] + [0] + x["material"] + [0]
        f += list(b"TAGG")
        for t in l["tags"]:
            f += [one()] + t["name"] + [0] + le(len(t["data"])) + t["data"]
        k = r.choice([0, 0, 0, 3])
        f += [one()] + list(b"#EndOfFile#\0") + le(k) + junk(k) + l["res"]
    return f


def altered(f, r):
    f = list(f)
    k = r.randrange(6)
    if k == 0:
        f = f[: r.randrange(len(f))]
    elif k == 1:
        f += list(r.randbytes(r.choice([1, 5])))
    elif k == 2 and len(f) > 40:
        # a count that is too large, or one off
        i = r.choice([8, 24, 28, 32])
        f[i:i + 4] = r.choice([[255] * 4, [0, 0, 0, 128], [255, 255, 255, 0], [0, 0, 1, 0], [(f[i] + 1) % 256, 0, 0, 0], [max(0, f[i] - 1), 0, 0, 0]])
    elif k == 3:
        i = r.choice([r.randrange(4), r.randrange(min(len(f), 44))])
        f[i] = r.choice([0, 77, 255, r.randrange(256)])
    else:
        i = r.randrange(len(f))
        f[i] = r.choice([0, 1, 5, 255, r.randrange(256)])
    return f


def read(f):
    return {"sys": "p3d", "kind": "read", "file": f}


def random_read(r):
    k = r.random()
    # (faces of other than three or four vertices with as many as they say)
    f = laid_out(model(r, raw=k < 0.1, twice=k < 0.2, verts=(3, 4) if k < 0.85 else (3, 4, 3, 4, 0, 1, 2, 5, 6)), r, slots=r.random() < 0.5)
    return read(altered(f, r) if r.random() < 0.5 else f)
