"""Random archives, signatures and tampering. Only makes inputs."""
from gen_pbo import b

NAMES = ["a.paa", "b.sqf", "B.sqf", "c.txt", "config.bin", "d\\e.sqfc", "d-e.sqm", "d.e", "z.hpp", "m.h", "noext", "x.SQF", "s.sqs", "tex.jpg", "w.wrp", "t.rvmat", "é.sqf",
         "_u.ext", "q.fxy", "b.sqf.txt", "f.fsm", "g.cfg", "i.inc", "v.bikb", "o.ogg", "l.lip", "k.wss", "y.tga", "r.rtm", "p.p3d", "n.png", "pac.pac"]
AUTHS = ["me", "me", "é", "a_long.authority-name_1.2.3"]
KEYS = [{"id": i, "auth": b(AUTHS[i % 4]), "len": n} for i, n in enumerate([512, 512, 512, 768])]
ALTERS = ["sig1", "sig2", "sig3", "swap12", "swap23", "sig2is1", "sig3is1", "version", "auth", "exponent", "modulus"]


def data(r):
    return [r.randrange(256) for _ in range(r.choice([0, 1, 1, 2, 3, 8]))] if r.random() < 0.9 else [1, 2, 3]


def archive(r):
    names = r.sample(NAMES, r.randint(0, 6) if r.random() < 0.95 else 0)
    seen, files = set(), []
    for n in sorted(names, key=lambda n: n.lower().encode()):
        files.append({"name": b(n), "data": data(r), "time": r.choice([0, 0, 5])})
    if r.random() < 0.05:
        r.shuffle(files)
    vers = r.random() < 0.9
    props = [[b("prefix"), b(r.choice(["x", "x\\y", "x\\", "", "é"]))]] if r.random() < 0.8 else []
    if r.random() < 0.4:
        props.insert(r.randint(0, len(props)), [b("version"), b(r.choice(["1", "x"]))])
    return {"vers": vers, "props": props if vers else [], "files": files}


def clone(a):
    return {"vers": a["vers"], "props": [list(p) for p in a["props"]], "files": [dict(f, data=list(f["data"])) for f in a["files"]]}


def tamper(r, a):
    a = clone(a)
    fs = a["files"]
    k = r.randrange(10)
    if k == 0 and fs:
        f = r.choice(fs)
        if f["data"]:
            i = r.randrange(len(f["data"]))
            f["data"][i] ^= 1 << r.randrange(8)
        else:
            f["data"] = [0]
    elif k == 1 and fs:
        r.choice(fs)["data"] += [r.choice([0, 1])]
    elif k == 2 and len(fs) > 1:
        i = r.randrange(len(fs) - 1)
        if fs[i + 1]["data"]:      # the same bytes, cut elsewhere
            fs[i]["data"].append(fs[i + 1]["data"].pop(0))
    elif k == 3 and fs:
        f = r.choice(fs)
        n = bytes(f["name"]).decode()
        f["name"] = b(r.choice([n + "x", n[:-1], n.upper().replace("É", "é"), "k" + n[1:]]) or "y")
    elif k == 4 and fs:
        fs.remove(r.choice(fs))
    elif k == 5:
        fs.append({"name": b(r.choice(["zz", "zz.sqf", "zz.paa"])), "data": r.choice([[], [1]]), "time": 0})
    elif k == 6 and a["vers"]:
        a["props"] = [[b("prefix"), b(r.choice(["x", "y", "x\\", "", "x\\y", "X"]))]] + [p for p in a["props"] if bytes(p[0]) != b"prefix"]
    elif k == 7 and fs:
        r.choice(fs)["time"] ^= 1
    elif k == 8 and len(fs) > 1:
        i = r.randrange(len(fs) - 1)
        fs[i], fs[i + 1] = fs[i + 1], fs[i]
    elif k == 9 and len(fs) > 1:
        i, j = r.sample(range(len(fs)), 2)
        fs[i]["data"], fs[j]["data"] = fs[j]["data"], fs[i]["data"]
    if r.random() < 0.5:
        a["files"].sort(key=lambda f: bytes(f["name"]).lower())
    names = [bytes(f["name"]) for f in a["files"]]
    if len(set(names)) != len(names):
        return None
    return a


def case(r):
    a = archive(r)
    c = clone(a)
    alter = "none"
    k = r.random()
    if k < 0.55:
        for _ in range(r.choice([1, 1, 1, 2])):
            c = tamper(r, c) or c
    elif k < 0.8:
        alter = r.choice(ALTERS)
    key = r.choice(KEYS)
    same = [x for x in KEYS if x["len"] == key["len"]]
    return {"sys": "sign", "kind": "sign", "key": key, "with": key if r.random() < 0.8 else r.choice(same), "archive": a, "checked": c,
            "version": r.choice([2, 3]), "alter": {"what": alter, "at": r.randrange(64)}, "files": r.random() < 0.4,
            "chunk": r.choice([0, 0, 1, 5])}


def files(r):
    while True:
        a = archive(r)
        if a["files"] and a["files"] == sorted(a["files"], key=lambda f: bytes(f["name"]).lower()):
            break
    key = {"id": r.randrange(100, 120), "auth": b(r.choice(AUTHS + ["x", "A b", "z" * 40])), "len": r.choice([512, 512, 576, 768, 1024])}
    return {"sys": "sign", "kind": "files", "key": key, "archive": a, "version": r.choice([2, 3]), "chunk": r.choice([0, 0, 1, 7])}
