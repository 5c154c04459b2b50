"""Random histories of archives, and bytes that may be archives. Only makes inputs."""

MIMES = [0x56657273, 0x43707273, 0x456e6372, 0]


def b(s):
    return list(s.encode())


NAMES = ["config.cpp", "CONFIG.BIN", "a", "A", "b\\c.sqf", "b/c.sqf", "B/C.sqf", "b-c.sqf", "b.sqf", "data/x.paa", "data\\X.paa", "z z.txt",
         "_a", "a_", "[x]", "sub/deep/er/file.hpp", "é.sqf", "é", "Stringtable.xml", "texHeaders.bin", "sub\\deep/er\\file.hpp", "Z", "ä".replace("ä", "aé")]
KEYS = ["prefix", "prefix", "version", "hemtt", "Prefix", "author", "é", "prefi", "zz"]
VALUES = ["", "\\x\\main\\", "x", "\\", "\\\\", "a\\b", "1.2.3", "\\\\z\\y\\\\", "é", "with space", "/x/y/"]


def data(r):
    k = r.random()
    if k < 0.15:
        return []
    if k < 0.25:
        return [0] * r.randint(1, 4)
    if k < 0.3:
        return [r.randrange(256) for _ in range(r.randint(40, 300))]
    return [r.randrange(256) for _ in range(r.randint(1, 12))]


def queries(r):
    qs = set()
    for _ in range(4):
        q = r.choice(NAMES)
        qs.add(r.choice([q, q.upper().replace("É", "é"), q.lower(), q.replace("/", "\\"), q.replace("\\", "/"), q + "x", q[:-1] or "y"]))
    return [b(q) for q in sorted(qs)]


def op(r, names, blobs):
    k = r.random()
    d = (lambda: [r.randint(1, blobs)]) if blobs else (lambda: data(r))
    if k < 0.45:
        return {"op": "add", "name": b(r.choice(names)), "data": d()}
    if k < 0.55:
        return {"op": "addh", "name": b(r.choice(names)), "data": d(), "mime": r.choice(MIMES[1:]), "original": r.choice([0, 1, 70000, 2**31 - 1]),
                "reserved": r.choice([0, 9, 2**24 + 3]), "timestamp": r.choice([0, 1700000000, 255])}
    if k < 0.72:
        return {"op": "prop", "k": b(r.choice(KEYS)), "v": b(r.choice(VALUES))}
    if k < 0.8:
        return {"op": "unprop", "k": b(r.choice(KEYS))}
    if k < 0.87:
        return {"op": "get", "name": b(r.choice(names))}
    if k < 0.9:
        return {"op": "peek", "k": b(r.choice(KEYS))}
    if k < 0.95:
        return {"op": "list"}
    return {"op": "write", "props": r.random() < 0.7}


def norm(n):
    return bytes(n).replace(b"/", b"\\")


def other(r, ops):
    """another history that may end with the same content: files in another order,
    properties in the same"""
    last = {}
    for i, o in enumerate(ops):
        if o["op"] in ("add", "addh"):
            last[norm(o["name"])] = i
    adds = [ops[i] for i in last.values()]
    r.shuffle(adds)
    props = [o for o in ops if o["op"] in ("prop", "unprop")]
    res = list(props)
    for a in adds:
        res.insert(r.randint(0, len(res)), a) if r.random() < 0.5 else res.append(a)
    # keep the properties in order; files go anywhere between
    return res


def history(r, blobs=0):
    names = r.sample(NAMES, r.randint(2, 8))
    ops = [op(r, names, blobs) for _ in range(r.randint(1, 14))]
    w = {"op": "write", "props": r.random() < 0.8}
    case = {"sys": "pbo", "ops": ops + [w], "queries": queries(r), "other": other(r, ops) + [w]}
    if r.random() < 0.5:
        case["chunk"] = r.choice([1, 2, 7, 4096]) if not blobs else r.choice([4096, 70000])
    return case


def big(r):
    lens = r.sample([0, 1, 999_999, 1_000_000, 1_000_001, 1_500_000, 65_536, 8192, 8193], 4)
    case = history(r, blobs=4)
    case["ops"][0:0] = [{"op": "add", "name": b(r.choice(NAMES)), "data": [i]} for i in (1, 2, 3)]
    case["other"] = other(r, case["ops"][:-1]) + [case["ops"][-1]]
    case["blobs"] = [{"seed": i + 1, "len": n} for i, n in enumerate(lens)]
    return case


def u32(n):
    return list((n & 0xffffffff).to_bytes(4, "little"))


def hdr(name, mime, size, rest=(0, 0, 0)):
    return name + [0] + u32(mime) + sum((u32(x) for x in rest), []) + u32(size)


def archive(r):
    """bytes near an archive"""
    out = []
    files = [(b(r.choice(NAMES[:20]).replace("é", "e")), data(r)) for _ in range(r.randint(0, 4))]
    if r.random() < 0.4:
        files.sort(key=lambda f: bytes(f[0]).lower())
    parts = []
    for n, d in files:
        parts.append(hdr(n, r.choice([0, 0, 0, MIMES[1], MIMES[2]]), len(d), (r.choice([len(d), 0, 77]), 0, r.choice([0, 1600000000]))))
    if r.random() < 0.8:
        v = hdr([], MIMES[0], 0)
        for _ in range(r.randint(0, 3)):
            v += b(r.choice(KEYS).replace("é", "e")) + [0] + b(r.choice(VALUES).replace("é", "e")) + [0]
        parts.insert(0 if r.random() < 0.85 else r.randint(0, len(parts)), v + [0])
    for p in parts:
        out += p
    out += hdr([], 0, 0)
    for _, d in files:
        out += d
    out += [0] + [r.randrange(256) for _ in range(20)]
    k = r.random()
    if k < 0.25:
        out = out[:r.randint(0, len(out))]
    elif k < 0.4:
        out += [r.randrange(256) for _ in range(r.choice([1, 1, 1, 2, 20, 21]))]
    elif k < 0.7:
        for _ in range(r.randint(1, 2)):
            i = r.randrange(len(out))
            out[i] = r.choice([0, 1, out[i] ^ 1, 65, 92, r.randrange(256)])
    elif k < 0.8:
        i = r.randrange(len(out))
        del out[i:i + r.randint(1, 5)]
    q = [n for n, _ in files[:2]] + [b(r.choice(NAMES).upper())]
    return {"sys": "pbo", "chunk": r.choice([0, 0, 0, 1, 5]), "bytes": out, "queries": [x for x in q if all(y < 128 for y in x)]}
