"""Texture containers: random arrangements, damaged ones, mip maps with random
blocks, pictures to write. Only makes inputs."""
CODES = {"DXT1": [1, 255], "DXT2": [2, 255], "DXT3": [3, 255], "DXT4": [4, 255], "DXT5": [5, 255],
         "RGBA4": [68, 68], "RGBA5": [21, 85], "RGBA8": [136, 136], "GRAYA": [128, 128]}
BLOCK = {"DXT1": 8, "DXT3": 16, "DXT5": 16}


def le(n, k=4):
    return list(n.to_bytes(k, "little"))


def tag(n, d):
    return list(b"GGAT") + n + le(len(d)) + d


def mip(w, h, data, packed):
    return le(w | (0x8000 if packed else 0), 2) + le(h, 2) + le(len(data), 3) + data


def container(fmt, tags, maps, r=None, table=None):
    """tags: (name, data); maps: bytes of each; the offset table among the tags"""
    n = len(maps)
    slots = table if table is not None else list(range(n)) + [None] * (16 - n)
    where = r.randrange(len(tags) + 1) if r else len(tags)
    size = 2 + sum(12 + len(d) for _, d in tags) + 12 + 4 * len(slots)
    rest = [0, 0] + ([0, 0] if not r else r.choice([[0, 0], [7, 7, 7], list(b"GGA"), list(b"GGA\0")]))
    order = list(range(n))
    if r and r.random() < 0.5:
        r.shuffle(order)
    at, offs, body = size + len(rest), {}, []
    for i in order:
        offs[i] = at + len(body)
        body += maps[i] + ([0] * r.choice([0, 0, 3]) if r else [])
    all_tags = [tag(n, d) for n, d in tags]
    all_tags.insert(where, tag(list(b"SFFO"), sum((le(0 if s is None else offs[s]) for s in slots), [])))
    return CODES[fmt] + sum(all_tags, []) + rest + body


NAMES = [list(x) for x in (b"CGVA", b"CXAM", b"GALF", b"ZIWS", b"CORP", b"\xc3\xa9ab", b"    ", b"\xff\xfeab", b"GGAT")]


def tags(r):
    out = []
    for n in r.sample(NAMES[:7], r.choice([0, 1, 2, 3, 4])):
        out.append((n, list(r.randbytes(r.choice([0, 4, 4, 16, 300])))))
    if r.random() < 0.05:
        out.append((NAMES[r.choice([7, 8])], [1, 2]))
    return out


def sizes(r):
    return r.choice([1, 2, 4, 8, 16]), r.choice([1, 2, 4, 8, 16])


def data_size(fmt, w, h):
    return ((w + 3) // 4) * ((h + 3) // 4) * BLOCK[fmt]


def blocks(fmt, w, h, r):
    out = []
    for _ in range(data_size(fmt, w, h) // BLOCK[fmt]):
        b = list(r.randbytes(BLOCK[fmt]))
        k = r.randrange(5)
        if k == 0:
            b[-8:-4] = b[-6:-4] * 2
        elif k == 1:
            b[-8:-4] = [0, 0, 255, 255]
        elif k == 2:
            b[0:2] = r.choice([[0, 255], [255, 0], [9, 9]])
        out += b
    if r.random() < 0.3:
        out = (out[:BLOCK[fmt]] * len(out))[: len(out)]
    return out


def lzo(data, r):
    """one way of describing data"""
    out, i = [], 0
    if r.random() < 0.5 and len(data) >= 16:
        # first block as literals, the rest by copies where it repeats
        p = r.choice([8, 16])
        while i < len(data):
            if i >= p and all(data[j] == data[j - p] for j in range(i, len(data))) and len(data) - i > 2:
                n = len(data) - i
                out += ([32 + n - 2] if n <= 33 else [32] + ext(n - 33)) + le((p - 1) * 4, 2)
                break
            n = min(p, len(data) - i)
            if i + n < len(data) and data[i:i + 1] and not all(data[j] == data[j - p] for j in range(i + n, len(data)) if j >= p):
                n = len(data) - i
            out += lits(data[i:i + n], i == 0)
            i += n
    else:
        out += lits(data, True)
    return out + [17, 0, 0]


def ext(x):
    return [x] if x <= 255 else [0] + ext(x - 255)


def lits(d, first):
    n = len(d)
    if first and (n < 4 or n <= 238):
        return [17 + n] + d
    return ([n - 3] if n <= 18 else [0] + ext(n - 18)) + d


def mips(fmt, r):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        w, h = sizes(r)
        if fmt in BLOCK and r.random() < 0.7:
            d, p = blocks(fmt, w, h, r), False
        else:
            d, p = list(r.randbytes(r.choice([0, 1, 8, 60]))), r.random() < 0.5
        out.append(mip(r.choice([w, w, 32767, 0]), r.choice([h, h, 65535, 0]), d, p))
    return out


def read(f):
    return {"sys": "paa", "kind": "read", "file": f}


def random_read(r):
    fmt = r.choice(list(CODES) + ["DXT1", "DXT5", "DXT3", "DXT5"])
    ms = mips(fmt, r)
    n = len(ms)
    table = None
    if r.random() < 0.5:
        table = [r.choice([None] + list(range(n))) for _ in range(r.choice([0, 1, 3, 16]))]
    f = container(fmt, tags(r), ms, r, table)
    k = r.random()
    if k < 0.15:
        f = f[: r.randrange(len(f))]
    elif k < 0.3:
        i = r.randrange(len(f))
        f[i] = r.choice([0, 1, 6, 255, r.randrange(256)])
    elif k < 0.33:
        f[:2] = [r.randrange(256), r.choice([255, 68, 85, 0])]
    return read(f)


def image(r):
    fmt = r.choice(list(BLOCK))
    w, h = sizes(r)
    if r.random() < 0.35:
        w, h = r.randrange(1, 14), r.randrange(1, 14)
    d = blocks(fmt, w, h, r)
    packed = r.random() < 0.5
    f = container(fmt, tags(r), [mip(w, h, lzo(d, r) if packed else d, packed)], r)
    return {"sys": "paa", "kind": "image", "file": f}


def pixel(r, base):
    return [r.randrange(256) if base is None else base[0], r.randrange(256) if base is None else base[1], r.randrange(256) if base is None else base[2], r.choice([255, 255, 0, r.randrange(256)])]


def write(r):
    w, h = r.randrange(1, 14), r.randrange(1, 14)
    kind = r.randrange(4)
    px = []
    cols = {}
    for y in range(h):
        for x in range(w):
            if kind == 0:
                p = [r.randrange(256) for _ in range(4)]
            elif kind == 1:
                # a colour for each block
                p = cols.setdefault((x // 4, y // 4), [r.randrange(256) for _ in range(4)])
            elif kind == 2:
                p = cols.setdefault((x // 4, y // 4), [r.randrange(256) for _ in range(3)]) + [r.choice([0, 255])]
            else:
                p = cols.setdefault((x // 4, y // 4), [r.randrange(256) for _ in range(3)]) + [r.randrange(256)]
            px += p
    c = {"sys": "paa", "kind": "write", "w": w, "h": h, "px": px}
    if r.random() < 0.15:
        c["cap"] = r.choice([0, 1, 30, 117, 118, r.randrange(130), 100000])
    return c


def large(thorough):
    """sizes the format has no room for, and some that just fit"""
    one = [1, 2, 3, 4]
    out = [(32768, 1), (40000, 3), (65536, 1), (1, 65536), (4, 65536), (4, 65535), (32767, 4), (4096, 4096), (4093, 4096), (65535, 1), (4096, 8192)]
    if thorough:
        out += [(4096, 4092), (2048, 2048)]
    return [{"sys": "paa", "kind": "write", "w": w, "h": h, "fill": one} for w, h in out]
