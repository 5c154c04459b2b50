"""LZO streams and data: alterations of streams, data with and without repetitions.
Only makes inputs."""


def altered(stream, cap, r, n):
    """as written, with other rooms, cut short, extended, with bytes changed"""
    out = [(stream, cap)]
    for _ in range(n):
        k = r.randrange(8)
        s = list(stream)
        c = cap
        if k == 0:
            c = max(0, cap + r.choice([-3, -2, -1, 1, 2, 64, -cap]))
        elif k == 1:
            s = s[: r.randrange(len(s))]
        elif k == 2:
            s = s + [r.choice([0, 17, r.randrange(256)]) for _ in range(r.choice([1, 3]))]
        else:
            for _ in range(r.choice([1, 1, 1, 2, 4])):
                i = r.choice([0, len(s) - 1, r.randrange(len(s)), r.randrange(len(s))])
                s[i] = r.choice([0, 1, 255, 16, 17, 24, 32, 64, s[i] ^ (1 << r.randrange(8)), r.randrange(256)])
            if r.random() < 0.2:
                s.insert(r.randrange(len(s)), r.choice([0, 0, 32, 16, r.randrange(256)]))
            if r.random() < 0.3:
                c = cap + r.choice([1, 40, 1000])
        out.append((s, c))
    return [{"sys": "lzo", "kind": "decode", "stream": s, "cap": c} for s, c in out]


def noise(r):
    """any bytes at all, most of them instructions"""
    s = [r.choice([r.randrange(18, 26), r.randrange(16)])]
    for _ in range(r.randrange(40)):
        s += r.choice([[0], [r.randrange(16)], [r.randrange(64, 256), r.randrange(4)], [32 + r.randrange(32), r.randrange(16), 0], [16 + r.randrange(16), r.randrange(256), 0], [r.randrange(256)], [0, r.randrange(256)]])
    s += r.choice([[17, 0, 0], [], [17, 0], [16, 1, 0, 0]])
    return {"sys": "lzo", "kind": "decode", "stream": s, "cap": r.choice([0, 1, 10, 100, 1000, 3000])}


def data(r, n):
    """n bytes: pieces that are random, constant, periodic, or were there before"""
    out = bytearray()
    alphabet = r.choice([256, 256, 2, 4])
    while len(out) < n:
        k = r.randrange(6)
        m = r.choice([1, 2, 3, 4, 5, 8, 9, 16, 18, 19, 33, 34, 40, 254, 255, 256, 273, 274, 600, n // 2 + 1])
        if k <= 1 or not out:
            out += bytes(r.randrange(alphabet) for _ in range(m))
        elif k == 2:
            out += bytes([r.randrange(alphabet)]) * m
        else:
            d = r.choice([1, 2, 3, 4, 7, 8, 9, 1024, 1025, 2048, 2049, 2050, 3072, 3073, 16383, 16384, 16385, 32767, 32768, 32769, 49150, 49151, 49152, r.randrange(1, len(out) + 1)])
            if d > len(out):
                d = r.randrange(1, len(out) + 1)
            for _ in range(m):
                out.append(out[-d])
    return list(out[:n])


def far(r, n):
    """noise with long copies from further back than half the window"""
    out = bytearray(r.randbytes(34000))
    while len(out) < n:
        m = r.choice([4, 8, 9, 10, 16, 30, 33, 34, 60, 264, 265, 300])
        d = r.choice([16384, 16385, 30000, 32767, 32768, 32769, 40000, 49150, 49151, 49152])
        d = min(d, len(out))
        for _ in range(m):
            out.append(out[-d])
        out += r.randbytes(r.choice([1, 3, 4, 20]))
    return {"sys": "lzo", "kind": "round", "data": list(out)}


def round_trip(r, n):
    return {"sys": "lzo", "kind": "round", "data": data(r, n)}


def room(r, n):
    d = data(r, n)
    w = n + n // 16 + 67
    return {"sys": "lzo", "kind": "room", "data": d, "cap": r.choice([0, 1, 2, 3, n // 2, n, n + 3, w - 1, w, w + 1])}
