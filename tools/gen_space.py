"""Workspaces and addon scans: random arrangements. Only makes inputs."""
import os

import gen_proj as g

PREFIX_FILES = ["$pboprefix$", "$PBOPREFIX$", "pboprefix.txt", "$prefix$", "$PREFIX$", "$pboprefix$.txt", "PBOPREFIX.TXT"]


def source():
    return {"is": "disk", "at": "", "type": "source"}


LAYERS = [
    [source()],
    [source(), {"is": "memory", "at": "", "type": "build"}],
    [source(), {"is": "disk", "at": "/include", "type": "include"}],
    [{"is": "disk", "at": "/include", "type": "include"}, source()],
    [source(), {"is": "disk", "at": "/include", "type": "include"}, {"is": "memory", "at": "", "type": "build"}],
    [source(), {"is": "disk", "at": "/.hemttout/build", "type": "build"}, {"is": "disk", "at": "/include", "type": "include"}],
    [source(), {"is": "disk", "at": "/include", "type": "include"}, {"is": "disk", "at": "/.hemttout/build", "type": "build"}],
    [{"is": "disk", "at": "/extra", "type": "include"}, source(), {"is": "disk", "at": "/include", "type": "include"}, {"is": "memory", "at": "", "type": "build"}],
]


def swapcase(s, r):
    return "".join(c if not c.isascii() else c.upper() if r.random() < 0.3 else c.lower() if r.random() < 0.3 else c for c in s)


def prefix_text(parts, r):
    p = "\\".join(parts)
    k = r.random()
    if k < 0.7:
        return p + r.choice(["", "\n", "\r\n", "  "])
    if k < 0.85:
        return "prefix=" + p + "\n"
    if k < 0.95:
        return "version=1\nPrefix = " + p + "\nx=y\n"
    return r.choice(["", "\\" + p, "a/b", "other=1\n"]) if r.random() < 0.4 else p


def space(r):
    layers = r.choice(LAYERS)
    comps = r.sample(["a", "b", "m", "main", "Main", "x", "lib", "é"], 4)
    names = r.sample(["f.hpp", "F.hpp", "g.sqf", "config.cpp", "h", "h.txt.bak", "mission.sqm", "é.hpp", "Config.CPP"], 4)
    disk, dirs = {}, []
    bases = ["/addons/" + c for c in comps[:2]] + ["/optionals/" + comps[2], "/addons/" + comps[0] + "/" + comps[1]]
    pools = ["", "/x", "/x/m", "/include/x/m", "/include/z/" + comps[0] + "/addons/" + comps[1], "/include", "/addons", "/other",
             "/.hemttout/build/addons/" + comps[0], "/extra/addons/" + comps[1], "/include/addons/" + comps[0]] + bases * 2
    for l in layers:
        if l["is"] == "disk" and l["at"]:
            dirs.append(l["at"])
    if r.random() < 0.3:
        dirs.append(r.choice(bases))
    for _ in range(r.randrange(1, 9)):
        disk[r.choice(pools) + "/" + r.choice(names)] = r.choice(["one", "two\r\nlines", "", "é", "3\n"])
    # prefixes: nested ones, ones equal to a directory, ones of an included mod
    prefixes = []
    for _ in range(r.randrange(4)):
        at = r.choice(pools[3:])
        parts = r.choice([["x", "m"], ["x"], ["X", "m", "addons", comps[0]], ["x", "m", "addons", comps[1]], ["z", comps[0]], ["addons", comps[0]], ["é", "m"],
                          ["x", "m", "addons"], ["z", comps[0], "addons", comps[1]], ["xm"]])
        disk[at + "/" + r.choice(PREFIX_FILES + ["$PboPrefix$"])] = prefix_text(parts, r)
        prefixes.append("/".join(parts))
    # a file where a directory is needed
    for p in list(disk):
        if any(q.startswith(p + "/") for q in list(disk) + dirs):
            del disk[p]
    dirs = [d for d in dirs if not any(d == p or d.startswith(p + "/") for p in disk)]
    bits = comps + names + ["x", "m", "z", "addons", "include", "gone", "optionals"]

    def rel():
        return "/".join(r.choice(bits + [".."] * 2 + ["."]) for _ in range(r.randrange(1, 4)))

    def path():
        """a place in the workspace, there or not"""
        k = r.random()
        if k < 0.5 and disk:
            p = r.choice(list(disk))
            for l in layers:
                if l["is"] == "disk" and l["at"] and p.startswith(l["at"] + "/") and r.random() < 0.7:
                    p = p[len(l["at"]):]
            if r.random() < 0.15:
                p = p.rsplit("/", 1)[0]
            return p
        if k < 0.9:
            return r.choice(pools) + "/" + r.choice(names + comps)
        return "/" + "/".join(r.choice(bits) for _ in range(r.randrange(1, 4)))

    def asked(at):
        k = r.random()
        if k < 0.15 and disk:
            p = os.path.relpath(path() or "/", at.rsplit("/", 1)[0] or "/")
            if r.random() < 0.3:
                p = "./" + p
        elif k < 0.3:
            p = path()
        elif k < 0.65 and prefixes:
            p = "/" + r.choice(prefixes) + "/"
            if disk and r.random() < 0.7:
                f = r.choice(list(disk))
                n = f.count("/")
                p += "/".join(f.split("/")[-r.randrange(1, n + 1):])
            else:
                p += rel()
        elif k < 0.75:
            p = "/" + rel()
        elif k < 0.9:
            p = r.choice(names)
        else:
            p = rel()
        if r.random() < 0.3:
            p = swapcase(p, r)
        if r.random() < 0.4:
            p = p.replace("/", "\\")
        elif r.random() < 0.2:
            p = "".join("\\" if c == "/" and r.random() < 0.5 else c for c in p)
        if r.random() < 0.04:
            p += "/"
        if r.random() < 0.04:
            p = p.replace("/", "//", 1)
        return p

    ops = []
    for _ in range(r.randrange(1, 7)):
        k = r.random()
        if k < 0.5:
            at = path() if r.random() < 0.6 else r.choice(bases + pools) + "/" + r.choice(names)
            ops.append({"op": "locate", "from": at, "path": asked(at)})
        elif k < 0.62:
            ops.append({"op": "write", "path": path(), "text": r.choice(["new", "w\r\n", "é!"])})
        else:
            p = path()
            op = r.choice(["read", "virtual", "include", "is", "list", "walk", "names"])
            if op in ("list", "walk") and r.random() < 0.7:
                p = r.choice(["", "/addons", "/include", p.rsplit("/", 1)[0], p.rsplit("/", 1)[0]])
            ops.append({"op": op, "path": p})
    return mend(dict(disk=disk, dirs=dirs, layers=layers, ops=ops, discover=r.random() < 0.9, says={}))


def mend(c):
    """no write where there is a directory in some layer or whose parent is a file"""
    ops, files = [], list(c["disk"])
    everywhere = set(files) | set(c["dirs"])
    for l in c["layers"]:
        if l["at"]:
            everywhere |= {p[len(l["at"]):] for p in list(everywhere) if p.startswith(l["at"] + "/")}
    written = set()
    for op in c["ops"]:
        if op["op"] == "write":
            p = op["path"]
            everything = everywhere | written | {l["at"] + w for l in c["layers"] for w in written}
            if any(q == p + "/" or q.startswith(p + "/") for q in everything | set(c["dirs"])) or p in c["dirs"]:
                continue
            up = {p[:i] for i in range(1, len(p)) if p[i] == "/"}
            if up & {q for q in everything if q not in c["dirs"]}:
                continue
            written.add(p)
            top = c["layers"][-1]["at"]
            if top:
                written.add(top + p)
        ops.append(op)
    c["ops"] = ops
    return dict(c, sys="space")


def addon_toml(a):
    if "broken" in a:
        return a["broken"]
    t = ""
    for k in ("no_bin", "exclude"):
        if k in a:
            t += k + " = " + g.val(a[k]) + "\n"
    if "preprocess" in a:
        return t + "preprocess" + a["preprocess"] + "{ enabled = false }\n"
    for sec, ks in (("rapify", (("rapify", "enabled"), ("rapify_exclude", "exclude"))), ("binarize", (("binarize", "enabled"), ("binarize_exclude", "exclude"))),
                    ("files", (("files_exclude", "exclude"),))):
        f = [b + " = " + g.val(a[x]) + "\n" for x, b in ks if x in a]
        if f:
            t += "[" + ("preprocess" if sec == "rapify" and a.get("old") else sec) + "]\n" + "".join(f)
    if "properties" in a:
        t += "[properties]\n" + "".join("%s = %s\n" % (g.key(k), g.q(v)) for k, v in a["properties"].items())
    return t


def settings(r):
    if r.random() < 0.06:
        return {"broken": r.choice(["[", "rapify = 3\n", "exclude = \"a\"\n", "[rapify]\nenabled = \"no\"\n"])}
    a = {}
    for k in ("rapify", "binarize"):
        if r.random() < 0.4:
            a[k] = r.random() < 0.4
    for k in ("rapify_exclude", "binarize_exclude", "no_bin", "files_exclude", "exclude"):
        if r.random() < 0.3:
            a[k] = [r.choice(["*.p3d", "a/b.cpp", "x", "é"]) for _ in range(r.randrange(3))]
    if r.random() < 0.3:
        a["properties"] = {r.choice(["k", "a b", "é", "url"]): r.choice(["v", "", "1"]) for _ in range(r.randrange(1, 3))}
    if r.random() < 0.05:
        a["preprocess"] = r.choice([" = ", "="])
    elif r.random() < 0.1:
        a["old"] = True
    return a


def scan(r):
    disk, dirs, says = {}, [], {}
    names = r.sample(["main", "Main", "a", "A", "b", "common", "é", "CUP_x", "my addon"], r.randrange(1, 5))
    clash = r.random() < 0.35
    for i, n in enumerate(names):
        for place in (["addons", "optionals"] if clash and r.random() < 0.3 else [r.choice(["addons", "addons", "optionals"])]):
            if not clash and any(p.lower() == n.lower() for p in names[:i]):
                continue
            d = "/%s/%s" % (place, n)
            dirs.append(d)
            fs = r.sample(PREFIX_FILES, r.choice([1, 1, 1, 2, 2, 3])) if r.random() < 0.96 else []
            for k, f in enumerate(fs):
                lead = r.choice([["x", "m", "addons"], ["x", "m", "addons"], ["x"], []])
                disk[d + "/" + f] = prefix_text(lead + [n.lower() + ("" if k == 0 and place == "addons" or r.random() < 0.1 else "2%s" % k)], r) if r.random() < 0.97 else r.choice(["", "a/b", "\\x"])
            if r.random() < 0.5:
                disk[d + "/config.cpp"] = "x"
            if r.random() < 0.5:
                says[d + "/addon.toml"] = settings(r)
                disk[d + "/addon.toml"] = addon_toml(says[d + "/addon.toml"])
            if r.random() < 0.3:
                disk[d + "/sub/$PBOPREFIX$"] = "x\\sub\\" + n.lower() + place
    for f in r.sample(["/addons/readme.txt", "/addons/$PBOPREFIX$", "/optionals/x.txt", "/include/x/y/$PBOPREFIX$", "/other/b/$PBOPREFIX$", "/addon.toml", "/addons/a.pbo"], r.randrange(3)):
        disk[f] = "x\\other" + str(len(f))
    if "/addon.toml" in disk:
        disk["/addon.toml"] = "["
    ops = [{"op": "scan"}]
    return dict(sys="space", disk=disk, dirs=dirs, layers=[source()], ops=ops, discover=r.random() < 0.3, says=says)


def missing(r):
    """models whose faces refer to files of the project, of included mods, or to none"""
    comps = ["m", "main", "Data", "é"]
    stems = ["a", "b_co", "é", "x.paa", "c.tga.d"]
    exts = [".paa", ".tga", ".png", ".rvmat", ".PAA", ""]
    layers = r.choice(LAYERS[:4])
    disk, prefixes, refs = {}, [], []
    for at, pre in r.sample([("/addons/m", "x\\m"), ("/addons/main", "x\\Main"), ("/include/z/e", "z\\e"), ("/addons/m/sub", "x\\m\\sub"), ("/optionals/o", "o")], r.choice([1, 2, 3])):
        disk[at + "/$PBOPREFIX$"] = pre
        prefixes.append(pre)
        for _ in range(r.randrange(5)):
            sub = r.choice(["", "", "/data", "/Data.paa"])
            f = sub + "/" + r.choice(stems) + r.choice(exts[:5])
            disk[at + f] = ""
            refs.append((pre + f.replace("/", "\\")))
    if r.random() < 0.3:
        disk["/t.paa"] = ""
        refs.append("t.paa")
    dirs = [l["at"] for l in layers if l["is"] == "disk" and l["at"]]
    # files that are not on disk are found only by their exact names
    writes, exact = [], []
    if layers[-1]["is"] == "memory" or r.random() < 0.1:
        places = [(d, p) for d, p in ((k[: -len("/$PBOPREFIX$")], v) for k, v in disk.items() if k.endswith("/$PBOPREFIX$"))]
        for at, pre in places:
            for s in r.sample(["new", "x_nohq", "made.b"], r.randrange(3)):
                f = "/" + s + r.choice([".paa", ".rvmat", ".tga"])
                writes.append({"op": "write", "path": at + f, "text": ""})
                exact.append(pre + f.replace("/", "\\"))
    refs += exact * 3

    def ref(material):
        k = r.random()
        if k < 0.08:
            return r.choice(["", "#(argb,8,8,3)color(1,0,0,1)", "#x"])
        t = r.choice(refs) if refs and k < 0.85 else r.choice(prefixes) + "\\" + r.choice(stems) + r.choice(exts[:4])
        if r.random() < 0.5:
            i = t.rfind(".")
            if i > t.rfind("\\"):
                t = t[:i] + r.choice(exts[:3])
        if r.random() < 0.2:
            t = swapcase(t, r)
        if r.random() < 0.4:
            t = "\\" + t
        if r.random() < 0.1:
            t = t.replace("\\", "/")
        return t

    pool = [ref(False) for _ in range(4)] + exact + [x[: x.rfind("\\")] + x[x.rfind("\\"):].upper() for x in exact]
    pick = lambda: r.choice(pool) if r.random() < 0.5 else ref(False)
    # levels of detail: what is seen from a distance, shadows, geometries, memory, paths, …
    res = lambda: [r.choice(["0", "1", "1.2", "1000", "1100", "1200", "10000", "11000", "20000", "1e13", "1e15", "2e15", "7e15", "2e16", "-1"]) for _ in range(r.randrange(1, 5))]
    models = [{"textures": [pick() for _ in range(r.randrange(6))], "materials": [pick() for _ in range(r.randrange(3))], "res": res()} for _ in range(r.choice([1, 2, 3, 6]))]
    return dict(sys="space", disk=disk, dirs=dirs, layers=layers, discover=True, says={}, ops=writes + [{"op": "missing", "models": models, "threads": r.random() < 0.5}])
