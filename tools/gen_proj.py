"""Project files, versions, prefixes: rendering of what the specification chose, and
random ones. Only makes inputs."""
KEYS = ["k", "n", "d"]
COMMIT_REPO = "bfe667e5a1504d4ec775506fa4357e4be79d40db"


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def val(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, list):
        return "[" + ", ".join(val(x) for x in v) + "]"
    return q(v)


def items(m):
    return list(m.items()) if isinstance(m, dict) else []


def key(k):
    return k if k and all(c.isalnum() or c in "_-" for c in k) and k.isascii() else q(k)


def said(w):
    if w["form"] in ("bool", "severity"):
        return val(w["value"])
    f = [k + " = " + val(w[k]) for k in ("enabled", "severity") if k in w]
    if "options" in w:
        f.append("options = { " + ", ".join("%s = %s" % (key(k), v) for k, v in w["options"]) + " }")
    return "{ " + ", ".join(f) + " }"


def preset(p, inline):
    f = [k + " = " + val(v) for k, v in items(p)]
    return "{ " + ", ".join(f) + " }" if inline else "".join(x + "\n" for x in f)


def some_of(head, n, r):
    """the heading for each of n sections; in a separate file some may have none"""
    if r is None or head == "" or not head.endswith("!") or n == 0:
        return [head.rstrip("!")] * n
    a = r.randrange(n)
    return [head[:-1] if i == a or r.random() < 0.5 else "" for i in range(n)]


def lints(l, head, r):
    """sections [head.kind]"""
    t = ""
    heads = some_of(head, len(l), r)
    for kind, m in items(l):
        head = heads.pop()
        t += "[%s%s]\n" % (head, kind)
        later = ""
        for n, w in items(m):
            if w["form"] == "table" and r is not None and r.random() < 0.5:
                later += "[%s%s.%s]\n" % (head, kind, key(n)) + "".join("%s = %s\n" % (k, val(w[k])) for k in ("enabled", "severity") if k in w)
                later += "".join("options.%s = %s\n" % (key(k), v) for k, v in w.get("options", []))
            else:
                t += "%s = %s\n" % (key(n), said(w))
        t += later
    return t


def launch(l, head, r):
    t = ""
    ns = items(l)
    if r is not None:
        r.shuffle(ns)
    heads = some_of(head, len(l), r)
    for n, p in ns:
        head = heads.pop()
        if n == "default" and head == "hemtt.launch." and r is not None and r.random() < 0.5:
            t += "[hemtt.launch]\n"
        else:
            t += "[%s%s]\n" % (head, key(n))
        t += preset(p, False)
    return t


def project(p, r=None):
    top, sections = [], []
    top.append("name = " + q(p["name"]))
    top.append("prefix = " + q(p["prefix"]))
    if "mainprefix" in p:
        top.append("mainprefix = " + q(p["mainprefix"]))
    if r is not None:
        r.shuffle(top)
    if "version" in p:
        sections.append("[version]\n" + "".join("%s = %s\n" % (k, q(v) if k == "path" else v) for k, v in items(p["version"])))
    if "properties" in p:
        sections.append("[properties]\n" + "".join("%s = %s\n" % (key(k), q(v)) for k, v in items(p["properties"])))
    f = [k + " = " + val(p[k]) for k in ("include", "exclude") if k in p]
    if f:
        sections.append("[files]\n" + "\n".join(f) + "\n")
    if "lints" in p:
        sections.append(lints(p["lints"], "lints.", r))
    for sec, names in (("check", [("check_pdrive", "pdrive")]), ("dev", [("dev_exclude", "exclude")]),
                       ("build", [("optional_mod_folders",) * 2, ("build_pdrive", "pdrive")]),
                       ("release", [("folder",) * 2, ("sign",) * 2, ("archive",) * 2])):
        f = [b + " = " + val(p[a]) for a, b in names if a in p]
        if f:
            sections.append("[hemtt.%s]\n" % sec + "\n".join(f) + "\n")
    if "launch" in p:
        sections.append(launch(p["launch"], "hemtt.launch.", r))
    f = [b + " = " + val(p[a]) for a, b in (("signing", "version"), ("authority", "authority")) if a in p]
    if f:
        sections.append("[signing]\n" + "\n".join(f) + "\n")
    if r is not None:
        r.shuffle(sections)
        if r.random() < 0.3:
            sections.insert(0, "# a comment [hemtt.launch] \n")
    return "\n".join(top) + "\n" + "".join(sections)


def case(c, r=None):
    files = {"project.toml": project(c["project"], r)}
    for name, f, head in (("launch.toml", "launchfile", "hemtt.launch."), ("lints.toml", "lintsfile", "lints.")):
        w = c[f]
        if w["is"] != "none":
            files[name] = (launch if f == "launchfile" else lints)(w["says"], head + "!" if w["is"] == "headed" else "", r)
    return dict(c, sys="proj", kind="project", files=files, keys=KEYS)


def presets(ps, overlay=None, r=None, separate=False):
    c = {"project": {"name": "Abe", "prefix": "abe"}, "launchfile": {"is": "none"}, "lintsfile": {"is": "none"}}
    if separate:
        c["launchfile"] = {"is": "says", "says": ps}
    else:
        c["project"]["launch"] = ps
    if overlay:
        c["overlay"] = overlay
    return case(c, r)


def history(conf, repo, hist, at=1):
    text = 'name = "a"\nprefix = "a"\n[version]\n' + "".join("%s = %s\n" % (k, q(v) if k == "path" else v) for k, v in items(conf))
    return {"sys": "proj", "kind": "history", "conf": conf, "repo": repo, "at": at, "hist": hist, "files": {"project.toml": text}}


# ------------------------------------------------------------------ random
DLC = ["1021790", "contact", "Contact", "GM", "Creator DLC: Global Mobilization", "creator dlc: vn", "sog", "S.O.G. Prairie Fire",
       "CSLA Iron Curtain", "csla", "Western Sahara", "ws", "spe", "Spearhead", "spearhead 1944", "rf", "Reaction Forces", "2647830", "EF"]
TEXTS = ["a", "b", "ab", "B", "1", "2 3", "x\\y", "it's \"so\"", "é", "-x=1", "#", "[a]", "z.exe"]


def words(r, n=4):
    return [r.choice(TEXTS) for _ in range(r.choice([0, 1, 2, n]))]


def one_preset(r, names):
    p = {}
    for f in ("workshop", "presets", "optionals", "parameters"):
        if r.random() < 0.4:
            p[f] = words(r)
    if r.random() < 0.4:
        p["dlc"] = [r.choice(DLC) if r.random() < 0.98 else r.choice(["nothing", "", "creator dlc:", "gm "]) for _ in range(r.choice([0, 1, 2, 3]))]
    if r.random() < 0.35:
        p["mission"] = r.choice(["m", "dir/m.VR", "é"])
    if r.random() < 0.35:
        p["executable"] = r.choice(["arma3", "x.exe", "y.EXE", "C:\\a b\\c", "d.exe.bat", "prof.x64"])
    for f in ("binarize", "file_patching", "rapify"):
        if r.random() < 0.3:
            p[f] = r.random() < 0.5
    if r.random() < 0.3:
        p["instances"] = r.choice([0, 1, 2, 255])
    if r.random() < 0.5:
        p["extends"] = r.choice(names) if r.random() < 0.93 else "gone"
    return p


def some_presets(r, n=None):
    names = r.sample(["default", "a", "b", "c", "dev-1", "with space", "D", "é"], n or r.choice([1, 2, 3, 5]))
    order = list(names)
    r.shuffle(order)
    ps = {}
    for i, x in enumerate(names):
        # mostly along an order, so that most chains end
        later = order[order.index(x) + 1:]
        ps[x] = one_preset(r, later if later and r.random() < 0.85 else names)
        if not later and ps[x].get("extends") in names and r.random() < 0.9:
            del ps[x]["extends"]
    return ps


def launch_case(r):
    ps = some_presets(r, r.choice([2, 3, 5, 8]))
    names = list(ps) + ["gone"]
    return presets(ps, [r.choice(names) for _ in range(r.choice([1, 2, 3]))], r, r.random() < 0.4)


def some_lints(r):
    def one():
        k = r.random()
        sev = r.choice(["Help", "Note", "Warning", "Error", "Bug"]) if r.random() < 0.98 else "loud"
        if k < 0.3:
            return {"form": "bool", "value": r.random() < 0.5}
        if k < 0.6:
            return {"form": "severity", "value": sev}
        t = {"form": "table"}
        if r.random() < 0.5:
            t["enabled"] = r.random() < 0.5
        if r.random() < 0.5:
            t["severity"] = sev
        if r.random() < 0.6:
            t["options"] = [[k, r.choice(["1", "true", '"x"', "[1, 2]", "1.5"])] for k in r.sample(KEYS, r.choice([0, 1, 2]))]
        return t
    return {k: {n: one() for n in r.sample(["a", "b_c", "d", "banned"], r.choice([0, 0, 1, 2]))} for k in r.sample(["config", "sqf", "stringtables"], r.choice([0, 1, 2, 3]))}


def num(r):
    return r.choice(["0", "1", "2", "10", "45", "300", "4294967295"])


def conf(r):
    k = r.random()
    if k < 0.35:
        return {"path": r.choice(["other.hpp", "a\\b\\c.hpp", "addons/main/script_version.hpp"])} if r.random() < 0.6 else {}
    c = {f: num(r) for f in ("major", "minor", "patch")}
    if r.random() < 0.4:
        c["build"] = num(r)
    if k > 0.8:
        for f in r.sample(["major", "minor", "patch"], r.choice([1, 1, 2])):
            del c[f]
    if k > 0.9:
        c["path"] = "other.hpp"
    ks = list(c)
    r.shuffle(ks)
    return {x: c[x] for x in ks}


def hashed(r, c):
    k = r.random()
    if k < 0.8:
        c["git_hash"] = r.choice(["0", "0", "1", "7", "40", "41", "255"])
    return c


def project_case(r):
    p = {"name": r.choice(["Abe", "Ünïcode \"x\"".replace("Ü", "é").replace("ï", "e"), "see [hemtt.launch] there"]), "prefix": r.choice(["abe", "abe", "z"]) if r.random() < 0.97 else ""}

    def maybe(f, v, chance=0.3):
        if r.random() < chance:
            p[f] = v()
    maybe("mainprefix", lambda: r.choice(["z", "x"]))
    maybe("version", lambda: hashed(r, conf(r)), 0.4)
    maybe("properties", lambda: {k: r.choice(TEXTS) for k in r.sample(["a", "version", "x y", "[hemtt.launch]"], r.choice([0, 1, 3]))})
    maybe("include", lambda: [r.choice(["mod.cpp", "/mod.cpp", "LICENSE", "/a/**", "*.paa", "meta.cpp", "A", "//x"]) for _ in range(r.choice([0, 1, 3, 5]))])
    maybe("exclude", lambda: words(r))
    maybe("lints", lambda: some_lints(r), 0.5)
    maybe("check_pdrive", lambda: r.choice(["disallow", "Ignore", "REQUIRE"]) if r.random() < 0.97 else "no")
    maybe("build_pdrive", lambda: r.choice(["disallow", "ignore", "require"]) if r.random() < 0.97 else "")
    maybe("dev_exclude", lambda: words(r))
    maybe("launch", lambda: some_presets(r), 0.4)
    maybe("optional_mod_folders", lambda: r.random() < 0.5)
    maybe("folder", lambda: r.choice(["x", "@a", ""]))
    maybe("sign", lambda: r.random() < 0.5)
    maybe("archive", lambda: r.random() < 0.5)
    maybe("signing", lambda: r.choice([2, 3]) if r.random() < 0.97 else 1)
    maybe("authority", lambda: r.choice(TEXTS))

    def place(f):
        k = r.random()
        return {"is": "none"} if k < 0.6 else {"is": "headed" if k < 0.66 else "says", "says": f(r)}
    c = {"project": p, "launchfile": place(some_presets), "lintsfile": place(some_lints)}
    if c["lintsfile"]["is"] == "headed" and not c["lintsfile"]["says"]:
        c["lintsfile"]["is"] = "says"      # no heading in an empty file
    if c["launchfile"]["is"] == "none" and "launch" in p and r.random() < 0.5:
        c["overlay"] = [r.choice(list(p["launch"])) for _ in range(2)]
    return case(c, r)


def malformed(r):
    """not a project file at all"""
    good = project({"name": "a", "prefix": "b", "version": {"path": "x"}, "launch": {"default": {"workshop": ["1"]}}})
    k = r.randrange(8)
    if k == 0:
        t = good.replace(r.choice(["name = \"a\"\n", "prefix = \"b\"\n"]), "")
    elif k == 1:
        t = good.replace('"a"', r.choice(["a", "1", '"a', "[]", "true", "{}"]))
    elif k == 2:
        t = good + r.choice(["[hemtt.launch.default]\n", "[version]\n", "[x\n", "= 1\n", "name = 1 = 2\n", "[hemtt]\nlaunch = 1\n"])
    elif k == 3:
        t = good.replace('["1"]', r.choice(['"1"', "[1]", "1", "{ a = 1 }", "[\"1\""]))
    elif k == 4:
        t = good + "[signing]\nversion = " + r.choice(['"3"', "-1", "99999999999", "2.0"])
    elif k == 5:
        t = good + "[hemtt.build]\n" + r.choice(["pdrive = 1", "optional_mod_folders = \"yes\"", "pdrive = [\"require\"]"])
    elif k == 6:
        t = good.replace('path = "x"', r.choice(["major = -1", "major = \"1\"", "git_hash = 256", "major = 1.5", "path = 5"]))
    else:
        t = good + "[lints.config]\nx = " + r.choice(["1", "{ severity = 3 }", "[]", "{ enabled = \"no\" }", '"warning"'])
    return {"sys": "proj", "kind": "malformed", "files": {"project.toml": t}, "keys": []}


def run_malformed(r):
    return dict(malformed(r), kind="malformed")


# versions
def version_text(r):
    n = r.choice([3, 3, 3, 4, 4, 2, 1, 5])
    t = ".".join(r.choice(["0", "1", "2", "10", "007", "4294967295", "4294967296", "99999999999", "", "-1", "a", " 1", "é"]) if r.random() < 0.2 else str(r.randrange(0, 3000)) for _ in range(n))
    if r.random() < 0.5:
        t += "-" + r.choice(["", "d1a631b1", "a-b", "é", "1.2", "-"])
    return {"sys": "proj", "kind": "version", "text": t}


def float_text(r):
    return {"sys": "proj", "kind": "float", "text": "%d.%02d" % (r.choice([0, 1, 2, r.randrange(999)]), r.randrange(100))}


def order(r):
    def v():
        t = ".".join(r.choice(["0", "1", "2", "10", "9", "100", "4294967295"]) for _ in range(r.choice([3, 3, 4])))
        return t
    vs = [v() for _ in range(8)]
    k = r.randrange(3)      # near ones too
    base = r.choice(["1", "9", "10"])
    vs += [base + ".2.3", base + ".2.3.0", base + ".2.3.%d" % (k + 1), base + ".3.2"]
    return {"sys": "proj", "kind": "order", "texts": vs}


def script_text(r):
    lines = []
    for what in ("MAJOR", "MINOR", r.choice(["PATCH", "PATCHLVL"]), "BUILD"):
        k = r.random()
        n = r.choice(["0", "1", "12", "4294967295"]) if r.random() < 0.93 else r.choice(["x", "-1", "4294967296", "1.5"])
        if k < 0.8:
            lines.append("%s#define %s%s%s%s" % (r.choice(["", "", "  ", "\t"]), what, r.choice([" ", "  "]), n, r.choice(["", "", " ", " // note 7", "//x", "  // 1"])))
        elif k < 0.86:
            lines.append("// #define %s 99" % what)
        elif k < 0.9:
            lines.append("#define %s" % what)
    r.shuffle(lines)
    for _ in range(r.choice([0, 0, 1, 2])):
        lines.insert(r.randrange(len(lines) + 1), r.choice(["", "// header", "#define VERSION MAJOR.MINOR", "#define OTHER 5", "#define MAJOR 77", "é"]))
    nl = r.choice(["\n", "\n", "\r\n"])
    return nl.join(lines) + r.choice(["", nl])


def script(r):
    return {"sys": "proj", "kind": "script", "text": script_text(r)}


def a_history(r):
    c = conf(r)
    repo = r.random() < 0.5
    if r.random() < 0.8:
        c["git_hash"] = r.choice(["0", "0", "0", "1", "8", "39", "40", "41", "60", "255"])
    paths = ["addons/main/script_version.hpp", "other.hpp", "a/b/c.hpp"]
    hist = []
    for _ in range(r.choice([3, 6, 10, 16])):
        k = r.random()
        if k < 0.4:
            hist.append({"op": "get"})
        elif k < 0.55:
            hist.append({"op": "invalidate"})
        elif k < 0.92:
            p = c.get("path", "").replace("\\", "/") or paths[0]
            hist.append({"op": "edit", "path": p if r.random() < 0.75 else r.choice(paths), "text": script_text(r)})
        else:
            hist.append({"op": "remove", "path": r.choice(paths)})
    return history(c, repo, hist + [{"op": "get"}], r.randrange(5000))


# prefixes
def prefix(r):
    part = lambda: r.choice(["z", "abe", "addons", "main", "A b", "é", "x.y", "1"])
    p = "\\".join(part() for _ in range(r.choice([1, 2, 4, 4])))
    k = r.random()
    if k < 0.08:
        p = "\\" + p
    elif k < 0.14:
        p = p.replace("\\", "/")
    elif k < 0.2:
        p += r.choice(["\\", "/", "\\\\x"])
    elif k < 0.24:
        p = ""
    ws = lambda: r.choice(["", "", " ", "\t", "  "])
    nl = r.choice(["\n", "\r\n"])
    k = r.random()
    if k < 0.4:
        t = ws() + p + ws() + r.choice(["", nl, nl + nl])
    else:
        lines = [ws() + r.choice(["prefix", "PREFIX", "Prefix", "prefix"]) + ws() + "=" + ws() + p + ws()]
        for _ in range(r.choice([0, 0, 1, 2])):
            lines.insert(r.randrange(len(lines) + 1), r.choice(["version=1.2", "", "product = x", "plain", "prefix2=q\\r", "xprefix=1", "a=b=c", "prefix=second\\one"]))
        t = nl.join(lines) + r.choice(["", nl])
    return {"sys": "proj", "kind": "prefix", "text": t}
