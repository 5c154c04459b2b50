"""Projects for the command line: random ones, and the pieces the model is made of.
Only makes inputs; the text of a file is made from the settings the specification reads."""
import itertools

ESC = {"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t"}


def q(s):
    return '"' + "".join(ESC.get(c, c) for c in s) + '"'


def qs(l):
    return "[" + ", ".join(q(s) for s in l) + "]"


PROJ = dict(prefix="tst", folder="", authority="", ver="1.2.3", vpath="/addons/main/script_version.hpp", props={}, include=[], exclude=[],
            optmods=True, sign=True, archive=True, devexcl=[], sv="V3")


def proj(**kw):
    p = dict(PROJ, **kw)
    t = 'name = "Test"\nprefix = %s\n' % q(p["prefix"])
    t += "[version]\ngit_hash = 0\n"
    if p["ver"]:
        for n, v in zip(["major", "minor", "patch", "build"], p["ver"].split(".")):
            t += "%s = %s\n" % (n, v)
    elif p["vpath"] != PROJ["vpath"]:
        t += "path = %s\n" % q(p["vpath"][1:])
    if p["include"] or p["exclude"]:
        t += "[files]\ninclude = %s\nexclude = %s\n" % (qs(p["include"]), qs(p["exclude"]))
    if p["props"]:
        t += "[properties]\n" + "".join("%s = %s\n" % (k, q(v)) for k, v in p["props"].items())
    if not p["optmods"]:
        t += "[hemtt.build]\noptional_mod_folders = false\n"
    if p["devexcl"]:
        t += "[hemtt.dev]\nexclude = %s\n" % qs(p["devexcl"])
    if p["folder"] or not p["sign"] or not p["archive"]:
        t += "[hemtt.release]\n"
        if p["folder"]:
            t += "folder = %s\n" % q(p["folder"])
        if not p["sign"]:
            t += "sign = false\n"
        if not p["archive"]:
            t += "archive = false\n"
    if p["sv"] != "V3" or p["authority"]:
        t += "[signing]\n"
        if p["sv"] != "V3":
            t += "version = 2\n"
        if p["authority"]:
            t += "authority = %s\n" % q(p["authority"])
    return dict(p, k="proj", t=t)


def addon(**kw):
    a = dict(dict(rap=True, rexcl=[], fexcl=[], props={}), **kw)
    t = ""
    if not a["rap"] or a["rexcl"]:
        t += "[rapify]\n" + ("" if a["rap"] else "enabled = false\n") + ("exclude = %s\n" % qs(a["rexcl"]) if a["rexcl"] else "")
    if a["fexcl"]:
        t += "[files]\nexclude = %s\n" % qs(a["fexcl"])
    if a["props"]:
        t += "[properties]\n" + "".join("%s = %s\n" % (k, q(v)) for k, v in a["props"].items())
    return dict(a, k="addon", t=t)


def text(t):
    return {"k": "text", "t": t}


def prefix(p, style=0):
    return {"k": "prefix", "pfx": p, "t": [p, p + "\n", "prefix=" + p + "\n"][style]}


def ver(v):
    n = v.split(".")
    t = "#define MAJOR %s\n#define MINOR %s\n#define PATCH %s\n" % tuple(n[:3])
    return {"k": "ver", "ver": v, "t": t + ("#define BUILD %s\n" % n[3] if len(n) > 3 else "")}


PATCH = "class CfgPatches {\n  class %s {\n    units[] = {};\n    weapons[] = {};\n    requiredVersion = 2.0;\n    requiredAddons[] = {};\n  };\n};\n"


def includes(incs):
    """incs: (how it is written, path)"""
    return "".join('#include "%s"\n' % w for w, _ in incs)


def cfg(m, incs=(), patch=None, held=False):
    t = includes(incs)
    if held:
        t = "#pragma hemtt flag pe23_ignore_has_include\n#if __has_include(\"\\z\\none.hpp\")\n#endif\n" + t
    if patch:
        t += PATCH % patch
    return {"k": "heldcfg" if held else "cfg", "m": m, "inc": [p for _, p in incs], "t": t + '%s = "%s";\n' % ("mark" + m, m)}


def hpp(m, incs=()):
    return {"k": "hpp", "m": m, "inc": [p for _, p in incs], "t": includes(incs) + '%s = "%s";\n' % ("_v" + m, m)}


def sqf(m, incs=()):
    return {"k": "sqf", "m": m, "inc": [p for _, p in incs], "t": includes(incs) + "// of no use\nprivate _x = \"%s\";\nhint _x;\n" % m}


BADCFG = {"k": "badcfg", "t": "class broken { a = 1;\n"}
BADSQF = {"k": "badsqf", "t": "_x = (1 + ;\n"}
BADXML = {"k": "badxml", "t": "<Project name=\"x\"><Package\n"}
BADPROJ = {"k": "badproj", "t": "name = \n"}
BADHOOK = {"k": "badhook", "t": "let x = ;\n"}
FORCE = {"k": "force", "t": "// settings\nforce tst_setting = true;\nforce force tst_other = 2;\n"}
BOM = {"k": "bom", "t": "\ufeffhello\n"}


def rhai(ops):
    t = ""
    for i, o in enumerate(ops):
        k = o["op"]
        v = "p%d" % i
        root = lambda fs, p: fs + ".join(%s)" % q(p[1:])
        if k in ("vfs", "tell"):
            up = o["path"][1:].rsplit("/", 1)
            t += "let %s = HEMTT_VFS;\n" % v
            if len(up) > 1:
                t += "HEMTT_VFS.join(%s).create_dir_all();\n" % q(up[0])
            for part in o["path"][1:].split("/"):
                t += "%s = %s.join(%s);\n" % (v, v, q(part))
            w = 'HEMTT.mode() + " " + HEMTT.project().version().to_string() + " " + HEMTT.project().prefix()' if k == "tell" else q(o["file"]["t"])
            t += "%s.create_file().write(%s);\n" % (v, w)
        elif k == "rfs":
            t += "%s.create_file().write(%s);\n" % (root("HEMTT_RFS", o["path"]), q(o["file"]["t"]))
        elif k == "out":
            w = o["text"]
            if len(w) % 2:
                t += "%s.create_file().write(%s);\n" % (root("HEMTT_OUT", o["path"]), q(w))
            else:      # written in two pieces
                t += "let %s = %s.create_file();\n%s.write(%s);\n%s.write(%s);\n" % (v, root("HEMTT_OUT", o["path"]), v, q(w[:3]), v, q(w[3:]))
        elif k == "del":
            t += "%s.remove_file();\n" % root("HEMTT_VFS", o["path"])
        elif k in ("copy", "move"):
            t += "%s.%s(%s);\n" % (root("HEMTT_VFS", o["from"]), k, root("HEMTT_VFS", o["path"]))
        elif k == "cat":
            t += "let %s = %s.open_file().read();\n%s.create_file().write(%s);\n" % (v, root("HEMTT_VFS", o["from"]), root("HEMTT_OUT", o["path"]), v)
        elif k == "only":
            t += "if %s {\n%s}\n" % (" || ".join("HEMTT.is_%s()" % c for c in o["cmds"]), rhai([o["do"]]))
        elif k == "script":
            t += "HEMTT.script(%s);\n" % q(o["name"])
        elif k == "throw":
            t += 'throw "no";\n'
        else:
            t += '%s("said");\n' % k
    return t


def hook(*ops):
    return {"k": "hook", "ops": list(ops), "t": rhai(ops)}


def op_vfs(p, f):
    return {"op": "vfs", "path": p, "file": f}


def command(cmd, just=(), opts=(), allopts=False, norap=False, nosign=False, noarch=False, nobin=False, name=""):
    args = [cmd] + ([name] if name else [])
    for j in just:
        args += ["--just", j]
    for o in opts:
        args += ["-o", o]
    for on, a in ((allopts, "-O"), (norap, "--no-rap"), (nosign, "--no-sign"), (noarch, "--no-archive"), (nobin, "--no-bin")):
        if on:
            args.append(a)
    return {"op": "run", "args": args,
            "c": dict(cmd=cmd, just=list(just), opts=list(opts), allopts=allopts, norap=norap, nosign=nosign, noarch=noarch, name=name)}


def put(path, f):
    return {"op": "put", "path": path, "file": f, "text": f["t"]}


def delete(path):
    return {"op": "del", "path": path}


def case(src, ops, **kw):
    return dict(sys="cli", src=src, disk={p: f["t"] for p, f in src.items()}, ops=ops, **kw)


# ------------------------------------------------------------------ random
class Gen:
    def __init__(self, r):
        self.r = r
        self.n = r.randrange(1000)

    def mark(self):
        self.n += 1
        return "mk%dq" % self.n

    def some(self, p):
        return self.r.random() < p

    def project(self, **kw):
        r = self.r
        d = dict(
            prefix=r.choice(["tst", "tst", "abe", "T_x", "my.mod"]),
            folder=r.choice(["", "", "thing", "Big Thing", "a.b"]),
            authority=r.choice(["", "", "me", "some one"]),
            ver=r.choice(["1.2.3", "1.2.3.4", "0.0.1", "10.20.30.40", ""]),
            vpath=r.choice([PROJ["vpath"]] * 2 + ["/ver.hpp", "/addons/core/version.h"]),
            props=r.choice([{}, {}, {"author": "me"}, {"author": "me", "iso": "1", "url": "http://x"}]),
            include=r.choice([[], [], ["README.md"], ["docs/**", "/*.md"], ["**/*.txt"], ["*.dll", "docs/?.md"], ["docs/*"], ["/addons/main/*.txt"], ["tools/**/x.py"]]),
            exclude=r.choice([[], [], ["*.psd"], ["addons/main/README.md"], ["/addons/main/README.md"], ["addons/*/sub/**"], ["*/s?b/*.txt"], ["*.psd", "addons/main/notes.txt"]]),
            optmods=self.some(0.6), sign=self.some(0.8), archive=self.some(0.8),
            devexcl=r.choice([[], [], [], ["addons/core"], ["addons/co"], ["optionals"], ["addons/m.a"], ["optionals/opt"]]),
            sv=r.choice(["V3", "V3", "V2"]))
        if d["ver"]:
            d["vpath"] = PROJ["vpath"]
        d.update(kw)
        return d

    def includes(self, folder, pfx, others, vfs_paths):
        """written and resolved"""
        out = []
        for p in vfs_paths:
            rel = p[len(folder) + 1:]
            if self.some(0.5):
                out.append((rel.replace("/", "\\"), p))
            else:
                out.append(("\\" + pfx + "\\" + rel.replace("/", "\\"), p))
        for q_, o in others:
            out.append((q_, o))
        return out

    def addon(self, src, loc, name, P, shared, risky):
        r = self.r
        f = "/%s/%s" % (loc, name)
        pfx = r.choice(["z\\%s\\addons\\%s", "x\\%s\\%s"]) % (P["prefix"], name)
        src[f + "/" + r.choice(["$PBOPREFIX$", "$PBOPREFIX$", "$pboprefix$", "pboprefix.txt", "$PREFIX$", "$PBOPREFIX$.TXT"])] = prefix(pfx, r.randrange(3))
        a = None
        if self.some(0.5):
            a = dict(rap=self.some(0.8),
                     rexcl=r.choice([[], [], ["missions/**/description.ext"], ["*.rvmat"], ["data/*"], ["**/x.rvmat"], ["config.cpp"], ["sub/config.cpp"], ["?ata/*.rvmat"]]),
                     fexcl=r.choice([[], [], ["*.psd"], [".vscode/**/*"], ["data/*"], ["sub/x.txt"], ["/sub/x.txt"], ["s?b/*"], ["*.inc.sqf", "README.md"]]),
                     props=r.choice([{}, {}, {"iso": "14001"}, {"author": "you", "own": "yes"}]))
            src[f + "/addon.toml"] = addon(**a)
        hpps, incs = [], []
        for n in ("inc.hpp", "sub/deep.hpp"):
            if self.some(0.5):
                src[f + "/" + n] = hpp(self.mark())
                hpps.append(f + "/" + n)
                shared.append(("\\" + pfx + "\\" + n.replace("/", "\\"), f + "/" + n))

        def inc():
            o = self.includes(f, pfx, r.sample(shared, min(len(shared), r.randrange(2))) if self.some(0.5) else [], r.sample(hpps, r.randrange(len(hpps) + 1)))
            seen, res = set(), []
            for w, p in o:
                if p not in seen:
                    seen.add(p)
                    res.append((w, p))
            return res

        def at_top(i):
            return [(w if w.startswith("\\") else w, p) for w, p in i]
        if self.some(0.95):
            src[f + "/config.cpp"] = cfg(self.mark(), at_top(inc()), patch="%s_%s" % (P["prefix"].replace(".", "_"), name.replace(".", "_")), held=self.some(0.08))
        absolute = [(w, p) for w, p in [("\\" + pfx + "\\" + p[len(f) + 1:].replace("/", "\\"), p) for p in hpps]]
        if self.some(0.4):
            src[f + "/data/x.rvmat"] = cfg(self.mark(), r.sample(absolute, r.randrange(len(absolute) + 1)))
        if self.some(0.3):
            src[f + "/missions/a.b/description.ext"] = cfg(self.mark()) if self.some(0.6) or not (a and "missions/**/description.ext" in a["rexcl"]) else BADCFG
        if self.some(0.2):
            src[f + "/sub/config.cpp"] = cfg(self.mark(), patch="sub_%s" % name.replace(".", "_"))
        if self.some(0.15):
            src[f + "/" + r.choice(["config.bin", "sub/config.bin"])] = text("was here")
        if self.some(0.15):
            src[f + "/" + r.choice(["more.cpp", "sub/more.cpp"])] = cfg(self.mark())
        for n in ("fnc_a.sqf", "sub/fnc_b.sqf", "XEH_pre.init.sqf"):
            if self.some(0.45):
                src[f + "/" + n] = sqf(self.mark(), r.sample(absolute, r.randrange(len(absolute) + 1)))
        if self.some(0.2):
            src[f + "/part.inc.sqf"] = hpp(self.mark())
        if self.some(0.15):
            src[f + "/cba_settings.sqf"] = FORCE
        if self.some(0.15):
            src[f + "/fnc_a.sqfc"] = text("old")
        for n in ("README.md", "sub/x.txt", "notes.txt", "a.psd", "sub/b.psd", ".vscode/s/t.json", "data/tex.txt", "Sub/Mixed Name.txt", "noext"):
            if self.some(0.3):
                src[f + "/" + n] = text("%s of %s\n" % (n, name))
        if self.some(0.1):
            src[f + "/stringtable.xml"] = text('<?xml version="1.0" encoding="utf-8"?>\n<Project name="x"><Package name="y"><Key ID="STR_%s"><English>e</English></Key></Package></Project>\n' % name.replace(".", "_"))
        if risky:
            k = r.randrange(7)
            if k == 0:
                src[f + "/sub/bad.rvmat"] = BADCFG
            elif k == 1:
                src[f + "/sub/bad.sqf"] = BADSQF
            elif k == 2:
                src[f + "/sub/" + r.choice(["bom.txt", "bom.hpp", "bom", "bom.bin", "bom.p3d.txt"])] = BOM
            elif k == 3:
                src[f + "/sub/stringtable.xml"] = BADXML
            elif k == 4:
                src[f + "/fnc_lost.sqf"] = sqf(self.mark(), [("\\z\\none\\x.hpp", "/none/x.hpp")])
            elif k == 5:
                src.pop(next(p for p in src if p.startswith(f + "/") and src[p]["k"] == "prefix"))
            else:
                src[f + "/data/lost.rvmat"] = cfg(self.mark(), [("lost.hpp", f + "/data/lost.hpp")])
        return f

    def hooks(self, src, folders, P):
        r = self.r
        for ph in ("pre_build", "post_build", "pre_release", "post_release"):
            if not self.some(0.45):
                continue
            for n in r.sample(["01_a.rhai", "02_b.rhai", "10_c.rhai", "1_d.rhai", "B.rhai", "a.rhai"], r.randrange(1, 4)):
                src["/.hemtt/hooks/%s/%s" % (ph, n)] = self.hook(src, folders, P, ph, n)

    def hook(self, src, folders, P, ph, n):
        r = self.r
        ops, gone = [], set()
        for _ in range(r.randrange(1, 4)):
            k = r.random()
            f = r.choice(folders)
            vfs = ph != "post_release"
            if k < 0.3 and vfs:
                ops.append(op_vfs(f + "/" + r.choice(["gen.txt", "gen/new.txt", "notes.txt"]), text("by %s of %s\n" % (n, ph))))
            elif k < 0.4 and vfs:
                ops.append(op_vfs(f + "/" + r.choice(["gen.sqf", "fnc_a.sqf"]), sqf(self.mark())))
            elif k < 0.48 and vfs:
                ops.append(op_vfs(f + "/" + r.choice(["gen.rvmat", "data/x.rvmat"]), cfg(self.mark())))
            elif k < 0.53 and vfs:
                ops.append(op_vfs(r.choice(["/docs/made.md", "/README.md", "/made.txt"]), text("made by %s\n" % n)))
            elif k < 0.6 and vfs and P["ver"] == "":
                ops.append(op_vfs(P["vpath"], ver(r.choice(["2.0.0", "2.1.0.7", "3.3.3"]))))
            elif k < 0.7 and vfs:
                ops.append({"op": "tell", "path": f + "/" + r.choice(["told.txt", "notes.txt"])})
            elif k < 0.76:
                ops.append({"op": "rfs", "path": r.choice(["/made.txt", "/README.md", f + "/notes.txt"]), "file": text("really by %s\n" % n)})
            elif k < 0.84:
                ops.append({"op": "out", "path": "/" + r.choice(["extra.txt", "mod.cpp", "hook.log"]), "text": "out by %s\n" % n})
            elif k < 0.9 and vfs:
                there = [p for p in src if p.startswith(f + "/") and src[p]["k"] == "text" and p not in gone]
                if there:
                    p = r.choice(there)
                    if self.some(0.5):
                        ops.append(op_vfs(p, text("soon gone")))
                    ops.append({"op": "del", "path": p})
            elif k < 0.92:
                ops.append({"op": r.choice(["fatal", "throw"])})
            elif k < 0.94:
                ops.append({"op": "script", "name": r.choice(["one", "two", "none"])})
            elif k < 0.97 and vfs:
                there = [p for p in src if src[p]["k"] in ("text", "sqf", "cfg") and not p.startswith("/.hemtt") and not p.endswith(".ext")]   # .ext: rapified in place
                if there:
                    p = r.choice(there)
                    e = p.rsplit(".", 1)[-1] if "." in p.rsplit("/", 1)[1] else "txt"
                    ops.append({"op": r.choice(["copy", "move"]), "from": p, "path": f + "/copied." + (e if e in ("sqf", "rvmat") else "txt")} if src[p]["k"] != "cfg" or p.endswith(".rvmat") else
                               {"op": "cat", "from": p, "path": "/cat.txt"})
            else:
                ops.append({"op": r.choice(["error", "info", "warn"])})
        if self.some(0.15):
            ops.append({"op": "only", "cmds": r.sample(["build", "dev", "release"], r.randrange(1, 3)),
                        "do": {"op": "out", "path": "/only.txt", "text": "only %s\n" % n}})
        return hook(*ops)

    def scripts(self, src):
        r = self.r
        for n in ("one", "two"):
            if self.some(0.8):
                ops = [{"op": "out", "path": "/script.txt", "text": "script %s\n" % n}, {"op": "rfs", "path": "/really.txt", "file": text("script %s\n" % n)},
                       {"op": "info"}, {"op": "fatal"}, {"op": "throw"}, {"op": "out", "path": "/last.txt", "text": "last %s\n" % n}]
                ops = r.sample(ops, r.randrange(1, 4))
                if n == "one" and self.some(0.4):
                    ops.insert(r.randrange(len(ops) + 1), {"op": "script", "name": r.choice(["two", "none"])})
                src["/.hemtt/scripts/%s.rhai" % n] = hook(*ops)

    def make(self):
        r = self.r
        P = self.project()
        src = {"/.hemtt/project.toml": proj(**P)}
        names = r.sample(["main", "core", "ui_x", "m.a", "m.b", "Alpha", "opt", "zed"], r.randrange(1, 4))
        if self.some(0.4) and "main" not in names:
            names[0] = "main"
        shared, folders = [], []
        risky = r.random() < 0.25
        bad = r.randrange(len(names))
        for i, n in enumerate(names):
            loc = "optionals" if (i > 0 and self.some(0.4)) or n == "opt" else "addons"
            folders.append(self.addon(src, loc, n, P, shared, risky and i == bad))
        if self.some(0.03) and names[0] != "opt":
            src["/optionals/%s/$PBOPREFIX$" % names[0]] = prefix("z\\dup")
        if P["ver"] == "" and self.some(0.9):
            d = P["vpath"].rsplit("/", 1)[0]
            if d == "" or any(f == d for f in folders):
                src[P["vpath"]] = ver(r.choice(["4.5.6", "4.5.6.7"]))
            else:
                P["vpath"] = "/ver.hpp"
                src["/ver.hpp"] = ver("4.5.6")
                src["/.hemtt/project.toml"] = proj(**P)
        for n in ("/mod.cpp", "/meta.cpp", "/LICENSE", "/logo_ca.paa", "/README.md", "/docs/a.md", "/docs/deep/b.md", "/x.dll", "/made.txt", "/tools/x.py", "/tools/a/x.py", "/docs/made.md"):
            if self.some(0.35):
                src[n] = text("file %s\n" % n)
        if self.some(0.35):
            self.hooks(src, folders, P)
            if self.some(0.05):
                src["/.hemtt/hooks/%s/z.rhai" % r.choice(["pre_build", "post_release"])] = BADHOOK
        if self.some(0.3):
            self.scripts(src)
        if self.some(0.15):
            src["/include/%s" % r.choice(["x/e/lib.txt", "addons/main/lib.txt", "mod.cpp", "docs/lib.md"])] = text("from include\n")
        if self.some(0.03):
            src["/addons/loose.txt"] = text("not in an addon")
        return P, src, folders

    def command(self, folders):
        r = self.r
        names = [f.split("/")[2] for f in folders]
        cmd = r.choice(["build", "build", "dev", "dev", "release", "release", "check"])
        kw = {}
        if self.some(0.06):
            return command("script", name=r.choice(["one", "two", "none"]))
        if cmd in ("build", "dev") and self.some(0.25):
            kw["just"] = [r.choice([n, n.upper(), n.capitalize()]) for n in r.sample(names + ["other"], r.randrange(1, 3))]
        if cmd == "dev":
            k = r.random()
            if k < 0.3:
                kw["allopts"] = True
            elif k < 0.6:
                opts = [f.split("/")[2] for f in folders if f.startswith("/opt")] or (["main"] if self.some(0.2) else [])
                kw["opts"] = r.sample(opts, r.randrange(len(opts) + 1)) + (["nope"] if self.some(0.1) else [])
            kw["norap"] = self.some(0.15)
        if cmd in ("build", "release"):
            kw["norap"] = self.some(0.12)
            kw["nobin"] = self.some(0.2)
        if cmd == "release":
            kw["nosign"] = self.some(0.2)
            kw["noarch"] = self.some(0.2)
        return command(cmd, **kw)

    def edit(self, P, src, folders):
        """src: as it is now"""
        r = self.r
        k = r.random()
        f = r.choice(folders)
        if k < 0.2:
            P.update(self.project(ver=P["ver"], vpath=P["vpath"]))
            if P["ver"] and self.some(0.6):
                P["ver"] = r.choice(["9.9.9", "7.0.0.1"])
            return put("/.hemtt/project.toml", proj(**P))
        if k < 0.25:
            return put("/.hemtt/project.toml", BADPROJ)
        if k < 0.4:
            return put(f + "/fnc_a.sqf", r.choice([sqf(self.mark()), BADSQF]))
        if k < 0.55:
            return put(f + "/data/x.rvmat", r.choice([cfg(self.mark()), BADCFG]))
        if k < 0.7:
            return put(f + "/notes.txt", text("edit %d\n" % r.randrange(100)))
        if k < 0.8 and P["ver"] == "" and P["vpath"] in src:
            return put(P["vpath"], ver("8.8.8"))
        there = [p for p in sorted(src) if src[p]["k"] in ("text", "badsqf", "badcfg", "sqf", "badhook", "bom", "badxml", "hook") and (not p.startswith("/.hemtt") or src[p]["k"] == "badhook")]
        if there:
            return delete(r.choice(there))
        return put("/made.txt", text("made\n"))


def build(r, length=3):
    g = Gen(r)
    P, src, folders = g.make()
    ops, now = [], dict(src)
    for i in range(length):
        if i and g.some(0.5):
            e = g.edit(P, now, folders)
            if e["op"] == "put":
                now[e["path"]] = e["file"]
            else:
                now.pop(e["path"], None)
            ops.append(e)
        ops.append(g.command(folders))
    return case(src, ops)


# ------------------------------------------------------------------ pieces
PFX = "z\\tst\\addons\\%s"


def small(**kw):
    """two addons, one of them optional; things to include, to copy, to leave out"""
    src = {"/.hemtt/project.toml": proj(**kw)}
    for loc, n in (("addons", "main"), ("optionals", "opt")):
        f = "/%s/%s" % (loc, n)
        src[f + "/$PBOPREFIX$"] = prefix(PFX % n)
        src[f + "/inc.hpp"] = hpp("mk1%dq" % len(n))
        src[f + "/config.cpp"] = cfg("mk2%dq" % len(n), [("inc.hpp", f + "/inc.hpp")], patch="tst_" + n)
        src[f + "/fnc_a.sqf"] = sqf("mk3%dq" % len(n))
        src[f + "/notes.txt"] = text("notes of %s\n" % n)
    src["/mod.cpp"] = text("name = 1;\n")
    src["/README.md"] = text("read me\n")
    return src


def parts(src, ops, first=()):
    return {"src": src, "ops": [dict(o, first=False) for o in ops] + [dict(o, first=True) for o in first]}


def histories():
    """E03: commands and edits in any order"""
    c = command
    return parts(small(include=["README.md"]), [
        c("build"), c("build", just=["main"]), c("dev"), c("dev", allopts=True), c("release"), c("release", nosign=True), c("release", noarch=True), c("check"),
        put("/addons/main/fnc_a.sqf", BADSQF), put("/addons/main/fnc_a.sqf", sqf("mk40q")), put("/addons/main/notes.txt", text("other\n")),
        delete("/optionals/opt/fnc_a.sqf"), delete("/README.md"), put("/.hemtt/project.toml", proj(ver="2.0.0", folder="Big", optmods=False)),
        put("/.hemtt/project.toml", BADPROJ)])


def packings():
    """E01: what is in the way of a file into its PBO, two at a time"""
    c = command
    m = "/addons/main/"
    inc = [("inc.hpp", m + "inc.hpp")]
    return parts(small(), [
        c("build"), c("build", norap=True), c("dev", allopts=True), c("check"),
        put("/.hemtt/project.toml", proj(exclude=["addons/main/notes.txt"])), put("/.hemtt/project.toml", proj(exclude=["*.md", "/addons/*/s?b/*"])),
        put("/.hemtt/project.toml", proj(props={"author": "me", "iso": "1"})), put("/.hemtt/project.toml", proj(prefix="my.mod", optmods=False)),
        put("/.hemtt/project.toml", proj(ver="")), put("/addons/main/script_version.hpp", ver("4.5.6")),
        put(m + "addon.toml", addon(rap=False)), put(m + "addon.toml", addon(rexcl=["config.cpp"])), put(m + "addon.toml", addon(rexcl=["DATA/*"])),
        put(m + "addon.toml", addon(fexcl=["notes.txt", "sub/**"])), put(m + "addon.toml", addon(props={"iso": "2", "prefix": "mine"})),
        put(m + "config.cpp", cfg("mk41q", inc, patch="tst_main", held=True)), put(m + "config.cpp", BADCFG), put(m + "config.bin", text("was here")),
        put(m + "inc.hpp", hpp("mk42q")), delete(m + "inc.hpp"), put(m + "data/x.rvmat", cfg("mk43q")), put(m + "sub/config.cpp", cfg("mk44q", patch="tst_sub")),
        put(m + "more.ext", cfg("mk45q")), put(m + "sub/fnc_b.sqf", sqf("mk46q", [("\\z\\tst\\addons\\main\\inc.hpp", m + "inc.hpp")])),
        put(m + "part.inc.sqf", hpp("mk47q")), put(m + "fnc_a.sqfc", text("old")), put(m + "cba_settings.sqf", FORCE),
        put(m + "sub/a.md", text("deep\n")), put(m + "sub/stringtable.xml", BADXML), put(m + "sub/x.txt", BOM), put(m + "sub/Mixed Name.txt", text("n\n")),
        delete(m + "$PBOPREFIX$"), put("/optionals/OPT/$PBOPREFIX$", prefix("z\\o")), put("/addons/opt.a/pboprefix.txt", prefix("z\\a")),
        put("/addons/opt.a/more.txt", text("a\n"))])


def signings():
    """E02: the settings that say how a release is signed and put together"""
    c = command
    first = [put("/.hemtt/project.toml", proj(authority=a, optmods=o, sign=s, archive=z, folder=f, sv=v, ver=n, prefix=p))
             for a in ("", "some one") for o in (True, False) for s, z in ((True, True), (False, True), (True, False)) for f in ("", "a.b")
             for v in ("V3", "V2") for n, p in (("1.2.3", "tst"), ("10.20.30.4", "my.mod"))]
    return parts(small(), [c("release"), c("release", nosign=True), c("release", noarch=True),
                           put("/addons/core/$PBOPREFIX$", prefix("z\\core")), put("/addons/core/x.txt", text("x\n"))], first)


def hookings():
    """E04: scripts of every phase, two at a time, before every command"""
    c = command
    ops = [c("build"), c("dev"), c("release"), c("check")]
    for ph in ("pre_build", "post_build", "pre_release", "post_release"):
        d = "/.hemtt/hooks/%s/" % ph
        late = ph == "post_release"
        says = [{"op": "out", "path": "/said.txt", "text": ph + "\n"}] if late else [op_vfs("/addons/main/gen.txt", text(ph + "\n")), {"op": "tell", "path": "/addons/main/told.txt"}]
        ops.append(put(d + "10_a.rhai", hook(*says)))
        ops.append(put(d + "9_b.rhai", hook({"op": "out", "path": "/said.txt", "text": "nine\n"}, {"op": "rfs", "path": "/real.txt", "file": text(ph + "\n")})))
        ops.append(put(d + "2_f.rhai", hook({"op": "fatal"}, {"op": "out", "path": "/after.txt", "text": ph + "\n"})))
        ops.append(put(d + "3_t.rhai", hook({"op": "throw"}, {"op": "out", "path": "/after.txt", "text": ph + "\n"})))
        if not late:
            ops.append(put(d + "4_v.rhai", hook(op_vfs("/ver.hpp", ver("7.8.9")), op_vfs("/addons/main/fnc_a.sqf", sqf("mk50q")), op_vfs("/addons/main/new.rvmat", cfg("mk51q")))))
            ops.append(put(d + "5_d.rhai", hook({"op": "del", "path": "/addons/main/notes.txt"})))
    ops.append(put("/.hemtt/hooks/post_build/z.rhai", BADHOOK))
    src = small(ver="", vpath="/ver.hpp")
    src["/ver.hpp"] = ver("1.1.1")
    return parts(src, ops)


def behaviour(p, did):
    return case(p["src"], [p["ops"][i - 1] for i in did])


def hooked(r):
    """random projects that have scripts"""
    while True:
        c = build(r)
        if any(f["k"] == "hook" for f in c["src"].values()):
            return c


def released(r):
    g = Gen(r)
    P, src, folders = g.make()
    ops = []
    for i in range(2):
        if i and g.some(0.5):
            P["ver"] = P["ver"] and r.choice(["9.9.9", "7.0.0.1"])
            ops.append(put("/.hemtt/project.toml", proj(**P)))
        ops.append(command("release", norap=True, nosign=g.some(0.2), noarch=g.some(0.2)))
    return case(src, ops)
