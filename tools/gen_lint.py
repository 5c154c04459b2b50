"""Random lint managers and project settings for lints. Only makes inputs."""
import gen_cfg

ROOT = gen_cfg.wrap("")["root"]
SEV = ["Help", "Note", "Warning", "Error", "Bug"]
KEYS = ["k", "n", "d", "long-key"]
VALUES = ["1", "2", "true", "false", '"x"', "[1, 2]", "1.5"]


def options(r):
    return [[k, r.choice(VALUES)] for k in r.sample(KEYS, r.choice([0, 0, 1, 2]))]


def said(r):
    k = r.random()
    if k < 0.3:
        return {"form": "bool", "value": r.random() < 0.4}
    if k < 0.6:
        return {"form": "severity", "value": r.choice(SEV)}
    t = {"form": "table"}
    if r.random() < 0.5:
        t["enabled"] = r.random() < 0.5
    if r.random() < 0.5:
        t["severity"] = r.choice(SEV)
    if r.random() < 0.6:
        t["options"] = options(r)
    return t


def toml(over, section):
    t = 'name = "abe"\nprefix = "abe"\n'
    if over:
        t += "[lints.%s]\n" % section
    tables = ""
    for ident, w in over:
        if w["form"] == "bool":
            t += "%s = %s\n" % (ident, "true" if w["value"] else "false")
        elif w["form"] == "severity":
            t += '%s = "%s"\n' % (ident, w["value"])
        else:
            tables += "[lints.%s.%s]\n" % (section, ident)
            if "enabled" in w:
                tables += "enabled = %s\n" % ("true" if w["enabled"] else "false")
            if "severity" in w:
                tables += 'severity = "%s"\n' % w["severity"]
            for k, v in w.get("options", []):
                tables += "options.%s = %s\n" % (k, v)
    return t + tables


def wrap(over, ops, section="config"):
    return {"sys": "lint", "kind": "manager", "section": section, "toml": toml(over, section), "over": over, "keys": KEYS, "ops": ops}


def lint(r, ident):
    sev = r.choice(["Help", "Warning", "Warning", "Error", "Error", "Note", "Bug"])
    return {"ident": ident, "sev": sev, "enabled": r.random() < 0.8, "min": r.choice(["default", "default", "Help", "Warning", "Error"]),
            "options": options(r), "runners": [r.choice("AB") for _ in range(r.choice([0, 1, 1, 2, 3]))], "twice": r.random() < 0.15}


def manager(r):
    ids = r.sample(["a", "b", "ab", "a_b", "c", "d", "long_name"], r.choice([3, 4, 6]))
    over = [[i, said(r)] for i in r.sample(ids, r.choice([0, 1, 2, 3]))]
    ops = []
    for n in range(r.randint(2, 7)):
        k = r.random()
        if k < 0.3:
            ops.append({"op": "push", "lints": [lint(r, r.choice(ids))]})
        elif k < 0.55:
            ls = r.sample(ids, r.choice([0, 1, 2, 3])) if r.random() < 0.85 else [r.choice(ids) for _ in range(3)]
            ops.append({"op": "extend", "lints": [lint(r, i) for i in ls]})
        elif k < 0.75:
            ls = [r.choice(ids) for _ in range(r.choice([0, 1, 2, 3]))]
            ops.append({"op": "group", "lints": [lint(r, i) for i in ls], "on": r.choice("AB"), "id": "g%d" % n})
        else:
            ops.append({"op": "run", "on": r.choice("AABBC")})
    ops += [{"op": "run", "on": "A"}, {"op": "run", "on": "B"}]
    return wrap(over, ops, r.choice(["config", "sqf", "stringtables"]))


REAL = ["invalid_value", "duplicate_property", "duplicate_classes", "external_missing", "external_parent_case",
        "unexpected_array", "expected_array", "missing_semicolon", "magwell_missing_magazine", "class_missing_braces"]


def magwells(r):
    mags = ["abe_a", "abe_b", "ABE_c", "other", "abe"]
    have = r.sample(mags, r.choice([0, 1, 2, 3]))
    wells = "".join("class w%d {%s};" % (i, "".join("m%d[] = {%s};" % (j, ",".join('"%s"' % r.choice(mags) for _ in range(r.choice([0, 1, 3]))))
                    for j in range(r.choice([1, 2])))) for i in range(r.choice([1, 2])))
    parts = ["class CfgMagazineWells {%s};" % wells, "class CfgMagazines {%s};" % "".join("class %s {};" % h for h in have)]
    return "".join(p for p in r.sample(parts, 2))


def config(r):
    k = r.random()
    if k < 0.3:
        text = gen_cfg.lint(r)["files"][ROOT]
    elif k < 0.55:
        text = gen_cfg.wrong(r)["files"][ROOT]
    else:
        text = ""
    if k > 0.5:
        text += "".join(r.choice(["class Base {};", "class Base;", "class base;", "class c1: base {};", "class c2: Base {};", "class c3: BASE {};", "class Base: BASE {};", "class e: none {};",
                                  "a = 1;", "A = 2;", "a[] = 1;", "b = {1};", "b = 1", "class d", "class f {};", "v = 1 2;"]) + r.choice(["", "\n"]) for _ in range(r.choice([1, 3, 6])))
    if r.random() < 0.4:
        text += magwells(r)
    over = []
    for i in r.sample(REAL + ["external_parent_case", "magwell_missing_magazine", "no_such_lint"], r.choice([1, 2, 3])):
        if i not in [o[0] for o in over]:
            w = said(r)
            if r.random() < 0.7 and i not in ("external_parent_case", "magwell_missing_magazine", "no_such_lint"):
                w = r.choice([{"form": "severity", "value": "Error"}, {"form": "bool", "value": True}])
            if w.get("severity", w.get("value")) in ("Bug", "Note"):
                w["severity" if "severity" in w else "value"] = "Warning"
            over.append([i, w])
    c = gen_cfg.wrap(text)
    return {"sys": "lint", "kind": "config", "toml": toml(over, "config"), "over": over, "files": c["files"], "root": c["root"]}
