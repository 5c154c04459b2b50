"""Programs for the preprocessor, drawn at random. Only inputs: what they should
give is decided by spec/Pre.tla."""

VALS = ["A", "B", "C", "DD"]
FUNS = {"F": 1, "G": 2, "H": 1, "ARR_2": 2, "Z": 0, "TRACE_1": 1}
PLAIN = ["x", "yy", "foo", "v1", "_k"]
PARAMS = ["p", "q", "A", "x"]


class G:
    def __init__(self, rng, w, files=None, quirks=0.03):
        self.r, self.w, self.files, self.quirks = rng, w, files or [], quirks

    def ws(self):
        return self.r.choice(["", "", "", " ", "  ", "\t"])

    def pick(self, table):
        ks = [k for k in table if table[k] > 0]
        return self.r.choices(ks, [table[k] for k in ks])[0]

    def name(self):
        return self.r.choice(VALS + list(FUNS) + PLAIN[:2])

    # ---- text
    def atom(self, d=0):
        r = self.r
        k = self.pick(self.w["atom"])
        if k == "plain":
            return r.choice(PLAIN)
        if k == "num":
            return r.choice(["0", "1", "7", "12", "305"])
        if k == "val":
            return r.choice(VALS)
        if k == "fun":
            return self.call(d)
        if k == "barefun":
            return r.choice(list(FUNS))
        if k == "str":
            return '"' + r.choice(["A", "a b", "F(x)", "x, y", "it's", "", "//c", "/*n*/", "#A", "##", "A##B", "a\\b"]) + '"'
        if k == "sq":
            return "'" + r.choice(["A", "a, b", '"', "//x", ""]) + "'"
        if k == "punct":
            return r.choice([";", "=", "+", "-", "*", "/", "{", "}", "[", "]", ":", ".", "<", ">", "$", "%"])
        if k == "paren":
            return "(" + self.expr(d + 1, 2) + ")"
        if k == "comma":
            return ","
        if k == "join":
            return r.choice(["A##B", "x##A", "##", "A ## B"])
        if k == "hash":
            return r.choice(["#", "#A", "# x", "#x"])
        if k == "builtin":
            return r.choice(["__COUNTER__", "__COUNTER__", "__LINE__", "__FILE__", "__FILE_NAME__", "__FILE_SHORT__", "__COUNTER_RESET__", "__EVAL", "__ARMA__"])
        if k == "protest":
            return r.choice(["__TIME__", "__EXEC", "__GAME_VER__"])
        if k == "cmt":
            return r.choice(["/* c */", "/*A\nB*/", "/**/", "/* é\n\n */ ", "/* €€\" */", "/*//*/"])
        if k == "uni":
            return r.choice(["é", "naïve".replace("ï", "é"), "€", "€", "éé", "x€y"])
        raise KeyError(k)

    def call(self, d=0):
        r = self.r
        f = r.choice(list(FUNS))
        n = FUNS[f]
        if r.random() < self.quirks:
            n += r.choice([-1, 1, 1])
        args = []
        for _ in range(max(0, n)):
            a = self.expr(d + 1, r.choice([0, 1, 1, 1, 2, 3])) if d < 3 else r.choice(PLAIN)
            if r.random() < self.w.get("pad", 0.1):
                a = r.choice([" ", "\t"]) + a
            if r.random() < self.w.get("pad", 0.1):
                a = a + " "
            if r.random() < 0.04:
                a += "\n"
            args.append(a)
        sep = "," if r.random() < 0.9 else ",,"
        s = f + "(" + sep.join(args) + ")"
        if r.random() < self.quirks / 3:
            s = s[:-1]
        if r.random() < self.quirks / 2:
            s = s.replace("(", " (", 1)
        return s

    def expr(self, d, n):
        out = ""
        for i in range(n):
            if i and self.r.random() < 0.55:
                out += self.r.choice([" ", " ", "  ", "\t"])
            elif i and self.r.random() < 0.5:
                out += self.r.choice([";", "=", "+"])
            out += self.atom(d)
        return out

    def text(self):
        r = self.r
        s = self.ws() + self.expr(0, r.choice([1, 1, 2, 3, 4]))
        if r.random() < self.w.get("cmtline", 0.05):
            s += r.choice([" // tail A", "//", "// it's", " // \"q", " // café €€", "// é, F(", "// #endif"])
        if r.random() < self.w.get("cont", 0.03):
            s += " \\"
        return s

    # ---- directives
    def body(self, ps):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        out = ""
        for i in range(n):
            k = r.random()
            if ps and k < 0.45:
                a = r.choice(ps)
                k2 = r.random()
                if k2 < 0.2:
                    a = "#" + a
                elif k2 < 0.35:
                    a = r.choice(["x##", "A##", "##"]) + a
                elif k2 < 0.5:
                    a = a + r.choice(["##y", "##B", "##"])
                elif k2 < 0.6:
                    a = r.choice(["F(%s)", "H(%s)", "G(%s,A)", "'%s'", '"%s"']) % a
            elif k < 0.52:
                a = r.choice(PARAMS + ["__COUNTER__", "__LINE__", "__COUNTER_RESET__", "F(p)", "G(q,p)", "H(x)"])
            elif k < 0.58:
                a = "#" + r.choice(["A", "x", "B", " A"]) if r.random() < 0.5 else "A##B"
            else:
                a = self.atom(2)
            if out and r.random() < 0.5:
                out += r.choice([" ", "  "])
            out += a
        if r.random() < self.w.get("multi", 0.06) and out:
            out = out + " \\\n " + self.expr(2, 1)
        return out.replace("\n/", "\n /")

    def define(self):
        r = self.r
        k = r.random()
        if r.random() < self.w.get("numdef", 0.1):
            return "#define %s %s" % (r.choice(VALS), self.number())
        if k < self.quirks:
            return "#define " + r.choice(["__LINE__ 1", "__ARMA__", "1", "", "(a) b", "F(a b) x", "F(a,,b) x", "F(,) x", "F(1) x", "F(a", "__EVAL 1"])
        if k < 0.45 + self.quirks:
            n = r.choice(VALS + ["x"])
            if r.random() < 0.25:
                return "#define " + n + r.choice(["", "", " ", " // note"])
            return "#define " + n + r.choice([" ", "  ", "\t"]) + self.body([])
        f = r.choice(list(FUNS))
        if r.random() < 0.08:
            f = r.choice(VALS)
        ps = r.sample(PARAMS[:3] if r.random() < 0.8 else PARAMS, FUNS.get(f, 1))
        sep = r.choice([",", ", "])
        return "#define " + f + "(" + sep.join(ps) + ")" + r.choice(["", " "]) + self.body(ps)

    def number(self):
        r = self.r
        k = r.random()
        if k < 0.4:
            return r.choice(["1", "2", "12", "1.5", "2.25", "-3", "0", "10", "-0", "007", "1.50", "-2", ".5", "3."])
        n = r.choice(["16777216", "16777217", "2147483647", "2147483648", "4294967296", "65535", "65536", "100000000", "0.1", "0.10001", "123456.789"])
        if k < 0.7:
            return n
        if "." in n:
            return n + r.choice(["1", "0", "01"])
        return r.choice([str(int(n) + r.choice([-1, 1, 0])), "-" + n, n + ".5", "0" + n])

    def undef(self):
        if self.r.random() < self.quirks:
            return "#undef" + self.r.choice(["", " 1", " A B"])
        return "#undef " + self.r.choice(VALS + list(FUNS))

    def cond(self):
        r = self.r
        k = r.random()
        if k < 0.6:
            q = r.random() < self.quirks
            return r.choice(["#ifdef ", "#ifndef "]) + (r.choice(["", "1", "A B", "(A)"]) if q else self.name())
        if k < 0.7:
            return "#if " + r.choice(VALS) + r.choice(["", " ", " // c"])
        if r.random() < self.quirks:
            return "#if" + r.choice(["", " ", " 1", " A ==", " == 1", " A = 1", " A < x", " F == 1", " A => 1", " Q", " A B C", " 1 == 1 1"])
        op = r.choice(["==", "==", "!=", "<", "<=", ">", ">="])
        val = lambda: r.choice(VALS + ["1", "2", "12", "1.5", "-3", "0", "x", "__COUNTER__", "__LINE__"])
        num = lambda: r.choice(["A", "B", "C", "__COUNTER__", "__LINE__"]) if r.random() < 0.4 else self.number()
        if op in ("==", "!="):
            return "#if %s %s %s" % (val(), op, val())
        return "#if %s %s %s" % (num(), op, num())

    def pragma(self):
        r = self.r
        if r.random() < self.quirks * 2:
            return "#pragma " + r.choice(["once", "hemtt", "hemtt foo", "hemtt suppress", "hemtt suppress pw3", "hemtt suppress pw3_padded_arg planet",
                                          "hemtt flag x line", "hemtt flag pw3_padded_arg", "hemtt suppress pw3_padded_arg line x", "hemtt suppress pw3_padded_arg 5", "", "hemtt suppress zz zz"])
        scope = r.choice(["", " line", " line", " file", " file", " config", " config"])
        k = r.random()
        if k < 0.55:
            return "#pragma hemtt suppress pw3_padded_arg" + scope
        if k < 0.85:
            return "#pragma hemtt flag pw3_ignore_format" + scope
        return "#pragma hemtt flag pe23_ignore_has_include" + scope

    def include(self):
        r = self.r
        if not self.files or r.random() < self.quirks:
            return r.choice(['#include "none.hpp"', "#include none", '#include "a.hpp', '#include "a.hpp" x', "#include", "#include <zz>"])
        f = r.choice(self.files)
        if r.random() < 0.15:
            f = f.replace("/", "\\")
        return r.choice(['#include "%s"', "#include <%s>"]) % f + r.choice(["", "", " ", " // inc"])

    def line(self):
        k = self.pick(self.w["line"])
        if k == "hasinc":
            return '#if __has_include(<x.hpp>)'
        if k == "raw":
            return self.r.choice(["#foo", "# 1", "#", "##", "# define A", "  #", "/* c */ #define A q", "#1"])
        return getattr(self, k)() if k != "else_" else "#else"

    def dead(self, d=0):
        """a conditional with a part that is not selected, full of lines that would
        be errors anywhere else"""
        r = self.r
        op = r.choice(["#ifdef NEVER", "#if 1 == 2", "#ifndef __LINE__", "#if 2 < 1.5", "#if x != x"])
        flip = r.random() < 0.3
        if flip:
            op = r.choice(["#ifndef NEVER", "#if 1 == 1", "#ifdef __FILE__"])
        out = [op] + ([self.text(), "#else"] if flip else [])
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if k < 0.4 and d < 3:
                out += [r.choice(["#if", "#ifdef", "#ifndef", "#if A ==", "#ifdef A B", "#if __has_include(x)", "#ifdef A", "#ifndef A", "#if 1 == 1"])]
                out += [self.junk() for _ in range(r.choice([0, 1, 2]))]
                if r.random() < 0.5:
                    out += ["#else"] + [self.junk() for _ in range(r.choice([0, 1]))]
                out += ["#endif"]
            elif k < 0.55 and d < 3:
                out += self.dead(d + 1)
            else:
                out.append(self.junk())
        if not flip and r.random() < 0.4:
            out += ["#else", self.line()]
        return out + ["#endif"]

    def junk(self):
        return self.r.choice(["#foo", "#define", "#undef", "#include", "#pragma", "#define A(", "#define 1", "#include \"no.hpp\"", "# x", "#define A 2", "#undef A",
                              "__EXEC", "F", "G(1", "A", "\"", "__COUNTER__", "#pragma hemtt suppress pw3_padded_arg config", "#pragma hemtt x", "W( x)", "// é", "/* \n */",
                              "\\", "#define __LINE__", "text", "__COUNTER_RESET__"])

    def program(self, n, structured=0.7):
        """n lines; mostly balanced conditionals"""
        r = self.r
        out, depth = [], []
        for _ in range(n):
            if r.random() < self.w.get("dead", 0.02):
                out += self.dead()
                continue
            k = r.random()
            wc = self.w.get("cond", 0.2)
            if k < wc and len(depth) < 5:
                out.append(self.cond())
                depth.append(False)
            elif depth and k < wc * 1.6:
                out.append("#else" + r.choice(["", "", " ", " // e"]))
                if depth[-1] and r.random() > 0.15:
                    out.pop()
                depth[-1] = True
            elif depth and k < wc * 2.6:
                out.append("#endif" + r.choice(["", "", " // e"]))
                depth.pop()
            elif k < wc * 2.6 and r.random() < 0.06:
                out.append(r.choice(["#else", "#endif", "#else x", "#endif x"]))
            else:
                out.append(self.line())
            if r.random() < 0.1:
                out[-1] = self.ws() + out[-1]
        if r.random() < 0.94:
            out += ["#endif"] * len(depth)
        s = "\n".join(out)
        if r.random() < 0.9:
            s += "\n"
        if r.random() < self.w.get("crlf", 0.03):
            s = s.replace("\n", "\r\n")
        return s


ATOM = dict(plain=6, num=2, val=6, fun=5, barefun=0.15, str=1.5, sq=0.6, punct=2, paren=0.7, comma=0.3, join=0.4, hash=0.2,
            builtin=0.3, protest=0.03, cmt=0.3, uni=0)
PROFILES = {
    "P01": dict(atom=dict(ATOM, fun=1.5, str=0.5, join=0, hash=0), line=dict(text=6, define=3, undef=2, include=0.6, pragma=0.2, raw=0.15), cond=0.3, dead=0.12, numdef=0.35),
    "P02": dict(atom=ATOM, line=dict(text=8, define=6, undef=1, raw=0.1), cond=0.03, multi=0.1),
    "P03": dict(atom=dict(ATOM, builtin=6), line=dict(text=6, define=3, undef=1, include=3), cond=0.08),
    "P04": dict(atom=dict(ATOM, uni=2, cmt=2, str=3, sq=1.2, builtin=1), line=dict(text=7, define=4, undef=0.5, include=0.8, raw=0.2), cond=0.05, cmtline=0.15, cont=0.06, multi=0.2, crlf=0.1),
    "P05": dict(atom=dict(ATOM, fun=12, str=0.5), line=dict(text=6, define=1.5, pragma=4, include=1.5, hasinc=0.3), cond=0.1, pad=0.5),
}
PRELUDE = "#define F(p) <p>\n#define G(p,q) p q\n#define H(p) #p\n#define ARR_2(p,q) [p,q]\n#define TRACE_1(p) p\n#define A 1\n#define Z() zz\n"


TREES = [["/b.hpp", "/c.inc.hpp", "/sub/d.hpp", "/sub/e.h"],
         ["/x/b.hpp", "/x/y/c.hpp", "/x/y/d.inc.hpp", "/x/e.hpp", "/z/f.hpp"],
         ["/b.hpp", "/x/c.hpp", "/x/y/d.hpp", "/x/y/z/e.hpp"]]


def ways(src, dst):
    """ways to write an include of dst in src"""
    a, b = src.split("/")[1:-1], dst.split("/")[1:]
    k = 0
    while k < len(a) and k < len(b) - 1 and a[k] == b[k]:
        k += 1
    rel = "/".join([".."] * (len(a) - k) + b[k:])
    return [rel, rel, rel, dst, "./" + rel]


def case(profile, rng, maps=None):
    w = PROFILES[profile]
    files = {}
    tree = rng.choice(TREES)
    nf = rng.choice([0, 1, 2, 3, 4]) if w["line"].get("include") else 0
    names = sorted(rng.sample(tree, min(nf, len(tree))))
    for i, n in enumerate(names):      # only later ones are included: no cycles
        inc = [x for t in names[i + 1:] for x in ways(n, t)]
        wi = w
        if inc and rng.random() < 0.5:
            wi = dict(w, line=dict(w["line"], include=w["line"]["include"] * 4))
        files[n] = G(rng, wi, inc).program(rng.choice([1, 2, 4, 6]))
    g = G(rng, w, [x for t in names for x in ways("/a.hpp", t)])
    pre = PRELUDE if rng.random() < (0.9 if profile == "P05" else 0.5) else ""
    files["/a.hpp"] = pre + g.program(rng.choice([2, 4, 6, 9, 13]))
    return {"sys": "pre", "root": "/a.hpp", "files": files, "maps": profile == "P04" if maps is None else maps}
