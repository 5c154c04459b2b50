"""Random configs, well-formed and damaged. Only makes inputs."""
NAMES = ["a", "b", "A", "B", "ab", "Ab", "x_1", "_y", "classy", "delete_", "9k", "cl"]
SP = ["", "", "", " ", "  ", "\n", "\t", "/*c*/", "//x;\n", " /* } */ "]


def sp(r):
    return r.choice(SP) if r.random() < 0.3 else ""


def string(r):
    n = r.choice([0, 1, 2, 5, 9])
    t = "".join(r.choice(["a", "B", " ", '""', "é", "€", ";", "}", "{", "\t", "=", ",", "//", "1", "$"]) for _ in range(n))
    s = '"%s"' % t
    if r.random() < 0.08:
        s += sp(r).replace("//x;", "") + "\\n" + r.choice(["", " "]) + string(r)
    return s


def digits(r):
    k = r.random()
    if k < 0.5:
        return str(r.choice([0, 1, 2, 3, 7, 10, 99, 127, 128, 255, 256, 32767, 65536, 16777216, 16777217, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807]))
    if k < 0.56:
        return r.choice(["9223372036854775808", "99999999999999999999", "007", "00"])
    return str(r.randrange(10 ** r.randint(1, 12)))


def number(r):
    k = r.random()
    sign = "-" if r.random() < 0.25 else ""
    if k < 0.45:
        return sign + digits(r)
    if k < 0.75:
        return sign + digits(r)[:9] + "." + r.choice(["0", "5", "1", "25", "125", "000001", str(r.randrange(10 ** 8)), "999999999"])
    if k < 0.88:
        return sign + r.choice(["1", "2.5", "9.99", digits(r)[:6]]) + r.choice(["e", "E"]) + r.choice(["", "-", "+"]) + str(r.choice([0, 1, 2, 5, 9, 20, 37]))
    return sign + "0x" + r.choice(["0", "1F", "ff", "7fFf", "FFFFFFFF", "80000000", "123456789a"])


def arith(r, depth=2):
    if depth == 0 or r.random() < 0.3:
        return str(r.choice([0, 1, 2, 3, 4, 5, 10, 12, 100])) if r.random() < 0.85 else number(r)
    if r.random() < 0.2:
        return "(" + r.choice(["", " "]) + arith(r, depth - 1) + ")"
    s = r.choice(["", "", " "])
    return arith(r, depth - 1) + s + r.choice(["+", "-", "*", "/", "%", "^", "+", "-", "*"]) + s + arith(r, depth - 1)


def scalar(r):
    k = r.random()
    if k < 0.35:
        return string(r)
    if k < 0.8:
        return number(r)
    return arith(r)


def value(r):
    if r.random() < 0.07:
        return "__EVAL(" + r.choice(["1+2", "(1)", "a(b)c", " x ", "_this;", '"s"', "((1)(2))"]) + ")"
    return scalar(r)


def array(r, depth=0):
    n = r.choice([0, 1, 2, 3]) if depth or r.random() < 0.97 else r.choice([127, 128, 129])
    if n > 50:
        items = [str(i % 10) for i in range(n)]
    else:
        items = [array(r, depth + 1) if depth < 3 and r.random() < 0.25 else scalar(r) for _ in range(n)]
    out = "{" + sp(r)
    for i, x in enumerate(items):
        out += x + (("," if i + 1 < n or r.random() < 0.03 else "") + sp(r))
    return out + "}"


def entry(r, depth, names):
    k = r.random()
    n = r.choice(names)
    if k < 0.36 and depth < 4 or k < 0.12:
        parent = sp(r) + ":" + sp(r) + r.choice(names) + sp(r) if r.random() < 0.35 else sp(r)
        return "class " + sp(r) + n + parent + "{" + sp(r) + body(r, depth + 1, names) + "}" + sp(r) + ";"
    if k < 0.45:
        return "class " + sp(r) + n + sp(r) + ";"
    if k < 0.5:
        return "delete " + n + sp(r) + ";"
    if k < 0.7:
        return n + sp(r) + "[]" + sp(r) + r.choice(["=", "=", "=", "+="]) + sp(r) + array(r) + sp(r) + ";"
    return n + sp(r) + "=" + sp(r) + value(r) + sp(r) + ";"


def body(r, depth, names):
    return "".join(entry(r, depth, names) + sp(r) for _ in range(r.choice([0, 1, 1, 2, 3]) if depth else r.choice([1, 2, 3, 4])))


def names(r):
    if r.random() < 0.5:       # few collisions
        ns = ["%s%d" % (r.choice(["a", "B", "Cd", "n_"]), i) for i in range(60)]
        return ns
    return r.sample(NAMES, r.randint(2, 6))


def wrap(t):
    return {"sys": "cfg", "root": "/a.hpp", "files": {"/a.hpp": t}}


def config(r):
    return wrap(sp(r) + body(r, 0, names(r)))


def tame(t):
    """stays config text: nothing for the preprocessor beyond comments"""
    if "#" in t or "'" in t or t.count('"') % 2:
        return False
    return True


def damaged(r):
    while True:
        t = sp(r) + body(r, 0, names(r))
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if not t:
                break
            i = r.randrange(len(t))
            k = r.random()
            if k < 0.4:
                t = t[:i] + t[i + 1:]
            elif k < 0.75:
                t = t[:i] + r.choice(list('{}[]();=,:+-*/"19.eax_ \n') + ["class ", "delete ", "=}", "[]", "{}", "__EVAL", "0x", ". ", "\\n"]) + t[i:]
            elif k < 0.85:
                j = min(len(t), i + r.randint(1, 6))
                t = t[:i] + t[j:]
            elif k < 0.95:
                t = t[:i]
            else:
                j = r.randrange(len(t))
                i, j = min(i, j), max(i, j)
                t = t[:j] + t[i:j] + t[j:]
        if tame(t):
            return wrap(t)


def nest(r, t):
    return t


# entries that are wrong, each in a place of its own
WRONG = ["x = 1", "x = ;", "x[] = 1;", "x[] = \"a\";", "x = {1};", "x = {};", "x[] = {1 2};", "x[] = {1,,2};", "x[] = {1;};", "x = 1 2;", "x = 1.0.0;", "x = abc;", "x[] = {abc};",
         "x = \"a\" \"b\";", "x = \"a\"b;", "x = 1a;", "x = (1;", "x = 1);", "x = 1+;", "x = *1;", "x = 1 + + ;", "x = ();", "x 1;", "x;", "= 1;", "[] = {};", "class;", "class a:{};", "class a:b;",
         "class a {}", "class {};", "delete;", "delete a b;", "x[] += 1;", "x += 1;", "x[1] = {};", "x[] {};", "x == 1;", "class a b {};", "class a: b c {};", "x = 0xg;", "x = .;", "x = -;",
         "x = __EVAL;", "x = __EVAL(;", "x = __EVAL(1;", "x[] = {__EVAL(1)};", "x = 1e;", "x.y = 1;", "x[] = {\"a\"", "é = 1;", "x = é;", ";", "}", "};"]


def wrong(r):
    ns = ["n%d" % i for i in range(40)]
    pre = body(r, 1, ns)
    post = body(r, 1, ns)
    w = r.choice(WRONG)
    t = pre + w + r.choice(["", "", " ", "\n"]) + post
    for _ in range(r.choice([0, 0, 1, 2])):
        t = "class " + r.choice(["p", "q", "Rr"]) + " {" + t + "};"
    return wrap(t)


CLS = ["a", "A", "b", "B", "c"]


def lint(r):
    """class trees about names only"""
    def b(depth):
        out = ""
        for _ in range(r.choice([0, 1, 2, 3, 4] if depth else [2, 3, 4, 5, 6])):
            k = r.random()
            n = r.choice(CLS)
            if k < 0.45 and depth < 3:
                out += "class %s%s {%s};" % (n, r.choice(["", "", ": " + r.choice(CLS)]), b(depth + 1))
            elif k < 0.6:
                out += "class %s;" % n
            elif k < 0.65:
                out += "delete %s;" % n
            elif k < 0.8:
                out += "%s = 1;" % n
            else:
                out += "%s[] %s {};" % (n, r.choice(["=", "+="]))
            out += r.choice(["", "\n", "/*a*/"])
        return out
    return wrap(b(0))


def sizes(r):
    """around the limits of the compressed counts"""
    n = r.choice([126, 127, 128, 129, 255, 256])
    k = r.randrange(4)
    if k == 0:
        t = "".join("p%d = %d;" % (i, i) for i in range(n))
    elif k == 1:
        t = "class z {" + "".join("class q%d {};" % i for i in range(n)) + "};"
    elif k == 2:
        t = "x[] = {" + ",".join(str(i) for i in range(n)) + "};"
    else:
        t = "class a {" * 30 + "v = 1;" + "};" * 30
    return wrap(t)
