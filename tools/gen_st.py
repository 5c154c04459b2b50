"""Stringtables: random ones. Only makes inputs."""
LANGS = ["Original", "English", "Czech", "French", "Spanish", "Italian", "Polish", "Portuguese", "Russian", "German", "Korean", "Japanese",
         "Chinese", "Chinesesimp", "Turkish", "Swedish", "Slovak", "Serbocroatian", "Norwegian", "Icelandic", "Hungarian", "Greek", "Finnish", "Dutch"]
WORDS = ["x", "a b", "%1 é", "&lt;t&gt;b&lt;/t&gt;", "&amp;", "a &quot;q&quot; 'r'", "1 > 0", "<![CDATA[<t>a & b</t>]]>", "l1\n      l2", "", "&amp;amp;",
         "€", "a\\nb", "don't", "&#10;", "x<![CDATA[&lt;]]>y"]
IDS = ["STR_a", "STR_b", "STR_B", "str_c", "STR_10", "STR_9", "STR_a_b", "STR_é", "Zed", "_x", "STR a", "STR_a&amp;b", "A.b", "STR"]
NAMES = ["Core", "core", "Medical", "a", "B", "Zz", "é", "Q &amp; A", "10", "9"]
NOTES = ["<!-- note -->", "<!-- two\n   lines -->", "<!-- é & < > -->", "<!-- a -->\n<!-- b -->", "<!-- <Key ID=\"x\"> -->", "<!--x-->", "<!--\n  text\n\n-->"]


class Doc:
    def __init__(self, r, odd):
        self.r, self.odd, self.ids = r, odd, 0
        self.note = r.choice([0, 0.1, 0.4])
        self.blank = r.choice([0, 0, 0.15])
        self.tab = r.choice(["    ", "    ", "  ", "\t", ""])
        self.alias = odd and r.random() < 0.3
        self.words = r.choice([WORDS, WORDS[:3], WORDS])
        self.plain = self.note > 0 and not odd
        if self.plain:
            self.words = [w for w in self.words if ">" not in w]
        self.langs = r.choice([LANGS, LANGS[:4], LANGS[10:]])
        self.lines = []

    def put(self, d, text):
        if self.r.random() < self.blank:
            self.lines.append(self.r.choice(["", "  ", "\t"]))
        self.lines.append(self.tab * d + text)

    def notes(self, d, p=1.0):
        if self.r.random() < self.note * p:
            for x in self.r.sample(NOTES, 1):
                for y in x.split("\n"):
                    self.put(d, y)

    def key(self, d):
        r = self.r
        self.ids += 1
        i = r.choice(IDS)
        if r.random() < 0.95:
            i = r.choice([i + str(self.ids), i + "_" + str(9 - self.ids % 10), "k%d" % self.ids])
        self.notes(d)
        n = r.randrange(r.choice([2, 5, 9]))
        ls = r.sample(self.langs, min(n, len(self.langs)))
        if self.odd and ls and r.random() < 0.05:
            ls.append(ls[0])
        if r.random() < 0.6:
            ls.sort(key=LANGS.index)
        if not ls and r.random() < 0.5:
            return self.put(d, r.choice(['<Key ID="%s"></Key>'] if self.plain else ['<Key ID="%s"/>', '<Key ID="%s"></Key>', '<Key ID="%s" />']) % i)
        self.put(d, '<Key ID="%s">' % i)
        for l in ls:
            w = r.choice(self.words)
            if r.random() < 0.1:
                w = w + " " + r.choice(self.words) if r.random() < 0.5 else r.choice(self.words) + "!"
            w = w.strip()
            if self.odd and r.random() < 0.03:
                w = r.choice([" %s", "%s ", "\n%s\n"]) % w
            t = r.choice([str.lower, str.upper])(l) if r.random() < 0.1 and (self.alias or self.note == 0) else l
            self.notes(d + 1, 0.5)
            if w == "" and r.random() < 0.3 and not self.plain:
                self.put(d + 1, "<%s/>" % t)
            else:
                self.put(d + 1, "<%s>%s</%s>%s" % (t, w, t, " <!-- s -->" if self.odd and r.random() < 0.03 else ""))
        if ls:
            self.notes(d + 1, 0.3)
        self.put(d, "</Key>")

    def pack(self, tag, d, deep):
        r = self.r
        name = r.choice(NAMES) + (str(r.randrange(3)) if r.random() < 0.5 else "")
        if tag != "Container":
            if not self.odd:
                name += "_%d" % self.ids
                self.ids += 1
            self.notes(d, 0.3)
        elif self.odd:
            self.notes(d, 0.1)
        if r.random() < 0.05 and not self.plain:
            return self.put(d, '<%s name="%s"/>' % (tag, name))
        self.put(d, '<%s name="%s">' % (tag, name))
        k, c = r.randrange(r.choice([2, 4, 6])), r.randrange(r.choice([1, 3])) if deep else 0
        kinds = ["k"] * k + ["c"] * c
        if self.odd and r.random() < 0.1:
            r.shuffle(kinds)
        elif r.random() < 0.3:
            kinds.reverse()
        for x in kinds:
            if x == "k":
                self.key(d + 1)
            else:
                self.pack("Container", d + 1, deep - 1)
        if kinds and self.odd:
            self.notes(d + 1, 0.1)
        self.put(d, "</%s>" % tag)

    def text(self):
        r = self.r
        self.lines.append('<?xml version="1.0" encoding="utf-8"?>' if r.random() < 0.9 else "")
        self.notes(0, 0.3)
        self.put(0, '<Project name="%s">' % r.choice(["N", "A &amp; B", "é", ""]))
        for _ in range(r.choice([1, 1, 1, 2, 3]) if r.random() < 0.97 else 0):
            self.pack("Package", 1, r.choice([0, 0, 1, 2]))
        self.notes(1, 0.3)
        self.put(0, "</Project>")
        self.notes(0, 0.3)
        ls = self.lines
        if self.odd and r.random() < 0.1:
            x = r.randrange(1, len(ls))
            del ls[x]
        return "\n".join(ls).replace("\n", "\r\n" if r.random() < 0.1 else "\n") + r.choice(["\n", "\n", "\n\n", ""])


def table(r):
    return Doc(r, r.random() < 0.15).text()


CONFIGS = [({"on": True, "severity": "Warning", "only": False}, None)] * 3 + [
    ({"on": True, "severity": "Warning", "only": True}, "[lints.stringtables]\nsorted.options.only-lang = true\n"),
    ({"on": True, "severity": "Error", "only": False}, '[lints.stringtables]\nsorted = "Error"\n'),
    ({"on": True, "severity": "Error", "only": True}, '[lints.stringtables.sorted]\nenabled = true\nseverity = "Error"\noptions.only-lang = true\n'),
    ({"on": True, "severity": "Warning", "only": False}, "[lints.stringtables]\nsorted.options.only-lang = false\n"),
    ({"on": False, "severity": "Warning", "only": False}, "[lints.stringtables]\nsorted = false\n"),
]


def case(r, texts, want):
    c, t = r.choice(CONFIGS)
    return dict({"sys": "st", "texts": texts, "want": want, "config": c}, **({"lints": 'name = "n"\nprefix = "p"\n' + t} if t else {}))
