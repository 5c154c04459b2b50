"""T01, T02: stringtables, against spec/Table.tla."""
import gen_st as g
import vlib

KEEP = {"texts", "want", "config"}


def judge(rep, cases, name):
    vlib.judge(rep, "TraceTable", cases, name=name, keep=KEEP)


def small(rep):
    return vlib.model(rep, "MCTable", "MCTable.cfg", "tables", consts={"MaxSteps": 2, "Wide": "TRUE"} if rep.thorough else None)


def grouped(r, lines, want, n):
    """several tables a case: some of the model's, in any mixture"""
    t = [l["texts"][0] for l in lines]
    r.shuffle(t)
    t = t[:n]
    out = []
    while t:
        k = r.choice([1, 2, 4, 5])
        out.append(g.case(r, t[:k], want))
        t = t[k:]
    return out


def project(*lines):
    return "\n".join(['<?xml version="1.0" encoding="utf-8"?>', '<Project name="N">'] + list(lines) + ["</Project>"]) + "\n"


# one of each class of which something is known to be lost
KNOWN = [
    project('    <Package name="P">', '        <Key ID="a">', "            <English>x</English> <!-- c -->", "        </Key>", "    </Package>"),
    project('    <Package name="P">', '        <Key ID="a">', "        </Key>", "        <!-- c -->", "    </Package>", '    <Package name="Q">', '        <Key ID="b">', "        </Key>", "    </Package>"),
    project('    <Package name="P">', '        <Key ID="a">', "            <!-- c -->", "            <english>x</english>", "        </Key>", "    </Package>"),
    project('    <Package name="P">', '        <Key ID="a">', "            <English>x </English>", "        </Key>", "    </Package>"),
]


def t01(rep):
    r = rep.rng("tables")
    judge(rep, [dict(sys="st", texts=[t], want="order", config={"on": True, "severity": "Warning", "only": False}) for t in KNOWN], "lossy_tables")
    judge(rep, grouped(r, small(rep), "order", 10**6 if rep.thorough else 1200), "replayed_tables")
    judge(rep, [g.case(r, [g.table(r) for _ in range(r.choice([1, 1, 1, 2, 4, 5]))], "order") for _ in range(500 * (12 if rep.thorough else 1))], "random_tables")


def t02(rep):
    r = rep.rng("totals")
    judge(rep, grouped(r, small(rep), "totals", 10**6 if rep.thorough else 2000), "replayed_tables")
    judge(rep, [g.case(r, [g.table(r)], "totals") for _ in range(1500 * (12 if rep.thorough else 1))], "random_tables")


CHECKS = {"T01": t01, "T02": t02}
