#!/usr/bin/env python3
"""writes assets/commands: a choice of the game's commands, with the version each came in"""
import os, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "assets", "commands")
# name: (nular, unary, binary, since)
C = {}
def add(names, n, u, b, since="1.00"):
    for x in names.split():
        C[x] = (n, u, b, since)
add("player time allUnits west east nil configNull objNull grpNull controlNull displayNull locationNull scriptNull taskNull teamMemberNull diaryRecordNull systemTime", 1, 0, 0)
C["nil"] = (1, 0, 0, "1.00")
C["systemTime"] = (1, 0, 0, "2.00")
add("allMissionObjects", 0, 1, 0)
add("hint systemChat isNil private str typeName vehicle alive position createVehicle not if while waitUntil switch case default for comment sleep format typeOf missionNamespace_", 0, 1, 0)
C.pop("missionNamespace_")
add("missionNamespace uiNamespace", 1, 0, 0)
add("abs sqrt sin floor round toLower toUpper positionCameraToWorld", 0, 1, 0)
add("toLowerANSI toUpperANSI", 0, 1, 0, "2.02")
add("random count call spawn params param", 0, 1, 1)
C["random"] = (0, 1, 0, "1.00")
add("trim parseSimpleArray", 0, 1, 0, "2.02")
add("getWaterLeakiness", 0, 1, 0, "2.16")
add("insert isNotEqualTo getOrDefault", 0, 0, 1, "2.10")
add("then do forEach select set in find append pushBack isEqualTo getVariable setVariable vectorAdd vectorDiff vectorCrossProduct vectorDotProduct exitWith isKindOf setDamage from to step apply distance createUnit setPos", 0, 0, 1)
add("isEqualRef", 0, 0, 1, "2.18")
add("publicVariable publicVariableServer publicVariableClient addPublicVariableEventHandler", 0, 1, 0)

def main():
    shutil.rmtree(OUT, ignore_errors=True)
    os.makedirs(OUT)
    open(os.path.join(HERE, "assets", "version.txt"), "w").write("2.18\n")
    for name, (n, u, b, since) in sorted(C.items()):
        major, minor = since.split(".")
        t = "name: %s\ndescription: x\nsyntax:\n" % name
        def syn(call, params):
            s = "- call: %s\n  ret: [Anything, null]\n" % call
            if not params:
                return s + "  params: []\n"
            return s + "  params:\n" + "".join("  - name: %s\n    type: Anything\n" % p for p in params)
        if n: t += syn("Nular", [])
        if u: t += syn("!Unary b", ["b"])
        if b: t += syn("!Binary [a, b]", ["a", "b"])
        t += "argument_loc: Unspecified\neffect_loc: Unspecified\nsince:\n  arma_3:\n    major: %d\n    minor: %d\n" % (int(major), int(minor))
        open(os.path.join(OUT, name + ".yml"), "w").write(t)
main()
