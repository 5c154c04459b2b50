"""E01-E04: the commands, against spec/Build.tla."""
import json, os, tempfile
import gen_build as g
import vlib

KEEP = {"src", "ops"}


def judge(rep, aspect, cases, name):
    vlib.judge(rep, "TraceBuild", cases, env={"ASPECT": aspect}, name=name, keep=KEEP, what="what the commands leave is not what is specified")


def model(rep, aspect, parts, depth, name):
    """every history the model has, with its invariants checked; then each on the code"""
    fd, path = tempfile.mkstemp(suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(vlib.to_spec(json.dumps(parts, ensure_ascii=False)))
        found = vlib.model(rep, "MCBuild", "MCBuild.cfg", name, consts={"Depth": depth}, env={"PARTS": path})
    finally:
        os.unlink(path)
    judge(rep, aspect, [g.behaviour(parts, b["did"]) for b in found], name + "_on_the_code")


def check(aspect, parts, depth, rand, name, n):
    def run(rep):
        model(rep, aspect, parts(), depth[1 if rep.thorough else 0], name)
        r = rep.rng("projects")
        judge(rep, aspect, [rand(r) for _ in range(n * (10 if rep.thorough else 1))], "random_projects")
    return run


CHECKS = {
    "E01": check("packed", g.packings, (3, 3), g.build, "packings", 250),
    "E02": check("signed", g.signings, (2, 3), g.released, "signings", 200),
    "E03": check("kept", g.histories, (3, 4), g.build, "histories", 200),
    "E04": check("made", g.hookings, (3, 3), g.hooked, "hookings", 250),
}
