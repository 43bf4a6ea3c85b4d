#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import core, query, conv, refs, tree, progs, matrix, hier, layout, subst, fnv, wrap

CHECKS = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C14", "C15"):
    CHECKS[p] = ("model_checking", lambda ctx: core.core_check(ctx))


def c04(ctx):
    core.core_check(ctx)
    core.core_check(ctx, names=["AA"], tag="amp")


def c15(ctx):
    core.core_check(ctx)
    layout.layout_check(ctx)


CHECKS["C04"] = ("model_checking", c04)
CHECKS["C15"] = ("model_checking", c15)

TWO = ["TT", "TC", "CC", "MT", "XT", "RtC", "tTR", "OO", "AL"]


def c07(ctx):
    query.run(ctx, ["qvis2"], "Q_MULTI", ["TT", "MT", "XT", "BTM", "TDC", "RtC", "tTR", "OO", "MN"])
    query.run(ctx, ["qvis3", "qvis4", "qvis5"], "Q_TRI", ["TC", "RnT", "XT"], tag="q_tri")
    query.run(ctx, ["qtri", "qquad"], "Q_TRI", ["TT", "RtC"], tag="q_trix", defs=["-DTRI_ALL"], shards=[["-DTRI_FORM=%d" % x] for x in (1, 5, 6)], flags=["-w", "-g0", "-O0", "-fsanitize=address", "-fno-sanitize-recover=all", "-fno-lifetime-dse"])


def c08(ctx):
    query.run(ctx, ["qget"], "Q_GET")
    query.run(ctx, ["qget"], "Q_GET", ["AA"], tag="q_amp")
    hier.hier_check(ctx)


CHECKS["C06"] = ("model_checking", lambda ctx: query.run(ctx, ["qvisit"], "Q_VISIT"))
CHECKS["C07"] = ("model_checking", c07)
CHECKS["C08"] = ("model_checking", c08)
CHECKS["C09"] = ("model_checking", lambda ctx: query.run(ctx, ["qcmp"], "Q_REL", nval=6))
CHECKS["C10"] = ("model_checking", lambda ctx: query.run(ctx, ["qhash"], "Q_HASH", nval=6, reruns=2))
CHECKS["C18"] = ("model_checking", lambda ctx: query.run(ctx, ["qio"], "Q_IO", nval=3))


def c19(ctx):
    query.run(ctx, ["qdelay", "qvptr"], "Q_ADAPT")
    fnv.fnv_check(ctx)


CHECKS["C19"] = ("model_checking", c19)
def c11(ctx):
    conv.conv_check(ctx)
    core.core_check(ctx, ops={"dctor", "vctor", "vas", "xctor", "xas", "fctor", "fas"}, nrand=20)


CHECKS["C11"] = ("model_checking", c11)
CHECKS["C13"] = ("model_checking", lambda ctx: refs.ref_check(ctx))


def c12(ctx):
    tree.tree_check(ctx)
    subst.subst_check(ctx)
    wrap.wrap_check(ctx)


CHECKS["C12"] = ("model_checking", c12)
CHECKS["C17"] = ("model_checking", lambda ctx: progs.prog_check(ctx))
CHECKS["C16"] = ("model_checking", lambda ctx: matrix.matrix_check(ctx))
CHECKS["ALLCORE"] = ("model_checking", lambda ctx: core.core_check(ctx, prop="ALL"))

if __name__ == "__main__":
    level, body = CHECKS[sys.argv[1]]
    sys.exit(run_check(sys.argv[1], level, body))
