#!/usr/bin/env python3
"""run the check of one property: run.py <ID> [--tier quick|thorough]"""
import os, sys, traceback
D = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [D, os.path.join(os.path.dirname(D), "engine")]
sys.setrecursionlimit(20000)
import common, props


def gvn(p, tier):
    import numk, spec
    R = common.Report(p["id"], p["technique"],
                      "Each entry is a template instantiation compiled from the current /repo headers; the rule: the gated normal form of every output must equal the normal form of the definition "
                      "(or satisfy the defining identity) on every gate combination that the linear-relations abstraction cannot refute.")
    if p["kind"] == "gvn":
        g, opt = getattr(numk, p["id"].lower()), {}
    else:
        mod = __import__(p["kind"])
        g, opt = getattr(mod, p["id"].lower()), dict(mod.OPTS)
    r = g(True) if (p["thorough"] and tier == "thorough") else g()
    pre, L = r[0], r[1]
    if len(r) > 2:
        opt.update(r[2])
    import llir
    try:
        A = spec.run_entries(pre, L, **opt)
    except llir.CompileError as e:
        R.error(f"the analysed instantiation does not compile: {e}")
        return R
    for v in A.viol:
        R.violation(f"{v['where']}#{v['entry']}#{v['obligation']}", v["where"], v["detail"])
    for e in A.err:
        R.error(e)
    R.need(A.obl > 0, "no obligation was generated")
    R.cov.update(kernels=len(L), ir_instructions=A.insts, ir_blocks=A.blocks, obligations=A.obl, discharged=A.ok, rule="normal form of code == normal form of definition", entries=A.per)
    return R


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    p = next(x for x in props.PROPS if x["id"] == pid)
    try:
        if p["kind"] in ("gvn", "idxk", "trkk", "fldk", "meshk", "objk"):
            R = gvn(p, tier)
        elif p["kind"] == "ctab":
            import ctab
            R = ctab.run(p, tier)
        else:
            mod, fn = p["kind"].split(".")
            R = common.Report(p["id"], p["technique"], p["expl"])
            getattr(__import__(mod), fn)(R)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print(f"ANALYSIS-ERROR property={pid}")
        sys.exit(2)
    R.finish(tier)


main()
