"""C40: every operator's cases of ommodels.py compiled by the real compiler and run, against the ONNX specification."""
import os, re, vcpy, omc, ommodels as M, omscope
OPS = sorted(M.G); ONLY = os.environ.get("OM_OPS")
if ONLY: OPS = [o for o in OPS if re.fullmatch(ONLY, o)]
def body(v):
    op = v.pick(OPS); case = M.G[op](v); ms = M.modes(case); name, consts, dyn = v.pick(ms if v.thorough else ms[:1] + ms[-1:]); v.ctx(op)
    v.note(case.describe() + " inputs: " + name); v.nontrivial(); v.step(3); v.state(case.describe() + name)
    r = M.judge(case, consts, dyn, (), omc)
    omscope.decide(v, case, name, r)
if __name__ == "__main__": vcpy.main(body, split=3, rule="operator x attributes x shapes x types x static/dynamic x constant/run-time parameters x value sets, each compiled and run on three inputs")
