"""C42: every operator's cases with all inputs constant: whatever the compiler folds, the result is the specified value."""
import os, re, vcpy, omc, ommodels as M, omscope
SKIP = {"Conv", "ConvTranspose", "RNN", "GRU", "LSTM", "MaxPool", "AveragePool", "GridSample", "NonMaxSuppression", "Resize", "LayerNormalization", "BlackmanWindow", "HammingWindow", "HannWindow"} # never folded
OPS = [o for o in sorted(M.G) if o not in SKIP]; ONLY = os.environ.get("OM_OPS")
if ONLY: OPS = [o for o in OPS if re.fullmatch(ONLY, o)]
def body(v):
    op = v.pick(OPS); case = M.G[op](v); k = v.choose(3 if v.thorough else 2); v.ctx(op)
    for x in case.ins:
        if x is not None: x.runs = [x.runs[k]] * 3
    if k and all((x is None or x.kind != "x") for x in case.ins): v.prune()
    v.note(case.describe() + " all inputs constant, values %d" % k); v.nontrivial(); v.step(3); v.state(case.describe() + str(k))
    r = M.judge(case, tuple(i for i, x in enumerate(case.ins) if x is not None), (), (), omc, runs=(0,)); omscope.decide(v, case, "constant %d" % k, r)
if __name__ == "__main__": vcpy.main(body, split=3, rule="operator x attributes x shapes x types x value sets, all inputs constants of the model")
