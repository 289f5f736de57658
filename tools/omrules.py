"""Why a case of the compiler checks is on the list: (check, case, kind of deviation, message) -> category and name."""
import re
R = []
def r(cat, name, ident, kind=".*", msg="", cid="C4[0-3]"): R.append((cat, name, re.compile(cid), re.compile(ident), re.compile(kind), re.compile(msg)))
REF = "compile|import"; CR = "crash:(compile|import)"; RUN = "crash:run.*|wrong|null|signature|leak|count"
# refused cleanly: not in the supported set
r("refused", "unsigned element type", ".*", REF, "signless")
r("refused", "double-precision erf and tanh", "(Erf|Gelu|Mish|Tanh)\\(float64", REF, "math\\.(erf|tanh)")
r("refused", "DFT variants", "DFT\\(", REF)
r("refused", "Einsum with unknown dimensions", "Einsum", REF)
r("refused", "GatherND with unknown index depth", "GatherND.*dynamic", REF)
r("refused", "If with branches of different static shape and unknown dimensions", "If-outer.*dynamic", REF)
r("refused", "IsInf detecting nothing", "IsInf", REF)
r("refused", "Loop state of unknown shape", "Loop-.*dynamic", REF)
r("refused", "integer Mod with fmod", "Mod\\(", REF, "fmod must be 0")
r("refused", "reduction over run-time axes without keepdims", "Reduce", REF, "dynamic axes without|failed to legalize operation 'onnx.Reduce")
r("refused", "ReduceLogSumExp whose axes are unknown", "ReduceLogSumExp", REF, "onnx.Squeeze")
r("refused", "Resize coordinate and rounding modes", "Resize", REF)
r("refused", "Shape with start after end", "Shape\\(", REF)
r("refused", "TopK variants", "TopK", REF, "onnx.TopK")
# documented as unsupported (docs/SupportedONNXOps-cpu.md), ends in an assertion of the compiler
r("unsupported", "RNN with sequence_lens", "RNN\\(", CR, "not implemented yet")
r("unsupported", "Loop with scan outputs and condition", "Loop-scan", CR)
r("unsupported", "Scan over unknown shape", "Scan", CR, "Body scan input must have constant shape")
r("unsupported", "run-time Split sizes", "Split", CR, "dynamic split not yet supported")
r("unsupported", "run-time Squeeze and Unsqueeze axes", "(Unsq|Sq)ueeze\\(", CR, "cannot query rank")
r("unsupported", "run-time Reshape and ConstantOfShape shape of unknown length", "(Reshape|ConstantOfShape)\\(", CR, "constant shape|Failed to compute shape")
# findings
F = lambda name, ident, kind=".*", msg="", cid="C4[0-3]": r("finding", name, ident, kind, msg, cid)
F("pooling with dilations and padding or ceil_mode reads outside the window", "(Average|Max)Pool\\(.*dilations", RUN)
F("pooling with ceil_mode starts windows in the padding", "(Average|Max)Pool\\(.*'ceil_mode': 1", RUN + "|shape")
F("GRU, LSTM and RNN with sequence_lens do not zero the padding or reverse each sequence", "(GRU|LSTM|RNN)\\(.*int32\\[", "wrong")
F("GatherND, ScatterND and OneHot do not wrap negative indices", "(GatherND|ScatterND|OneHot)\\(", "wrong|crash:run.*")
F("GridSample with zeros padding reads outside the image", "GridSample\\(.*'padding_mode': 'zeros'", RUN)
F("GroupNormalization with unknown dimensions", "GroupNormalization\\(.*\\| dynamic", RUN)
F("Hardmax and LogSoftmax before opset 13 do not flatten to two dimensions", "(Hardmax|LogSoftmax)-11\\(", "wrong")
F("Loop with trip count 0 returns uninitialised state", "Loop-zero", "wrong")
F("MatMul of two vectors generates invalid code", "MatMul\\(\\w+\\[\\d\\], \\w+\\[\\d\\]\\)", REF)
F("MatMul broadcasting batch dimensions of size 1", "MatMul\\(", RUN + "|shape")
F("DepthToSpace and SpaceToDepth with unknown dimensions", "(DepthToSpace|SpaceToDepth)\\(.*dynamic", RUN)
F("SpaceToDepth orders the channels wrongly", "SpaceToDepth\\(", "wrong")
F("NonZero of rank 2 and more pairs the coordinates wrongly", "NonZero\\(", "wrong")
F("Pad mode wrap", "Pad\\(.*wrap", RUN)
F("reductions with an empty axes list and noop_with_empty_axes=0", "Reduce\\w+\\(.*int64\\[0\\] =\\[\\]", RUN + "|shape|crash.*")
F("ReduceLogSumExp with noop_with_empty_axes=1", "ReduceLogSumExp\\(.*'noop_with_empty_axes': 1", RUN + "|shape")
F("Split with num_outputs and unknown or uneven dimension", "Split\\(.*num_outputs", RUN + "|crash.*")
F("integer window size aborts the compiler", "(Blackman|Hamming|Hann)Window\\(", CR)
F("Shape with negative start or end of unknown dimensions aborts the compiler", "Shape\\(", CR)
F("Squeeze without axes of unknown dimensions aborts the compiler", "Squeeze\\(.*dynamic", CR)
ALWAYS = []   # cases whose outcome depends on memory outside the arrays: listed whether they failed or not
def a(name, ident, cid="C4[02]"): ALWAYS.append((name, re.compile(cid), re.compile(ident)))
a("pooling with dilations and padding or ceil_mode reads outside the window", "(Average|Max)Pool\\(.*dilations.*(pads|ceil_mode|auto_pad)")
a("GridSample with zeros padding reads outside the image", "GridSample\\(.*'padding_mode': 'zeros'")
a("Pad mode wrap", "Pad\\(.*wrap")
a("GatherND, ScatterND and OneHot do not wrap negative indices", "(GatherND|ScatterND)\\(")
a("Loop with trip count 0 returns uninitialised state", "Loop-zero")
def always(cid, label, ident):
    for n, c, i in ALWAYS:
        if c.fullmatch(cid) and i.search(ident): return n
def rule(cid, label, ident, res):
    for cat, n, c, i, k, m in R:
        if c.fullmatch(cid) and i.match(ident) and k.fullmatch(res[0]) and m.search(res[1]): return cat, n
