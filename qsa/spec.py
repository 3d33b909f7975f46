"""Frozen description of the published interface (names a user relies on), written from the documentation."""

# Q-Delta approximations: canonical name -> (structure, inputs, aliases, iteration dependent, has dTau)
#   structure: exact / lower / strict / diag
#   inputs: Q (a Q matrix), time (nodes and tLeft), nodes (nodes), dist (nNodes, nodeType, quadType)
QDELTA = {
    "PIC": ("strict", "Q", ["Picard"], False),
    "Exact": ("exact", "Q", ["EXACT"], False),
    "LU": ("lower", "Q", [], False),
    "LU2": ("lower", "Q", [], False),
    "QPar": ("diag", "Q", ["Qpar", "Qdiag"], False),
    "GS": ("lower", "Q", ["GaussSeidel"], False),
    "LDU": ("lower", "Q", [], False),
    "BE": ("lower", "time", ["IE"], False),
    "FE": ("strict", "time", ["EE"], False),
    "TRAP": ("lower", "time", ["CN"], False),
    "BEPAR": ("diag", "time", ["IEpar"], False),
    "TRAPAR": ("diag", "time", [], False),
    "SOE": ("strict", "time", ["LeapFrog", "LF"], False),
    "MIN": ("diag", "Q", ["MIN-Speck"], False),
    "MIN3": ("diag", "dist", ["Magic_Numbers"], False),
    "MIN_VDHS": ("diag", "dist", ["VDHS"], False),
    "MIN_SR_NS": ("diag", "nodes", ["MIN-SR-NS", "MIN_GT"], False),
    "MIN_SR_S": ("diag", "dist", ["MIN-SR-S"], False),
    "MIN_SR_FLEX": ("diag", "dist", ["MIN-SR-FLEX"], True),
    "Jumper": ("diag", "nodes", ["JUMPER", "FB"], True),
    "FlexJumper": ("diag", "nodes", ["FLEX-JUMPER", "FB2"], True),
    "DNODES": ("diag", "nodes", ["DNODES-1"], False),
    "DNODES2": ("diag", "nodes", ["DNODES-2"], False),
    "DNODES3": ("diag", "nodes", ["DNODES-3"], False),
    "DNODES4": ("diag", "nodes", ["DNODES-4"], False),
    "DNODES5": ("diag", "nodes", ["DNODES-5"], False),
}
TABLES = ("MIN3", "MIN_VDHS")
INPUTS = {"Q": ["Q"], "time": ["nodes", "tLeft"], "nodes": ["nodes"], "dist": ["nNodes", "nodeType", "quadType"]}
# paths that only exist because of the analyser's treatment of rounding (overflow traps, tolerance tests on computed data)
DATA_EXC = ("FloatingPointError",)
