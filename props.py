"""Which monitor binaries decide which property."""
C = {"bin": "core"}
R = {"bin": "core", "race": True}
PHASES = {
    "M01": [C, R], "M02": [C, R], "M03": [C, R], "M04": [C, R], "M05": [C, R], "M06": [C, R],
    "M07": [C, R], "M08": [C, R], "M09": [C, R], "M10": [C], "M11": [C], "M12": [C, R], "M13": [C],
    "M14": [C, R], "M15": [C, R], "M16": [C, R], "M17": [C, R], "M18": [C, R],
}
PHASES["M19"] = [dict(C, shards=96), dict(R, shards=32)]
X = {"bin": "exporters"}
XR = {"bin": "exporters", "race": True}
PHASES.update({"E01": [X, XR], "E02": [X, XR], "E03": [X, XR], "E04": [X, XR], "E05": [X, XR], "E06": [X]})
L = {"bin": "launcher", "shards": 24}
LR = {"bin": "launcher", "race": True, "shards": 12}
PHASES.update({"L01": [L], "L02": [L], "L03": [L], "L04": [L], "L05": [L], "L06": [L, LR], "L07": [L], "L08": [L]})
I = {"bin": "launcher"}
IR = {"bin": "launcher", "race": True}
PHASES.update({"I01": [I, IR], "I02": [I, IR], "I03": [I, IR]})
PROPS = {p: {"level": "exploration"} for p in PHASES}
