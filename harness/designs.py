"""Which design models (spec/*.tla) belong to which property."""
import json
import os
import sys
import time

import tlc

MODELS = {
    "C01": ["GuanPerm", "GlynnGray"],
    "C02": ["CalcObj"],
    "C03": ["SubPerm"],
    "C04": ["Scatter", "CalcObj"],
    "C05": ["EnumWalk", "Counting"],
    "C06": ["Represent"],
    "C07": ["LossyInputs"],
    "C08": ["Counting"],
    "C09": ["LossModels"],
    "C10": ["LossModels"],
    "C11": ["SamplerA", "SamplerB"],
    "C12": ["SamplerA", "LossModels"],
    "C13": ["LossyNets"],
    "C14": ["LossModels", "LossyNets"],
    "C15": ["LossModels"],
    "C16": ["LossModels"],
    "C17": ["WorkPool"],
    "C18": ["Reuse"],
    "C19": ["LossyNets"],
    "C20": ["Factory"],
    "C21": ["Estimate"],
    "C22": ["Stats"],
    "C23": ["Accuracy"],
    "C24": ["WorkPool"],
    "C25": ["Reuse"],
    "C26": ["Fourier"],
    "C27": ["RWrapper"],
    "C28": ["Sizes"],
}
# variants of a design that must fail, and the property they must fail in: the models are not vacuous
BROKEN = {
    "WorkPool": [("WorkPoolFork.cfg", "Distinct")],
    "Reuse": [("ReuseStale.cfg", "Fresh")],
    "Factory": [("FactoryShared.cfg", "Independent")],
    "CalcObj": [("CalcObjStale.cfg", "Current")],
}


def plan(pid, thorough):
    """[(module, cfg, expected violation or None)]"""
    out = []
    for m in MODELS.get(pid, []):
        big = m + "T.cfg"
        out.append((m, big if thorough and os.path.exists(os.path.join(tlc.SPEC, big)) else m + ".cfg", None))
        out += [(m, cfg, name) for cfg, name in BROKEN.get(m, []) if thorough]
    return out


def main():
    res = []
    for module, cfg, broken in json.loads(sys.argv[1]):
        t = time.time()
        st = tlc.design(module, cfg, workers=4, expect=broken)
        d = {"module": module, "cfg": cfg, "states": st["distinct"], "generated": st["generated"],
             "wall_s": round(time.time() - t, 1)}
        if broken:
            d["expected_violation"] = broken
        res.append(d)
    print(json.dumps(res))


if __name__ == "__main__":
    main()
