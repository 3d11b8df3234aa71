"""Runs rotors on one build of the native extension and stores everything it returns (started by P24 in its own process)."""
import json
import os
import pickle
import sys
import warnings

stage, src, dst = sys.argv[1:4]
sys.path.insert(0, stage)
sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402

import ccblade._bem as _b  # noqa: E402

assert os.path.realpath(_b.__file__).startswith(os.path.realpath(stage)), _b.__file__
from rvlib import native  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")
with open(src) as f:
    jobs = json.load(f)
out = []
for j in jobs:
    out.append(native.run(j))
    with open(dst + ".progress", "w") as f:
        f.write(str(len(out)))
with open(dst + ".tmp", "wb") as f:
    pickle.dump(out, f)
os.replace(dst + ".tmp", dst)
