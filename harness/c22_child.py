"""Fresh-process side of C22: read a job file, solve / predict, write the results."""

import json
import os
import pickle
import sys
import time


def main(job):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import core

    core.setup_imports()
    import numpy as np
    import utide
    from props import c22

    d = json.load(open(job))
    time.tzset()
    out = []
    for item in d["items"]:
        co = pickle.load(open(item["pickle"], "rb"))
        res = {"pred": c22.predictions(co, item["case"])}
        np.random.seed(4)
        res["coef"] = c22.plain(c22.run(utide, item["case"]))
        out.append(res)
    pickle.dump(out, open(d["out"], "wb"))


if __name__ == "__main__":
    main(sys.argv[1])
