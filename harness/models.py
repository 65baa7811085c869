"""Which design models of the specification are checked for which property, and how deeply."""
import os, re, tempfile
import rb


def m(module, what, quick, thorough=None, controls=None, timeout=600, heap="5g"):
    def one(c, workers):
        name, over = (c, {}) if isinstance(c, str) else (c[0], c[1])
        return {"args": [], "cfg": name + ".cfg", "over": over, "timeout": timeout, "workers": workers, "heap": heap}
    return {"module": module, "what": what, "quick": [one(c, 2) for c in quick],
            "thorough": [one(c, 4) for c in quick + (thorough or [])],
            # the same with a fault put in: these have to fail
            "controls": [one(c, 1) for c in controls or []]}


REDUCE = m("MCReduce", "any order and tree of additions and merges: an accumulator is a function of the bag of numbers it consumed; "
           "error bound; negation",
           ["MCReduce"], [("MCReduce", {"Size": 4}), ("MCReduce", {"K": 3, "M": 2, "Size": 4}), ("MCReduce", {"P": 10, "W": 6, "EMAX": 14, "NEMIN": 11})])
SPECIAL = m("MCReduce", "as MCReduce, with infinities and NaNs", ["MCReduceSpecial"], [("MCReduceSpecial", {"Size": 5})])
REP = m("MCRep", "the pairs of floats and the float operations on them refine the abstract accumulator, are unique once renormalised, "
        "have room for the documented number of deposits, and convert within the bound",
        ["MCRep"], [("MCRep", {"Depth": 6}), ("MCRep", {"K": 3, "Depth": 5}), ("MCRep", {"P": 10, "W": 6, "EMAX": 14, "NEMIN": 11, "Depth": 5}),
                    ("MCRep", {"Depth": 7})],
        [("MCRep", {"Slack": 1})])
KERNEL = m("MCKernel", "the blocked kernel loop in vector lanes, with any block sizes, gives the sum and keeps to the endurance",
           ["MCKernel"], [("MCKernel", {"PER": 2}), ("MCKernel", {"V": 3}), ("MCKernel", {"Len0": 5}), ("MCKernel", {"K": 3})])
SSQ = m("MCSsq", "scaled sums of squares in any order, grouping and combination tree: scale and accumulator are functions of the bag",
        ["MCSsq"], [("MCSsq", {"Size": 4}), ("MCSsq", {"K": 3})])
MAT = m("MCMat", "blocked matrix products over flat arrays: every product exactly once, in every orientation, for any blocks",
        ["MCMat"], [("MCMat", {"D": 3, "BL": 3}), ("MCMat", {"D": 4, "BL": 2})],
        [("MCMat", {"Bug": k}) for k in (1, 2, 3)])
THREADS = m("MCThreads", "two calls on separate data, interleaved in any way, with the table of bins filled by whichever is first",
            ["MCThreadsAll"], [("MCThreadsAll", {"NF": 40, "NW": 30})], [("MCThreadsAll", {"Bug": k}) for k in (1, 2, 3)])

MODELS = {
    "P01": [REDUCE], "P02": [REDUCE], "P03": [KERNEL], "P04": [KERNEL], "P05": [SSQ], "P06": [SSQ], "P07": [REDUCE, REP],
    "P08": [SPECIAL], "P09": [REP, KERNEL], "P10": [REP], "P11": [MAT], "P12": [MAT], "P13": [REP], "P14": [REP],
    "P16": [REDUCE, SSQ], "P17": [KERNEL], "P21": [THREADS],
}


def config(args, where):
    """the configuration file with the constants overridden"""
    t = open(os.path.join(rb.SPEC, args["cfg"])).read()
    for k, v in args["over"].items():
        t, n = re.subn(r"\b%s = \S+" % k, "%s = %s" % (k, v), t)
        assert n == 1, (args["cfg"], k)
    fd, path = tempfile.mkstemp(suffix=".cfg", dir=where)
    os.write(fd, t.encode())
    os.close(fd)
    return path
