"""Answers questions of h_python.cpp with the Python modules of the repository (argv[1]); one question per line."""
import sys, os, io
sys.dont_write_bytecode = True
out, sys.stdout = sys.stdout, io.StringIO()
sys.path.insert(0, sys.argv[1] + "/python")
import numpy as np
import imfit, imfit_funcs


def val(s):
    return None if s == "-" else int(s)


def num(x):
    return repr(float(x))


def table(r):
    if r is None:
        return ["none"]
    names, d = r
    d = np.asarray(d)
    if d.ndim != 2:
        return ["shape %d" % d.ndim]
    return ["ok", "\t".join(names), "%d %d" % d.shape] + [" ".join(num(v) for v in row) for row in d]


def answer(q):
    op, a = q[0], q[1:]
    if op == "boot":
        return table(imfit.GetBootstrapOutput(a[0]))
    if op == "single":
        return table(imfit.GetSingleChain(a[0], getAllColumns=a[1] == "1"))
    if op == "merge":
        kw = {}
        if a[3] != "-":
            kw["start"] = int(a[3])
        return table(imfit.MergeChains(a[0], maxChains=val(a[1]), getAllColumns=a[2] == "1", last=val(a[4]), secondHalf=a[5] == "1", **kw))
    if op == "names":
        return ["ok"] + imfit.GetFunctionImageNames(a[0], a[1:])
    if op == "config":
        kw = dict(minorAxis=a[1] == "1", pix=float(a[2]), X0=float(a[3]))
        r = imfit.ReadImfitConfigFile(a[0], getNames=True, **kw)
        s = imfit.ReadImfitConfigFile(a[0], **kw)
        if r is None:
            return ["none"]
        if s[0] != r[1] or s[1] != r[2]:
            return ["exc the forms with and without names differ"]
        rs = [float(x) for x in a[4].split(",")]
        o = ["ok"]
        for n, f, p in zip(*r):
            o.append(n + "\t" + f.__name__)
            o.append(" ".join(num(v) for v in p))
            pm = list(p)
            k = 2 if n.startswith("Sersic") else 1
            pm[k] = -2.5 * np.log10(p[k])
            for x in (np.array(rs), ):
                o.append(" ".join(num(v) for v in f(x, p, mag=False)))
                o.append(" ".join(num(v) for v in f(x, pm)))
                o.append(" ".join(num(v) for v in f(x, pm, magOutput=False)))
            o.append(" ".join(num(f(x, p, mag=False)) for x in rs))
            o.append(" ".join(num(f(x, pm)) for x in rs))
            o.append(" ".join(num(f(x, pm, True, False)) for x in rs))
        return o
    return ["exc unknown question"]


for line in sys.stdin:
    try:
        with np.errstate(all="ignore"):
            o = answer(line.rstrip("\n").split("\t"))
    except Exception as e:
        o = ["exc %s: %s" % (type(e).__name__, str(e).replace("\n", " "))]
    said = sys.stdout.getvalue()
    sys.stdout.seek(0)
    sys.stdout.truncate()
    out.write("%d\n" % len(said))
    out.write("\n".join(o) + "\nEND\n")
    out.flush()
