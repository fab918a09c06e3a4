"""The known findings (../known_findings.txt): defects of the library that are
recorded rather than repaired.  Nothing is ever added here at run time."""
import os, re
FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")

# how to recognise the history of a listed finding, by its key
def empty_inner_product(suite, ev):
    """The last event evaluates the product of an m x 0 and a 0 x n matrix (m, n > 0)."""
    e, shape = ev[-1], {}
    if suite != "dense" and suite != "replay" or e["op"] != "meval" or e["x"]["n"] != "mul" or e["out"] != "panic":
        return False
    for x in ev[:-1]:
        if x["op"] == "mload":
            shape[x["d"]] = (x["r"], x["c"])
        elif "d" in x and x["op"].startswith("m") and x["out"] == "ok":
            shape.pop(x["d"], None)
    a, b = shape.get(e["x"]["a"]), shape.get(e["x"]["b"])
    return bool(a and b) and a[1] == 0 == b[0] and a[0] > 0 and b[1] > 0


MATCHERS = {"empty-inner-product": empty_inner_product}


def entries():
    for line in open(FILE):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m:
            yield m.groups()


def match(pid, suite, session):
    for p, key, _ in entries():
        if p == pid and key in MATCHERS and MATCHERS[key](suite, session):
            return key
    return None


def lines(pid, hit):
    return ["KNOWN-FINDING: property=%s %s" % (p, text) for p, key, text in entries() if p == pid and key in hit]
