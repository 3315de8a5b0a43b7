"""Sparsity patterns are the union of what was inserted, sorted and disjoint."""
import numpy as np, placo
from common import Driver

d = Driver("random and exhaustive sequences of intervals (bounds 0-7, up to 3 insertions exhaustive over a small range, up to 8 random), "
           "sums of patterns, random matrices with zero columns and entries around the 1e-12 threshold")
rng = d.rng


def cover(s):
    iv = np.asarray(s.intervals).reshape(-1, 2)
    return set(int(x) for a, b in iv for x in range(a, b + 1)), iv


def chk(s, want, what, hist):
    got, iv = cover(s)
    d.true(got == want, what + ": covered indices", history=hist, intervals=iv, got=sorted(got), want=sorted(want))
    for a, b in iv:
        d.true(a <= b, what + ": well-formed", history=hist, intervals=iv)
    for k in range(len(iv) - 1):
        d.true(iv[k][1] < iv[k + 1][0], what + ": sorted and disjoint", history=hist, intervals=iv)


def mk(hist):
    s = placo.Sparsity()
    for a, b in hist:
        s.add_interval(a, b)
    return s, set(x for a, b in hist for x in range(a, b + 1))


@d.test
def exhaustive():
    R = 5 if d.n(0, 1) == 0 else 7
    ivs = [(a, b) for a in range(R) for b in range(a, R)]
    for i in ivs:
        for j in ivs:
            for k in ivs:
                h = [i, j, k]
                d.case("add %s" % h)
                s, w = mk(h)
                chk(s, w, "add_interval", h)


@d.test
def random_histories():
    for _ in range(d.n(500)):
        h = []
        for _ in range(int(rng.integers(1, 9))):
            a = int(rng.integers(0, 25))
            h.append((a, a + int(rng.integers(0, 6))))
        d.case("add %s" % h)
        s, w = mk(h)
        chk(s, w, "add_interval", h)
        g = [(int(a), int(a + rng.integers(0, 5))) for a in rng.integers(0, 25, size=int(rng.integers(0, 5)))]
        t, v = mk(g)
        chk(s + t, w | v, "sum", [h, g])
        chk(t + s, w | v, "sum", [g, h])
        chk(s, w, "operand unchanged", h)
        chk(t, v, "operand unchanged", g)


@d.test
def detection():
    for _ in range(d.n(400)):
        r, c = int(rng.integers(1, 5)), int(rng.integers(1, 12))
        M = rng.normal(size=(r, c)) * 10. ** rng.integers(-3, 3)
        nz = rng.random(c) < rng.choice([.2, .5, .9])
        M[:, ~nz] = 0
        for j in range(c):
            if nz[j] and rng.random() < .5:      # a single non-zero entry, possibly tiny
                k = int(rng.integers(0, r))
                M[:, j] = 0
                M[k, j] = rng.choice([1., -1., 1e-9, -1e-10])
        nz = np.any(np.abs(M) > 1e-11, axis=0)
        d.case("detect %s" % nz.tolist())
        s = placo.Sparsity.detect_columns_sparsity(np.asfortranarray(M))
        chk(s, set(int(x) for x in np.nonzero(nz)[0]), "detect_columns_sparsity", M)


d.run()
