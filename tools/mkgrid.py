#!/usr/bin/env python3
"""Writes harness/grid.hpp: posit configurations covering every total size from 4 to 64 bits.
GRID=1: one per size, the exponent size, flavour, storage and fraction type varied together;
GRID=2: every exponent size up to 7 as well as the largest, the others varied."""
import os
T = [8, 16, 32, 64]
FL = ["WithNan", "WithInf", "WithNanInf"]
NAMED = [(int(n), int(e)) for n, e in ()]


def conf(N, es, k):
    t = [b for b in T if b >= N]
    st = t[0] if k % 3 or len(t) == 1 else t[1]
    fr = t[(k // 2) % min(len(t), 3)]
    return "  X(int%d_t, %d, %d, uint%d_t, %s)" % (st, N, es, fr, FL[k % 3])


def write(f, name, cs):
    f.write("#define %s(X) \\\n%s\n" % (name, " \\\n".join(cs)))


with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "grid.hpp"), "w") as f:
    f.write("// generated by tools/mkgrid.py: every total size from 4 to 64 bits\n#pragma once\n")
    one, k = [], 0
    for N in range(4, 65):
        one.append(conf(N, (N * 3 + N // 5) % (min(N - 3, 7) + 1), N + N // 7))
    write(f, "GRID1", one)
    two = []
    for N in range(4, 65):
        for es in sorted(set(list(range(0, min(N - 3, 7) + 1)) + ([N - 3] if N <= 20 else []))):
            two.append(conf(N, es, k + N // 9)); k += 1
    write(f, "GRID2", two)
    print(len(one), len(two))
