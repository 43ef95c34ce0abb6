#!/usr/bin/env python3
"""Writes sim/formulas.inc: the list of formula types the RMTLD3 scenarios draw from (fixed seed, so it is reproducible)."""
import random, os, re
R = random.Random(20240611)
BND = [1, 2, 3, 5, 8, 13, 21]
def b(): return R.choice(BND)
def prop(): return "P<%d>" % R.randrange(3)
def boolean(sub, d, kinds):
    k = R.randrange(4)
    if k == 0: return "Not<%s>" % sub(d, kinds)
    if k == 1: return "And<%s, %s>" % (sub(d, kinds), sub(d, kinds))
    if k == 2: return "Or<%s, %s>" % (sub(d, kinds), sub(d, kinds))
    return "Imp<%s, %s>" % (sub(d, kinds), sub(d, kinds))
def gen(d, kinds):
    if d == 0:
        k = R.randrange(8)
        return prop() if k < 6 else "Not<%s>" % prop() if k == 6 else R.choice(["Tr", "Fa"])
    k = R.randrange(10)
    sub = lambda dd, kk: gen(dd, kk)
    if k < 2: return boolean(sub, d - 1, kinds)
    ops = []
    if "f" in kinds: ops += ["Until", "Until", "AlwaysL", "AlEq", "EvEq", "EvU", "UntilIn"]
    if "p" in kinds: ops += ["Since", "Since", "HistL", "HistEq", "PastEq"]
    if "d" in kinds: ops += ["DurC", "DurC", "DurD", "DurS"]
    o = R.choice(ops)
    s = lambda: gen(d - 1, kinds)
    if o in ("Until", "Since"): return "%s<%d, %s, %s>" % (o, b(), s(), s())
    if o == "UntilIn":  # in-between evaluation: only over propositional operands
        return "UntilIn<%d, %s, %s>" % (b(), gen(0, ""), gen(0, ""))
    if o in ("AlwaysL", "AlEq", "EvEq", "HistL", "HistEq", "PastEq"): return "%s<%d, %s>" % (o, b(), s())
    if o == "EvU": return "EvU<%s>" % s()
    if o == "DurC": return "DurC<%d, %s, %d>" % (R.choice([0] + BND), s(), R.choice([1, 2, 4, 7, 12]))
    if o == "DurD": return "DurD<%d, %s, %d, %s>" % (R.choice([0] + BND), s(), R.choice([0] + BND), s())
    if o == "DurS": return "DurS<%d, %s, %d, %s, %d>" % (R.choice([0] + BND), s(), R.choice([0] + BND), s(), R.choice([2, 5, 9]))
out, seen = [], set()
def add(t):
    if t in seen or len(t) > 150: return
    k = 0
    if any(x in t for x in ("Until", "AlwaysL", "AlEq", "EvEq", "EvU")): k |= 1
    if any(x in t for x in ("Since", "HistL", "HistEq", "PastEq")): k |= 2
    if "Dur" in t: k |= 4
    seen.add(t); out.append((k, t))
for t in ["P<0>", "Not<Or<P<0>, P<1>>>", "And<Or<P<0>, P<1>>, Not<P<2>>>", "Not<And<P<0>, Not<P<1>>>>"]: add(t)
# every operator over propositions, at several bounds
for o in ("Until", "Since"):
    for bb in (1, 3, 8, 21): add("%s<%d, P<0>, P<1>>" % (o, bb)); add("%s<%d, Not<P<0>>, P<1>>" % (o, bb))
for o in ("AlwaysL", "AlEq", "EvEq", "HistL", "HistEq", "PastEq"):
    for bb in (1, 3, 8, 21): add("%s<%d, P<0>>" % (o, bb)); add("%s<%d, Not<P<0>>>" % (o, bb))
for bb in (3, 8, 21): add("UntilIn<%d, Not<P<0>>, P<1>>" % bb); add("UntilIn<%d, P<0>, P<1>>" % bb); add("UntilIn<%d, Tr, P<1>>" % bb)
add("EvU<P<0>>"); add("EvU<Not<P<0>>>"); add("Not<EvU<P<1>>>")
for bb in (0, 2, 5, 13): add("DurC<%d, P<0>, 3>" % bb); add("DurC<%d, Not<P<0>>, 2>" % bb); add("DurD<%d, P<0>, %d, P<1>>" % (bb, bb)); add("DurS<%d, P<0>, %d, P<1>, 6>" % (bb, 5))
for kinds, n in (("f", 45), ("p", 30), ("d", 8), ("fp", 20), ("fpd", 20)):
    for i in range(n): add(gen(2 if i % 3 else 3, kinds))
# in-between evaluation of operands that change between events
for bb in (5, 13, 21):
    for A in ("Not<P<0>>", "Tr", "EvEq<2, P<0>>", "Until<5, P<0>, P<1>>", "Or<P<0>, AlEq<1, P<2>>>", "Not<DurC<3, P<0>, 2>>"):
        for C in ("P<1>", "EvEq<2, P<1>>", "AlEq<3, Not<P<1>>>", "And<P<1>, EvEq<1, P<2>>>", "DurC<5, P<0>, 2>"):
            if (len(A) + len(C) + bb) % 3 == 0: add("UntilIn<%d, %s, %s>" % (bb, A, C))
# empty windows
for o in ("Until", "Since"): add("%s<0, P<0>, P<1>>" % o); add("%s<0, Tr, Not<P<1>>>" % o)
for o in ("AlwaysL", "AlEq", "EvEq", "HistL"): add("%s<0, P<0>>" % o)
add("Until<8, Since<0, P<0>, P<1>>, EvEq<0, P<2>>>"); add("AlwaysL<5, Imp<P<0>, HistL<0, P<1>>>>")
# the same operators over seconds instead of nanoseconds: bounds beyond 32 bits
B = 10 ** 9
def addbig(t):
    global out
    n = len(out); add(t)
    if len(out) > n: out[-1] = (out[-1][0] | 8, t)
for o in ("Until", "Since", "UntilIn"):
    for bb in (1, 3, 8, 21): addbig("%s<%d, Not<P<0>>, P<1>>" % (o, bb * B))
for o in ("AlwaysL", "AlEq", "EvEq", "HistL", "HistEq", "PastEq"):
    for bb in (3, 8, 21): addbig("%s<%d, P<0>>" % (o, bb * B))
for bb in (0, 2, 5, 13): addbig("DurC<%d, P<0>, %d>" % (bb * B, 3 * B)); addbig("DurD<%d, P<0>, %d, P<1>>" % (bb * B, bb * B)); addbig("DurS<%d, P<0>, %d, P<1>, %d>" % (bb * B, 5 * B, 6 * B))
addbig("AlwaysL<%d, Imp<P<0>, Until<%d, Tr, P<1>>>>" % (8 * B, 5 * B))
addbig("Until<%d, Since<%d, P<0>, P<1>>, EvEq<%d, P<2>>>" % (13 * B, 3 * B, 5 * B))
addbig("HistL<%d, Imp<P<0>, PastEq<%d, P<1>>>>" % (13 * B, 5 * B))
addbig("AlwaysL<%d, DurC<%d, P<0>, %d>>" % (5 * B, 8 * B, 5 * B))
addbig("EvU<Until<%d, P<0>, P<1>>>" % (5 * B))
for A, C in (("Not<P<0>>", "EvEq<%d, P<1>>" % (2 * B)), ("EvEq<%d, P<0>>" % B, "DurC<%d, P<0>, %d>" % (5 * B, 2 * B)), ("Tr", "AlEq<%d, P<1>>" % (3 * B))): addbig("UntilIn<%d, %s, %s>" % (13 * B, A, C))
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim", "formulas.inc")
with open(p, "w") as f:
    f.write("// generated by tools/gen_formulas.py\n")
    secs = lambda s: re.sub(r"\b(\d+)000000000\b", r"\1*BIG", s)
    for k, t in out: f.write(secs("F(%d, %s)\n" % (k, t)))
    f.write("#undef F\n")
    g = []
    for bb in [0, 1, 2, 4, 7, 11, 18, 33]:
        for a in ("P<0>", "Not<P<0>>", "Or<P<0>, P<1>>"): g.append((bb, a))
    for i in range(16): g.append((R.choice([0, 1, 3, 6, 10, 15]), gen(1 if i % 2 else 2, R.choice(["f", "p", "fp", "d"]))))
    for bb in (0, 1, 4, 11, 18): g.append((bb * B, "P<0>")); g.append((bb * B, "Or<P<0>, P<1>>"))
    g.append((7 * B, "Until<%d, P<0>, P<1>>" % (3 * B)))
    for bb, a in g: f.write(secs("G(%d, %s)\n" % (bb, a)))
    f.write("#undef G\n")
print(len(out), "formulas")
