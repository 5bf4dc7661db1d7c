#!/usr/bin/env python3
"""Writes h/n_constants.inc: every named constant of muu::constants with its exact value, from the mathematical
definition (mpmath, 60 digits), not from the repository's own literals.  Run with python3-vt; output is committed."""
import os
from mpmath import mp, mpf, pi, e, phi, sqrt, nstr
mp.dps = 60
W = dict(one=1, two=2, three=3, four=4, five=5, six=6, seven=7, eight=8, ten=10)
out = []
def add(n, v): out.append((n, v))
names = """one_over_two one_over_three one_over_four one_over_five one_over_six one_over_seven one_over_eight sqrt_two
one_over_sqrt_two two_over_three two_over_five two_over_seven sqrt_three one_over_sqrt_three three_over_two three_over_four
three_over_five three_over_seven three_over_eight sqrt_four four_over_three four_over_five four_over_seven pi one_over_pi
sqrt_pi one_over_sqrt_pi pi_over_two pi_over_three pi_over_four pi_over_five pi_over_six pi_over_seven pi_over_eight
two_over_pi three_over_pi four_over_pi five_over_pi six_over_pi seven_over_pi eight_over_pi two_pi one_over_two_pi sqrt_two_pi
one_over_sqrt_two_pi two_pi_over_three two_pi_over_five two_pi_over_seven three_over_two_pi five_over_two_pi seven_over_two_pi
three_pi one_over_three_pi sqrt_three_pi one_over_sqrt_three_pi three_pi_over_two three_pi_over_four three_pi_over_five
three_pi_over_seven three_pi_over_eight two_over_three_pi four_over_three_pi five_over_three_pi seven_over_three_pi
eight_over_three_pi e one_over_e sqrt_e one_over_sqrt_e e_over_two e_over_three e_over_four e_over_five e_over_six e_over_seven
e_over_eight two_over_e three_over_e four_over_e five_over_e six_over_e seven_over_e eight_over_e phi one_over_phi sqrt_phi
one_over_sqrt_phi phi_over_two phi_over_three phi_over_four phi_over_five phi_over_six phi_over_seven phi_over_eight
two_over_phi three_over_phi four_over_phi five_over_phi six_over_phi seven_over_phi eight_over_phi one_over_ten
one_over_one_hundred one_over_one_thousand""".split()
def term(ws):
    if ws[0] == "sqrt": return sqrt(term(ws[1:]))
    if ws == ["one", "hundred"]: return mpf(100)
    if ws == ["one", "thousand"]: return mpf(1000)
    r = mpf(1)
    for w in ws:
        r *= dict(pi=+pi, e=+e, phi=+phi).get(w) or mpf(W[w])
    return r
for n in names:
    p = n.split("_over_")
    v = term(p[0].split("_"))
    if len(p) == 2: v /= term(p[1].split("_"))
    add(n, v)
add("degrees_to_radians", pi / 180)
add("radians_to_degrees", 180 / pi)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "h", "n_constants.inc"), "w") as f:
    f.write("// generated by tools/gen_constants.py\n")
    for n, v in out:
        f.write("K(%s, %s);\n" % (n, nstr(v, 50, strip_zeros=False)))
