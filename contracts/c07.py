"""C07 rotation parameterisations."""
from .lib import *
SRC = ['src/math/cayley.cpp', 'src/math/quaternion.cpp']
M = 'opengv::math::'

def cayley2rot(ck):
    it = ck.interp(nodef=False)
    c = symvec(3, 'c')
    outs = call(it, M + 'cayley2rot', c)
    ck.cover(outs)
    for st, v in outs:
        ck.require_rotation('cayley2rot(c) is a rotation', v, st.pc)
        outs2 = call(it, M + 'cayley2rot_reduced', c)
        s = add(R(1), mat_dot(c, c))
        for st2, w in outs2: ck.require_mat('cayley2rot_reduced(c) = (1+c.c) cayley2rot(c)', w, mat_map(lambda x: mul(s, x), v), st.pc + st2.pc)
    ck.obligations(it)
def quat2rot(ck):
    it = ck.interp(nodef=False)
    q = symvec(4, 'q')
    ru = Rules().unit(list(reversed(q.d)))
    for st, v in call(it, M + 'quaternion2rot', q):
        ck.require_rotation('quaternion2rot(q) is a rotation for |q|=1', v, st.pc, ru)
        neg_ = call(it, M + 'quaternion2rot', mat_map(neg, q))
    ck.obligations(it, ru)
def rot2quat(ck):
    """for every rotation Q(q), |q|=1: quaternion2rot(rot2quaternion(Q)) = Q, all divisions defined"""
    q, ru = unitq('q')
    it = ck.interp(nodef=False, simp=lambda c: ck.pr.simp_cond(c, ru))
    Rm = Q(q)
    # path conditions compare |q_i|: reduce them by the unit constraint before branching
    Rr = mat_map(lambda x: from_poly(ru.reduce(poly(x)), 'R'), Rm)
    it2 = ck.interp()
    outs = call(it, M + 'rot2quaternion', Rr, rules=ru, ck=ck)
    ck.cover(outs)
    for st, v in outs:
        n = mat_dot(v, v)
        ck.require('rot2quaternion(R) has unit norm', eq(n, R(1)), st.pc, ru)
        for st2, w in call(it2, M + 'quaternion2rot', v):
            ck.require_mat('quaternion2rot(rot2quaternion(R)) = R', w, Rr, st.pc + st2.pc, ru)
    ck.obligations(it, ru)
def rot2cay(ck):
    it = ck.interp()
    q, ru = unitq('q')
    ru.pos.add(q.d[0])
    Rm = Q(q)
    pc = [lt(R(0), q.d[0])]
    ck.assume.append('every rotation matrix is Q(q) for a unit quaternion q (surjectivity of the double cover); half turns are q0=0 and excluded for Cayley')
    outs = call(it, M + 'rot2cayley', Rm, pc=pc)
    ck.cover(outs)
    for st, v in outs:
        for i in range(3): ck.require('rot2cayley(R)[%d] = q%d/q0' % (i, i + 1), eq(mul(v.d[i], q.d[0]), q.d[i + 1]), st.pc, ru)
        for st2, w in call(it, M + 'cayley2rot', v):
            ck.require_mat('cayley2rot(rot2cayley(R)) = R', w, Rm, st.pc + st2.pc, ru)
    c = symvec(3, 'c')
    for st, v in call(it, M + 'cayley2rot', c):
        for st2, w in call(it, M + 'rot2cayley', v): ck.require_mat('rot2cayley(cayley2rot(c)) = c', w, c, st.pc + st2.pc)
    ck.obligations(it, ru)

def run(ck):
    ck.load(*SRC)
    ck.contract('cayley2rot', cayley2rot)
    ck.contract('quaternion2rot', quat2rot)
    ck.contract('rot2quaternion', rot2quat)
    ck.contract('rot2cayley', rot2cay)
    ck.native('c07.cpp', srcs=SRC)
