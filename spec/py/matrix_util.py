"""Scenarios of the script conversion helpers (P14)."""
from math import cos, sin

from numpy import array

from dynamic_graph.sot.core import matrix_util as m


def scenario_matrixToTuple(M: oneof(mat(2, 3), nd(3, 2), nd(1, 1), nd(4, 4))):
    return m.matrixToTuple(M)


def scenario_vectorToTuple(M: oneof(nd(3), mat(1, 4), mat(4, 1), nd(1, 3), nd(3, 1), mat(1, 1), nd(1))):
    return m.vectorToTuple(M)


def scenario_rpy2tr(r: real, p: real, y: real):
    return m.rpy2tr(r, p, y)


def scenario_distVector(A: oneof(rows(4, 4), nd(4, 4)), B: rows(4, 4)):
    return m.distVector(A, B)


def scenario_generateOrthonormalM(v: oneof(vec(3), lst(3), nd(3))):
    """orthonormal columns, the first one parallel to v"""
    M = m.generateOrthonormalM(v)
    c = [[M[i][j] for i in range(3)] for j in range(3)]

    def dot(a, b):
        return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]

    return (
        len(M),
        [dot(c[i], c[j]) for i in range(3) for j in range(3)],
        [v[1] * c[0][2] - v[2] * c[0][1], v[2] * c[0][0] - v[0] * c[0][2], v[0] * c[0][1] - v[1] * c[0][0]],
        dot(v, c[0]) > 0,
    )


def scenario_tr2rpy(M: oneof(rows(4, 4), nd(4, 4), rows(3, 3))):
    return m.tr2rpy(M)


def scenario_tr2rpy_pitch_up(a: real, b: real, s: oneof(1, -1)):
    """at a vertical pitch: Rz(a) Ry(s pi/2) Rx(b)"""
    ca = cos(a)
    sa = sin(a)
    cb = cos(b)
    sb = sin(b)
    M = ((0, s * ca * sb - sa * cb, s * ca * cb + sa * sb), (0, s * sa * sb + ca * cb, s * sa * cb - ca * sb), (-s, 0, 0))
    r = m.tr2rpy(M)
    return r


def scenario_matrixToRPY(M: oneof(rows(4, 4), nd(4, 4))):
    return m.matrixToRPY(M)


def scenario_matrixToRPY_is_inverse(p: vec(3), r: real, y: real, pitch: real):
    """the matrix of the extracted pose is the matrix"""
    M = m.RPYToMatrix((p[0], p[1], p[2], r, pitch, y))
    q = m.matrixToRPY(M)
    return m.RPYToMatrix(tuple(q))


def scenario_RPYToMatrix(pr: oneof(vec(6), lst(6), nd(6))):
    return m.RPYToMatrix(pr)


def scenario_rotate(axis: oneof("x", "y", "z", "w"), ang: real):
    return m.rotate(axis, ang)


def scenario_quaternionToMatrix(q: oneof(vec(4), lst(4), nd(4))):
    return m.quaternionToMatrix(q)
