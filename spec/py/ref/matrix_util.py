"""Reference of matrix_util.py."""
from math import atan2, cos, pi, sin, sqrt
from random import random

from numpy import array, dot


def matrixToTuple(M):
    n, m = M.shape
    return tuple([tuple([M.tolist()[i][j] for j in range(m)]) for i in range(n)])


def vectorToTuple(M):
    return tuple([x for x in array(M).reshape(-1).tolist()])


def rotate(axis, ang):
    c = cos(ang)
    s = sin(ang)
    if axis == "x":
        return ((1, 0, 0, 0), (0, c, -s, 0), (0, s, c, 0), (0, 0, 0, 1))
    if axis == "y":
        return ((c, 0, s, 0), (0, 1, 0, 0), (-s, 0, c, 0), (0, 0, 0, 1))
    if axis == "z":
        return ((c, -s, 0, 0), (s, c, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1))
    raise ValueError("axis")


def rpy2tr(r, p, y):
    # Rz(y) Ry(p) Rx(r)
    cr = cos(r)
    sr = sin(r)
    cp = cos(p)
    sp = sin(p)
    cy = cos(y)
    sy = sin(y)
    return (
        (cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr, 0),
        (sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr, 0),
        (-sp, cp * sr, cp * cr, 0),
        (0, 0, 0, 1),
    )


def distVector(M2, M1):
    return [M1[i][3] - M2[i][3] for i in range(3)]


def generateOrthonormalM(v1):
    def unit(v):
        n = sqrt(sum([x * x for x in v]))
        return [x / n for x in v]

    def less(v, e):
        k = sum([a * b for a, b in zip(v, e)])
        return [a - k * b for a, b in zip(v, e)]

    a = [random(), random(), random()]
    b = [random(), random(), random()]
    e1 = unit(v1)
    e2 = unit(less(a, e1))
    u3 = [x - y - z for x, y, z in zip(b, [sum([p * q for p, q in zip(b, e1)]) * w for w in e1], [sum([p * q for p, q in zip(b, e2)]) * w for w in e2])]
    e3 = unit(u3)
    return tuple([(e1[i], e2[i], e3[i]) for i in range(3)])


def tr2rpy(M):
    # historical: the first angle is the one about z, the last about x
    p = atan2(-M[2][0], sqrt(M[2][1] * M[2][1] + M[2][2] * M[2][2]))
    if -0.001 < p - pi / 2 and p - pi / 2 < 0.001:
        return [0.0, p, atan2(M[0][1], M[1][1])]
    if -0.001 < p + pi / 2 and p + pi / 2 < 0.001:
        return [0.0, p, -atan2(M[0][1], M[1][1])]
    return [atan2(M[1][0], M[0][0]), p, atan2(M[2][1], M[2][2])]


def matrixToRPY(M):
    a = tr2rpy(M)
    return [M[0][3], M[1][3], M[2][3], a[2], a[1], a[0]]


def RPYToMatrix(pr):
    R = rpy2tr(pr[3], pr[4], pr[5])
    return array(
        [
            [R[0][0], R[0][1], R[0][2], pr[0]],
            [R[1][0], R[1][1], R[1][2], pr[1]],
            [R[2][0], R[2][1], R[2][2], pr[2]],
            [0, 0, 0, 1],
        ]
    )


def quaternionToMatrix(q):
    x = q[0]
    y = q[1]
    z = q[2]
    w = q[3]
    return [
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
    ]
