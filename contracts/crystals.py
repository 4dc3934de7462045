"""Concrete crystals for the bounded contracts."""
import numpy as np
from ramannoodle.structure import ReferenceStructure

_cache = {}


def get(name):
    if name not in _cache:
        z, L, p = BUILD[name]()
        _cache[name] = (ReferenceStructure(list(z), np.array(L, float), np.array(p, float) % 1), list(z), np.array(L, float), np.array(p, float) % 1)
    return _cache[name]


def rutile():
    u = .3053; p = [[0, 0, 0], [.5, .5, .5], [u, u, 0], [-u, -u, 0], [.5 + u, .5 - u, .5], [.5 - u, .5 + u, .5]]
    return [22, 22, 8, 8, 8, 8], np.diag([4.594, 4.594, 2.959]), p


def anatase():
    z = .2066
    ti = [[0, 0, 0], [0, .5, .25], [.5, .5, .5], [.5, 0, .75]]
    o = [[0, 0, z], [0, 0, -z], [0, .5, .25 + z], [0, .5, .25 - z], [.5, .5, .5 + z], [.5, .5, .5 - z], [.5, 0, .75 + z], [.5, 0, .75 - z]]
    return [22] * 4 + [8] * 8, np.diag([3.785, 3.785, 9.514]), ti + o


def perovskite():
    return [38, 22, 8, 8, 8], np.eye(3) * 3.905, [[0, 0, 0], [.5, .5, .5], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]]


def rocksalt():
    f = np.array([[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
    return [11] * 4 + [17] * 4, np.eye(3) * 5.64, np.vstack([f, f + .5])


def tetragonal():
    return [38, 22, 8, 8, 8], np.diag([3.9, 3.9, 4.1]), [[0, 0, .01], [.5, .5, .52], [.5, .5, .03], [.5, 0, .53], [0, .5, .53]]


def orthorhombic():
    """Pmmm-like cell with inversion and three mirrors."""
    x, y, w = .13, .21, .29
    return [8] * 8, np.diag([5.1, 6.2, 7.3]), [[sx * x, sy * y, sz * w] for sx in (1, -1) for sy in (1, -1) for sz in (1, -1)]


def polar_orthorhombic():
    x, y = .13, .21
    return [8] * 4 + [22], np.diag([5.1, 6.2, 7.3]), [[sx * x, sy * y, .1] for sx in (1, -1) for sy in (1, -1)] + [[0, 0, .45]]


def triclinic_inversion():
    L = [[5., .3, -.2], [.7, 4.6, .4], [-.5, .9, 6.1]]
    a = [.11, .23, .35]; b = [.31, -.14, .08]
    return [8, 8, 22, 22], L, [a, np.negative(a), b, np.negative(b)]


def triclinic():
    L = [[5., .3, -.2], [.7, 4.6, .4], [-.5, .9, 6.1]]
    return [8, 22, 38], L, [[.11, .23, .35], [.31, .64, .08], [.71, .02, .55]]


def dimer():
    return [1, 1], np.diag([6., 7., 8.]), [[.45, .5, .5], [.55, .5, .5]]


def hexagonal():
    """Wurtzite ZnO."""
    a, c, u = 3.25, 5.207, .382
    L = [[a, 0, 0], [-a / 2, a * 3 ** .5 / 2, 0], [0, 0, c]]
    return [30, 30, 8, 8], L, [[1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, .5], [1 / 3, 2 / 3, u], [2 / 3, 1 / 3, .5 + u]]


def graphene():
    a = 2.46
    L = [[a, 0, 0], [-a / 2, a * 3 ** .5 / 2, 0], [0, 0, 10]]
    return [6, 6], L, [[1 / 3, 2 / 3, .5], [2 / 3, 1 / 3, .5]]


def fcc_primitive():
    L = 5.64 * np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
    return [11, 17], L, [[0, 0, 0], [.5, .5, .5]]


def zincblende_primitive():
    L = 5.41 * np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
    return [30, 16], L, [[0, 0, 0], [.25, .25, .25]]


def monoclinic():
    """P2/m cell, unique axis b."""
    L = [[5., 0, 0], [0, 4.3, 0], [-1.2, 0, 6.]]
    a = [.15, .2, .3]
    return [8] * 4 + [22], L, [a, [-.15, .2, -.3], [-.15, -.2, -.3], [.15, -.2, .3], [0, 0, 0]]


def tetragonal_screw():
    """P4_1: the fourfold screw operations are not their own inverses' translations."""
    x, y = .13, .21
    return [8] * 4 + [22] * 4, np.diag([5.1, 5.1, 9.3]), [[x, y, 0], [-y, x, .25], [-x, -y, .5], [y, -x, .75]] + [[.3, .45, .1], [-.45, .3, .35], [-.3, -.45, .6], [.45, -.3, .85]]


def slab():
    """A long cell: neighbouring atoms are close in fractional coordinates."""
    return [22, 8, 22, 8], np.diag([4., 4.4, 60.]), [[.1, .1, .1], [.1, .1, .13], [.9, .9, .9], [.9, .9, .87]]


def slab_oblique():
    L = [[3., .4, 0], [-.6, 3.3, .2], [1., .5, 90.]]
    a, b, c = [.12, .2, .05], [.13, .22, .068], [.09, .19, .088]
    return [22, 8, 1] * 2, L, [a, b, c, np.negative(a), np.negative(b), np.negative(c)]


BUILD = dict(slab=slab, slab_oblique=slab_oblique, rutile=rutile, anatase=anatase, perovskite=perovskite, rocksalt=rocksalt, tetragonal=tetragonal, orthorhombic=orthorhombic,
             polar_orthorhombic=polar_orthorhombic, triclinic_inversion=triclinic_inversion, triclinic=triclinic, dimer=dimer,
             hexagonal=hexagonal, graphene=graphene, fcc_primitive=fcc_primitive, zincblende_primitive=zincblende_primitive, monoclinic=monoclinic, tetragonal_screw=tetragonal_screw)
