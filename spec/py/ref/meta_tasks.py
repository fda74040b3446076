"""Reference of meta_tasks.py."""
from dynamic_graph import plug
from dynamic_graph.sot.core import Flags
from dynamic_graph.sot.core.feature_generic import FeatureGeneric
from dynamic_graph.sot.core.gain_adaptive import GainAdaptive
from dynamic_graph.sot.core.matrix_util import rpy2tr
from numpy import array, matrix, ndarray


def toFlags(a):
    return Flags(a)


class MetaTaskCom:
    def __init__(self, dyn, name="com"):
        self.dyn = dyn
        self.name = name
        self.feature = FeatureGeneric("feature" + name)
        self.featureDes = FeatureGeneric("featureDes" + name)
        self.gain = GainAdaptive("gain" + name)
        plug(dyn.com, self.feature.errorIN)
        plug(dyn.Jcom, self.feature.jacobianIN)
        self.feature.setReference("featureDes" + name)

    def plugTask(self):
        self.task.add("feature" + self.name)
        plug(self.task.error, self.gain.error)
        plug(self.gain.gain, self.task.controlGain)

    @property
    def ref(self):
        return self.featureDes.errorIN.value

    @ref.setter
    def ref(self, v):
        self.featureDes.errorIN.value = v


def setGain(gain, val):
    if val is None:
        return
    if isinstance(val, (int, float)):
        gain.setConstant(val)
        return
    n = len(val)
    if n == 1:
        gain.setConstant(val[0])
    if n == 3:
        gain.set(val[0], val[1], val[2])
    if n == 4:
        gain.setByPoint(val[0], val[1], val[2], val[3])


def entries(p):
    """the numbers of a 3- or 6-vector, whatever its container"""
    if isinstance(p, (matrix, ndarray)):
        return [x for x in p.reshape(-1).tolist()] if not isinstance(p, matrix) else p.tolist()[0]
    return [x for x in p]


def generic6dReference(p):
    if isinstance(p, (matrix, ndarray)) and p.size == 3 or isinstance(p, tuple) and len(p) == 3:
        if isinstance(p, (matrix, ndarray)) and p.shape not in ((3,), (1, 3)):
            raise ValueError
        v = entries(p)
        return array(((1, 0, 0, v[0]), (0, 1, 0, v[1]), (0, 0, 1, v[2]), (0, 0, 0, 1)))
    if isinstance(p, (matrix, ndarray)) and p.shape == (4, 4):
        return p
    if isinstance(p, tuple) and len(p) == 4:
        return matrix(p)
    if len(p) == 6:
        v = entries(p)
        R = rpy2tr(v[3], v[4], v[5])
        return array([[R[i][0], R[i][1], R[i][2], v[i]] for i in range(3)] + [[0, 0, 0, 1]])
    return array(((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)))


def reset(task, wanted):
    if wanted and hasattr(task.task, "resetJacobianDerivative"):
        task.task.resetJacobianDerivative()


def goto6d(task, position, gain=None, resetJacobian=True):
    gotoNd(task, position, "111111", gain, resetJacobian)


def gotoNd(task, position, selec=None, gain=None, resetJacobian=True):
    M = generic6dReference(position)
    if selec is not None:
        task.feature.selec.value = selec if isinstance(selec, Flags) else Flags(selec)
    task.featureDes.position.value = array(M)
    setGain(task.gain, gain)
    reset(task, resetJacobian)
