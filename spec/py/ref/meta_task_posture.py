"""Reference of meta_task_posture.py."""
from dynamic_graph import plug
from dynamic_graph.sot.core import Flags
from dynamic_graph.sot.core.feature_generic import FeatureGeneric
from dynamic_graph.sot.core.gain_adaptive import GainAdaptive
from dynamic_graph.sot.core.meta_tasks import setGain
from dynamic_graph.sot.core.task import Task
from numpy import matrix

LIMBS = {
    "rleg": (6, 12), "rhip": (6, 9), "rknee": (9, 10), "rankle": (10, 12),
    "lleg": (12, 18), "lhip": (12, 15), "lknee": (15, 16), "lankle": (16, 18),
    "chest": (18, 20), "head": (20, 22),
    "rarm": (22, 28), "rshoulder": (22, 25), "relbow": (25, 26), "rwrist": (26, 28), "rhand": (28, 29),
    "larm": (29, 35), "lshoulder": (29, 32), "lelbow": (32, 33), "lwrist": (33, 35), "lhand": (35, 36),
}


class MetaTaskPosture:
    def __init__(self, dyn, name="posture"):
        self.dyn = dyn
        self.name = name
        self.feature = FeatureGeneric("feature" + name)
        self.featureDes = FeatureGeneric("featureDes" + name)
        self.gain = GainAdaptive("gain" + name)
        plug(dyn.position, self.feature.errorIN)
        n = len(dyn.position.value)
        self.feature.jacobianIN.value = tuple([tuple([1 if i == j else 0 for j in range(n)]) for i in range(n)])
        self.feature.setReference(self.featureDes.name)

    def plugTask(self):
        self.task.add(self.feature.name)
        plug(self.task.error, self.gain.error)
        plug(self.gain.gain, self.task.controlGain)

    @property
    def ref(self):
        return self.featureDes.errorIN.value

    @ref.setter
    def ref(self, v):
        self.featureDes.errorIN.value = v

    def gotoq(self, gain=None, qdes=None, **kwargs):
        n = len(self.dyn.position.value)
        if qdes is None:
            q = n * [0]
        elif isinstance(qdes, tuple):
            q = list(qdes)
        else:
            q = [qdes[i, 0] for i in range(n)]
        act = n * [False]
        for limb in kwargs:
            first, last = LIMBS[limb]
            v = kwargs[limb]
            if isinstance(v, matrix):
                v = v.flatten().tolist()[0]
            for i in range(first, last):
                act[i] = True
                if v != []:
                    q[i] = v[i - first]
        self.featureDes.errorIN.value = tuple(q)
        self.feature.selec.value = Flags(act)
        setGain(self.gain, gain)


class MetaTaskKinePosture(MetaTaskPosture):
    def __init__(self, dyn, name="posture"):
        MetaTaskPosture.__init__(self, dyn, name)
        self.task = Task("task" + name)
        self.plugTask()
