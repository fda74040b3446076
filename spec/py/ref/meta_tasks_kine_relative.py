"""Reference of meta_tasks_kine_relative.py."""
from dynamic_graph import plug
from dynamic_graph.sot.core import Flags
from dynamic_graph.sot.core.feature_point6d_relative import FeaturePoint6dRelative
from dynamic_graph.sot.core.meta_task_6d import Base
from dynamic_graph.sot.core.meta_tasks import generic6dReference, reset, setGain


class MetaTaskKine6dRel(Base):
    def __init__(self, name, dyn, opPoint, opPointBase, opPointRef="right-wrist", opPointRefBase="left-wrist"):
        self.begin(name, dyn)
        self.opPoint = opPoint
        self.opPointBase = opPointBase
        self.point(opPoint, opPointRef)
        self.point(opPointBase, opPointRefBase)
        self.opPointModif = self.modifier("opmodif" + name, opPoint)
        self.opPointModifBase = self.modifier("opmodifBase" + name, opPointBase)
        self.feature = FeaturePoint6dRelative("featureRel" + name)
        self.featureDes = FeaturePoint6dRelative("featureRel" + name + "_ref")
        self.feature.selec.value = Flags("111111")
        self.feature.frame("current")
        plug(dyn.signal(opPoint), self.feature.position)
        plug(dyn.signal("J" + opPoint), self.feature.Jq)
        plug(dyn.signal(opPointBase), self.feature.positionRef)
        plug(dyn.signal("J" + opPointBase), self.feature.JqRef)
        self.chain()

    @property
    def opmodif(self):
        return self.modified(self.opPointModif)

    @opmodif.setter
    def opmodif(self, m):
        self.switch(self.opPointModif, self.opPoint, m, self.feature.position, self.feature.Jq)

    @property
    def opmodifBase(self):
        return self.modified(self.opPointModifBase)

    @opmodifBase.setter
    def opmodifBase(self, m):
        self.switch(self.opPointModifBase, self.opPointBase, m, self.feature.positionRef, self.feature.JqRef)


def goto6dRel(task, position, positionRef, gain=None, resetJacobian=True):
    gotoNdRel(task, position, positionRef, "111111", gain, resetJacobian)


def gotoNdRel(task, position, positionRef, selec=None, gain=None, resetJacobian=True):
    M = generic6dReference(position)
    MRef = generic6dReference(positionRef)
    if selec is not None:
        task.feature.selec.value = selec if isinstance(selec, Flags) else Flags(selec)
    task.featureDes.position.value = M
    task.featureDes.positionRef.value = MRef
    setGain(task.gain, gain)
    reset(task, resetJacobian)
