"""Reference of meta_task_6d.py."""
from dynamic_graph import plug
from dynamic_graph.sot.core import Flags
from dynamic_graph.sot.core.feature_point6d import FeaturePoint6d
from dynamic_graph.sot.core.gain_adaptive import GainAdaptive
from dynamic_graph.sot.core.op_point_modifier import OpPointModifier
from dynamic_graph.sot.core.task import Task


def toFlags(a):
    return Flags(a)


def exists(dyn, point):
    names = [s.short for s in dyn.signals()]
    return point in names and "J" + point in names


class Base:
    """operational point, modifier, task and gain"""

    def begin(self, name, dyn):
        self.name = name
        self.dyn = dyn

    def point(self, point, ref):
        if not exists(self.dyn, point):
            self.dyn.createOpPoint(point, ref)

    def modifier(self, name, point):
        o = OpPointModifier(name)
        plug(self.dyn.signal(point), o.positionIN)
        plug(self.dyn.signal("J" + point), o.jacobianIN)
        o.activ = False
        return o

    def chain(self):
        self.task = Task("task" + self.name)
        self.gain = GainAdaptive("gain" + self.name)
        self.gain.set(0.1, 0.1, 125e3)
        self.feature.setReference(self.featureDes.name)
        self.task.add(self.feature.name)
        plug(self.task.error, self.gain.error)
        plug(self.gain.gain, self.task.controlGain)

    def keep(self):
        self.feature.position.recompute(self.dyn.position.time)
        self.feature.keep()

    @property
    def ref(self):
        return self.featureDes.position.value

    @ref.setter
    def ref(self, m):
        self.featureDes.position.value = m

    def switch(self, o, point, m, sink, jsink):
        if isinstance(m, bool) and not m:
            plug(self.dyn.signal(point), sink)
            plug(self.dyn.signal("J" + point), jsink)
            o.activ = False
        else:
            plug(o.position, sink)
            plug(o.jacobian, jsink)
            o.setTransformation(m)
            o.activ = True

    def modified(self, o):
        if o.activ:
            return o.getTransformation()
        return False


class MetaTask6d(Base):
    def __init__(self, name, dyn, opPoint, opPointRef="right-wrist"):
        self.begin(name, dyn)
        self.opPoint = opPoint
        self.point(opPoint, opPointRef)
        self.opPointModif = self.modifier("opmodif" + name, opPoint)
        self.feature = FeaturePoint6d("feature" + name)
        self.featureDes = FeaturePoint6d("feature" + name + "_ref")
        self.feature.selec.value = Flags("111111")
        self.feature.frame("current")
        plug(dyn.signal(opPoint), self.feature.position)
        plug(dyn.signal("J" + opPoint), self.feature.Jq)
        self.chain()

    @property
    def opmodif(self):
        return self.modified(self.opPointModif)

    @opmodif.setter
    def opmodif(self, m):
        self.switch(self.opPointModif, self.opPoint, m, self.feature.position, self.feature.Jq)
