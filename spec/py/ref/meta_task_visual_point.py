"""Reference of meta_task_visual_point.py."""
from dynamic_graph import plug
from dynamic_graph.sot.core.feature_visual_point import FeatureVisualPoint
from dynamic_graph.sot.core.meta_task_6d import Base
from dynamic_graph.sot.core.meta_tasks import setGain
from dynamic_graph.sot.core.visual_point_projecter import VisualPointProjecter


class MetaTaskVisualPoint(Base):
    def __init__(self, name, dyn, opPoint, opPointRef="right-wrist"):
        self.begin(name, dyn)
        self.opPoint = opPoint
        self.point(opPoint, opPointRef)
        self.opPointModif = self.modifier("opmodif" + name, opPoint)
        self.feature = FeatureVisualPoint("feature" + name)
        self.featureDes = FeatureVisualPoint("feature" + name + "_ref")
        self.feature.selec.value = "11"
        self.proj = VisualPointProjecter("proj" + name)
        plug(dyn.signal(opPoint), self.proj.transfo)
        plug(self.proj.point2D, self.feature.xy)
        plug(self.proj.depth, self.feature.Z)
        plug(dyn.signal("J" + opPoint), self.feature.Jq)
        self.chain()

    @property
    def ref(self):
        return self.featureDes.xy.value

    @ref.setter
    def ref(self, m):
        self.featureDes.xy.value = m

    @property
    def target(self):
        return self.proj.point3D

    @target.setter
    def target(self, m):
        self.proj.point3D.value = m

    @property
    def opmodif(self):
        return self.modified(self.opPointModif)

    @opmodif.setter
    def opmodif(self, m):
        self.switch(self.opPointModif, self.opPoint, m, self.proj.transfo, self.feature.Jq)

    def goto3D(self, point3D, gain=None, ref2D=None, selec=None):
        self.proj.point3D.value = point3D
        if ref2D is not None:
            self.featureDes.xy.value = ref2D
        if selec is not None:
            self.feature.selec.value = selec
        setGain(self.gain, gain)
