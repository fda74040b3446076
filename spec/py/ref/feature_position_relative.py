"""Reference of feature_position_relative.py."""
from dynamic_graph import plug
from dynamic_graph.signal_base import SignalBase
from dynamic_graph.sot.core import Flags
from dynamic_graph.sot.core.feature_point6d_relative import FeaturePoint6dRelative
from dynamic_graph.sot.core.feature_position import Base

ID = ((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1))


def give(x, sink):
    if x is None:
        x = ID
    if isinstance(x, SignalBase):
        plug(x, sink)
    else:
        sink.value = x


class FeaturePositionRelative(Base):
    def __init__(self, name, basePosition=None, otherPosition=None, baseReference=None, otherReference=None, JqBase=None, JqOther=None):
        self.name = name
        f = FeaturePoint6dRelative(name)
        r = FeaturePoint6dRelative(name + "_ref")
        self._feature = f
        self.obj = f.obj
        give(basePosition, f.positionRef)
        give(otherPosition, f.position)
        give(baseReference, r.positionRef)
        give(otherReference, r.position)
        if JqBase is not None:
            plug(JqBase, f.JqRef)
        if JqOther is not None:
            plug(JqOther, f.Jq)
        f.setReference(name + "_ref")
        f.selec.value = Flags("111111")
        f.frame("current")
        self.basePosition = f.positionRef
        self.otherPosition = f.position
        self.baseReference = r.positionRef
        self.otherReference = r.position
        self.JqBase = f.JqRef
        self.JqOther = f.Jq
        self.error = f.error
        self.jacobian = f.jacobian
        self.selec = f.selec
        self.table = [("basePosition", f.positionRef), ("otherPosition", f.position), ("baseReference", r.positionRef), ("otherReference", r.position),
                      ("JqBase", f.JqRef), ("JqOther", f.Jq), ("error", f.error), ("jacobian", f.jacobian), ("selec", f.selec)]

    def commands(self):
        return self._feature.commands()
