"""Reference of feature_position.py."""
from dynamic_graph import plug
from dynamic_graph.sot.core import Flags
from dynamic_graph.sot.core.feature_point6d import FeaturePoint6d


class Base:
    def signal(self, name):
        for n, s in self.table:
            if n == name:
                return s
        raise RuntimeError("No signal with this name")

    def signals(self):
        return [s for n, s in self.table]

    def frame(self, f):
        return self._feature.frame(f)

    def keep(self):
        return self._feature.keep()


class FeaturePosition(Base):
    def __init__(self, name, signalPosition=None, signalJacobian=None, referencePosition=None):
        self.name = name
        f = FeaturePoint6d(name)
        r = FeaturePoint6d(name + "_ref")
        self._feature = f
        self._reference = r
        self.obj = f.obj
        if referencePosition is not None:
            r.position.value = referencePosition
        if signalPosition is not None:
            plug(signalPosition, f.position)
        if signalJacobian is not None:
            plug(signalJacobian, f.Jq)
        f.setReference(name + "_ref")
        f.selec.value = Flags("111111")
        f.frame("current")
        self.position = f.position
        self.reference = r.position
        self.velocity = r.velocity
        self.Jq = f.Jq
        self.error = f.error
        self.errordot = f.errordot
        self.selec = f.selec
        self.table = [("position", f.position), ("reference", r.position), ("Jq", f.Jq), ("error", f.error), ("selec", f.selec)]

    def commands(self):
        return ("frame", "getFrame", "keep")

    def getFrame(self):
        return self._feature.getFrame()
