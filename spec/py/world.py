"""A robot as the scripts see it: signals by name, operational points on demand."""


class Signal:
    models_ = "SignalBase"

    def __init__(self, name, value=None):
        self.ident_ = name
        self.short = name
        self.name = "robot::output(any)::" + name
        self.value = value
        self.time = 7

    def getName(self):
        return self.name


class Robot:
    def __init__(self, *names):
        self.name = "robot"
        self.made = []
        self.sigs = [Signal(n) for n in names]
        self.position = Signal("position", tuple(36 * [0.5]))
        self.com = Signal("com")
        self.Jcom = Signal("Jcom")

    def signals(self):
        return self.sigs

    def signal(self, name):
        for s in self.signals():
            if s.short == name:
                return s
        raise RuntimeError("no such signal")

    def has(self, name):
        for s in self.sigs:
            if s.short == name:
                return True
        return False

    def createOpPoint(self, point, ref):
        self.made.append((point, ref))
        for name in (point, "J" + point):
            if not self.has(name):
                self.sigs.append(Signal(name))
