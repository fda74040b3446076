"""Reference: the calendar of script events."""


class Always:
    pass


class Stop:
    pass


ALWAYS = Always()
STOP = Stop()


class Calendar:
    def __init__(self):
        self.permanent = []
        self.dated = []
        self.ping = []

    def stop(self, *funs):
        self.registerEvents(STOP, *funs)

    def registerEvent(self, when, event):
        if when is STOP:
            self.permanent.remove(event)
        elif when is ALWAYS:
            self.permanent.append(event)
        else:
            self.dated.append((when, event))

    def registerEvents(self, when, *funs):
        if len(funs) == 2 and callable(funs[0]) and isinstance(funs[1], str):
            self.registerEvent(when, (funs[0], funs[1]))
            return
        for f in funs:
            if isinstance(f, tuple):
                self.registerEvent(when, f)
            elif hasattr(f, "functor"):
                self.registerEvent(when, (f.functor, f.functor.__doc__))
            else:
                self.registerEvent(when, (f, f.__doc__))

    def addPing(self, f):
        self.ping.append(f)

    def callPing(self):
        for f in self.ping:
            f()

    def run(self, now, *args):
        for f, doc in list(self.permanent):
            f(*args)
        due = False
        for when, event in self.dated:
            if when == now:
                due = True
        if due:
            self.callPing()
            for when, event in self.dated:
                if when == now:
                    event[0](*args)

    def __call__(self, when, *funs):
        if len(funs) == 0:
            return self.generatorDecorator(when)
        self.registerEvents(when, *funs)

    def generatorDecorator(self, when):
        calendar = self

        class Decorated:
            def __init__(self, functer):
                self.fun = functer
                calendar.registerEvent(when, (functer, "doc"))

            def __call__(self, *args):
                self.fun(*args)

        return Decorated

    def fastForward(self, t):
        i = 0
        while i <= t:
            self.run(i)
            i += 1


attime = Calendar()


def sigset(s, v):
    s.value = v


def refset(mt, v):
    mt.ref = v
