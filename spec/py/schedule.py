"""Scenarios of the script events and of the interruptible loop (P20)."""
import time

from dynamic_graph.sot.core.utils import attime as module
from dynamic_graph.sot.core.utils import thread_interruptible_loop as threads

ALWAYS = module.ALWAYS


class Action:
    """an action that notes when it runs, then acts on the calendar"""

    def __init__(self, name, log, then=None):
        self.name = name
        self.log = log
        self.then = then

    def __call__(self, *args):
        self.log.append((self.name,) + args)
        if self.then is not None:
            self.then()


def action(name, log, then=None, doc=None):
    a = Action(name, log, then)

    def f(*args):
        a(*args)

    f.__doc__ = doc
    return f


def scenario_dated(t: integer, u: integer, now: integer, order: oneof("ab", "ba")):
    """events run at their time, with the arguments of the step, and at no other"""
    c, log = module.Calendar(), []
    for x in order:
        c(t if x == "a" else u, action(x, log))
    c.run(now)
    c.run(now + 1, 3)
    return log


def scenario_same_time(now: integer, doc: oneof(None, "", "some text"), n: oneof(1, 2, 3)):
    c, log = module.Calendar(), []
    for x in "abc"[:n]:
        c(now, action(x, log, None, doc))
    c(now + 1, action("later", log, None, doc))
    c.run(now, 1, 2)
    c.run(now, 5)
    return log


def scenario_forms(form: oneof("several", "pair", "documented", "pairs", "functor", "mixed", "decorated", "module"), now: integer):
    c, log = module.Calendar(), []
    a, b = action("a", log, None, "text"), action("b", log)
    if form == "several":
        c(now, a, b)
    elif form == "pair":
        c(now, (a, "do a"))
    elif form == "documented":
        c(now, a, "do a")
    elif form == "pairs":
        c(now, (a, "do a"), (b, "do b"))
    elif form == "functor":
        a.functor = b
        c(now, a)
    elif form == "mixed":
        c(now, a, (b, "do b"), a)
    elif form == "module":
        c = module.attime
        c(now, b, a)
    else:
        @c(now)
        def act(*args):
            """text"""
            log.append(args)

        @c(now)
        def bare(*args):
            log.append(("bare",) + args)

        act(7)
    c.run(now, 4)
    c.run(now - 1, 5)
    return log


def scenario_permanent(now: integer, t: integer):
    """permanent events run at each step, before the dated ones"""
    c, log = module.Calendar(), []
    c(t, action("dated", log))
    c(ALWAYS, action("first", log), action("second", log))
    c.run(now, 1)
    c.run(now + 1, 2)
    return log


def scenario_stopped(which: oneof("a", "b", "c", "ab", "ca", "abc"), back: boolean):
    """an event that is stopped runs no more, the others go on"""
    c, log = module.Calendar(), []
    e = {"a": action("a", log), "b": action("b", log), "c": action("c", log)}
    c(ALWAYS, e["a"], e["b"], e["c"])
    c.run(0)
    for x in which:
        c.stop(e[x])
    c.run(1)
    if back:
        c(ALWAYS, e["a"])
    c.run(2)
    return log


def scenario_stop_forms(pair: oneof(True, False)):
    c, log = module.Calendar(), []
    a, b = action("a", log, None, "do a"), action("b", log)
    if pair:
        c(ALWAYS, (a, "text"), b)
        c.stop((a, "text"))
    else:
        c(ALWAYS, a, "text")
        c(ALWAYS, b)
        c(module.STOP, a, "text")
    c.run(5)
    return log


def scenario_stopped_while_running(who: oneof("a", "b", "c"), what: oneof("itself", "earlier"), when: oneof(0, 1)):
    """an event that removes itself, or one already run, makes no other one skipped"""
    c, log = module.Calendar(), []
    e = {}
    step = [0]

    def maker(x):
        def then():
            if x == who and step[0] == when:
                c.stop(e["a"] if what == "earlier" else e[x])

        return then

    for x in "abc":
        e[x] = action(x, log, maker(x))
        c(ALWAYS, e[x])
    for i in range(3):
        step[0] = i
        c.run(i)
    return log


def scenario_stops_itself_and_dated(now: integer):
    """one shot permanent events next to dated ones"""
    c, log = module.Calendar(), []
    e = []
    e.append(action("once", log, lambda: c.stop(e[0])))
    c(ALWAYS, e[0])
    c(now, action("dated", log))
    c(now, action("dated too", log))
    c.run(now)
    c.run(now)
    return log


def scenario_register_while_running(now: integer, t: integer):
    """an event may schedule a later one"""
    c, log = module.Calendar(), []
    late = action("late", log)
    c(now, action("first", log, lambda: c(t, late)))
    c.run(now)
    c.run(now + 1)
    return log


def scenario_ping(now: integer, t: integer):
    """the pings precede the events of a time that has some"""
    c, log = module.Calendar(), []
    c.addPing(lambda: log.append("ping"))
    c.addPing(lambda: log.append("pong"))
    c(t, action("dated", log), action("too", log))
    c(ALWAYS, action("always", log))
    c.run(now)
    return log


def scenario_fast_forward(n: oneof(0, 1, 3)):
    c, log = module.Calendar(), []
    c(0, action("start", log))
    c(2, action("two", log))
    c(3, action("three", log))
    c(4, action("four", log))
    c(ALWAYS, action("step", log))
    c.fastForward(n)
    return log


def scenario_two_calendars(now: integer):
    c, d, log = module.Calendar(), module.Calendar(), []
    c(now, action("c", log))
    d(now, action("d", log))
    c.addPing(lambda: log.append("ping"))
    d(ALWAYS, action("always", log))
    c.run(now)
    d.run(now)
    return log


class Holder:
    def __init__(self):
        self.v_ = 0
        self.r_ = 0

    @property
    def value(self):
        return self.v_

    @value.setter
    def value(self, v):
        self.v_ = v

    @property
    def ref(self):
        return self.r_

    @ref.setter
    def ref(self, v):
        self.r_ = v


def scenario_sets(v: real, w: real):
    s, m = Holder(), Holder()
    module.sigset(s, v)
    module.refset(m, w)
    return s.value, s.ref, m.value, m.ref


# --- the interruptible loop


def command(r, x):
    if x == "p":
        r.pause()
    elif x == "l":
        r.play()
    elif x == "o":
        r.once()
    elif x == "q":
        r.quit()


def scenario_loop(first: oneof("", "l", "lp", "o", "lo", "q"), script: oneof("q", "..q", ".p.q", "p..l..q", "o..q", "oo..q", "p.o..o.q", "o.l..q", ".po.l.p.q", "pq", "lq", "..pl.q")):
    """what is run between the commands given to the thread while it sleeps"""
    log = []

    def body():
        log.append("loop")

    r = threads.loopInThread(body)()
    for x in first:
        command(r, x)
    before = (r.isPlay, r.isQuit, r.isRunning, r.iter, r.started_)
    left = [script]

    def others(duration):
        log.append((r.isPlay, r.isRunning, r.iter))
        x = left[0][0]
        left[0] = left[0][1:]
        command(r, x)

    time.others_.append(others)
    r.run()
    return before, log, r.isPlay, r.isQuit, r.isRunning, r.iter, r.started_, r.daemon


def scenario_run_again():
    log = []
    r = threads.loopInThread(lambda: log.append("loop"))()
    r.setPlay(True)
    time.others_.append(lambda d: r.quit())
    r.run()
    r.run()
    return log, r.iter, r.isRunning


def scenario_shortcuts(n: oneof(0, 1, 3)):
    log = []
    r = threads.loopInThread(lambda: log.append("loop"))()
    go, stop, next, several = threads.loopShortcuts(r)
    next()
    several + n
    go()
    a = r.isPlay
    stop()
    return log, a, r.isPlay, r.started_, r.iter


def scenario_own_loop():
    class Mine(threads.ThreadInterruptibleLoop):
        count = 0

        def loop(self):
            self.count += 1
            if self.count == 3:
                self.quit()

    r = Mine()
    r.setPlay(True)
    r.run()
    s = Mine()
    return r.count, r.iter, s.count, s.iter, s.isPlay, s.isQuit


class Watched(threads.ThreadInterruptibleLoop):
    """notes the mode in which the loop finds itself when it is let go"""

    def __init__(self):
        threads.ThreadInterruptibleLoop.__init__(self)
        self.seen = []
        self.playing = False

    @property
    def isPlay(self):
        return self.playing

    @isPlay.setter
    def isPlay(self, v):
        self.playing = v
        if v is True:
            self.seen.append(self.isOnce is True)


def scenario_once_is_known_first():
    r = Watched()
    r.once()
    return r.seen, r.isPlay
