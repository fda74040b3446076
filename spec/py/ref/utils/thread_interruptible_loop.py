"""Reference: a loop run by a thread, played, paused and ended on demand."""
import threading
import time


class ThreadInterruptibleLoop(threading.Thread):
    sleepTime = 1e-3

    def __init__(self):
        threading.Thread.__init__(self)
        self.daemon = True
        self.isQuit = False
        self.isPlay = False
        self.isOnce = False
        self.isRunning = False
        self.iter = 0

    def quit(self):
        self.isQuit = True

    def setPlay(self, mode):
        self.isPlay = mode

    def play(self):
        if not self.isRunning:
            self.start()
        self.isOnce = False
        self.isPlay = True

    def pause(self):
        self.isPlay = False

    def once(self):
        self.isOnce = True
        self.isPlay = True

    def start(self):
        self.isPlay = True
        threading.Thread.start(self)

    def run(self):
        self.isQuit = False
        self.isRunning = True
        while not self.isQuit:
            if self.isPlay:
                self.loop()
                self.iter += 1
                if self.isOnce:
                    self.isPlay = False
            time.sleep(self.sleepTime)
        self.isRunning = False

    def loop(self):
        pass


def loopInThread(f):
    class Looped(ThreadInterruptibleLoop):
        def loop(self):
            f()

    return Looped


def loopShortcuts(runner):
    def go():
        runner.play()

    def stop():
        runner.pause()

    def next():
        runner.loop()

    class Several:
        def __add__(self, n):
            i = 0
            while i < n:
                runner.loop()
                i += 1

    return [go, stop, next, Several()]
