"""threads as a script starts them: nothing runs until the scenario calls run()"""


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.started_ = 0
        self.joined_ = 0

    def start(self):
        if self.started_ > 0:
            raise RuntimeError("threads can only be started once")
        self.started_ += 1

    def join(self, timeout=None):
        self.joined_ += 1

    def run(self):
        pass
