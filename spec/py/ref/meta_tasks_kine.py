"""Reference of meta_tasks_kine.py."""
from dynamic_graph.sot.core.meta_task_6d import MetaTask6d
from dynamic_graph.sot.core.meta_tasks import MetaTaskCom, gotoNd
from dynamic_graph.sot.core.task import Task


class MetaTaskKine6d(MetaTask6d):
    pass


class MetaTaskKineCom(MetaTaskCom):
    def __init__(self, dyn, name="com"):
        MetaTaskCom.__init__(self, dyn, name)
        self.task = Task("task" + name)
        self.plugTask()
