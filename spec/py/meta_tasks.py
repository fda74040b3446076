"""Scenarios of the script meta-tasks (P19)."""
from numpy import array, matrix

from dynamic_graph.sot.core import (
    feature_position,
    feature_position_relative,
    meta_task_6d,
    meta_task_posture,
    meta_task_visual_point,
    meta_tasks,
    meta_tasks_kine,
    meta_tasks_kine_relative,
)
from spec.world import Robot, Signal


def sixd(which):
    return meta_task_6d.MetaTask6d if which == "6d" else meta_tasks_kine.MetaTaskKine6d if which == "kine" else meta_task_visual_point.MetaTaskVisualPoint


def robot(have, point):
    if have == "both":
        return Robot(point, "J" + point)
    if have == "position":
        return Robot(point)
    if have == "jacobian":
        return Robot("J" + point)
    if have == "other":
        return Robot(point + "2", "J" + point + "2")
    return Robot()


def scenario_build_6d(which: oneof("6d", "kine", "visual"), name: text, point: text, ref: text, have: oneof("nothing", "both", "position", "jacobian", "other")):
    r = robot(have, point)
    t = sixd(which)(name, r, point, ref)
    return r.made, t.name, t.opPoint, t.opmodif, t.task.name, t.feature.name, t.featureDes.name, t.gain.name


def scenario_build_6d_default(which: oneof("6d", "kine", "visual")):
    r = Robot()
    sixd(which)("hand", r, "p")
    return r.made


def scenario_keep(which: oneof("6d", "kine"), point: text):
    r = Robot()
    t = sixd(which)("hand", r, point)
    r.position.time = 12
    t.keep()


def scenario_ref_6d(which: oneof("6d", "kine", "visual"), name: text, point: text, v: vec(3), w: vec(3)):
    t = sixd(which)(name, Robot(), point)
    t.ref = v
    a = t.ref
    t.ref = w
    return a, t.ref


def scenario_opmodif(which: oneof("6d", "kine", "visual"), name: text, point: text, M: rows(4, 4), N: rows(4, 4), steps: oneof("M", "MN", "MF", "F", "MFM", "MNF", "MFN", "FMFF")):
    """enabling, changing and disabling the displacement of the operational point"""
    t = sixd(which)(name, Robot(), point)
    seen = []
    for s in steps:
        t.opmodif = M if s == "M" else N if s == "N" else False
        seen.append(t.opmodif if s == "F" else None)
    return seen


def scenario_opmodif_value(which: oneof("6d", "kine", "visual"), M: rows(4, 4)):
    t = sixd(which)("hand", Robot(), "p")
    t.opmodif = M
    return t.opmodif


def scenario_visual_target(p: vec(3), q: vec(3)):
    t = meta_task_visual_point.MetaTaskVisualPoint("eye", Robot(), "camera")
    t.target = p
    t.target = q
    return t.target


def scenario_goto3D(p: vec(3), gain: oneof(None, real, vec(3), vec(4), vec(1)), ref: oneof(None, vec(2)), selec: oneof(None, text, ent("Flags"))):
    t = meta_task_visual_point.MetaTaskVisualPoint("eye", Robot(), "camera")
    t.goto3D(p, gain, ref, selec)


def scenario_goto3D_default(p: vec(3)):
    t = meta_task_visual_point.MetaTaskVisualPoint("eye", Robot(), "camera")
    t.goto3D(p)


def scenario_build_rel(name: text, p: text, b: text, rp: text, rb: text, have: oneof("nothing", "both", "position", "jacobian")):
    r = robot(have, p)
    t = meta_tasks_kine_relative.MetaTaskKine6dRel(name, r, p, b, rp, rb)
    return r.made, t.opPoint, t.opPointBase, t.name, t.opmodif, t.opmodifBase


def scenario_build_rel_base(name: text, p: text, b: text, have: oneof("both", "position", "jacobian")):
    r = robot(have, b)
    t = meta_tasks_kine_relative.MetaTaskKine6dRel(name, r, p, b)
    return r.made


def scenario_rel_opmodif(M: rows(4, 4), N: rows(4, 4), steps: oneof("M", "m", "MN", "MF", "mf", "Mm", "MmF", "Mmf", "MFM", "mfn", "mn", "fF"), p: text, b: text):
    t = meta_tasks_kine_relative.MetaTaskKine6dRel("hands", Robot(), p, b)
    seen = []
    for s in steps:
        v = M if s in "Mm" else N if s in "Nn" else False
        if s in "MNF":
            t.opmodif = v
        else:
            t.opmodifBase = v
        if s == "F":
            seen.append(t.opmodif)
        if s == "f":
            seen.append(t.opmodifBase)
    return seen, t.opmodif, t.opmodifBase


def scenario_rel_keep(v: rows(4, 4)):
    r = Robot()
    t = meta_tasks_kine_relative.MetaTaskKine6dRel("hands", r, "p", "b")
    r.position.time = 3
    t.keep()
    t.ref = v
    return t.ref


def scenario_com(kind: oneof("plain", "kine"), name: text, v: vec(3)):
    t = meta_tasks.MetaTaskCom(Robot(), name) if kind == "plain" else meta_tasks_kine.MetaTaskKineCom(Robot(), name)
    t.ref = v
    return t.name, t.ref, t.feature.name, t.featureDes.name, t.gain.name


def scenario_com_default(kind: oneof("plain", "kine")):
    t = meta_tasks.MetaTaskCom(Robot()) if kind == "plain" else meta_tasks_kine.MetaTaskKineCom(Robot())
    return t.name


def scenario_setGain(gain: ent(), val: oneof(None, real, integer, const(2), const(0), const(0.5), vec(1), vec(3), vec(4), vec(2), lst(1), lst(3), lst(4), nd(3))):
    meta_tasks.setGain(gain, val)


def scenario_generic6dReference(p: oneof(vec(3), nd(3), mat(1, 3), nd(4, 4), mat(4, 4), rows(4, 4), vec(6), nd(6))):
    return array(meta_tasks.generic6dReference(p))


def scenario_goto6d(task: ent(), p: oneof(vec(3), nd(3), nd(4, 4), rows(4, 4), vec(6)), gain: oneof(None, real, vec(3), vec(4)), reset: oneof(True, False, boolean)):
    meta_tasks.goto6d(task, p, gain, reset)


def scenario_goto6d_default(task: ent(), p: vec(6)):
    meta_tasks.goto6d(task, p)


def scenario_gotoNd(task: ent(), p: oneof(vec(3), rows(4, 4), vec(6)), selec: oneof(None, text, ent("Flags")), gain: oneof(None, real, vec(3), vec(4)), reset: oneof(True, False)):
    meta_tasks.gotoNd(task, p, selec, gain, reset)


def scenario_gotoNd_default(task: ent(), p: vec(6)):
    meta_tasks.gotoNd(task, p)


def scenario_goto_of_task(which: oneof("6d", "kine"), p: vec(6), q: vec(3), gain: vec(4), selec: text):
    """goals of a real meta-task, one after the other"""
    t = sixd(which)("hand", Robot(), "wrist")
    meta_tasks.goto6d(t, p, gain)
    meta_tasks_kine.gotoNd(t, q, selec)
    u = sixd(which)("foot", Robot(), "ankle")
    meta_tasks.gotoNd(u, p, selec, gain)
    return t.ref, u.ref


def scenario_goto6dRel(task: ent(), p: oneof(vec(3), nd(3), nd(4, 4), rows(4, 4), vec(6)), q: oneof(vec(3), vec(6)), gain: oneof(None, real, vec(4)), reset: oneof(True, False)):
    meta_tasks_kine_relative.goto6dRel(task, p, q, gain, reset)


def scenario_gotoNdRel(task: ent(), p: oneof(vec(3), rows(4, 4)), q: oneof(vec(3), vec(6)), selec: oneof(None, text, ent("Flags")), gain: oneof(None, real, vec(4)), reset: oneof(True, False)):
    meta_tasks_kine_relative.gotoNdRel(task, p, q, selec, gain, reset)


def scenario_gotoRel_default(task: ent(), p: vec(6), q: vec(3)):
    meta_tasks_kine_relative.goto6dRel(task, p, q)
    meta_tasks_kine_relative.gotoNdRel(task, q, p)


def posture(kind, name):
    return meta_task_posture.MetaTaskPosture(Robot(), name) if kind == "plain" else meta_task_posture.MetaTaskKinePosture(Robot(), name)


def scenario_posture(kind: oneof("plain", "kine"), name: text, v: vec(3)):
    t = posture(kind, name)
    t.ref = v
    return t.name, t.ref


def scenario_posture_default(kind: oneof("plain", "kine")):
    t = meta_task_posture.MetaTaskPosture(Robot()) if kind == "plain" else meta_task_posture.MetaTaskKinePosture(Robot())
    return t.name


def scenario_gotoq(limb: oneof("rleg", "rhip", "rknee", "rankle", "lleg", "lhip", "lknee", "lankle", "chest", "head", "rarm", "rshoulder", "relbow", "rwrist", "rhand", "larm", "lshoulder", "lelbow", "lwrist", "lhand"), v: vec(6), gain: oneof(None, real, vec(3))):
    t = posture("kine", "posture")
    n = {"rleg": 6, "rhip": 3, "rknee": 1, "rankle": 2, "lleg": 6, "lhip": 3, "lknee": 1, "lankle": 2, "chest": 2, "head": 2, "rarm": 6, "rshoulder": 3, "relbow": 1, "rwrist": 2, "rhand": 1, "larm": 6, "lshoulder": 3, "lelbow": 1, "lwrist": 2, "lhand": 1}[limb]
    t.gotoq(gain, **{limb: v[:n]})


def scenario_gotoq_several(v: vec(6), w: vec(2)):
    t = posture("kine", "posture")
    t.gotoq(5, rleg=v, head=w, chest=[])


def scenario_gotoq_matrix(v: mat(1, 6)):
    t = posture("kine", "posture")
    t.gotoq(None, larm=v)


def scenario_gotoq_goal(q: vec(36), w: vec(2), gain: vec(4)):
    """a complete goal, before any other use"""
    t = posture("kine", "posture")
    t.gotoq(gain, q, head=w)


def scenario_gotoq_goal_only(q: oneof(vec(36), mat(36, 1))):
    t = posture("kine", "posture")
    t.gotoq(None, q)


def scenario_gotoq_twice(v: vec(2), w: vec(6), q: vec(36)):
    t = posture("kine", "posture")
    t.gotoq(None, head=v)
    a = t.ref
    t.gotoq(3, q, rarm=w)
    return a


def scenario_gotoq_two_robots(v: vec(2)):
    t = posture("kine", "one")
    t.gotoq(None, head=v)
    r = Robot()
    r.position.value = tuple(30 * [0.25])
    u = meta_task_posture.MetaTaskKinePosture(r, "two")
    u.gotoq(None, head=v)
    return t.ref, u.ref


def scenario_gotoq_refused(v: vec(2)):
    t = posture("kine", "posture")
    t.gotoq(None, tail=v)


def scenario_feature_position(name: text, p: oneof(None, signal), J: oneof(None, signal), ref: oneof(None, rows(4, 4))):
    f = feature_position.FeaturePosition(name, p, J, ref)
    return f.name, f.position, f.reference, f.velocity, f.Jq, f.error, f.errordot, f.selec, f.obj


def scenario_feature_position_access(name: text, asked: oneof("position", "reference", "Jq", "error", "selec", "velocity", "none", text)):
    f = feature_position.FeaturePosition(name)
    return f.signal(asked)


def scenario_feature_position_other(name: text, fr: text):
    f = feature_position.FeaturePosition(name)
    g = feature_position.FeaturePosition(name + "2")
    f.frame(fr)
    g.keep()
    return tuple(f.signals()), tuple(g.signals()), f.commands(), f.getFrame(), f.signal("Jq"), g.signal("Jq")


def scenario_feature_relative(name: text, bp: oneof(None, signal, rows(4, 4)), op: oneof(None, signal, rows(4, 4)), br: oneof(None, signal, rows(4, 4)), ort: oneof(None, signal, rows(4, 4)), Jb: oneof(None, signal), Jo: oneof(None, signal)):
    f = feature_position_relative.FeaturePositionRelative(name, bp, op, br, ort, Jb, Jo)
    return f.name, f.basePosition, f.otherPosition, f.baseReference, f.otherReference, f.JqBase, f.JqOther, f.error, f.jacobian, f.selec, f.obj


def scenario_feature_relative_access(name: text, asked: oneof("basePosition", "otherPosition", "baseReference", "otherReference", "JqBase", "JqOther", "error", "jacobian", "selec", "x", text)):
    f = feature_position_relative.FeaturePositionRelative(name)
    return f.signal(asked)


def scenario_feature_relative_other(name: text, fr: text):
    f = feature_position_relative.FeaturePositionRelative(name)
    f.frame(fr)
    f.keep()
    return tuple(f.signals()), f.commands()
