"""Regenerates MANIFEST.json from the claimed list below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "P22": "ownership/typestate analysis over all paths of the operations that acquire, hold or release resources",
 "P23": "noninterference of each output from its former value by value numbering of the callbacks; terms it does not settle are compared under random interpretations",
 "P10": "lockset dataflow analysis over the class's operations, plus value numbering of what is stored and delivered",
 "P18": "whole-program query over the typed syntax tree: factory registrations, script modules and command bindings resolved by constant propagation and set/get effect analysis",
 "P11": "value numbering (symbolic normal forms, GVN by random interpretation) of every feature's dimension, error, error derivative and Jacobian against reference semantics over all selections",
 "P17": "definite-assignment dataflow analysis of every member and local variable over the typed syntax tree, interprocedural, with flag guards",
 "P08": "abstract interpretation of the device to normal-form terms (the control step inlined, periodic calls raising anything), compared with reference semantics",
 "P07": "value numbering (symbolic normal forms, GVN by random interpretation) of every accessor, modifier and conversion of the robot description against its reference semantics",
 "P05": "value numbering (symbolic normal forms, GVN by random interpretation) of every look-up, registration and refusing operation against its reference semantics, the state after a refusal included",
 "P03": "value numbering (symbolic normal forms with a set abstraction of the declared dependencies, GVN by random interpretation) of every attach, detach, replace and clear operation against its reference semantics",
 "P09": "value numbering (symbolic normal forms, GVN by random interpretation) of every operation of the task stack against its reference semantics, plus a traversal-order rule over the solver",
 "P01": "interprocedural signal-effect analysis (read set of each callback vs declared dependency closure) over the resolved AST of all units",
 "P02": "registration/typestate analysis of every constructor chain and constant propagation of signal names",
 "P04": "value numbering of every exception/task-diagnostic function against its reference semantics, plus syntactic catch/throw rules over all units",
 "P06": "value numbering (symbolic normal forms, GVN by random interpretation) of every stop-watch operation against its reference semantics",
 "P12": "value numbering (symbolic normal forms, GVN by random interpretation) of the Flags operators against the bit-set reference semantics",
 "P13": "value numbering (symbolic normal forms, GVN by random interpretation) of the MultiBound/VectorMultiBound operations against their reference semantics",
 "P15": "value numbering (symbolic normal forms, GVN by random interpretation) of every filter against its reference semantics",
 "P16": "value numbering (symbolic normal forms, GVN by random interpretation) of every limiter, control law, gain and switching element against its reference semantics",
 "P21": "value numbering (symbolic normal forms, GVN by random interpretation) of every text reader against its reference semantics over modelled streams",
 "P19": "abstract interpretation of the Python scripts into normal-form terms (wiring, values and calls on every entity), compared with reference semantics over all scenario parameters",
 "P20": "value numbering of the periodic call table and the timed task events, abstract interpretation of the Python calendar and loop over all registration and removal scenarios, against reference semantics",
 "P14": "value numbering (symbolic normal forms, GVN by random interpretation) of every rotation, pose and twist conversion against its reference formulas",
 "P24": "value numbering (symbolic normal forms, GVN by random interpretation) of every vector/matrix operator against its reference semantics",
}
NA = {
 "P25": "convergence, optimality and timing quantify over closed-loop trajectories of real-valued dynamics: no sound static argument over the source reaches them",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "python3 -m sa.check %s --tier quick" % i,
                       "thorough_cmd": "python3 -m sa.check %s --tier thorough" % i,
                       "technique": "static analysis: " + CLAIMED[i], "level": "other",
                       "level_note": "decided from the current source for all inputs within the stated abstraction; see DESIGN.md"})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 -m sa.model", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
