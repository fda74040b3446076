#!/usr/bin/env python3
"""Source of properties.jsonl (one call per property)."""
import json, os
OUT = []


def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    OUT.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
                "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                            **({"observe_at": observe} if observe else {}), "hook_needed": None}})


P("P01", "A computed signal is never stale: every signal it reads is a dependency",
  "Whatever signal (of the same entity or of an attached reference) the computation of an output or inner signal may read, directly or through helpers, is covered by the dependencies that signal declares, so that a change of that input at a later time always triggers a recomputation. This holds for every entity of the library, including when a reference is attached or replaced.",
  ["histories", "programs", "inputs"],
  "Every entity class, every output of it, every control path of the computation, every order of input changes and recomputations.",
  "A missing edge only shows when that single input moves while all declared inputs stay still; tests (7 reliable ones, none of which evaluates the graph) recompute everything at once.",
  ["src/feature", "src/task", "src/tools", "src/control", "src/filters", "src/matrix", "src/math", "src/sot/sot.cpp", "src/traces/reader.cpp", "include/sot/core"],
  [("dependency lists given to output signal constructors", "constructors of all entities"),
   ("addDependency / addDependencies calls", "constructors, attach operations"),
   ("dependencies added from the reference feature", "include/sot/core/feature-abstract.hh and subclasses")],
  observe=["value of an output after one of its inputs changed"])

P("P02", "Every signal an entity owns is registered under a unique name",
  "Every signal an entity constructs is registered in that entity, whichever constructor built it, so that scripts can reach it by name; no two signals of one entity carry the same short name (the second would hide the first). The direction announced in the signal's full name (input / output / inner) agrees with what the signal does.",
  ["programs", "configurations"],
  "All entity classes, all their constructors, all signal members including inherited ones.",
  "Each forgotten registration concerns one signal of one class; the tests instantiate almost none of the classes.",
  ["src", "include/sot/core"],
  [("signal registration in constructors", "constructors of all entities"), ("signal naming strings", "member initialisers")],
  observe=["looking a signal up by name"])

P("P03", "Attaching and detaching keep the dependency graph and the stored list in step",
  "Adding an element (a feature to a task, a task to the solver, an input to a variadic operator, a reference to a feature) records it and adds exactly the dependencies needed; removing, replacing or clearing it undoes exactly those, even for an element that was already present or absent. After any sequence of such operations the set of declared dependencies is the one implied by the stored list, and the affected outputs are marked for recomputation.",
  ["histories"],
  "Every sequence of add / remove / replace / clear operations.",
  "A leaked or missing edge needs a particular multi-step history (add, remove, recompute); no reliable test edits the graph.",
  ["src/task/task.cpp", "src/sot/sot.cpp", "include/sot/core/variadic-op.hh", "include/sot/core/feature-abstract.hh", "src/feature"],
  [("feature list edits", "src/task/task.cpp"), ("task stack edits", "src/sot/sot.cpp"), ("signal add/remove of variadic operators", "include/sot/core/variadic-op.hh"), ("reference set/unset", "include/sot/core/feature-abstract.hh")])

P("P04", "An exception keeps its code, its text and its formatted detail",
  "Every exception of the library reports the code it was built with and a message that contains the text it was given followed by the formatted detail when a format is given, formatted within a bounded buffer. Each family reports its own distinct name and its codes do not overlap those of another family.",
  ["inputs"],
  "Every exception class, every constructor, every code, text, format string and argument list (including oversized ones).",
  "No test constructs an exception with a format; the bug classes (message overwritten, overrun, wrong code) depend on the constructor and argument length.",
  ["src/exception", "include/sot/core/exception-abstract.hh"],
  [("variadic constructors", "src/exception/*.cpp"), ("code and message accessors", "src/exception/exception-abstract.cpp"), ("enumerations of codes", "include/sot/core/exception-*.hh")])

P("P05", "Unknown names and invalid requests are rejected and leave the state unchanged",
  "A lookup of an unregistered object, a registration of an already used name, a request with an out-of-range index or an invalid value is refused with an error, never answered with a null, dangling or out-of-range element, and it leaves the state of the component unchanged. Valid requests succeed and return the element that was registered.",
  ["inputs", "histories"],
  "All names / indices / values passed to the lookup and configuration operations, on any reachable state.",
  "Only a handful of valid names are exercised; the refusals are rare paths.",
  ["src/factory/pool.cpp", "src/factory/factory.cpp", "include/sot/core/variadic-op.hh", "include/sot/core/switch.hh", "src/tools/device.cpp", "src/tools/parameter-server.cpp", "src/utils/stop-watch.cpp", "src/task/multi-bound.cpp"],
  [("name lookup and registration", "src/factory/pool.cpp"), ("range checks", "include/sot/core/variadic-op.hh, include/sot/core/switch.hh"), ("validation before assignment", "setters and commands")])

P("P06", "Stop-watch accounting",
  "Measuring while the stop-watch is disabled changes nothing; an unknown measure name is refused. For an enabled one, stopping adds exactly the time elapsed since the matching start to the total (plus what pauses saved), updates last / minimum / maximum consistently and counts one stop; pausing accumulates elapsed time of the same clock; resetting clears every counter, and the reported average is total over number of stops.",
  ["histories", "inputs"],
  "Every sequence of start / pause / stop / reset / query on any set of names, in either time mode and whether or not the watch is active.",
  "No test drives the stop-watch; time values make example tests imprecise.",
  ["src/utils/stop-watch.cpp", "include/sot/core/stop-watch.hh"],
  [("per-name performance record", "include/sot/core/stop-watch.hh"), ("start/pause/stop/reset", "src/utils/stop-watch.cpp")])

P("P07", "Robot description look-ups are consistent and usable only once initialised",
  "Before initialisation every accessor or modifier of the robot parameters refuses (reports and changes nothing). Afterwards every name an index maps to maps back to that index, the joint reordering between the two conventions is a pair of mutually inverse permutations applied in the right direction, and each accessor reads or writes the quantity its name announces.",
  ["histories", "inputs"],
  "All sequences of configuration commands and queries, all joint names / indices, including unknown ones.",
  "The robot utility test needs the external package and is not run; mixing up two sibling fields is invisible unless that field is used.",
  ["src/tools/parameter-server.cpp", "src/tools/robot-utils.cpp", "include/sot/core/robot-utils.hh"],
  [("initialisation guards", "src/tools/parameter-server.cpp"), ("joint / force maps", "src/tools/robot-utils.cpp")])

P("P08", "A device integrates only valid, bounded controls and publishes the result",
  "During a control step with the sanity checks on, a control containing a non-number is refused without changing the state; otherwise the state is the exact integral of the control for the current input mode, the position, and the velocity where it is controlled or integrated, are kept within the configured bounds when the sanity checks are on, and only then are the state and derived outputs published. Bounds of the wrong size are refused; an exception raised by a periodic call never aborts the step.",
  ["inputs", "histories", "fault_sequences"],
  "All controls (including NaN), all states, bounds, modes and failing periodic calls.",
  "The device test needs the external package and is not run; it samples one control.",
  ["src/tools/device.cpp", "include/sot/core/device.hh"],
  [("integration and clamping", "src/tools/device.cpp"), ("step and publication order", "src/tools/device.cpp")])

P("P09", "The task stack keeps its order",
  "Pushing appends a task at the lowest priority, removing takes out exactly the named task, moving up or down swaps it with exactly its neighbour and moving the first up / last down changes nothing, and clearing empties the stack. The relative order of all other tasks is preserved, and the solver always walks the stack from highest to lowest priority.",
  ["histories", "inputs"],
  "Every sequence of push / remove / up / down / clear on every stack.",
  "No reliable test builds a stack.",
  ["src/sot/sot.cpp", "include/sot/core/sot.hh"],
  [("stack operations", "src/sot/sot.cpp")])

P("P10", "Data shared between threads is only touched under its lock",
  "Every access to the data a mailbox shares between its producer and its consumers happens while its lock is held, every lock taken is released on all paths (including exceptions), and a reader always obtains an object that was completely written. A failed attempt to take the lock leaves the shared data untouched.",
  ["schedules"],
  "All interleavings of producers and consumers.",
  "Interleavings cannot be enumerated by the tests; the mailbox test is not part of the reliable set.",
  ["include/sot/core/mailbox.hh", "include/sot/core/mailbox.hxx", "src/tools/mailbox-vector.cpp"],
  [("mailbox lock", "include/sot/core/mailbox.hxx")])

P("P11", "A feature's dimension, error and Jacobian select the same rows",
  "For every selection mask, the dimension a feature announces is the number of selected components among those it has, and its error, its error derivative and its Jacobian contain exactly the selected components, in the same order, one row per selected component. No component beyond the announced dimension is written and none is left undefined.",
  ["inputs", "configurations"],
  "All selection masks and input values, for every feature of the library.",
  "A test samples one or two masks on one feature; and these tests do not run here.",
  ["src/feature", "include/sot/core/feature-pose.hxx", "include/sot/core/feature-abstract.hh"],
  [("dimension, error, jacobian callbacks", "src/feature/*.cpp, include/sot/core/feature-pose.hxx")])

P("P12", "Selection flags form a boolean algebra over unbounded index",
  "A flag set answers for every non-negative index, including those beyond the stored ones; setting or clearing a stored index changes that index only, and one beyond the stored ones is left as it is; conjunction, disjunction, their in-place forms and complement are the index-wise operations, including on the unbounded tail; and the value is true exactly when some index is selected. Writing a flag set as text and reading the text back gives the same answers for the written indices.",
  ["inputs", "histories"],
  "All flag sets, indices and operation sequences.",
  "The flag test needs the external package and samples a few sets.",
  ["src/sot/flags.cpp", "include/sot/core/flags.hh"],
  [("element access and set algebra", "src/sot/flags.cpp")])

P("P13", "A bound is used according to its mode",
  "A bound holds either a single value or a lower / upper pair each of which may be absent; reading a side that was not set, or reading with the wrong mode, is refused, and setting a side affects only that side and switches the mode. Copying and text output reproduce mode, presence and values; malformed text is refused.",
  ["inputs", "histories"],
  "All construction and setter sequences and all texts.",
  "The multi-bound test needs the external package and follows one path.",
  ["src/task/multi-bound.cpp", "include/sot/core/multi-bound.hh"],
  [("mode field and guards", "src/task/multi-bound.cpp")])

P("P14", "Rotation, pose and twist conversions follow one convention",
  "Conversions between rotation matrices, roll-pitch-yaw, quaternions, axis-angle and homogeneous matrices, in the operators as well as in the script helpers, describe the same rotation in both directions; extracted or assembled parts occupy the same rows and columns on both sides. The twist matrix of a pose is its spatial adjoint, and the inverse pose / twist / skew operators are true inverses.",
  ["inputs"],
  "All rotations, poses and vectors (real arithmetic).",
  "Five script tests compare a handful of numbers; a transposed or sign-flipped entry can cancel on symmetric inputs.",
  ["src/matrix/operator.hh", "include/sot/core/matrix-geometry.hh", "src/dynamic_graph/sot/core/matrix_util.py", "src/matrix/vector-to-rotation.cpp"],
  [("conversion operators", "src/matrix/operator.hh"), ("adjoint", "include/sot/core/matrix-geometry.hh"), ("script helpers", "src/dynamic_graph/sot/core/matrix_util.py")])

P("P15", "Linear filters apply their difference equation to the right past samples",
  "A recursive filter's output is the numerator-weighted sum of the current and past inputs minus the denominator-weighted sum of past outputs, divided by the leading denominator coefficient; each sample is stored exactly once, at the slot that will be read as 'k steps ago' k steps later, and derivatives reported with it are the backward differences the interface announces. Changing the coefficients re-initialises the buffers to their new size before the next sample.",
  ["inputs", "histories"],
  "All orders, coefficients, signal sizes, input sequences and step counts (real arithmetic).",
  "No reliable test runs a filter; off-by-one buffer errors appear only after wrap-around.",
  ["src/filters/causal-filter.cpp", "include/sot/core/fir-filter.hh", "include/sot/core/integrator-euler.hh", "include/sot/core/derivator.hh", "src/tools/exp-moving-avg.cpp", "src/tools/gradient-ascent.cpp"],
  [("circular buffers", "src/filters/causal-filter.cpp, include/sot/core/fir-filter.hh"), ("recurrences", "include/sot/core/integrator-euler.hh")])

P("P16", "Limiting blocks never exceed their limits and control laws match their formula",
  "Blocks that limit a quantity output a value between the limits they were given and equal to the input whenever that lies strictly inside; proportional-derivative, gravity and gain laws compute the formula they document from the inputs it names. Switching elements (edge detectors, latches, freezers, selectors) output exactly the branch selected by their condition.",
  ["inputs", "histories"],
  "All inputs and limits with lower <= upper (real arithmetic).",
  "One control-law test samples a single vector and does not run here.",
  ["src/tools/joint-limitator.cpp", "src/tools/neck-limitation.cpp", "src/tools/gripper-control.cpp", "src/control", "src/task/gain-adaptive.cpp", "src/task/gain-hyperbolic.cpp", "src/tools/latch.cpp", "include/sot/core/switch.hh", "include/sot/core/event.hh"],
  [("saturations", "src/tools, src/control"), ("control laws", "src/control, src/task")])

P("P17", "An entity never computes with uninitialised memory",
  "Every plain member (number, boolean, enumeration, raw pointer, or matrix of a given size) that an operation of a component may read is given a value by every constructor, or by an operation that necessarily precedes the read; so is every such local variable. Results therefore only depend on the inputs, never on leftover memory.",
  ["histories", "configurations"],
  "All classes, all constructors, all orders of the operations.",
  "Leftover memory is often zero in small tests, so such reads pass unnoticed.",
  ["src", "include/sot/core"],
  [("constructors and in-class initialisers", "all classes")])

P("P18", "Commands and classes reach what their name announces",
  "Every class offered by the library is registered once under a unique name equal to the class name it reports, and its script module exposes that same class. Every command or attribute is registered under a name unique in the entity (ancestors included), sets and gets with one name concern the same quantity, and a command hands its arguments to the operation in order.",
  ["configurations", "programs"],
  "All plugin classes, all commands of all entities.",
  "Commands are data: a swapped pointer compiles, and the tests call almost none of them.",
  ["src", "include/sot/core", "src/dynamic_graph"],
  [("factory registrations", "src/**/*.cpp"), ("addCommand calls", "constructors"), ("script modules", "src/**/*-python.h, src/**/*-py.cc")])

P("P19", "Script meta-tasks wire complete and consistent control chains",
  "Building a meta-task plugs every signal its feature and task need, exactly once, and position and Jacobian (or lever arms) always come from the same body, sensor or operational point; optional parts that are enabled and disabled return to the original wiring. Setting a goal or a gain writes the desired value to the desired side, the mask to the selection and the gain to the gain of that very task.",
  ["configurations", "inputs"],
  "All parameters of the meta-task constructors, goal and gain helpers, every option path.",
  "The script tests only cover the matrix helpers; the meta-tasks need the external package.",
  ["src/dynamic_graph/sot/core"],
  [("plug calls", "src/dynamic_graph/sot/core/meta_task*.py, feature_position*.py"), ("goal and gain helpers", "src/dynamic_graph/sot/core/meta_tasks*.py, meta_task_6d.py")])

P("P20", "Periodic and scheduled calls run exactly when due and can be removed",
  "A signal registered for periodic refresh is refreshed at every call whose time is a multiple of its period and at no other, under the name it was registered; registering a name twice is refused or replaces, removing or clearing stops it. Timed script events run exactly at their time and in insertion order, permanent ones at each step, and an event removed while others run does not make another one skipped.",
  ["histories", "schedules"],
  "All periods (at least one), times, registration and removal sequences.",
  "No reliable test touches scheduling.",
  ["src/tools/periodic-call.cpp", "include/sot/core/periodic-call.hh", "src/dynamic_graph/sot/core/utils/attime.py", "src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py", "src/tools/sequencer.cpp"],
  [("periodic call table", "src/tools/periodic-call.cpp"), ("event calendar", "src/dynamic_graph/sot/core/utils/attime.py"), ("control loop thread", "src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py")])

P("P21", "Text readers deliver every complete line or sample once, in order",
  "A reader of a growing text source delivers each complete line exactly once, in order and with its full content, never a partial one, whatever the line lengths and whenever the source grows. Data files and trajectories are read record by record: rows keep their order and length, selected columns are exactly the masked ones, and end of data stops the reading.",
  ["inputs", "histories"],
  "All contents, line lengths, growth histories and masks.",
  "The file test only checks that files can be opened.",
  ["src/debug/contiifstream.cpp", "include/sot/core/contiifstream.hh", "src/traces/reader.cpp", "src/tools/trajectory.cpp"],
  [("incremental line reader", "src/debug/contiifstream.cpp"), ("sample reader", "src/traces/reader.cpp"), ("trajectory parser", "src/tools/trajectory.cpp")])

P("P22", "Resources and plug-in lifecycle are balanced",
  "What a component acquires (loaded library, controller object, file, owned sub-object) it releases exactly once, with the matching operation, on every path including failures and re-initialisation, and never uses it after release. A loader refuses to step before a controller is loaded and initialised.",
  ["histories", "fault_sequences"],
  "All sequences of initialise / load / step / clean-up with any failing step.",
  "The loader tests exercise the success path and are not in the reliable set.",
  ["src/tools/sot-loader.cpp", "include/sot/core/sot-loader.hh", "src/task/task-abstract.cpp", "src/tools/sequencer.cpp", "src/filters/filter-differentiator.cpp", "src/debug/debug.cpp"],
  [("dynamic library handling", "src/tools/sot-loader.cpp"), ("owning pointers", "include/sot/core")])

P("P23", "Every computed output is fully defined on every path",
  "Whenever the computation of an output returns normally it has given a complete new value to the result (every element, at the size the inputs dictate), and returns that result; it never returns with an element left over from an earlier evaluation. When it cannot compute it raises an error. Outputs which hold a value on purpose are outside this: a mailbox nobody could read, a replayed file past its last row, an entity not yet initialised, a trigger signal, an operator without operands.",
  ["inputs", "histories"],
  "All outputs, all control paths, all input sizes.",
  "Leftovers from the previous evaluation coincide with the right value in short tests.",
  ["src", "include/sot/core"],
  [("signal callbacks", "all entities")])

P("P24", "Vector and matrix operators combine exactly the announced operands",
  "Selection, stacking, sums, products, logical and comparison operators over one, two or any number of operands use every operand once, in declared order and with its declared index range and coefficient, for every number and size of operands. Out-of-range requests are refused rather than read.",
  ["inputs", "configurations"],
  "All operand counts, sizes, selections and coefficients.",
  "The operator test needs the external package and samples small vectors.",
  ["src/matrix/operator.hh", "include/sot/core/variadic-op.hh", "include/sot/core/binary-op.hh"],
  [("operator functors", "src/matrix/operator.hh")])

P("P25", "Closed-loop behaviour: convergence, optimality and timing",
  "Under the computed control the task errors decrease at the configured rate as far as higher priorities permit, estimators converge to the true state, and every control step completes within its period.",
  ["inputs", "histories", "schedules"],
  "All robots, tasks, gains, noise sequences and machines.",
  "Numerical and real-time behaviour depends on runtime quantities.",
  ["src/sot/sot.cpp", "src/tools/kalman.cpp", "src/filters/madgwickahrs.cpp"],
  [("prioritised least squares", "src/sot/sot.cpp"), ("Kalman and Madgwick updates", "src/tools/kalman.cpp, src/filters/madgwickahrs.cpp")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for o in OUT:
            assert len(o["title"]) <= 80, o["id"]
            f.write(json.dumps(o) + "\n")
    print(len(OUT))
