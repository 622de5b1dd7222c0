"""What each check runs: parts = (harness, property function inside it)."""


def h1(prop, **kw):
    return dict(harness="h1", prop=prop, **kw)


MODEL_NOTE = ("Random search, no proof. The oracle is an independent reference model of the documented semantics, compared step by step "
              "(callbacks with arguments, active states, failures). Generated transitions stay inside one parent, as the documentation requires; "
              "machines are driven through a hand-pumped dispatcher, so thread interleavings are covered by C18..C20 instead.")
CHECKS = {}


def check(pid, parts, technique, note, assumptions=()):
    CHECKS[pid] = dict(parts=parts, technique=technique, note=note, assumptions=list(assumptions))


T_MODEL = "model-based property testing: random machines and histories against a reference model, with shrinking"
for i in range(1, 14):
    pid = "C%02d" % i
    extra = {11: [h1("C11/pending")], 12: [h1("C12/args")]}.get(i, [])
    check(pid, [h1(pid)] + extra, T_MODEL, MODEL_NOTE)
check("C14", [dict(harness="h1life", prop="C14")],
      "stateful property testing of machine life cycles on a shared dispatcher, against the reference model",
      "Random search. Checks traces, handler registration, allocation balance and (ASan) memory safety of every initialize/release/destroy "
      "order, with failing dispatchers and late handler calls. Concurrent release is covered by C20.")
check("C25", [dict(harness="h1log", prop="C25")],
      "model-based property testing: the written log is parsed back (round trip through a YAML loader) and compared with the reference model's steps",
      "Random search. Timestamps are checked for form only. Names and arguments include quotes, control characters and non-ASCII text.")
V_NOTE = ("Random search over generated values (nested up to depth 2, boundary numbers, arbitrary bytes). NaN, values of unlisted C++ types (float, long long, char) and custom types "
          "without == and > are outside the domain; results the documentation leaves open (such as int64 versus double beyond 2^53, order of maps and of different types) are only checked against the laws.")
check("C22", [dict(harness="h2", prop="C22")], "stateful model-based property testing of Variant objects under AddressSanitizer", V_NOTE)
check("C23", [dict(harness="h2", prop="C23")], "property testing of conversions against a reference model and text round trips", V_NOTE)
check("C24", [dict(harness="h2", prop="C24"), dict(harness="h2", prop="C24/order")], "property testing of comparison operators: model comparison and algebraic laws over pairs and triples", V_NOTE)

def h4(prop, **kw):
    return dict(harness="h4", prop=prop, **kw)


def h3(prop):
    return [dict(harness="h3g", prop=prop + "/GLib"), dict(harness="h3m", prop=prop + "/GLibmm"), dict(harness="h3q", prop=prop + "/Qt")]


def ard(prop):
    return [dict(harness="h6", prop=prop + "/Arduino")]


T_SCHED = ("generated multi-threaded programs under generated interleavings (deterministic scheduler with simulated clock and signals; random, PCT-like and "
           "delay-bounded strategies), checked against a history oracle, with shrinking of program and schedule")
S_NOTE = ("Random search over interleavings, no proof. The library's threads run as fibers; threads switch at every pthread call and, by compiler instrumentation, at any load or store of the "
          "library, so data races between its accesses are explored under sequential consistency only (no weak memory effects). ")
A_NOTE = ("The part named Arduino is single threaded, with a simulated clock (including its overflow) and interrupts between any two memory accesses of the library. ")
B_NOTE = A_NOTE + ("Parts named GLib, GLibmm and Qt run the same generators on these dispatchers; their event loop is the real one, running in a fiber with simulated clock, poll(), read() and write(). ")
check("C15", [h4("C15")] + h3("C15") + ard("C15"), T_SCHED, S_NOTE + B_NOTE + "Time is simulated. Exact schedules are required if the generated case has no computation cost or clock jumps, lower bounds and counts otherwise.")
check("C16", [h4("C16"), h4("C16/burst")] + h3("C16") + h3("C16/burst") + ard("C16"), T_SCHED, S_NOTE + B_NOTE)
check("C17", [h4("C17")] + h3("C17") + ard("C17"), T_SCHED, S_NOTE + B_NOTE + "On Qt the interrupt-safe calls are made from threads only (known finding). " + "Signal handlers interrupt any instrumented access or blocking call; allocations inside of the interrupt-safe calls are detected by replaced allocation functions.")
check("C18", [h4("C18")] + h3("C18"), T_SCHED, S_NOTE + B_NOTE)
check("C19", [h4("C19")] + h3("C19"), T_SCHED, S_NOTE + B_NOTE)
check("C20", [h4("C20")] + h3("C20") + ard("C20"), T_SCHED, S_NOTE + B_NOTE + "Lifetime errors are also reported by AddressSanitizer. Dispatchers which use a loop are stopped, restarted and destroyed on the loop's thread.")
check("C21", [h4("C21")] + h3("C21") + ard("C21"),
      "differential property testing: random machines and stimuli (events of threads, actions, interrupt-safe events, timers) run on each bundled dispatcher and on a minimal reference dispatcher in virtual time; traces must be equal",
      "Random search. Stimuli and timer expiries are kept at least 3 ms apart (other cases are discarded), so that the expected order is defined. Time is simulated.")
check("C29", [h4("C29")], T_SCHED + "; stateful tests of lock ownership", S_NOTE)

G_NOTE = ("Random search. Generated documents stay inside what scxml2gen supports: history default transitions have an event attribute (others are skipped by design), final states are no children of parallel states, "
          "initial names a child, one callback name is used for one signature (an exit callback may share its name). ")
check("C26", [dict(harness="h5", prop="C26")],
      "property testing of the code generator: random SCXML documents; generated classes are compiled against the real headers and all their registrations are recorded and compared with the chart; two runs with different hash seeds are compared",
      G_NOTE + "Registrations are recorded below the public template API; what the machine does with them is covered by C01..C13.")
check("C27", [dict(harness="h5", prop="C27")], "property testing of the diagram generator: the PlantUML text is parsed back and compared with the random chart it was generated from",
      G_NOTE + "Callbacks of composite states are not part of the diagram. Highlighting (used by the debugger) is part of C30.")
check("C28", [dict(harness="h5", prop="C28"), dict(harness="h5", prop="C28/invalid")],
      "metamorphic property testing (random documents, randomly split into included files, must give the registrations of the unsplit chart) and fault injection into documents",
      G_NOTE + "Unknown transition targets and duplicate ids are found by the C++ compiler only, and are not part of the property.")
check("C30", [dict(harness="h5", prop="C30")],
      "stateful property testing of the debugger: random charts, logs and user sessions run the real application on a stand-in toolkit and renderer (which finishes, blocks or is killed as generated); every displayed diagram is parsed and compared with chart and log entry, lists and menus with a model",
      "Random search. PySide6 isn't installed here: the toolkit is a stand-in (signals, queued delivery across threads, item models, settings, .ui files), so Qt's own behaviour and drawing are not covered. Logs have the format of the library (checked by C25) and fit the chart. Search filters are plain text.")
