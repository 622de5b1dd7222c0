#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the anchors stay readable)."""
import json, os
OUT = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
I = 'src/HsmImpl.cpp'
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

ACTIVE = ('active states list', 'ordered list of the currently active states', 'src/HsmImpl.hpp mActiveStates')
QUEUE = ('pending events', 'queue of external, entry-point and history events', 'src/HsmImpl.hpp mPendingEvents')
HSM_OBS = ['registered callbacks (order, arguments)', 'getActiveStates()/getLastActiveState()/isStateActive()']

prop('C01', 'Event handling follows the registered statechart exactly',
 '''For a state machine built from any registered structure (nested states, conditional transitions, parallel regions, entry points,
 history, final states), handling an event runs exactly the transitions registered for that event on an active state whose condition
 yields the expected value, calling exit callbacks (innermost first), then the transition callback, then the entry callback, then the
 state-changed callback, with the arguments the event was sent with. Afterwards the set of active states is the one those transitions lead to;
 an event nobody accepts changes nothing.''',
 ['programs', 'inputs', 'histories'], 'every hierarchy-respecting state machine definition, every event/argument/condition history',
 'tests fix about 90 hand-written machines; the guarantee is over all structures and event histories',
 [I, 'src/hsm.cpp', 'include/hsmcpp/hsm.hpp', 'src/HsmImplTypes.cpp'], [ACTIVE, QUEUE],
 [('transition lookup', I + ' findTransitionTarget'), ('transition execution', I + ' doTransition/handleSingleTransition/processExternalTransition')], HSM_OBS)

prop('C02', 'Active configuration stays well-formed; enter/exit callbacks are paired',
 '''Between events the active configuration is consistent: no state is listed twice, every active substate has its parent active,
 and no history pseudo-state is left active. For every state, entry and exit notifications strictly alternate, and a state is active
 exactly when it has been entered and not exited since.''',
 ['programs', 'histories'], 'every hierarchy-respecting machine and event history, including vetoed transitions, forks, history and final states',
 'tests look at a few final configurations; this is an invariant over all reachable configurations',
 [I], [ACTIVE], [('active list maintenance', I + ' replaceActiveState/addActiveState/executeExitTransition')], HSM_OBS)

prop('C03', 'A vetoed transition is rolled back',
 '''If an exit callback returns false, the transition callback and the target's callbacks are not run, and every state that had already
 been exited is re-entered, outermost first, so the set of active states is the same as before the event. If the entry
 callback of the target returns false, the target does not become active and all exited states are re-entered in the same way.
 The event then counts as failed unless another region accepted it, and later events behave as if it had not been sent.''',
 ['programs', 'histories', 'fault_sequences'], 'every placement and combination of exit/entry callbacks returning false, in any depth of nesting and any region',
 'tests veto one state in a shallow machine; partial exits of deep hierarchies are not covered',
 [I], [ACTIVE], [('rollback on exit veto', I + ' executeExitTransition'), ('rollback on entry veto', I + ' processExternalTransition')], HSM_OBS)

prop('C04', 'Entry points of a composite state are honoured',
 '''Activating a composite state (as initial state, transition target or entry point of another composite) also activates every entry point
 whose event restriction matches the event and whose condition yields the expected value, recursively down to leaf states, before the next external event is handled.
 A transition into a composite state for which no entry point is eligible is not taken at all. Entry points receive the arguments of the event that caused the activation.''',
 ['programs', 'inputs', 'histories'], 'every nesting of composites with any mix of plain, event-restricted and conditional entry points',
 'tests cover single fixed entry-point layouts',
 [I], [ACTIVE, QUEUE], [('entry point selection', I + ' getEntryPoints/findTransitionTarget'), ('startup', I + ' handleStartup')], HSM_OBS)

prop('C05', 'Parallel regions: every region sees the event, inner states first',
 '''An event is offered to all active regions independently: every active state with a matching transition takes it, except that an ancestor does not
 handle an event which one of its active descendants has handled. Several matching transitions of one state are all taken (fork) after its
 subtree has been exited once, and several regions entering the same target (join) enter it once. Regions that have no matching transition are left untouched.''',
 ['programs', 'histories'], 'every combination of forks, joins, parallel entry points and nesting, with any event order',
 'tests use a dozen fixed two- or three-region machines',
 [I], [ACTIVE], [('per-region dispatch', I + ' doTransition')], HSM_OBS)

prop('C06', 'Self-transitions: internal does not leave the state, external does',
 '''An internal self-transition only runs its transition callback: no exit, entry or state-changed callback runs and the active configuration
 (including substates) is unchanged. An external self-transition exits the state with all its active substates and enters it again,
 including its entry points. Both respect their conditions, count as handled, and keep ancestors from handling the event.''',
 ['programs', 'histories'], 'every state (leaf or composite, in any region) with any mix of internal/external self-transitions and ordinary transitions on the same event',
 'tests check a few single-state cases',
 [I], [ACTIVE], [('self transitions', I + ' executeSelfTransitions/executeExitTransition')], HSM_OBS)

prop('C07', 'History states restore the last active configuration',
 '''Transitioning to a history state activates its parent and the states that were active inside the parent when it was last exited: the
 direct substates for shallow history (their own entry points then apply), the full set of nested substates for deep history. With nothing
 remembered it goes to the default target (running the default transition callback once) or, without one, to the parent's entry points.
 States outside the parent are not affected.''',
 ['programs', 'histories'], 'every nesting, every history type and default target, every visit/leave/restore sequence, including parallel regions inside and outside the parent',
 'tests restore a handful of linear configurations',
 [I], [('history data', 'per history state: states to restore', 'src/HsmImpl.hpp mHistoryData')],
 [('recording', I + ' updateHistory'), ('restoring', I + ' processHistoryTransition/transitionToPreviousActiveStates/transitionToDefaultHistoryState')], HSM_OBS)

prop('C08', 'Reaching a final state raises the exit event of its parent',
 '''When a final state of a composite becomes active and the composite has no other active non-final substate, its exit event (the registered one,
 or the event that led into the final state) is raised with the same arguments, and is handled before any external event queued later.
 While another region of the composite is still active no exit event is raised. Top-level final states raise nothing.''',
 ['programs', 'histories'], 'every machine with final states in nested and parallel composites, every event history',
 'tests use single-region and one two-region composite',
 [I], [('final states', 'final state -> exit event', 'src/HsmImpl.hpp mFinalStates'), QUEUE], [('final handling', I + ' processFinalStateTransition')], HSM_OBS)

prop('C09', 'Events are handled once, in FIFO order, run to completion',
 '''Every accepted event is handled exactly once, in the order it was sent, whether it was sent from outside or from inside a callback; the handling of one
 event, including all entry-point and history steps it implies, completes before the next queued event starts. Sending with queue clearing discards
 the queued events that were not started yet, and only those; an event being handled is not cut short.''',
 ['histories', 'programs'], 'every interleaving of sends, batch sizes, sends from inside any callback, and queue clearing',
 'tests send one event at a time and look at the end state',
 [I], [QUEUE], [('queue', I + ' transitionExWithArgsArray/dispatchEvents/clearPendingEvents')], HSM_OBS)

prop('C10', 'Failed-transition callback fires exactly for unhandled events',
 '''The failed-transition callback runs exactly once for each event that no active state accepted (no transition, conditions not met,
 no eligible entry point, or vetoed by an exit or entry callback), with the active states at that time, the event id and the original arguments,
 and never for an event that at least one region accepted.''',
 ['programs', 'histories', 'fault_sequences'], 'every machine and event history, including parallel composites, nested entry points and vetoes',
 'tests check one failing event on a flat machine',
 [I], [], [('failure reporting', I + ' doTransition')], ['registerFailedTransitionCallback()'])

prop('C11', 'isTransitionPossible predicts whether an event would be accepted',
 '''For the current configuration and arguments, isTransitionPossible(event) returns true exactly when some active state (or one of its ancestors) has a transition
 for the event whose condition is met and whose target can be entered through eligible entry points. It changes nothing:
 no entry, exit, transition or state-changed callback runs and later behaviour is unaffected.''',
 ['programs', 'inputs', 'histories'], 'every machine, every reachable configuration, every event/arguments/condition valuation',
 'tests probe a few fixed (state, event) pairs',
 [I], [ACTIVE], [('lookup', I + ' isTransitionPossible/checkTransitionPossibility/findTransitionTarget')], ['isTransitionPossible()'])

prop('C12', 'State actions run on every accepted entry and exit',
 '''Each action registered for a state runs once per accepted entry (entry trigger) or accepted exit (exit trigger), in registration order, with its registered
 arguments: timer actions start, stop or restart exactly the named timer with the given interval and mode, transition actions queue exactly the given event and arguments.
 Actions of a vetoed entry or exit do not run. Registration accepts exactly the documented argument lists and an ignored registration has no effect.''',
 ['programs', 'histories', 'inputs'], 'every set of actions on any state, every argument list, every event history',
 'tests register a few valid actions',
 [I], [('actions', '(state, trigger) -> action', 'src/HsmImpl.hpp mRegisteredActions')], [('execution', I + ' executeStateAction'), ('validation', I + ' registerStateAction')], HSM_OBS + ['dispatcher timer calls'])

prop('C13', 'Structure registration accepts exactly well-formed hierarchies',
 '''Registering a substate or entry point succeeds exactly when parent and substate differ, the substate has no parent yet, and the parent is not nested (directly or
 indirectly) in the substate; a refused registration leaves the structure as it was. The accepted relations behave as a forest: exiting a state exits exactly its active descendants.''',
 ['inputs', 'histories'], 'every sequence of registrations over any number of states, in any order',
 'tests try four fixed illegal registrations',
 [I], [('substates', 'parent -> substates', 'src/HsmImpl.hpp mSubstates')], [('checks', I + ' registerSubstate'), ('ancestry', I + ' isSubstateOf')], ['registerSubstate()', 'registerSubstateEntryPoint()'])

prop('C14', 'Life cycle: no callbacks before initialize or after release, on any path',
 '''Before initialize() and after release() or destruction, sending events, starting timers and querying have no effect and fail cleanly, and no callback of
 the machine runs. initialize() enters the initial state exactly once, synchronously, refuses a missing dispatcher and a second initialization.
 Releasing or destroying a machine between callbacks (with events or timers pending, or from an enqueued action) leaves other machines on the same dispatcher working, touches no freed memory and leaks nothing.''',
 ['histories', 'crash_points', 'fault_sequences'], 'every placement of initialize/release/destroy relative to pending events, timers, queued interrupts and actions; several machines on one dispatcher',
 'tests delete a machine in one or two fixed situations',
 [I, 'src/hsm.cpp', 'src/HsmEventDispatcherBase.cpp'], [('dispatcher link', 'weak reference to the dispatcher', 'src/HsmImpl.hpp mDispatcher')],
 [('release', I + ' release'), ('handler validity', I + ' createEventHandler'), ('unregister', 'src/HsmEventDispatcherBase.cpp unregister*Handler')], HSM_OBS)

prop('C15', 'Timers fire on schedule, the right number of times',
 '''A started timer fires its handler (and sends its registered event) no earlier than its interval after the last (re)start and then promptly; single-shot timers fire once, repeating ones once
 per interval until stopped. Starting a running timer replaces its settings, restarting restarts its interval, a stopped timer does not fire any more, and
 isTimerRunning() is true exactly while a further expiry is due. Timers are independent of each other, and unregistering a handler stops exactly its timers.''',
 ['histories', 'schedules', 'inputs'], 'every sequence of start/restart/stop/query/expiry over several timers and handlers, on each bundled dispatcher',
 'timer tests take real time, use one timer, and are excluded from the stable set',
 ['src/HsmEventDispatcherBase.cpp', 'src/HsmEventDispatcherSTD.cpp', 'src/HsmEventDispatcherArduino.cpp', 'src/HsmEventDispatcherGLib.cpp', 'src/HsmEventDispatcherGLibmm.cpp', 'src/HsmEventDispatcherQt.cpp', I],
 [('active timers', 'timer id -> handler, interval, mode', 'include/hsmcpp/HsmEventDispatcherBase.hpp mActiveTimers')],
 [('bookkeeping', 'src/HsmEventDispatcherBase.cpp startTimer/restartTimer/stopTimer/handleTimerEvent'), ('expiry', 'src/HsmEventDispatcher*.cpp startTimerImpl and timer loops')], ['timer handlers', 'isTimerRunning()'])

prop('C16', 'Dispatchers deliver every emitted event and action exactly once',
 '''Each emitEvent() leads to exactly one later call of exactly that handler (while it stays registered), in emission order, and each enqueued action runs exactly once, in order, before
 events still waiting. A handler that reports itself invalid, or was unregistered, is not called again; other handlers are unaffected. Nothing is executed inside the emitting call.''',
 ['histories', 'programs'], 'every sequence of register/unregister/emit/action calls, from outside and from inside handlers, on each bundled dispatcher',
 'tests drive dispatchers only through small machines',
 ['src/HsmEventDispatcherBase.cpp', 'src/HsmEventDispatcherSTD.cpp', 'src/HsmEventDispatcherArduino.cpp', 'src/HsmEventDispatcherGLib.cpp', 'src/HsmEventDispatcherGLibmm.cpp', 'src/HsmEventDispatcherQt.cpp'],
 [('pending events/actions', 'queues of the dispatcher', 'include/hsmcpp/HsmEventDispatcherBase.hpp mPendingEvents, mPendingActions')],
 [('dispatch', 'src/HsmEventDispatcherBase.cpp dispatchPendingEvents/dispatchPendingActions')], ['handler callbacks'])

prop('C17', 'Interrupt-safe events: bounded queue, no allocation, delivered once',
 '''transitionInterruptSafe()/enqueueEvent() accept an event exactly when fewer events than the configured queue size are waiting, return false otherwise without side effects, never allocate memory,
 and are safe to call from a signal handler. Every accepted event is delivered exactly once to the machine it was addressed to; a rejected one is never delivered.''',
 ['histories', 'schedules', 'fault_sequences'], 'every burst size, queue capacity, interleaving with dispatching and with unregistering handlers, several machines per dispatcher',
 'tests enqueue a few events well below the limit',
 ['src/HsmEventDispatcherBase.cpp', 'src/os/common/CriticalSection.cpp', 'src/os/posix/InterruptsFreeSection.cpp', I],
 [('interrupt queue', 'fixed-capacity vector of events', 'include/hsmcpp/HsmEventDispatcherBase.hpp mEnqueuedEvents')],
 [('enqueue', 'src/HsmEventDispatcherBase.cpp enqueueEvent/dispatchEnqueuedEvents')], ['transitionInterruptSafe()', 'callbacks'])

prop('C18', 'Synchronous transitions report the true outcome and never hang',
 '''transitionSync()/transitionEx(sync) called from another thread returns true exactly when its event was accepted and completed (entry points and history included), after the callbacks
 of that event have run; it returns false when the event was refused, vetoed, discarded by queue clearing, or the timeout elapsed, never blocking longer than its timeout. With an unlimited timeout it always returns once the event is decided.''',
 ['schedules', 'histories'], 'every interleaving of callers and the dispatcher thread, every timeout, with concurrent queue clearing and other events',
 'tests cannot control the scheduler; lost wake-ups need a specific interleaving',
 [I, 'src/HsmImplTypes.cpp', 'src/os/stl/ConditionVariable.cpp'], [('transition status', 'status shared with the waiting caller', 'src/HsmImplTypes.hpp PendingEventInfo')],
 [('hand-over', 'src/HsmImplTypes.cpp PendingEventInfo::wait/unlock/releaseLock')], ['return value of transitionSync()'])

prop('C19', 'Concurrent senders: no event lost, duplicated or reordered; no deadlock',
 '''Any number of threads may send events, start/stop timers, enqueue actions and interrupt-safe events concurrently with the dispatcher thread: every accepted event is eventually handled exactly once without further
 stimulus, events of one sender are handled in its sending order, callbacks of one machine never overlap, and no interleaving deadlocks or leaves the dispatcher asleep with work pending.''',
 ['schedules', 'histories'], 'every interleaving of producer threads and the dispatcher thread',
 'stress tests sample a few interleavings of one scenario',
 [I, 'src/HsmEventDispatcherBase.cpp', 'src/HsmEventDispatcherSTD.cpp', 'src/os/stl/ConditionVariable.cpp', 'src/os/common/UniqueLock.cpp', 'src/os/stl/AtomicFlag.cpp'],
 [QUEUE, ('wake-up condition', 'condition variable of the dispatcher thread', 'src/HsmEventDispatcherSTD.cpp mEmitEvent')],
 [('queue lock', I + ' mEventsSync'), ('wake-up', 'src/HsmEventDispatcherSTD.cpp notifyDispatcherAboutEvent/doDispatching')], ['callbacks', 'thread progress'])

prop('C20', 'Dispatcher start/stop/destroy is clean under concurrency',
 '''start() is idempotent, stop() and destruction of a dispatcher may happen at any time with events, timers, actions and senders active: they return, the worker threads end, no handler runs after destruction has returned, and pending work is dropped. A dispatcher started again delivers events, actions and timers as before.
 release() or destruction of a machine on another thread waits for a callback in progress and no callback runs after it returned.''',
 ['schedules', 'crash_points', 'histories'], 'every interleaving of stop/destroy/release with dispatching, timers and senders',
 'tests destroy dispatchers while idle',
 ['src/HsmEventDispatcherSTD.cpp', 'src/HsmEventDispatcherBase.cpp', 'src/HsmEventDispatcherGLib.cpp', 'src/HsmEventDispatcherGLibmm.cpp', 'src/HsmEventDispatcherQt.cpp', 'src/HsmEventDispatcherArduino.cpp', I], [('stop flag', 'dispatcher is stopping', 'include/hsmcpp/HsmEventDispatcherBase.hpp mStopDispatcher')],
 [('shutdown', 'src/HsmEventDispatcherSTD.cpp stop/join'), ('release waits', I + ' release')], ['thread termination', 'callbacks'])

prop('C21', 'All dispatchers drive a machine to the same behaviour',
 '''The same machine fed the same events, timers and interrupt-safe events produces the same sequence of callbacks, the same failures and the same final configuration on every bundled dispatcher (STD, GLib, GLibmm, Qt, Arduino).''',
 ['programs', 'histories', 'configurations'], 'every machine and event history, on each pair of dispatchers',
 'each test build runs one dispatcher against fixed expectations; timing and STD/Qt lifetime tests are not in the stable set',
 ['src/HsmEventDispatcherSTD.cpp', 'src/HsmEventDispatcherGLib.cpp', 'src/HsmEventDispatcherGLibmm.cpp', 'src/HsmEventDispatcherQt.cpp', 'src/HsmEventDispatcherArduino.cpp', 'src/HsmEventDispatcherBase.cpp'], [],
 [('common base', 'src/HsmEventDispatcherBase.cpp')], HSM_OBS)

prop('C22', 'Variant is a value type: copies are independent and type-faithful',
 '''A Variant constructed, assigned, copied or moved from a value of any supported type reports that type and yields back exactly that value, including nested
 vectors, maps, pairs, strings with arbitrary bytes and extreme numbers. Changing, clearing or destroying one Variant never affects another (copies are deep), and self-assignment and assignment from an own element are safe.''',
 ['inputs', 'histories'], 'every value of every supported type, every sequence of construct/copy/move/assign/clear/element access',
 'tests use a few sample values per type',
 ['src/variant.cpp', 'include/hsmcpp/variant.hpp'], [('value', 'type tag and owned storage', 'include/hsmcpp/variant.hpp')], [('copy/move', 'src/variant.cpp'), ('typed access', 'include/hsmcpp/variant.hpp')], ['Variant API'])

prop('C23', 'Variant conversions are exact or fall back to the documented default',
 '''Conversions (string, integer, unsigned, double, bool, byte array) of a Variant return the mathematically corresponding value whenever it is representable in the target type, numbers written as text convert back to the same number, and
 a Variant that holds no convertible value yields the documented neutral result. They never crash, and the classification predicates agree with the held type.''',
 ['inputs'], 'every value of every type, including boundary numbers and malformed numeric text',
 'tests convert a few mid-range samples',
 ['src/variant.cpp', 'include/hsmcpp/variant.hpp'], [], [('conversions', 'src/variant.cpp to*()')], ['Variant::to*()', 'Variant::is*()'])

prop('C24', 'Variant comparison is a consistent order',
 '''Equality of Variants is reflexive, symmetric and consistent with inequality; numeric Variants of any two integer types compare by mathematical value, strings, byte arrays, vectors, pairs and maps compare by content, and a copy equals its original.
 The ordering operators agree with equality and with each other, order numbers numerically, strings, vectors and pairs lexicographically, and are transitive within a type, so Variants work as map keys.''',
 ['inputs'], 'every pair and triple of values of every type',
 'tests compare a few same-type pairs',
 ['src/variant.cpp', 'include/hsmcpp/variant.hpp'], [], [('comparison', 'src/variant.cpp operator==/operator<')], ['Variant operators'])

prop('C25', 'Debug log records every step of the machine faithfully',
 '''With debugging enabled, the log file is a well-formed record in which each step (transition, entry-point transition, exit/entry/state callback, entry and exit actions, idle) appears once, in execution order, with the active states at that time, source, target, event,
 failure status and arguments. Logging can be enabled and disabled at any time, appends to an existing file, and never changes the behaviour of the machine.''',
 ['programs', 'histories'], 'every machine and event history, arbitrary names and arguments, arbitrary enable/disable points',
 'no test reads the log',
 [I, 'src/hsm.cpp'], [('log stream', 'open log file', 'src/HsmImpl.hpp mHsmLog')], [('records', I + ' logHsmAction')], ['dump file', 'enableHsmDebugging()/disableHsmDebugging()'])

prop('C26', 'scxml2gen generates code for exactly the SCXML state chart',
 '''For every supported SCXML document, the class generated by scxml2gen compiles against the library and registers exactly the states, hierarchy, initial and conditional entry points, history, final states, transitions,
 conditions, callbacks, timers and state actions that the document describes, so that the generated machine behaves as the document says. Every identifier referenced is declared once, and the output depends only on the document and options.''',
 ['programs', 'inputs'], 'every supported SCXML document (nesting, parallel, history, final, conditions, timers, actions, namespaces, includes)',
 'tests generate code from about ten fixed documents',
 ['tools/scxml2gen/scxml2gen.py', 'tools/scxml2gen/template.hpp', 'tools/scxml2gen/template.cpp'], [], [('parser', 'tools/scxml2gen/scxml2gen.py parseScxml'), ('generator', 'tools/scxml2gen/scxml2gen.py generateCppCode')], ['generated .hpp/.cpp', 'behaviour of the generated machine'])

prop('C27', 'scxml2gen PlantUML output describes the same state chart',
 '''The PlantUML document generated for any supported SCXML document contains exactly its states with their nesting, its initial and final markers, and exactly its transitions with source, target, event, condition and callback labels; simple states are described by their callbacks and entry and exit actions. Nothing is lost, merged or attached to the wrong state.''',
 ['programs', 'inputs'], 'every supported SCXML document',
 'no test reads the PlantUML output',
 ['tools/scxml2gen/scxml2gen.py'], [], [('diagram', 'tools/scxml2gen/scxml2gen.py generatePlantuml')], ['generated .plantuml'])

prop('C28', 'scxml2gen resolves includes and rejects invalid documents cleanly',
 '''Splitting an SCXML document into included parts (src attribute, XInclude as the only child of a state, or XInclude next to other states or in the root element) yields the same state chart as the unsplit document - with the documented <parent>__ prefix for the first two forms -
 at any nesting level, with relative paths and from any working directory. Invalid documents (missing or malformed main or included files, wrong root element, states without id, names which are no C++ identifiers, malformed conditions, entry transitions without target, includes without path,
 unknown initial state of a document) are reported with a non-zero exit status and leave the output files untouched.''',
 ['inputs', 'programs', 'fault_sequences'], 'every split of a supported document into includes; every single-fault mutation of a valid document',
 'tests contain two fixed include documents and no invalid ones',
 ['tools/scxml2gen/scxml2gen.py'], [], [('includes', 'tools/scxml2gen/scxml2gen.py parseScxml/parseScxmlStates'), ('validation', 'tools/scxml2gen/scxml2gen.py validateIdentifier/getCallbackName/parseScxml')], ['generated files', 'exit status'])

prop('C29', 'Synchronisation primitives behave as specified',
 '''The library's mutex guards, unique lock, critical section, condition variable and atomic flag give mutual exclusion and correct ownership: a lock object owns its mutex exactly when its API says so and releases it exactly once, moves transfer ownership, a condition wait
 returns only with the lock held and, with a predicate, returns whether the predicate holds within the timeout, and test-and-set succeeds for exactly one caller until cleared.''',
 ['schedules', 'histories'], 'every sequence of lock/try/unlock/move/wait/notify operations, every interleaving of a few threads',
 'no test exercises the primitives directly',
 ['src/os/common/LockGuard.cpp', 'src/os/common/UniqueLock.cpp', 'src/os/common/CriticalSection.cpp', 'src/os/stl/ConditionVariable.cpp', 'src/os/stl/AtomicFlag.cpp', 'src/os/posix/InterruptsFreeSection.cpp'], [],
 [('wrappers', 'src/os/common, src/os/stl, src/os/posix')], ['primitive API'])

prop('C30', 'hsmdebugger shows for every frame exactly what the log says',
 '''Whichever way a frame of a debug log is selected (next, previous, slider, go to frame, row of the possibly filtered frames list), with any timing of the renderer, the debugger ends up showing the state chart with exactly the active simple states coloured, the transition, entry transitions, callback or actions of
 that log entry highlighted together with their arguments, and a blocked callback marked as such: never the image of another frame, log, state machine or colour setting. The frames list, search filter, status line and slider describe the open log; lists of recent files keep order across restarts; files which cannot be opened are
 reported, and no sequence of user actions raises an exception.''',
 ['programs', 'inputs', 'histories', 'schedules'], 'every state chart and log of it; every sequence of user actions; every order in which renderer processes finish',
 'the debugger has no tests',
 ['tools/hsmdebugger/hsmdebugger.py', 'tools/hsmdebugger/impl', 'tools/scxml2gen/scxml2gen.py'], [('current frame', 'selected frame, its image and the running renderer', 'tools/hsmdebugger/hsmdebugger.py')],
 [('frames', 'tools/hsmdebugger/hsmdebugger.py updateHsmFrame/generateHsmFrameImage'), ('highlighting', 'tools/scxml2gen/scxml2gen.py generatePlantumlState'), ('search', 'tools/hsmdebugger/impl/search.py'), ('recent files', 'tools/hsmdebugger/impl/recent.py')],
 ['displayed diagram', 'frames list, status line, menus'])

if __name__ == '__main__':
    with open(OUT, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
