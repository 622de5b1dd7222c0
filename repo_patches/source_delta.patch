From ea1cb41a9fc4c567ce592b36adef82752e50e508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:49 +0000
Subject: [PATCH 01/74] fix: re-enter states in hierarchy order when a
 transition is rolled back

States which were exited by a vetoed transition were re-entered starting
from the innermost one, so a substate was entered before its parent.
---
 src/HsmImpl.cpp | 25 +++++++++++++++----------
 src/HsmImpl.hpp |  1 +
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index b00c921..2b9efc1 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1170,12 +1170,7 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
             }
         }
     } else {
-        for (const StateID_t& curState : exitedStates) {
-            // to prevent infinite loops we don't allow state to cancel transition
-            (void)onStateEntering(curState, VariantVector_t());
-            (void)addActiveState(curState);
-            onStateChanged(curState, VariantVector_t());
-        }
+        reenterStates(exitedStates);
     }
 
     return res;
@@ -1315,11 +1310,9 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
             else {
                 for (const auto& curState : outExitedStates) {
                     mActiveStates.remove(curState);
-                    // to prevent infinite loops we don't allow state to cancel transition
-                    (void)onStateEntering(curState, VariantVector_t());
-                    mActiveStates.emplace_back(curState);
-                    onStateChanged(curState, VariantVector_t());
                 }
+
+                reenterStates(outExitedStates);
             }
         }
     }
@@ -1327,6 +1320,18 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
     return isExitAllowed;
 }
 
+void HierarchicalStateMachine::Impl::reenterStates(const std::list<StateID_t>& exitedStates) {
+    // parents are always exited after their children, so they have to be entered before them
+    for (auto it = exitedStates.rbegin(); it != exitedStates.rend(); ++it) {
+        if (false == isStateActive(*it)) {
+            // to prevent infinite loops we don't allow state to cancel transition
+            (void)onStateEntering(*it, VariantVector_t());
+            (void)addActiveState(*it);
+            onStateChanged(*it, VariantVector_t());
+        }
+    }
+}
+
 bool HierarchicalStateMachine::Impl::processHistoryTransition(const PendingEventInfo& event, const StateID_t destinationState) {
     HSM_TRACE_CALL_DEBUG();
     auto itHistoryData = mHistoryData.find(destinationState);
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index 06a4053..b21ab29 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -149,6 +149,7 @@ private:
     bool executeExitTransition(const PendingEventInfo& event,
                                const std::list<TransitionInfo>& matchingTransitions,
                                std::list<StateID_t>& outExitedStates);
+    void reenterStates(const std::list<StateID_t>& exitedStates);
 
     bool processHistoryTransition(const PendingEventInfo& event, const StateID_t destinationState);
     void transitionToPreviousActiveStates(std::list<StateID_t>& previousActiveStates, const PendingEventInfo& event, const StateID_t destinationState);
-- 
2.43.0


From ad20fb78358f586b9384afe5bd682ee3e8ae3aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:49 +0000
Subject: [PATCH 02/74] fix: exit source state only once when it has several
 matching transitions

On a fork the source state and its substates were exited (callbacks and
actions included) again for every transition if the exit was vetoed.
---
 src/HsmImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 2b9efc1..5f1b038 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1314,6 +1314,9 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
 
                 reenterStates(outExitedStates);
             }
+
+            // all transitions have the same source state, so it must be exited only once
+            break;
         }
     }
 
-- 
2.43.0


From bbd752774173fed999d41e6bc7e5f2ce478b1547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 03/74] fix: fork is accepted if any of its targets was entered

Only the result of the last transition was used, so an event which was
accepted by one target but refused by the last one was reported as failed
(and vice versa a sync caller was released too early). If the refused target
came first, the source state was re-entered and then removed from the active
states without calling its exit callback; two refused targets notified the
source state about the same change twice.
---
 src/HsmImpl.cpp | 24 ++++++++++++++++++++----
 src/HsmImpl.hpp |  3 +--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 5f1b038..0c93444 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1111,8 +1111,7 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
 
 HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const PendingEventInfo& event,
                                                                          const StateID_t fromState,
-                                                                         const TransitionInfo& curTransition,
-                                                                         const std::list<StateID_t>& exitedStates) {
+                                                                         const TransitionInfo& curTransition) {
     HSM_TRACE_CALL_DEBUG();
     HsmEventStatus res = HsmEventStatus::DONE_FAILED;
 
@@ -1170,7 +1169,7 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
             }
         }
     } else {
-        reenterStates(exitedStates);
+        res = HsmEventStatus::CANCELED;
     }
 
     return res;
@@ -1525,13 +1524,30 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
 
         // proceed if transition was not blocked during state exit
         if (true == isExitAllowed) {
+            bool wasEntryCanceled = false;
+
             for (const TransitionInfo& curTransition : matchingTransitions) {
                 // everything except internal self-transitions
                 if ((curTransition.fromState != curTransition.destinationState) ||
                     (TransitionType::EXTERNAL_TRANSITION == curTransition.transitionType)) {
-                    res = processExternalTransition(event, fromState, curTransition, exitedStates);
+                    const HsmEventStatus curStatus = processExternalTransition(event, fromState, curTransition);
+
+                    if (HsmEventStatus::CANCELED == curStatus) {
+                        wasEntryCanceled = true;
+                    }
+
+                    // event is accepted if at least one of parallel transitions was accepted
+                    if ((HsmEventStatus::PENDING == curStatus) || (HsmEventStatus::DONE_FAILED == res) ||
+                        ((HsmEventStatus::DONE_OK == curStatus) && (HsmEventStatus::CANCELED == res))) {
+                        res = curStatus;
+                    }
                 }
             }
+
+            // return to the original state only after all parallel transitions were handled
+            if (true == wasEntryCanceled) {
+                reenterStates(exitedStates);
+            }
         } else {
             res = HsmEventStatus::CANCELED;
         }
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index b21ab29..ff26a50 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -140,8 +140,7 @@ private:
 
     HsmEventStatus processExternalTransition(const PendingEventInfo& event,
                                              const StateID_t fromState,
-                                             const TransitionInfo& curTransition,
-                                             const std::list<StateID_t>& exitedStates);
+                                             const TransitionInfo& curTransition);
     bool determineTargetState(const PendingEventInfo& event,
                               const StateID_t fromState,
                               std::list<TransitionInfo>& outMatchingTransitions);
-- 
2.43.0


From 4fdf46c2702838ef0b7daeccbca173c2be011487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 04/74] fix: don't report accepted event as failed if two
 composite states are entered

When an event activated two composite states, an entry point event was queued
for each of them, but the first one handles entry points of both. The second
one was reported through failed transition callback and made the synchronous
call return false.
---
 src/HsmImpl.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 0c93444..ebd8c03 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1050,6 +1050,7 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
     HsmEventStatus res = HsmEventStatus::DONE_FAILED;
     auto activeStatesSnapshot = mActiveStates;
     std::list<StateID_t> acceptedStates;  // list of states that accepted transitions
+    bool wasCanceled = false;
 
     for (auto it = activeStatesSnapshot.rbegin(); it != activeStatesSnapshot.rend(); ++it) {
         // in case of parallel transitions some states might become inactive after handleSingleTransition()
@@ -1086,6 +1087,8 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
                         acceptedStates.emplace_back(*it);
                         break;
                     case HsmEventStatus::CANCELED:
+                        wasCanceled = true;
+                        break;
                     case HsmEventStatus::DONE_FAILED:
                     default:
                         // do nothing
@@ -1101,6 +1104,12 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
         }
     }
 
+    // all entry points could be already handled by another event (for example, when two parallel states were entered)
+    if ((TransitionBehavior::ENTRYPOINT == event.transitionType) && (HsmEventStatus::DONE_FAILED == res) &&
+        (false == wasCanceled) && (false == mDispatcher.expired())) {
+        res = HsmEventStatus::DONE_OK;
+    }
+
     if (mFailedTransitionCallback && ((HsmEventStatus::DONE_FAILED == res) || (HsmEventStatus::CANCELED == res))) {
         mFailedTransitionCallback(activeStatesSnapshot, event.id, event.getArgs());
     }
-- 
2.43.0


From 27db54f48271eaabe783c4bd4188d0587af4e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 05/74] fix: restoring history must not affect other active
 states

Forced transitions were executed for each active state, so restoring a history
removed unrelated parallel states without calling their exit callbacks and
called the default history transition callback several times.
---
 src/HsmImpl.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index ebd8c03..4e5450f 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1052,10 +1052,17 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
     std::list<StateID_t> acceptedStates;  // list of states that accepted transitions
     bool wasCanceled = false;
 
-    for (auto it = activeStatesSnapshot.rbegin(); it != activeStatesSnapshot.rend(); ++it) {
+    std::list<StateID_t> sourceStates = activeStatesSnapshot;
+
+    // source of forced transitions is a history state, so other active states must not be affected by them
+    if (TransitionBehavior::FORCED == event.transitionType) {
+        sourceStates = {event.forcedTransitionsInfo->front().fromState};
+    }
+
+    for (auto it = sourceStates.rbegin(); it != sourceStates.rend(); ++it) {
         // in case of parallel transitions some states might become inactive after handleSingleTransition()
         // example: [*B, *C] -> D
-        if (true == isStateActive(*it)) {
+        if ((TransitionBehavior::FORCED == event.transitionType) || (true == isStateActive(*it))) {
             // we don't need to process transitions for active states if their child already processed it
             bool childStateProcessed = false;
 
-- 
2.43.0


From a0eff106da2f5a5e78b2d290dc402503c440da8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 06/74] fix: restore deep history of parallel states starting
 from parents

States were compared only with the previous one in the history, so with
parallel regions substates could be entered before their parents and entry
points of already restored parents were activated.
---
 src/HsmImpl.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 4e5450f..291f5ba 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1376,7 +1376,6 @@ bool HierarchicalStateMachine::Impl::processHistoryTransition(const PendingEvent
 void HierarchicalStateMachine::Impl::transitionToPreviousActiveStates(std::list<StateID_t>& previousActiveStates,
                                                                       const PendingEventInfo& event,
                                                                       const StateID_t destinationState) {
-    StateID_t prevChildState = INVALID_HSM_STATE_ID;
     PendingEventInfo historyTransitionEvent = event;
 
     historyTransitionEvent.transitionType = TransitionBehavior::FORCED;
@@ -1386,18 +1385,21 @@ void HierarchicalStateMachine::Impl::transitionToPreviousActiveStates(std::list<
         HSM_SYNC_EVENTS_QUEUE();
 
         for (const StateID_t prevState : previousActiveStates) {
-            if ((INVALID_HSM_STATE_ID != prevChildState) && (true == isSubstateOf(prevState, prevChildState))) {
-                if (false == historyTransitionEvent.forcedTransitionsInfo->empty()) {
-                    mPendingEvents.push_front(historyTransitionEvent);
-                }
-
+            const auto& currentTargets = *historyTransitionEvent.forcedTransitionsInfo;
+            const bool isParent =
+                std::any_of(currentTargets.begin(), currentTargets.end(), [this, prevState](const TransitionInfo& target) {
+                    // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                    return isSubstateOf(prevState, target.destinationState);
+                });
+
+            // parents must be entered before their substates. since their substates are restored too there is no need to
+            // use entry points
+            if (true == isParent) {
+                mPendingEvents.push_front(historyTransitionEvent);
                 historyTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();
                 historyTransitionEvent.ignoreEntryPoints = true;
-            } else {
-                historyTransitionEvent.ignoreEntryPoints = false;
             }
 
-            prevChildState = prevState;
             historyTransitionEvent.forcedTransitionsInfo->emplace_back(destinationState,
                                                                        prevState,
                                                                        TransitionType::EXTERNAL_TRANSITION,
-- 
2.43.0


From d4f5012ebd0f36637d54e8317b318e6b4d466b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 07/74] fix: clearing of the events queue must not interrupt an
 ongoing transition

Queued entry point and history transitions are a part of the transition which
was already started. Discarding them left a composite state without active
substates and made the synchronous caller fail (or wait forever).
---
 src/HsmImpl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 291f5ba..cdf4fee 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1585,14 +1585,15 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
 void HierarchicalStateMachine::Impl::clearPendingEvents() {
     HSM_TRACE_CALL_DEBUG_ARGS("clearPendingEvents: mPendingEvents.size()=%ld", mPendingEvents.size());
 
-    for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()); ++it) {
+    for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end());) {
         // since ongoing transitions can't be canceled we need to treat entry point transitions as atomic
         if (TransitionBehavior::REGULAR == it->transitionType) {
             it->releaseLock();
+            it = mPendingEvents.erase(it);
+        } else {
+            ++it;
         }
     }
-
-    mPendingEvents.clear();
 }
 
 bool HierarchicalStateMachine::Impl::hasSubstates(const StateID_t parent) const {
-- 
2.43.0


From 04730741991d8363d01fa88f26974b6def761545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 08/74] fix: protect events queue when transitioning to default
 history target

---
 src/HsmImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index cdf4fee..bcc3f73 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1474,7 +1474,10 @@ void HierarchicalStateMachine::Impl::transitionToDefaultHistoryState(
                                                                       cbTransition,
                                                                       nullptr);
 
-        mPendingEvents.push_front(defHistoryTransitionEvent);
+        {
+            HSM_SYNC_EVENTS_QUEUE();
+            mPendingEvents.push_front(defHistoryTransitionEvent);
+        }
     }
 }
 
-- 
2.43.0


From d8d558d30cfba16205fd90ee619d6ec0910127ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 09/74] fix: isTransitionPossible() always returned true if
 there were pending events

Transitions found for pending events were treated as transitions of the
requested event.
---
 src/HsmImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index bcc3f73..cd42385 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -955,6 +955,7 @@ bool HierarchicalStateMachine::Impl::checkTransitionPossibility(const StateID_t
 
         for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()) && (true == possible); ++it) {
             nextEvent = it->id;
+            possibleTransitions.clear();
             possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
 
             if (true == possible) {
@@ -970,6 +971,7 @@ bool HierarchicalStateMachine::Impl::checkTransitionPossibility(const StateID_t
 
     if (true == possible) {
         nextEvent = event;
+        possibleTransitions.clear();
         possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
     }
 
-- 
2.43.0


From 063d95a3d37b18a2019204f994ddfd6cc8c3020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 10/74] fix: internal self transition must not depend on entry
 points of the state

Internal transition of a composite state was ignored if none of its entry
points could be activated by the event.
---
 src/HsmImpl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index cd42385..00d49b9 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1011,6 +1011,13 @@ bool HierarchicalStateMachine::Impl::findTransitionTarget(const StateID_t fromSt
                 bool wasFound = false;
                 std::list<StateID_t> parentStates = {it->second.destinationState};
 
+                // internal transition doesn't enter the state, so entry points are not relevant
+                if ((TransitionType::INTERNAL_TRANSITION == it->second.transitionType) &&
+                    (it->second.fromState == it->second.destinationState)) {
+                    outTransitions.emplace_back(it->second);
+                    continue;
+                }
+
                 // cppcheck-suppress misra-c2012-15.4
                 do {
                     StateID_t currentParent = parentStates.front();
-- 
2.43.0


From 01e53ec20da8b3ff74198b2d1cd1065be14e1ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 11/74] fix: don't drop state re-entered by a self transition
 when it also has a fork

If an event triggers both external self transition and transition to another
state, the source state was entered again and then removed from the list of
active states without calling its exit callback.
---
 src/HsmImpl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 00d49b9..0a5cfd4 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1155,7 +1155,13 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
     }
 
     if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {
-        if (true == replaceActiveState(fromState, curTransition.destinationState)) {
+        // source of a regular transition was already exited. if it's active again then it was entered by a parallel
+        // self transition
+        const bool wasActivated = (TransitionBehavior::REGULAR == event.transitionType)
+                                      ? addActiveState(curTransition.destinationState)
+                                      : replaceActiveState(fromState, curTransition.destinationState);
+
+        if (true == wasActivated) {
             onStateChanged(curTransition.destinationState, event.getArgs());
         }
 
-- 
2.43.0


From 7182d629e73372b579114744536b7e97c048387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 12/74] fix: finish ongoing transition before handling exit
 event of a final state

Exit event was placed in front of queued entry point and history transitions
of the same event. If it made HSM leave the parent state, these transitions
activated substates of already inactive parent.
---
 src/HsmImpl.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 0a5cfd4..2c4f429 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1521,7 +1521,16 @@ bool HierarchicalStateMachine::Impl::processFinalStateTransition(const PendingEv
 
                 {
                     HSM_SYNC_EVENTS_QUEUE();
-                    mPendingEvents.push_front(finalStateEvent);
+                    // ongoing transition must be finished before handling this event
+                    const auto itNextEvent = std::find_if(mPendingEvents.begin(),
+                                                          mPendingEvents.end(),
+                                                          [](const PendingEventInfo& pendingEvent) {
+                                                              // cppcheck-suppress misra-c2012-15.5 ; false-positive
+                                                              return (TransitionBehavior::REGULAR ==
+                                                                      pendingEvent.transitionType);
+                                                          });
+
+                    (void)mPendingEvents.insert(itNextEvent, finalStateEvent);
                 }
             }
         }
-- 
2.43.0


From 1b86c6338c271a1da135f7839cdf85654fccad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 13/74] fix: failed initialization must not leave machine
 attached to dispatcher

If handlers could not be registered, initialize() returned false but
isInitialized() reported true and any later attempt to initialize the machine
was refused as "already initialized".
---
 src/HsmImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 2c4f429..41f1cbe 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -142,6 +142,10 @@ bool HierarchicalStateMachine::Impl::initialize(const std::weak_ptr<IHsmEventDis
                         dispatcherPtr->unregisterEventHandler(mEventsHandlerId);
                         dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);
                         dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);
+                        mEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
+                        mEnqueuedEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
+                        mTimerHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
+                        mDispatcher.reset();
                     }
                 }
             } else {
-- 
2.43.0


From c74ecbb6bfae46966a38539238c74d1cc55090e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 14/74] fix: debug log must contain names of states and events

Debug log was written with empty names if library was built without debug
traces (default configuration), which made it useless for hsmdebugger.
---
 src/HsmImpl.cpp | 7 +++++--
 src/HsmImpl.hpp | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 41f1cbe..1439bf3 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1861,7 +1861,10 @@ void HierarchicalStateMachine::Impl::dumpActiveStates() {
 
     HSM_TRACE_DEBUG("active states: <%s>", temp.c_str());
 }
+#endif  // HSM_DISABLE_DEBUG_TRACES
 
+// NOTE: names are also needed for HSM debug log
+#if !defined(HSM_DISABLE_DEBUG_TRACES) || defined(HSMBUILD_DEBUGGING)
 std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state) {
     std::string res;
   #ifndef HSM_DISABLE_THREADSAFETY
@@ -1887,7 +1890,7 @@ std::string HierarchicalStateMachine::Impl::getEventName(const EventID_t event)
 
     return res;
 }
-#else   // HSM_DISABLE_DEBUG_TRACES
+#else
 
 std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state) {
     return std::string();
@@ -1896,6 +1899,6 @@ std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state)
 std::string HierarchicalStateMachine::Impl::getEventName(const EventID_t event) {
     return std::string();
 }
-#endif  // HSM_DISABLE_DEBUG_TRACES
+#endif  // !HSM_DISABLE_DEBUG_TRACES || HSMBUILD_DEBUGGING
 
 }  // namespace hsmcpp
\ No newline at end of file
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index ff26a50..ce16e0c 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -226,7 +226,7 @@ private:
 #ifndef HSM_DISABLE_THREADSAFETY
     AtomicFlag mIsDispatching;
     Mutex mEventsSync;
-  #if !defined(HSM_DISABLE_DEBUG_TRACES)
+  #if !defined(HSM_DISABLE_DEBUG_TRACES) || defined(HSMBUILD_DEBUGGING)
     Mutex mParentSync;
   #endif
 #endif  // HSM_DISABLE_THREADSAFETY
-- 
2.43.0


From 65052236cc995e90c12e85105af5a199927e458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 15/74] fix: escape names and arguments in debug log

Text with special characters (quotes, backslashes, colons, new lines...) made
the log unreadable or changed its meaning when it was loaded by hsmdebugger.
---
 src/HsmImpl.cpp | 53 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 1439bf3..60d034b 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1756,6 +1756,35 @@ void HierarchicalStateMachine::Impl::disableHsmDebugging() {
 #endif
 }
 
+#ifdef HSMBUILD_DEBUGGING
+// converts text to a double-quoted YAML scalar
+static std::string toYamlString(const std::string& text) {
+    constexpr unsigned char firstPrintable = 0x20U;
+    constexpr unsigned char deleteChar = 0x7FU;
+    constexpr size_t bufSize = 5;
+    std::string res = "\"";
+
+    for (const char curChar : text) {
+        const unsigned char code = static_cast<unsigned char>(curChar);
+
+        if ((curChar == '"') || (curChar == '\\')) {
+            res += '\\';
+            res += curChar;
+        } else if ((code < firstPrintable) || (deleteChar == code)) {
+            std::array<char, bufSize> buf = {0};
+
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-type-vararg): using snprintf instead stringstream for performance reasons
+            (void)snprintf(buf.data(), buf.size(), "\\x%02x", code);
+            res += buf.data();
+        } else {
+            res += curChar;
+        }
+    }
+
+    return res + "\"";
+}
+#endif  // HSMBUILD_DEBUGGING
+
 void HierarchicalStateMachine::Impl::logHsmAction(const HsmLogAction action,
                                                   const StateID_t fromState,
                                                   const StateID_t targetState,
@@ -1821,27 +1850,29 @@ void HierarchicalStateMachine::Impl::logHsmAction(const HsmLogAction action,
                     "  active_states:";
 
         for (const auto& curState : mActiveStates) {
-            *mHsmLog << "\n    - \"" << getStateName(curState) << "\"";
+            *mHsmLog << "\n    - " << toYamlString(getStateName(curState));
         }
 
         *mHsmLog << "\n  action: " << actionsMap.at(action)
                  << "\n"
-                    "  from_state: \""
-                 << getStateName(fromState)
-                 << "\"\n"
-                    "  target_state: \""
-                 << getStateName(targetState)
-                 << "\"\n"
-                    "  event: \""
-                 << getEventName(event)
-                 << "\"\n"
+                    "  from_state: "
+                 << toYamlString(getStateName(fromState))
+                 << "\n"
+                    "  target_state: "
+                 << toYamlString(getStateName(targetState))
+                 << "\n"
+                    "  event: "
+                 << toYamlString(getEventName(event))
+                 << "\n"
                     "  status: "
                  << (hasFailed ? "failed" : "")
                  << "\n"
                     "  args:";
 
         for (const auto& curArg : args) {
-            *mHsmLog << "\n    - " << curArg.toString();
+            const bool isPlainValue = (curArg.isNumeric() || curArg.isBool());
+
+            *mHsmLog << "\n    - " << (isPlainValue ? curArg.toString() : toYamlString(curArg.toString()));
         }
 
         mHsmLog->flush();
-- 
2.43.0


From 8eecc45ee588d7cff11e9b5595d3e70e49a12075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:33 +0000
Subject: [PATCH 16/74] fix: variant can be assigned from a value stored inside
 of it

---
 include/hsmcpp/variant.hpp | 3 +++
 src/variant.cpp            | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 41697c8..55f190e 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -864,6 +864,9 @@ Variant::Variant(const T& v, const Type t) {
 
 template <typename T>
 void Variant::assign(const T& v, const Type t) {
+    // v could be stored inside of the current value, so it must stay valid until we are done
+    const std::shared_ptr<void> previousData = data;
+
     freeMemory();
     createMemoryAllocator<T>();
     type = t;
diff --git a/src/variant.cpp b/src/variant.cpp
index a249742..91e0217 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -130,6 +130,9 @@ Variant& Variant::operator=(const char* v) {
 
 Variant& Variant::operator=(const Variant& v) {
     if (false == isSameObject(v)) {
+        // v could be stored inside of the current value, so it must stay valid until we are done
+        const std::shared_ptr<void> previousData = data;
+
         if ((Type::UNKNOWN != v.type) && (v.memoryAllocator)) {
             data = v.memoryAllocator(v.data.get());
             type = v.type;
@@ -145,6 +148,9 @@ Variant& Variant::operator=(const Variant& v) {
 
 Variant& Variant::operator=(Variant&& v) noexcept {
     if (false == isSameObject(v)) {
+        // v could be stored inside of the current value, so it must stay valid until we are done
+        const std::shared_ptr<void> previousData = std::move(data);
+
         data = std::move(v.data);
         type = v.type;
         memoryAllocator = std::move(v.memoryAllocator);
-- 
2.43.0


From 93a67528d54f5fd0f1f38a2a30edfc81ec0850bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:34 +0000
Subject: [PATCH 17/74] fix: compare signed and unsigned variants by value

---
 include/hsmcpp/variant.hpp | 2 ++
 src/variant.cpp            | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 55f190e..d68a659 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -659,6 +659,8 @@ private:
 
     bool isSameObject(const Variant& val) const;
 
+    bool isNegativeInteger() const;
+
     template <typename T>
     void assign(const T& v, const Type t);
 
diff --git a/src/variant.cpp b/src/variant.cpp
index 91e0217..0716810 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -178,6 +178,8 @@ bool Variant::operator>(const Variant& val) const {
         if (isNumeric() && val.isNumeric()) {
             if ((Type::DOUBLE == type) || (Type::DOUBLE == val.type)) {
                 isGreater = toDouble() > val.toDouble();
+            } else if (isNegativeInteger() != val.isNegativeInteger()) {
+                isGreater = val.isNegativeInteger();
             } else if (isUnsignedNumeric() || val.isUnsignedNumeric()) {
                 isGreater = toUInt64() > val.toUInt64();
             } else {
@@ -216,6 +218,8 @@ bool Variant::operator==(const Variant& val) const {
                     // compare with precision for double
                     // cppcheck-suppress misra-c2012-10.4 : false positive. both operands have type double
                     equal = (std::abs(toDouble() - val.toDouble()) < comparePrecision);
+                } else if (isNegativeInteger() != val.isNegativeInteger()) {
+                    equal = false;
                 } else if (isUnsignedNumeric() || val.isUnsignedNumeric()) {
                     equal = (toUInt64() == val.toUInt64());
                 } else {
@@ -784,6 +788,10 @@ bool Variant::isSameObject(const Variant& val) const {
     return ((val.data.get() == data.get()) && data);
 }
 
+bool Variant::isNegativeInteger() const {
+    return ((false == isUnsignedNumeric()) && (toInt64() < 0));
+}
+
 void Variant::freeMemory() {
     data.reset();
     type = Type::UNKNOWN;
-- 
2.43.0


From dd52d2ac81e3549b090baf528f086a5e66c5fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:34 +0000
Subject: [PATCH 18/74] fix: comparison of double variants must be consistent

---
 src/variant.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index 0716810..c9ac974 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -177,7 +177,8 @@ bool Variant::operator>(const Variant& val) const {
     if ((data != val.data) && (data) && (val.data)) {
         if (isNumeric() && val.isNumeric()) {
             if ((Type::DOUBLE == type) || (Type::DOUBLE == val.type)) {
-                isGreater = toDouble() > val.toDouble();
+                // values which are equal within comparison precision are not greater
+                isGreater = (toDouble() > val.toDouble()) && !(*this == val);
             } else if (isNegativeInteger() != val.isNegativeInteger()) {
                 isGreater = val.isNegativeInteger();
             } else if (isUnsignedNumeric() || val.isUnsignedNumeric()) {
@@ -215,9 +216,9 @@ bool Variant::operator==(const Variant& val) const {
         if ((data) && (val.data)) {
             if (isNumeric() && val.isNumeric()) {
                 if ((Type::DOUBLE == type) || (Type::DOUBLE == val.type)) {
-                    // compare with precision for double
+                    // compare with precision for double (infinite values can only be compared directly)
                     // cppcheck-suppress misra-c2012-10.4 : false positive. both operands have type double
-                    equal = (std::abs(toDouble() - val.toDouble()) < comparePrecision);
+                    equal = (toDouble() == val.toDouble()) || (std::abs(toDouble() - val.toDouble()) < comparePrecision);
                 } else if (isNegativeInteger() != val.isNegativeInteger()) {
                     equal = false;
                 } else if (isUnsignedNumeric() || val.isUnsignedNumeric()) {
-- 
2.43.0


From 690c531fd14662ab1f9595ad9374279b97b8a615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:34 +0000
Subject: [PATCH 19/74] fix: variants of different types must not be less than
 each other

---
 src/variant.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index c9ac974..5146b0d 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -201,11 +201,11 @@ bool Variant::operator>=(const Variant& val) const {
 }
 
 bool Variant::operator<(const Variant& val) const {
-    return (*this != val) && !(*this > val);
+    return (val > *this);
 }
 
 bool Variant::operator<=(const Variant& val) const {
-    return (*this == val) || !(*this > val);
+    return (*this == val) || (val > *this);
 }
 
 bool Variant::operator==(const Variant& val) const {
-- 
2.43.0


From 1668d194a7a7fa781f5286ccdfcd632c41af022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:34 +0000
Subject: [PATCH 20/74] fix: convert fractional and big numbers to bool

---
 src/variant.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index 5146b0d..5a2db26 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -3,6 +3,7 @@
 
 #include "hsmcpp/variant.hpp"
 
+#include <cmath>
 #include <cstring>
 
 #include "hsmcpp/os/os.hpp"
@@ -634,7 +635,9 @@ bool Variant::toBool() const {
 
         if (strValue != "true") {
             HSM_TRY {
-                result = (0 != std::stoll(strValue));
+                const double number = std::stod(strValue);
+
+                result = (0.0 != number) && std::isfinite(number);
             }
             HSM_CATCH(...) {
                 // return empty value
@@ -642,6 +645,8 @@ bool Variant::toBool() const {
         } else {
             result = true;
         }
+    } else if (Type::DOUBLE == type) {
+        result = (0.0 != *value<double>());
     } else {
         result = (0 != toInt64());
     }
-- 
2.43.0


From 5d6b701912fdea74851f6bdf7dab5358847f886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 21/74] fix: undefined behavior when converting big doubles to
 integers

---
 src/variant.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index 5a2db26..310302f 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -34,6 +34,23 @@
 
 namespace hsmcpp {
 
+namespace {
+
+// conversion of values which don't fit into destination type is undefined behavior, so 0 is used for them
+int64_t doubleToInt64(const double value) {
+    constexpr double limit = 9223372036854775808.0;  // 2^63
+
+    return (((value >= -limit) && (value < limit)) ? static_cast<int64_t>(value) : 0);
+}
+
+uint64_t doubleToUInt64(const double value) {
+    constexpr double limit = 18446744073709551616.0;  // 2^64
+
+    return (((value >= 0.0) && (value < limit)) ? static_cast<uint64_t>(value) : static_cast<uint64_t>(doubleToInt64(value)));
+}
+
+}  // namespace
+
 // =================================================================================================================
 // make()
 IMPL_MAKE(int8_t)
@@ -479,7 +496,7 @@ int64_t Variant::toInt64() const {
             break;
 
         case Type::DOUBLE:
-            result = static_cast<int64_t>(*value<double>());
+            result = doubleToInt64(*value<double>());
             break;
 
         case Type::BOOL:
@@ -538,7 +555,7 @@ uint64_t Variant::toUInt64() const {
             break;
 
         case Type::DOUBLE:
-            result = static_cast<uint64_t>(*value<double>());
+            result = doubleToUInt64(*value<double>());
             break;
 
         case Type::BOOL:
-- 
2.43.0


From 48102ec307af9ce6ad55d39c8fd7a4ab08305947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:49 +0000
Subject: [PATCH 22/74] fix: keep lock after waiting for condition variable,
 allow self-move of UniqueLock

---
 src/os/common/UniqueLock.cpp     | 16 +++++++++-------
 src/os/stl/ConditionVariable.cpp | 10 ++++------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/os/common/UniqueLock.cpp b/src/os/common/UniqueLock.cpp
index de7f336..d8a52b5 100644
--- a/src/os/common/UniqueLock.cpp
+++ b/src/os/common/UniqueLock.cpp
@@ -25,15 +25,17 @@ UniqueLock::UniqueLock(UniqueLock&& src) noexcept
 }
 
 UniqueLock& UniqueLock::operator=(UniqueLock&& src) noexcept {
-    if (mOwnsLock) {
-        unlock();
-    }
+    if (this != &src) {
+        if (mOwnsLock) {
+            unlock();
+        }
 
-    mSync = src.mSync;
-    mOwnsLock = src.mOwnsLock;
+        mSync = src.mSync;
+        mOwnsLock = src.mOwnsLock;
 
-    src.mSync = nullptr;
-    src.mOwnsLock = false;
+        src.mSync = nullptr;
+        src.mOwnsLock = false;
+    }
 
     return *this;
 }
diff --git a/src/os/stl/ConditionVariable.cpp b/src/os/stl/ConditionVariable.cpp
index 00a3ded..e520ee3 100644
--- a/src/os/stl/ConditionVariable.cpp
+++ b/src/os/stl/ConditionVariable.cpp
@@ -12,7 +12,7 @@ void ConditionVariable::wait(UniqueLock& sync, const std::function<bool()>& stop
     std::unique_lock<std::mutex> lck;
 
     if (false == sync.owns_lock()) {
-        lck = std::unique_lock<std::mutex>(sync.mutex()->nativeHandle(), std::try_to_lock);
+        lck = std::unique_lock<std::mutex>(sync.mutex()->nativeHandle());
     } else {
         lck = std::unique_lock<std::mutex>(sync.mutex()->nativeHandle(), std::adopt_lock);
     }
@@ -26,8 +26,7 @@ void ConditionVariable::wait(UniqueLock& sync, const std::function<bool()>& stop
 
     // no need to unlock on exit if lock already belonged to UniqueLock object
     if (true == sync.owns_lock()) {
-        lck.release();
-        sync.unlock();
+        (void)lck.release();
     }
 }
 
@@ -35,7 +34,7 @@ bool ConditionVariable::wait_for(UniqueLock& sync, const int timeoutMs, const st
     std::unique_lock<std::mutex> lck;
 
     if (false == sync.owns_lock()) {
-        lck = std::unique_lock<std::mutex>(sync.mutex()->nativeHandle(), std::try_to_lock);
+        lck = std::unique_lock<std::mutex>(sync.mutex()->nativeHandle());
     } else {
         lck = std::unique_lock<std::mutex>(sync.mutex()->nativeHandle(), std::adopt_lock);
     }
@@ -51,8 +50,7 @@ bool ConditionVariable::wait_for(UniqueLock& sync, const int timeoutMs, const st
 
     // no need to unlock on exit if lock already belonged to UniqueLock object
     if (true == sync.owns_lock()) {
-        lck.release();
-        sync.unlock();
+        (void)lck.release();
     }
 
     return res;
-- 
2.43.0


From 9a82103eeceaf911ac2a857328bd250099885fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:59 +0000
Subject: [PATCH 23/74] fix: critical section must not allocate memory (used in
 signal handlers)

---
 include/hsmcpp/os/common/CriticalSection.hpp | 6 +++---
 src/os/common/CriticalSection.cpp            | 4 +---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/hsmcpp/os/common/CriticalSection.hpp b/include/hsmcpp/os/common/CriticalSection.hpp
index 2f57053..b4ff1b0 100644
--- a/include/hsmcpp/os/common/CriticalSection.hpp
+++ b/include/hsmcpp/os/common/CriticalSection.hpp
@@ -3,12 +3,11 @@
 #ifndef HSMCPP_OS_COMMON_CRITICALSECTION_HPP
 #define HSMCPP_OS_COMMON_CRITICALSECTION_HPP
 
-#include <memory>
+#include "hsmcpp/os/InterruptsFreeSection.hpp"
 
 namespace hsmcpp {
 
 class Mutex;
-class InterruptsFreeSection;
 
 class CriticalSection {
 public:
@@ -23,7 +22,8 @@ private:
 
 private:
     Mutex& mSync;
-    std::unique_ptr<InterruptsFreeSection> mInterruptsBlock;
+    // NOTE: must not allocate memory since critical section could be entered from a signal or an interrupt
+    InterruptsFreeSection mInterruptsBlock;
 };
 
 }  // namespace hsmcpp
diff --git a/src/os/common/CriticalSection.cpp b/src/os/common/CriticalSection.cpp
index f35a29a..48c773a 100644
--- a/src/os/common/CriticalSection.cpp
+++ b/src/os/common/CriticalSection.cpp
@@ -2,14 +2,12 @@
 // Distributed under MIT license. See file LICENSE for details
 #include "hsmcpp/os/common/CriticalSection.hpp"
 
-#include "hsmcpp/os/InterruptsFreeSection.hpp"
 #include "hsmcpp/os/Mutex.hpp"
 
 namespace hsmcpp {
 
 CriticalSection::CriticalSection(Mutex& sync)
-    : mSync(sync)
-    , mInterruptsBlock(new InterruptsFreeSection()) {
+    : mSync(sync) {
     mSync.lock();
 }
 
-- 
2.43.0


From 4eae6e4b3c9e6294f02bb9f1c505b449ee1a5eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:19 +0000
Subject: [PATCH 24/74] fix: sync transition could miss notification about
 processed event

---
 src/HsmImplTypes.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/HsmImplTypes.cpp b/src/HsmImplTypes.cpp
index 3406f41..0416074 100644
--- a/src/HsmImplTypes.cpp
+++ b/src/HsmImplTypes.cpp
@@ -4,6 +4,7 @@
 #include "HsmImplTypes.hpp"
 
 #include "hsmcpp/logging.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -170,7 +171,13 @@ void PendingEventInfo::unlock(const HsmEventStatus status) {
 
     if (true == isSync()) {
         HSM_TRACE_DEBUG("SYNC object (%p)", transitionStatus.get());
-        *transitionStatus = status;
+
+        {
+            // NOTE: status must be updated under lock. otherwise notification could get lost if it happens after wait() already
+            //       checked the status, but didn't start waiting yet
+            LockGuard lck(*cvLock);
+            *transitionStatus = status;
+        }
 
         if (status != HsmEventStatus::PENDING) {
             syncProcessed->notify();
-- 
2.43.0


From 6b048a9c972bfa55f7e50f0c93456d2af536e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:00 +0000
Subject: [PATCH 25/74] fix: enqueued events could exceed capacity of the
 queue, were delivered in wrong order or to unregistered handlers

---
 src/HsmEventDispatcherBase.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index b1c8812..15fa3f6 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -75,13 +75,17 @@ void HsmEventDispatcherBase::emitEvent(const HandlerID_t handlerID) {
 bool HsmEventDispatcherBase::enqueueEvent(const HandlerID_t handlerID, const EventID_t event) {
     bool wasAdded = false;
 
-    if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {
-        {
-            CriticalSection cs(mEnqueuedEventsSync);
+    {
+        CriticalSection cs(mEnqueuedEventsSync);
+
+        // NOTE: must never exceed capacity to avoid memory allocations
+        if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {
             mEnqueuedEvents.emplace_back(handlerID, event);
+            wasAdded = true;
         }
+    }
 
-        wasAdded = true;
+    if (true == wasAdded) {
         notifyDispatcherAboutEvent();
     }
 
@@ -283,9 +287,7 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
-    if ((false == mStopDispatcher) && (false == mEnqueuedEvents.empty())) {
-        HandlerID_t prevHandlerID = INVALID_HSM_DISPATCHER_HANDLER_ID;
-        EnqueuedEventHandlerFunc_t callback;
+    if (false == mStopDispatcher) {
         std::vector<EnqueuedEventInfo> currentEvents;
 
         {
@@ -296,14 +298,20 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
             mEnqueuedEvents.clear();
         }
 
-        // need to traverse events in reverse order
-        for (auto it = currentEvents.rbegin(); (it != currentEvents.rend()) && (false == mStopDispatcher); ++it) {
-            if (prevHandlerID != it->handlerID) {
+        for (auto it = currentEvents.begin(); (it != currentEvents.end()) && (false == mStopDispatcher); ++it) {
+            EnqueuedEventHandlerFunc_t callback;
+
+            {
+                LockGuard lck(mHandlersSync);
                 callback = getEnqueuedEventHandlerFunc(it->handlerID);
-                prevHandlerID = it->handlerID;
             }
 
-            callback(it->eventID);
+            // NOTE: handler could have been unregistered while event was waiting in the queue
+            // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::function has bool() operator
+            if (callback && (false == callback(it->eventID))) {
+                // NOTE: if callback returns FALSE it means the handler doesn't want to process more events
+                unregisterEnqueuedEventHandler(it->handlerID);
+            }
         }
     }
 }
-- 
2.43.0


From ecc189392f90aed7c8873e4ee8e0c68a612ca16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:11 +0000
Subject: [PATCH 26/74] fix: handlers which were unregistered or became invalid
 must not be called

---
 src/HsmEventDispatcherBase.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 15fa3f6..875dfa5 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -347,26 +347,25 @@ void HsmEventDispatcherBase::dispatchPendingEvents() {
 void HsmEventDispatcherBase::dispatchPendingEventsImpl(const std::list<HandlerID_t>& events) {
     dispatchEnqueuedEvents();
 
-    if ((false == mStopDispatcher) && (false == events.empty())) {
-        std::map<HandlerID_t, EventHandlerFunc_t> eventHandlersCopy;
+    for (auto it = events.begin(); (it != events.end()) && (false == mStopDispatcher); ++it) {
+        EventHandlerFunc_t callback;
 
         {
-            // TODO: workaround to prevent recursive lock if registerEventHandler/unregisterEventHandler is called from handler
-            // callback
+            // NOTE: make a copy to prevent recursive lock if registerEventHandler/unregisterEventHandler is called from handler
+            //       callback. Need to check each time since handler could be unregistered while processing previous events.
             LockGuard lck(mHandlersSync);
-            eventHandlersCopy = mEventHandlers;
-        }
-
-        for (auto it = events.begin(); (it != events.end()) && (false == mStopDispatcher); ++it) {
-            auto itHandler = eventHandlersCopy.find(*it);
+            auto itHandler = mEventHandlers.find(*it);
 
-            if (itHandler != eventHandlersCopy.end()) {
-                // NOTE: if callback returns FALSE it means the handler doesn't want to process more events
-                if (false == itHandler->second()) {
-                    eventHandlersCopy.erase(itHandler);
-                }
+            if (itHandler != mEventHandlers.end()) {
+                callback = itHandler->second;
             }
         }
+
+        // NOTE: if callback returns FALSE it means the handler doesn't want to process more events
+        // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::function has bool() operator
+        if (callback && (false == callback())) {
+            unregisterEventHandler(*it);
+        }
     }
 }
 
-- 
2.43.0


From d927ffe18120892ade63733937a3a3cb33066259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:43 +0000
Subject: [PATCH 27/74] fix: event could be handled before an action which was
 enqueued earlier

---
 src/HsmEventDispatcherBase.cpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 875dfa5..47cd7d9 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -317,30 +317,29 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
 }
 
 void HsmEventDispatcherBase::dispatchPendingActions() {
-    if (false == mPendingActions.empty()) {
-        std::list<ActionHandlerFunc_t> actionsSnapshot;
+    std::list<ActionHandlerFunc_t> actionsSnapshot;
 
-        {
-            LockGuard lck(mEmitSync);
-            actionsSnapshot = std::move(mPendingActions);
-        }
+    {
+        LockGuard lck(mEmitSync);
+        actionsSnapshot.swap(mPendingActions);
+    }
 
-        for (const ActionHandlerFunc_t& actionCallback : actionsSnapshot) {
-            actionCallback();
-        }
+    for (const ActionHandlerFunc_t& actionCallback : actionsSnapshot) {
+        actionCallback();
     }
 }
 
 void HsmEventDispatcherBase::dispatchPendingEvents() {
     std::list<HandlerID_t> events;
 
-    dispatchPendingActions();
-
-    if (false == mPendingEvents.empty()) {
+    {
+        // NOTE: must be done before dispatching actions. Otherwise event could be handled before an action which was enqueued
+        //       earlier
         LockGuard lck(mEmitSync);
-        events = std::move(mPendingEvents);
+        events.swap(mPendingEvents);
     }
 
+    dispatchPendingActions();
     dispatchPendingEventsImpl(events);
 }
 
-- 
2.43.0


From 052b004f53aef9c6a025eaff03cb67876ac45056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:53 +0000
Subject: [PATCH 28/74] fix: dispatcher thread could miss notifications about
 events, actions and stop requests

---
 include/hsmcpp/HsmEventDispatcherSTD.hpp |  1 +
 src/HsmEventDispatcherSTD.cpp            | 31 ++++++++++++------------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherSTD.hpp b/include/hsmcpp/HsmEventDispatcherSTD.hpp
index c04001f..2071328 100644
--- a/include/hsmcpp/HsmEventDispatcherSTD.hpp
+++ b/include/hsmcpp/HsmEventDispatcherSTD.hpp
@@ -109,6 +109,7 @@ private:
     // NOTE: ideally it would be better to use a semaphore here, but there are no semaphores in C++11
     ConditionVariable mEmitEvent;
     ConditionVariable mTimerEvent;
+    bool mNotifiedDispatcherThread = false; // protected by mEnqueuedEventsSync
     bool mNotifiedTimersThread = false;
     std::map<TimerID_t, RunningTimerInfo> mRunningTimers; // protected by mRunningTimersSync
 };
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 2f216a7..5ce30be 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -5,6 +5,8 @@
 
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
+#include "hsmcpp/os/InterruptsFreeSection.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -60,8 +62,6 @@ bool HsmEventDispatcherSTD::start() {
 
 void HsmEventDispatcherSTD::stop() {
     HSM_TRACE_CALL_DEBUG();
-    UniqueLock lck(mEmitSync);
-
     HsmEventDispatcherBase::stop();
     unregisterAllEventHandlers();
     notifyDispatcherAboutEvent();
@@ -125,6 +125,10 @@ void HsmEventDispatcherSTD::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherSTD::notifyDispatcherAboutEvent() {
+    // NOTE: need to hold the lock to make sure that dispatcher thread is not between checking for events and starting to wait.
+    //       Interrupts are blocked because this function is also used from interrupt handlers (see enqueueEvent())
+    CriticalSection cs(mEnqueuedEventsSync);
+    mNotifiedDispatcherThread = true;
     mEmitEvent.notify();
 }
 
@@ -135,19 +139,16 @@ void HsmEventDispatcherSTD::doDispatching() {
         HsmEventDispatcherBase::dispatchPendingEvents();
 
         if (false == mStopDispatcher) {
-            UniqueLock lck(mEmitSync);
-
-            if (true == mPendingEvents.empty()) {
-                HSM_TRACE_DEBUG("wait for emit...");
-                // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
-                //       "return" statement belogs to a lamda function, not doDispatching.
-                // cppcheck-suppress misra-c2012-15.5
-                mEmitEvent.wait(lck, [=]() {
-                    // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
-                    return (false == mPendingEvents.empty()) || (false == mEnqueuedEvents.empty()) || (true == mStopDispatcher);
-                });
-                HSM_TRACE_DEBUG("woke up. pending events=%lu", mPendingEvents.size());
-            }
+            // NOTE: interrupt handlers must not be executed by current thread while it owns mEnqueuedEventsSync
+            InterruptsFreeSection interruptsBlock;
+            UniqueLock lck(mEnqueuedEventsSync);
+
+            HSM_TRACE_DEBUG("wait for emit...");
+            // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
+            //       "return" statement belogs to a lamda function, not doDispatching.
+            // cppcheck-suppress misra-c2012-15.5
+            mEmitEvent.wait(lck, [=]() { return mNotifiedDispatcherThread || mStopDispatcher; });
+            mNotifiedDispatcherThread = false;
         }
     }
 
-- 
2.43.0


From 3acea438fc27af3deec406f241de026010aa78fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:28 +0000
Subject: [PATCH 29/74] fix: expired timers could not be restarted, data races
 in timers and handlers registration

- restartTimer() must restart expired single shot timers (as documented)
- isTimerRunning() and getNextHandlerID() accessed shared data without lock
- timer handlers which return FALSE must be unregistered (as documented)
---
 include/hsmcpp/HsmEventDispatcherBase.hpp | 11 +++++
 src/HsmEventDispatcherBase.cpp            | 57 ++++++++++++++---------
 2 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherBase.hpp b/include/hsmcpp/HsmEventDispatcherBase.hpp
index 07d95f9..350f601 100644
--- a/include/hsmcpp/HsmEventDispatcherBase.hpp
+++ b/include/hsmcpp/HsmEventDispatcherBase.hpp
@@ -31,6 +31,7 @@ protected:
         HandlerID_t handlerID = INVALID_HSM_DISPATCHER_HANDLER_ID;
         unsigned int intervalMs = 0;
         bool isSingleShot = false;
+        bool isExpired = false;  ///< true for singleshot timers which already fired (can be restarted)
     };
 
     struct EnqueuedEventInfo {
@@ -170,6 +171,11 @@ protected:
      */
     void unregisterAllEventHandlers();
 
+    /**
+     * @brief Same as unregisterTimerHandler() but must be called with locked mHandlersSync.
+     */
+    void unregisterTimerHandlerUnsafe(const HandlerID_t handlerID);
+
     /**
      * @brief Find enqueued events handler callback.
      *
@@ -223,6 +229,11 @@ protected:
      */
     unsigned int handleTimerEvent(const TimerID_t timerID);
 
+    /**
+     * @brief Same as handleTimerEvent() but must be called with locked mHandlersSync.
+     */
+    unsigned int handleTimerEventUnsafe(const TimerID_t timerID);
+
     /**
      * @brief Wakeup dispatching thread to process pending events.
      * @details Must be implemented by derived classes.
diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 47cd7d9..768bca8 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -38,8 +38,8 @@ void HsmEventDispatcherBase::stop() {
 
 HandlerID_t HsmEventDispatcherBase::registerEventHandler(const EventHandlerFunc_t& handler) {
     HSM_TRACE_CALL_DEBUG();
-    HandlerID_t id = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    HandlerID_t id = getNextHandlerID();
 
     mEventHandlers[id] = handler;
 
@@ -105,8 +105,8 @@ void HsmEventDispatcherBase::enqueueAction(ActionHandlerFunc_t actionCallback) {
 
 HandlerID_t HsmEventDispatcherBase::registerEnqueuedEventHandler(const EnqueuedEventHandlerFunc_t& handler) {
     HSM_TRACE_CALL_DEBUG();
-    HandlerID_t id = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    HandlerID_t id = getNextHandlerID();
 
     mEnqueuedEventHandlers[id] = handler;
 
@@ -121,8 +121,8 @@ void HsmEventDispatcherBase::unregisterEnqueuedEventHandler(const HandlerID_t ha
 }
 
 HandlerID_t HsmEventDispatcherBase::registerTimerHandler(const TimerHandlerFunc_t& handler) {
-    const HandlerID_t newID = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    const HandlerID_t newID = getNextHandlerID();
 
     mTimerHandlers[newID] = handler;
 
@@ -131,6 +131,10 @@ HandlerID_t HsmEventDispatcherBase::registerTimerHandler(const TimerHandlerFunc_
 
 void HsmEventDispatcherBase::unregisterTimerHandler(const HandlerID_t handlerID) {
     LockGuard lck(mHandlersSync);
+    unregisterTimerHandlerUnsafe(handlerID);
+}
+
+void HsmEventDispatcherBase::unregisterTimerHandlerUnsafe(const HandlerID_t handlerID) {
     auto itHandler = mTimerHandlers.find(handlerID);
 
     if (mTimerHandlers.end() != itHandler) {
@@ -166,6 +170,7 @@ void HsmEventDispatcherBase::startTimer(const HandlerID_t handlerID,
                 it->second.handlerID = handlerID;
                 it->second.intervalMs = intervalMs;
                 it->second.isSingleShot = isSingleShot;
+                it->second.isExpired = false;
 
                 // restart timer
                 stopTimerImpl(timerID);
@@ -192,6 +197,7 @@ void HsmEventDispatcherBase::restartTimer(const TimerID_t timerID) {
     auto it = mActiveTimers.find(timerID);
 
     if (mActiveTimers.end() != it) {
+        it->second.isExpired = false;
         stopTimerImpl(timerID);
         startTimerImpl(timerID, it->second.intervalMs, it->second.isSingleShot);
     }
@@ -211,7 +217,10 @@ void HsmEventDispatcherBase::stopTimer(const TimerID_t timerID) {
 }
 
 bool HsmEventDispatcherBase::isTimerRunning(const TimerID_t timerID) {
-    return (mActiveTimers.find(timerID) != mActiveTimers.end());
+    LockGuard lck(mHandlersSync);
+    auto it = mActiveTimers.find(timerID);
+
+    return (mActiveTimers.end() != it) && (false == it->second.isExpired);
 }
 
 int HsmEventDispatcherBase::getNextHandlerID() {
@@ -256,30 +265,34 @@ void HsmEventDispatcherBase::stopTimerImpl(const TimerID_t timerID) {
 }
 
 unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
-    HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
-    unsigned int nextIntervalMs = 0;
-
-    if (INVALID_HSM_TIMER_ID != timerID) {
-        // NOTE: should lock the whole block to prevent situation when timer handler is unregistered during handler execution
-        LockGuard lck(mHandlersSync);
+    // NOTE: should lock the whole block to prevent situation when timer handler is unregistered during handler execution
+    LockGuard lck(mHandlersSync);
 
-        auto itTimer = mActiveTimers.find(timerID);
+    return handleTimerEventUnsafe(timerID);
+}
 
-        if (mActiveTimers.end() != itTimer) {
-            HSM_TRACE_DEBUG("curTimer.handlerID=%d", itTimer->second.handlerID);
+unsigned int HsmEventDispatcherBase::handleTimerEventUnsafe(const TimerID_t timerID) {
+    HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
+    unsigned int nextIntervalMs = 0;
+    auto itTimer = mActiveTimers.find(timerID);
 
-            if (INVALID_HSM_DISPATCHER_HANDLER_ID != itTimer->second.handlerID) {
-                TimerHandlerFunc_t timerHandler = getTimerHandlerFunc(itTimer->second.handlerID);
+    if ((INVALID_HSM_TIMER_ID != timerID) && (mActiveTimers.end() != itTimer)) {
+        const HandlerID_t handlerID = itTimer->second.handlerID;
+        TimerHandlerFunc_t timerHandler = getTimerHandlerFunc(handlerID);
 
-                nextIntervalMs = ((true == itTimer->second.isSingleShot) ? 0 : itTimer->second.intervalMs);
+        HSM_TRACE_DEBUG("curTimer.handlerID=%d", handlerID);
+        nextIntervalMs = ((true == itTimer->second.isSingleShot) ? 0 : itTimer->second.intervalMs);
 
-                // Remove singleshot timer from active list
-                if (0u == nextIntervalMs) {
-                    mActiveTimers.erase(itTimer);
-                }
+        // NOTE: singleshot timers are not removed to be able to restart them later
+        if (0u == nextIntervalMs) {
+            itTimer->second.isExpired = true;
+        }
 
-                timerHandler(timerID);
-            }
+        // NOTE: if callback returns FALSE it means the handler doesn't want to process more events
+        // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::function has bool() operator
+        if (timerHandler && (false == timerHandler(timerID))) {
+            unregisterTimerHandlerUnsafe(handlerID);
+            nextIntervalMs = 0;
         }
     }
 
-- 
2.43.0


From 5c8bae3471cf9951b29e3fe5b7a2597cfef15299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:28 +0000
Subject: [PATCH 30/74] fix: timers of STD dispatcher could fire too early, too
 late, twice or be lost

- notification from startTimer()/stopTimer() could be missed
- timer restarted while waiting for a handler could fire immediately
- remaining time was rounded down and overflowed for big intervals
- interval of repeating timers was drifting
- deadlock caused by different order of locking in timers thread and startTimer()/stopTimer()
---
 include/hsmcpp/HsmEventDispatcherSTD.hpp |   3 +-
 src/HsmEventDispatcherSTD.cpp            | 104 +++++++++++++----------
 2 files changed, 62 insertions(+), 45 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherSTD.hpp b/include/hsmcpp/HsmEventDispatcherSTD.hpp
index 2071328..4fba1f8 100644
--- a/include/hsmcpp/HsmEventDispatcherSTD.hpp
+++ b/include/hsmcpp/HsmEventDispatcherSTD.hpp
@@ -102,6 +102,7 @@ protected:
 
     void notifyTimersThread();
     void handleTimers();
+    void handleExpiredTimer(const TimerID_t timerID);
 
 private:
     std::thread mDispatcherThread;
@@ -110,7 +111,7 @@ private:
     ConditionVariable mEmitEvent;
     ConditionVariable mTimerEvent;
     bool mNotifiedDispatcherThread = false; // protected by mEnqueuedEventsSync
-    bool mNotifiedTimersThread = false;
+    bool mNotifiedTimersThread = false; // protected by mRunningTimersSync
     std::map<TimerID_t, RunningTimerInfo> mRunningTimers; // protected by mRunningTimersSync
 };
 
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 5ce30be..f5c4d12 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -3,6 +3,9 @@
 
 #include "hsmcpp/HsmEventDispatcherSTD.hpp"
 
+#include <algorithm>
+#include <limits>
+
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
 #include "hsmcpp/os/InterruptsFreeSection.hpp"
@@ -157,17 +160,21 @@ void HsmEventDispatcherSTD::doDispatching() {
 
 void HsmEventDispatcherSTD::notifyTimersThread() {
     HSM_TRACE_CALL_DEBUG();
+    CriticalSection cs(mRunningTimersSync);
     mNotifiedTimersThread = true;
     mTimerEvent.notify();
 }
 
 void HsmEventDispatcherSTD::handleTimers() {
     HSM_TRACE_CALL_DEBUG();
-    Mutex timerEventSync;
-    UniqueLock lck(timerEventSync);
+    // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
+    //       "return" statement belogs to a lamda function, not handleTimers.
+    // cppcheck-suppress misra-c2012-15.5
+    const auto isNotified = [this]() { return mNotifiedTimersThread || mStopDispatcher; };
+    UniqueLock lck(mRunningTimersSync);
 
     while (false == mStopDispatcher) {
-        mRunningTimersSync.lock();
+        mNotifiedTimersThread = false;
 
         if (false == mRunningTimers.empty()) {
             auto itTimeout = mRunningTimers.begin();
@@ -178,63 +185,72 @@ void HsmEventDispatcherSTD::handleTimers() {
                 }
             }
 
-            TimerID_t waitingTimerId = itTimeout->first;
-            const int waitDurationMs = std::chrono::duration_cast<std::chrono::milliseconds>(itTimeout->second.elapseAfter -
-                                                                                         std::chrono::steady_clock::now())
-                                       .count();
-
-            // unlock after itTimeout value is not needed anymore
-            mRunningTimersSync.unlock();
-            // NOTE: make sure we don't use itTimeout value after this line
+            const TimerID_t waitingTimerId = itTimeout->first;
+            const auto timeLeft = itTimeout->second.elapseAfter - std::chrono::steady_clock::now();
 
-            bool waitResult = false;
+            // if there is no time left it means that timer already expired and we only need to trigger event
+            if (timeLeft > std::chrono::steady_clock::duration::zero()) {
+                // NOTE: round up because timer must not be triggered too early
+                const auto waitDurationMs =
+                    std::chrono::duration_cast<std::chrono::milliseconds>(timeLeft + std::chrono::microseconds(999)).count();
 
-            // if waitDurationMs <= 0 it means that timer already expired and we only need to trigger event
-            if (waitDurationMs > 0) {
-                // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
-                //       "return" statement belogs to a lamda function, not doDispatching.
-                // cppcheck-suppress misra-c2012-15.5
-                waitResult = mTimerEvent.wait_for(lck, waitDurationMs, [&]() { return mNotifiedTimersThread; });
+                // NOTE: make sure we don't use itTimeout value after this line
+                (void)mTimerEvent.wait_for(
+                    lck,
+                    static_cast<int>(std::min<int64_t>(waitDurationMs, std::numeric_limits<int>::max())),
+                    isNotified);
+            } else {
+                // NOTE: unlock to keep the same locking order as when starting and stopping timers
+                lck.unlock();
+                handleExpiredTimer(waitingTimerId);
+                lck.lock();
             }
+        } else {
+            // wait for timer events
+            mTimerEvent.wait(lck, isNotified);
+        }
+    }
 
-            mNotifiedTimersThread = false;
+    HSM_TRACE_DEBUG("EXIT");
+}
+
+void HsmEventDispatcherSTD::handleExpiredTimer(const TimerID_t timerID) {
+    // NOTE: timer can't be stopped, restarted or unregistered until it's processed
+    LockGuard lckHandlers(mHandlersSync);
+    bool isExpired = false;
 
-            if (false == waitResult) {
-                // timeout expired
+    {
+        CriticalSection lckTimers(mRunningTimersSync);
+        const auto currentTime = std::chrono::steady_clock::now();
+        auto itTimeout = mRunningTimers.find(timerID);
 
-                // store wakeup time in case we'll need to calculate new elapseAfter value
-                // needed to avoid potential delays caused by CriticalSection and handleTimerEvent()
-                const auto wakeupTime = std::chrono::steady_clock::now();
-                CriticalSection lckExpired(mRunningTimersSync);
+        // timer could have been modified while mRunningTimersSync was unlocked
+        if ((itTimeout != mRunningTimers.end()) && (itTimeout->second.elapseAfter <= currentTime)) {
+            const auto itActive = mActiveTimers.find(timerID);
 
-                itTimeout = mRunningTimers.find(waitingTimerId);
+            if ((itActive != mActiveTimers.end()) && (false == itActive->second.isSingleShot)) {
+                const auto interval = std::chrono::milliseconds(itActive->second.intervalMs);
 
-                if (itTimeout != mRunningTimers.end()) {
-                    const unsigned int nextIntervalMs = handleTimerEvent(waitingTimerId);
+                // restart timer. calculate next timeout based on the previous one to avoid accumulation of delays
+                itTimeout->second.startedAt = itTimeout->second.elapseAfter;
+                itTimeout->second.elapseAfter += interval;
 
-                    if (nextIntervalMs > 0u) {
-                        // restart timer
-                        itTimeout->second.startedAt = wakeupTime;
-                        itTimeout->second.elapseAfter = itTimeout->second.startedAt + std::chrono::milliseconds(nextIntervalMs);
-                    } else {
-                        // single shot timer. remove from queue
-                        mRunningTimers.erase(itTimeout);
-                    }
-                } else {
-                    // do nothing
+                if (itTimeout->second.elapseAfter <= currentTime) {
+                    itTimeout->second.startedAt = currentTime;
+                    itTimeout->second.elapseAfter = currentTime + interval;
                 }
             } else {
-                // thread was woken up by start/stop operation. no need to do anything
+                // single shot timer. remove from queue
+                mRunningTimers.erase(itTimeout);
             }
-        } else {
-            mRunningTimersSync.unlock();
 
-            // wait for timer events
-            mTimerEvent.wait(lck);
+            isExpired = true;
         }
     }
 
-    HSM_TRACE_DEBUG("EXIT");
+    if (true == isExpired) {
+        (void)handleTimerEventUnsafe(timerID);
+    }
 }
 
 }  // namespace hsmcpp
\ No newline at end of file
-- 
2.43.0


From 7c3a0ea3bd0ae041933425b625e45548de0fc391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:50 +0000
Subject: [PATCH 31/74] fix: events queue could be cleared by another thread
 before dispatching an event

---
 src/HsmImpl.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 60d034b..fb663a8 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -634,15 +634,21 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
         UniqueLock lk = mIsDispatching.lock();
 
         if (false == mStopDispatching) {
-            if (false == mPendingEvents.empty()) {
-                PendingEventInfo pendingEvent;
+            bool hasEvent = false;
+            PendingEventInfo pendingEvent;
 
-                {
-                    HSM_SYNC_EVENTS_QUEUE();
+            {
+                // NOTE: queue could be cleared by another thread
+                HSM_SYNC_EVENTS_QUEUE();
+
+                if (false == mPendingEvents.empty()) {
                     pendingEvent = std::move(mPendingEvents.front());
                     mPendingEvents.pop_front();
+                    hasEvent = true;
                 }
+            }
 
+            if (true == hasEvent) {
                 HsmEventStatus transitiontStatus = doTransition(pendingEvent);
 
                 HSM_TRACE_DEBUG("unlock with status %d", SC2INT(transitiontStatus));
-- 
2.43.0


From dd732fad03b30a6c6315f878c86646d3b4a93ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:50 +0000
Subject: [PATCH 32/74] fix: sync transition could hang if machine was released
 before event got processed

---
 src/HsmImpl.cpp | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index fb663a8..6123c0e 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -187,6 +187,17 @@ void HierarchicalStateMachine::Impl::release() {
 
         // wait for current dispatching to finish if it's ongoing
         mIsDispatching.wait(true);
+
+        {
+            // NOTE: these events will never be processed. wakeup threads which wait for sync transitions
+            HSM_SYNC_EVENTS_QUEUE();
+
+            for (PendingEventInfo& pendingEvent : mPendingEvents) {
+                pendingEvent.releaseLock();
+            }
+
+            mPendingEvents.clear();
+        }
     }
 }
 
@@ -417,6 +428,7 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
                               args.size());
 
     bool status = false;
+    bool isReleased = false;
     auto dispatcherPtr = mDispatcher.lock();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
@@ -437,19 +449,28 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
                 clearPendingEvents();
             }
 
-            mPendingEvents.emplace_back(eventInfo);
-        }
+            // NOTE: events added after release() will never be processed
+            isReleased = mStopDispatching;
 
-        HSM_TRACE_DEBUG("transitionEx: emit");
-        dispatcherPtr->emitEvent(mEventsHandlerId);
+            if (false == isReleased) {
+                mPendingEvents.emplace_back(eventInfo);
+            }
+        }
 
-        if (true == sync) {
-            HSM_TRACE_DEBUG("transitionEx: wait...");
-            eventInfo.wait(timeoutMs);
-            status = (HsmEventStatus::DONE_OK == *eventInfo.transitionStatus);
+        if (true == isReleased) {
+            HSM_TRACE_ERROR("HSM was released");
         } else {
-            // always return true for async transitions
-            status = true;
+            HSM_TRACE_DEBUG("transitionEx: emit");
+            dispatcherPtr->emitEvent(mEventsHandlerId);
+
+            if (true == sync) {
+                HSM_TRACE_DEBUG("transitionEx: wait...");
+                eventInfo.wait(timeoutMs);
+                status = (HsmEventStatus::DONE_OK == *eventInfo.transitionStatus);
+            } else {
+                // always return true for async transitions
+                status = true;
+            }
         }
     } else {
         HSM_TRACE_ERROR("HSM is not initialized");
-- 
2.43.0


From 9e5f9b6714b09b2cdccb07a9ef2e802465f0607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 33/74] fix: events could be processed by dispatcher before
 startup of the machine was finished

---
 src/HsmImpl.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 6123c0e..da9f7e5 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -620,22 +620,33 @@ void HierarchicalStateMachine::Impl::handleStartup() {
         HSM_TRACE_DEBUG("state=<%s>", getStateName(mInitialState).c_str());
         std::list<StateID_t> entryPoints;
 
-        (void)onStateEntering(mInitialState, VariantVector_t());
-        mActiveStates.emplace_back(mInitialState);
-        onStateChanged(mInitialState, VariantVector_t());
+        // NOTE: dispatcher is already running. prevent it from processing events until startup is finished
+        (void)mIsDispatching.test_and_set();
 
-        if (true == getEntryPoints(mInitialState, INVALID_HSM_EVENT_ID, VariantVector_t(), entryPoints)) {
-            PendingEventInfo entryPointTransitionEvent;
+        {
+            UniqueLock lk = mIsDispatching.lock();
 
-            entryPointTransitionEvent.transitionType = TransitionBehavior::ENTRYPOINT;
-            entryPointTransitionEvent.id = INVALID_HSM_EVENT_ID;
+            (void)onStateEntering(mInitialState, VariantVector_t());
+            mActiveStates.emplace_back(mInitialState);
+            onStateChanged(mInitialState, VariantVector_t());
 
-            {
-                HSM_SYNC_EVENTS_QUEUE();
-                mPendingEvents.emplace_front(std::move(entryPointTransitionEvent));
+            if (true == getEntryPoints(mInitialState, INVALID_HSM_EVENT_ID, VariantVector_t(), entryPoints)) {
+                PendingEventInfo entryPointTransitionEvent;
+
+                entryPointTransitionEvent.transitionType = TransitionBehavior::ENTRYPOINT;
+                entryPointTransitionEvent.id = INVALID_HSM_EVENT_ID;
+
+                {
+                    HSM_SYNC_EVENTS_QUEUE();
+                    mPendingEvents.emplace_front(std::move(entryPointTransitionEvent));
+                }
             }
+
+            mIsDispatching.clear();
+            mIsDispatching.notify();
         }
 
+        // NOTE: events which were emitted during startup were skipped by dispatchEvents()
         if (false == mPendingEvents.empty()) {
             dispatcherPtr->emitEvent(mEventsHandlerId);
         }
-- 
2.43.0


From 663e102524646ce346dc5b36b478c57229ae08b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:51 +0000
Subject: [PATCH 34/74] fix: dispatcher could be destroyed by its own thread
 (last reference released by a callback)

---
 include/hsmcpp/HsmEventDispatcherSTD.hpp |  5 +++++
 src/HsmEventDispatcherSTD.cpp            | 16 +++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/hsmcpp/HsmEventDispatcherSTD.hpp b/include/hsmcpp/HsmEventDispatcherSTD.hpp
index 4fba1f8..cc2fa83 100644
--- a/include/hsmcpp/HsmEventDispatcherSTD.hpp
+++ b/include/hsmcpp/HsmEventDispatcherSTD.hpp
@@ -82,6 +82,11 @@ protected:
     */
     virtual ~HsmEventDispatcherSTD();
 
+    /**
+     * @brief Deleter of the dispatcher. Can be called from any thread (including threads of the dispatcher).
+     */
+    static void handleDelete(HsmEventDispatcherSTD* dispatcher);
+
     /**
      * @copydoc HsmEventDispatcherBase::deleteSafe()
      */
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index f5c4d12..e3a8ca1 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -31,7 +31,21 @@ HsmEventDispatcherSTD::~HsmEventDispatcherSTD() {
 
 std::shared_ptr<HsmEventDispatcherSTD> HsmEventDispatcherSTD::create(const size_t eventsCacheSize) {
     return std::shared_ptr<HsmEventDispatcherSTD>(new HsmEventDispatcherSTD(eventsCacheSize),
-                                                  &HsmEventDispatcherBase::handleDelete);
+                                                  &HsmEventDispatcherSTD::handleDelete);
+}
+
+void HsmEventDispatcherSTD::handleDelete(HsmEventDispatcherSTD* dispatcher) {
+    if (nullptr != dispatcher) {
+        const std::thread::id currentThread = std::this_thread::get_id();
+
+        // NOTE: last reference could be released by a callback (which is executed by one of the threads of this dispatcher).
+        //       thread can't wait for itself and must not destroy the object which it's using
+        if ((currentThread == dispatcher->mDispatcherThread.get_id()) || (currentThread == dispatcher->mTimersThread.get_id())) {
+            std::thread(&HsmEventDispatcherBase::handleDelete, dispatcher).detach();
+        } else {
+            HsmEventDispatcherBase::handleDelete(dispatcher);
+        }
+    }
 }
 
 bool HsmEventDispatcherSTD::deleteSafe() {
-- 
2.43.0


From a2ffef93587aaa1c8c24587b42aa4044a34ffc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 35/74] fix: GLib dispatcher used the new settings of a timer
 restarted while its previous expiry was being dispatched

---
 include/hsmcpp/HsmEventDispatcherGLib.hpp |  1 +
 src/HsmEventDispatcherGLib.cpp            | 39 ++++++++++++++++-------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLib.hpp b/include/hsmcpp/HsmEventDispatcherGLib.hpp
index ab6d441..8ae64b5 100644
--- a/include/hsmcpp/HsmEventDispatcherGLib.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLib.hpp
@@ -101,6 +101,7 @@ private:
 
     static gboolean onTimerEvent(const TimerData_t* timerData);
     static void onFreeTimerData(void* timerData);
+    bool isNativeTimer(const TimerID_t timerID, const GSource* timeoutSource);
 
     void notifyDispatcherAboutEvent() override;
     static gboolean onPipeDataAvailable(GIOChannel* gio, GIOCondition condition, gpointer data);
diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 52443cd..958744a 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -7,6 +7,7 @@
 
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -186,18 +187,25 @@ gboolean HsmEventDispatcherGLib::onTimerEvent(const TimerData_t* timerData) {
     bool restartTimer = false;
 
     if (nullptr != timerData) {
-        restartTimer = (timerData->first->handleTimerEvent(timerData->second) > 0);
-
-        if (false == restartTimer) {
-            CriticalSection lckExpired(timerData->first->mRunningTimersSync);
-            auto itTimer = timerData->first->mNativeTimerHandlers.find(timerData->second);
-
-            if (timerData->first->mNativeTimerHandlers.end() != itTimer) {
-                g_source_unref(itTimer->second);
-                timerData->first->mNativeTimerHandlers.erase(itTimer);
-            } else {
-                HSM_TRACE_DEF();
-                HSM_TRACE_ERROR("unexpected error. timer not found");
+        HsmEventDispatcherGLib* pThis = timerData->first;
+        const TimerID_t timerID = timerData->second;
+        GSource* timeoutSource = g_main_current_source();
+        // NOTE: timer can't be stopped, restarted or unregistered until it's processed
+        LockGuard lckHandlers(pThis->mHandlersSync);
+
+        // timer could have been stopped or restarted by another thread after its source expired
+        if (true == pThis->isNativeTimer(timerID, timeoutSource)) {
+            restartTimer = (pThis->handleTimerEventUnsafe(timerID) > 0);
+
+            if (false == restartTimer) {
+                CriticalSection lckExpired(pThis->mRunningTimersSync);
+                auto itTimer = pThis->mNativeTimerHandlers.find(timerID);
+
+                // NOTE: already removed if handler was unregistered
+                if ((pThis->mNativeTimerHandlers.end() != itTimer) && (itTimer->second == timeoutSource)) {
+                    g_source_unref(itTimer->second);
+                    pThis->mNativeTimerHandlers.erase(itTimer);
+                }
             }
         }
     }
@@ -205,6 +213,13 @@ gboolean HsmEventDispatcherGLib::onTimerEvent(const TimerData_t* timerData) {
     return restartTimer;
 }
 
+bool HsmEventDispatcherGLib::isNativeTimer(const TimerID_t timerID, const GSource* timeoutSource) {
+    CriticalSection lckExpired(mRunningTimersSync);
+    auto itTimer = mNativeTimerHandlers.find(timerID);
+
+    return (mNativeTimerHandlers.end() != itTimer) && (itTimer->second == timeoutSource);
+}
+
 void HsmEventDispatcherGLib::onFreeTimerData(void* timerData) {
     delete reinterpret_cast<TimerData_t*>(timerData);
 }
-- 
2.43.0


From 2e78fe690280be295a1dc1fa70ddb4f1f3ed1870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 36/74] fix: GLib dispatcher could deadlock in interrupt
 handlers or with many pending notifications

---
 include/hsmcpp/HsmEventDispatcherGLib.hpp |  1 -
 src/HsmEventDispatcherGLib.cpp            | 11 +++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLib.hpp b/include/hsmcpp/HsmEventDispatcherGLib.hpp
index 8ae64b5..45f99c5 100644
--- a/include/hsmcpp/HsmEventDispatcherGLib.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLib.hpp
@@ -110,7 +110,6 @@ private:
     GMainContext* mContext = nullptr;
     GIOChannel* mReadChannel = nullptr;
     GSource* mIoSource = nullptr;
-    std::mutex mPipeSync;
     int mPipeFD[2] = {-1, -1};
     bool mDispatchingIterationRunning = false;
     std::mutex mDispatchingSync;
diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 958744a..95d84b4 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -3,6 +3,7 @@
 
 #include "hsmcpp/HsmEventDispatcherGLib.hpp"
 
+#include <fcntl.h>
 #include <unistd.h>
 
 #include "hsmcpp/logging.hpp"
@@ -69,6 +70,8 @@ bool HsmEventDispatcherGLib::start() {
         int rc = pipe(mPipeFD);
 
         if (0 == rc) {
+            // NOTE: sender must not wait for the dispatcher if there are too many notifications
+            (void)fcntl(mPipeFD[1], F_SETFL, fcntl(mPipeFD[1], F_GETFL) | O_NONBLOCK);
             mReadChannel = g_io_channel_unix_new(mPipeFD[0]);
 
             if (nullptr != mReadChannel) {
@@ -225,12 +228,12 @@ void HsmEventDispatcherGLib::onFreeTimerData(void* timerData) {
 }
 
 void HsmEventDispatcherGLib::notifyDispatcherAboutEvent() {
-    std::lock_guard<std::mutex> lck(mPipeSync);
-    char dummy = 1;
+    const char dummy = 1;
 
     // we just need to trigger the callback. there is no need to pass any real data there
-    // TODO: should we check for result?
-    write(mPipeFD[1], &dummy, sizeof(dummy));
+    // NOTE: mustn't use locks or block since this function is also called from interrupt handlers (see enqueueEvent()). Result can
+    //       be ignored because if pipe is full then dispatcher is going to be triggered anyway.
+    (void)!write(mPipeFD[1], &dummy, sizeof(dummy));
 }
 
 gboolean HsmEventDispatcherGLib::onPipeDataAvailable(GIOChannel* gio, GIOCondition condition, gpointer data) {
-- 
2.43.0


From b97bb63d6b23620598d3a10cb561b7c884f67543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 37/74] fix: GLibmm dispatcher used the new settings of a timer
 restarted while its previous expiry was being dispatched

---
 include/hsmcpp/HsmEventDispatcherGLibmm.hpp | 12 +++++-
 src/HsmEventDispatcherGLibmm.cpp            | 44 ++++++++++++++-------
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
index 3070855..788a13c 100644
--- a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
@@ -106,13 +106,21 @@ protected:
     void stopTimerImpl(const TimerID_t timerID) override;
 
     void notifyDispatcherAboutEvent() override;
-    bool onTimerEvent(const TimerID_t timerID);
+    bool onTimerEvent(const TimerID_t timerID, const unsigned int instanceID);
+    bool isNativeTimer(const TimerID_t timerID, const unsigned int instanceID);
+
+private:
+    struct NativeTimer {
+        unsigned int instanceID = 0;  // to distinguish restarted timers
+        sigc::connection connection;
+    };
 
 private:
     Glib::RefPtr<Glib::MainContext> mMainContext;
     std::unique_ptr<Glib::Dispatcher> mDispatcher;
     sigc::connection mDispatcherConnection;
-    std::map<TimerID_t, sigc::connection> mNativeTimerHandlers; // protected by mRunningTimersSync
+    std::map<TimerID_t, NativeTimer> mNativeTimerHandlers; // protected by mRunningTimersSync
+    unsigned int mNextNativeTimerID = 0;                   // protected by mRunningTimersSync
 };
 
 }  // namespace hsmcpp
diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 0c1081e..2856266 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -7,6 +7,7 @@
 
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -111,7 +112,7 @@ void HsmEventDispatcherGLibmm::unregisterAllTimerHandlers() {
     CriticalSection cs(mRunningTimersSync);
 
     for (auto it = mNativeTimerHandlers.begin(); it != mNativeTimerHandlers.end(); ++it) {
-        it->second.disconnect();
+        it->second.connection.disconnect();
     }
 
     mNativeTimerHandlers.clear();
@@ -126,9 +127,13 @@ void HsmEventDispatcherGLibmm::startTimerImpl(const TimerID_t timerID, const uns
     auto it = mNativeTimerHandlers.find(timerID);
 
     if (mNativeTimerHandlers.end() == it) {
-        mNativeTimerHandlers[timerID] = mMainContext->signal_timeout().connect(
-            sigc::bind(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::onTimerEvent), timerID),
+        NativeTimer newTimer;
+
+        newTimer.instanceID = mNextNativeTimerID++;
+        newTimer.connection = mMainContext->signal_timeout().connect(
+            sigc::bind(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::onTimerEvent), timerID, newTimer.instanceID),
             intervalMs);
+        mNativeTimerHandlers[timerID] = newTimer;
     } else {
         HSM_TRACE_ERROR("timer with id=%d already exists", timerID);
     }
@@ -140,7 +145,7 @@ void HsmEventDispatcherGLibmm::stopTimerImpl(const TimerID_t timerID) {
     auto it = mNativeTimerHandlers.find(timerID);
 
     if (mNativeTimerHandlers.end() != it) {
-        it->second.disconnect();
+        it->second.connection.disconnect();
         mNativeTimerHandlers.erase(it);
     }
 }
@@ -149,22 +154,31 @@ void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
     mDispatcher->emit();
 }
 
-bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID) {
+bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID, const unsigned int instanceID) {
     HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
-    const bool restartTimer = (handleTimerEvent(timerID) > 0);
-
-    if (false == restartTimer) {
-        CriticalSection cs(mRunningTimersSync);
-        auto itTimer = mNativeTimerHandlers.find(timerID);
-
-        if (mNativeTimerHandlers.end() != itTimer) {
-            mNativeTimerHandlers.erase(itTimer);
-        } else {
-            HSM_TRACE_ERROR("unexpected error. timer not found");
+    bool restartTimer = false;
+    // NOTE: timer can't be stopped, restarted or unregistered until it's processed
+    LockGuard lckHandlers(mHandlersSync);
+
+    // timer could have been stopped or restarted by another thread after it expired
+    if (true == isNativeTimer(timerID, instanceID)) {
+        restartTimer = (handleTimerEventUnsafe(timerID) > 0);
+
+        // NOTE: already removed if handler was unregistered
+        if ((false == restartTimer) && (true == isNativeTimer(timerID, instanceID))) {
+            CriticalSection cs(mRunningTimersSync);
+            mNativeTimerHandlers.erase(timerID);
         }
     }
 
     return restartTimer;
 }
 
+bool HsmEventDispatcherGLibmm::isNativeTimer(const TimerID_t timerID, const unsigned int instanceID) {
+    CriticalSection cs(mRunningTimersSync);
+    auto itTimer = mNativeTimerHandlers.find(timerID);
+
+    return (mNativeTimerHandlers.end() != itTimer) && (itTimer->second.instanceID == instanceID);
+}
+
 }  // namespace hsmcpp
\ No newline at end of file
-- 
2.43.0


From e7bdc3c43e835fc90e235c5c6b2dd9b7ddedaddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 38/74] fix: GLibmm dispatcher could deadlock with many pending
 notifications

---
 include/hsmcpp/HsmEventDispatcherGLibmm.hpp |  3 +++
 src/HsmEventDispatcherGLibmm.cpp            | 16 ++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
index 788a13c..2af6d6e 100644
--- a/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLibmm.hpp
@@ -6,6 +6,7 @@
 
 #include <glibmm.h>
 
+#include <atomic>
 #include <memory>
 
 #include "HsmEventDispatcherBase.hpp"
@@ -106,6 +107,7 @@ protected:
     void stopTimerImpl(const TimerID_t timerID) override;
 
     void notifyDispatcherAboutEvent() override;
+    void onDispatchEvents();
     bool onTimerEvent(const TimerID_t timerID, const unsigned int instanceID);
     bool isNativeTimer(const TimerID_t timerID, const unsigned int instanceID);
 
@@ -119,6 +121,7 @@ private:
     Glib::RefPtr<Glib::MainContext> mMainContext;
     std::unique_ptr<Glib::Dispatcher> mDispatcher;
     sigc::connection mDispatcherConnection;
+    std::atomic<bool> mNotified{false};  // dispatcher has a notification which wasn't handled yet
     std::map<TimerID_t, NativeTimer> mNativeTimerHandlers; // protected by mRunningTimersSync
     unsigned int mNextNativeTimerID = 0;                   // protected by mRunningTimersSync
 };
diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 2856266..aa8301b 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -79,9 +79,11 @@ bool HsmEventDispatcherGLibmm::start() {
             mDispatcher.reset(new Glib::Dispatcher(mMainContext));
 
             if (mDispatcher) {
+                mNotified = false;
+
                 if (mDispatcherConnection.connected() == false) {
                     mDispatcherConnection =
-                        mDispatcher->connect(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::dispatchPendingEvents));
+                        mDispatcher->connect(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::onDispatchEvents));
                 }
 
                 result = true;
@@ -151,7 +153,17 @@ void HsmEventDispatcherGLibmm::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
-    mDispatcher->emit();
+    // NOTE: number of notifications is limited and emit() blocks if there are too many of them. One is enough for all events which
+    //       are going to be handled by the next call of onDispatchEvents()
+    if (false == mNotified.exchange(true)) {
+        mDispatcher->emit();
+    }
+}
+
+void HsmEventDispatcherGLibmm::onDispatchEvents() {
+    // NOTE: must be done before dispatching because events could be added meanwhile
+    mNotified = false;
+    dispatchPendingEvents();
 }
 
 bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID, const unsigned int instanceID) {
-- 
2.43.0


From 9b0be12987abdd3a401a5e853423ff1165a4cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 39/74] fix: Qt timers could expire too early because of the
 default timer precision

---
 src/HsmEventDispatcherQt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 4b79444..dc8ad76 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -104,6 +104,8 @@ void HsmEventDispatcherQt::startTimerImpl(const TimerID_t timerID, const unsigne
             newTimer->setProperty("hsmid", QVariant(timerID));
             connect(newTimer, SIGNAL(timeout()), this, SLOT(onTimerEvent()));
             newTimer->setSingleShot(isSingleShot);
+            // NOTE: default type could trigger the timer too early (up to 5% of the interval)
+            newTimer->setTimerType(Qt::PreciseTimer);
             newTimer->start(intervalMs);
 
             CriticalSection cs(mRunningTimersSync);
-- 
2.43.0


From 6b366e51ded49fd675558a881d8e7d671b866a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 40/74] fix: Qt timers started from another thread could be
 duplicated or use outdated settings

---
 include/hsmcpp/HsmEventDispatcherQt.hpp |  9 ++-
 src/HsmEventDispatcherQt.cpp            | 78 +++++++++++++++++--------
 2 files changed, 63 insertions(+), 24 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherQt.hpp b/include/hsmcpp/HsmEventDispatcherQt.hpp
index d2bebef..c2d56e8 100644
--- a/include/hsmcpp/HsmEventDispatcherQt.hpp
+++ b/include/hsmcpp/HsmEventDispatcherQt.hpp
@@ -53,6 +53,7 @@ public:
 // Timers
 protected:
     void unregisterAllTimerHandlers();
+    bool isNativeTimer(const TimerID_t timerID, const QTimer* timer);
 
     void startTimerImpl(const TimerID_t timerID, const unsigned int intervalMs, const bool isSingleShot) override;
     void stopTimerImpl(const TimerID_t timerID) override;
@@ -81,7 +82,13 @@ protected:
 
 private:
     static QEvent::Type mQtDispatchEventType;
-    std::map<TimerID_t, QTimer*> mNativeTimerHandlers; // protected by mRunningTimersSync
+    struct NativeTimer {
+        unsigned int instanceID = 0;  // to distinguish restarted timers
+        QTimer* timer = nullptr;      // null until it's created by the main thread
+    };
+
+    std::map<TimerID_t, NativeTimer> mNativeTimerHandlers; // protected by mRunningTimersSync
+    unsigned int mNextNativeTimerID = 0;                   // protected by mRunningTimersSync
 };
 
 } // namespace hsmcpp
diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index dc8ad76..3629e7c 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -10,6 +10,7 @@
 
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -84,7 +85,9 @@ void HsmEventDispatcherQt::unregisterAllTimerHandlers() {
     CriticalSection cs(mRunningTimersSync);
 
     for (auto it = mNativeTimerHandlers.begin(); it != mNativeTimerHandlers.end(); ++it) {
-        it->second->deleteLater();
+        if (nullptr != it->second.timer) {
+            it->second.timer->deleteLater();
+        }
     }
 
     mNativeTimerHandlers.clear();
@@ -95,21 +98,39 @@ void HsmEventDispatcherQt::startTimerImpl(const TimerID_t timerID, const unsigne
                               SC2INT(timerID),
                               intervalMs,
                               BOOL2INT(isSingleShot));
-    auto it = mNativeTimerHandlers.find(timerID);
+    bool isNewTimer = false;
+    unsigned int instanceID = 0;
 
-    if (mNativeTimerHandlers.end() == it) {
-        auto funcCreateTimer = [=]() {
-            QTimer* newTimer = new QTimer(this);
+    {
+        CriticalSection cs(mRunningTimersSync);
 
-            newTimer->setProperty("hsmid", QVariant(timerID));
-            connect(newTimer, SIGNAL(timeout()), this, SLOT(onTimerEvent()));
-            newTimer->setSingleShot(isSingleShot);
-            // NOTE: default type could trigger the timer too early (up to 5% of the interval)
-            newTimer->setTimerType(Qt::PreciseTimer);
-            newTimer->start(intervalMs);
+        if (mNativeTimerHandlers.find(timerID) == mNativeTimerHandlers.end()) {
+            NativeTimer newTimer;
 
-            CriticalSection cs(mRunningTimersSync);
+            instanceID = mNextNativeTimerID++;
+            newTimer.instanceID = instanceID;
             mNativeTimerHandlers[timerID] = newTimer;
+            isNewTimer = true;
+        }
+    }
+
+    if (true == isNewTimer) {
+        auto funcCreateTimer = [=]() {
+            CriticalSection cs(mRunningTimersSync);
+            auto it = mNativeTimerHandlers.find(timerID);
+
+            // NOTE: timer could have been stopped or restarted before main thread got here
+            if ((mNativeTimerHandlers.end() != it) && (it->second.instanceID == instanceID)) {
+                QTimer* newTimer = new QTimer(this);
+
+                newTimer->setProperty("hsmid", QVariant(timerID));
+                connect(newTimer, SIGNAL(timeout()), this, SLOT(onTimerEvent()));
+                newTimer->setSingleShot(isSingleShot);
+                // NOTE: default type could trigger the timer too early (up to 5% of the interval)
+                newTimer->setTimerType(Qt::PreciseTimer);
+                newTimer->start(intervalMs);
+                it->second.timer = newTimer;
+            }
         };
 
         // NOTE: need to make sure that QTimer is started only from Qt main thread
@@ -121,10 +142,9 @@ void HsmEventDispatcherQt::startTimerImpl(const TimerID_t timerID, const unsigne
             mainthreadTimer->moveToThread(qApp->thread());
             mainthreadTimer->setSingleShot(true);
 
-            QObject::connect(mainthreadTimer, &QTimer::timeout, [=]() {
-                funcCreateTimer();
-                mainthreadTimer->deleteLater();
-            });
+            // NOTE: must not be called if dispatcher gets deleted meanwhile
+            QObject::connect(mainthreadTimer, &QTimer::timeout, this, funcCreateTimer);
+            QObject::connect(mainthreadTimer, &QTimer::timeout, mainthreadTimer, &QObject::deleteLater);
             QMetaObject::invokeMethod(mainthreadTimer, "start", Qt::QueuedConnection, Q_ARG(int, 0));
         } else {
             funcCreateTimer();
@@ -140,34 +160,46 @@ void HsmEventDispatcherQt::stopTimerImpl(const TimerID_t timerID) {
     auto it = mNativeTimerHandlers.find(timerID);
 
     if (mNativeTimerHandlers.end() != it) {
-        it->second->deleteLater();
+        if (nullptr != it->second.timer) {
+            it->second.timer->deleteLater();
+        }
+
         mNativeTimerHandlers.erase(it);
     }
 }
 
 void HsmEventDispatcherQt::onTimerEvent() {
-    QObject* ptrTimer = qobject_cast<QTimer*>(QObject::sender());
+    QTimer* ptrTimer = qobject_cast<QTimer*>(QObject::sender());
 
     if (nullptr != ptrTimer) {
         const TimerID_t timerID = ptrTimer->property("hsmid").toInt();
 
         HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
+        // NOTE: timer can't be stopped, restarted or unregistered until it's processed
+        LockGuard lckHandlers(mHandlersSync);
 
-        if (0 == handleTimerEvent(timerID)) {
+        // timer could have been stopped or restarted by another thread after it expired
+        if ((true == isNativeTimer(timerID, ptrTimer)) && (0 == handleTimerEventUnsafe(timerID))) {
             // delete timer since it doesn't need to be restarted
             CriticalSection cs(mRunningTimersSync);
             auto itTimer = mNativeTimerHandlers.find(timerID);
 
-            if (mNativeTimerHandlers.end() != itTimer) {
-                itTimer->second->deleteLater();
+            // NOTE: already removed if handler was unregistered
+            if ((mNativeTimerHandlers.end() != itTimer) && (itTimer->second.timer == ptrTimer)) {
+                ptrTimer->deleteLater();
                 mNativeTimerHandlers.erase(itTimer);
-            } else {
-                HSM_TRACE_ERROR("unexpected error. timer not found");
             }
         }
     }
 }
 
+bool HsmEventDispatcherQt::isNativeTimer(const TimerID_t timerID, const QTimer* timer) {
+    CriticalSection cs(mRunningTimersSync);
+    auto itTimer = mNativeTimerHandlers.find(timerID);
+
+    return (mNativeTimerHandlers.end() != itTimer) && (itTimer->second.timer == timer);
+}
+
 void HsmEventDispatcherQt::notifyDispatcherAboutEvent() {
     QCoreApplication::postEvent(this, new QEvent(mQtDispatchEventType));
 }
-- 
2.43.0


From 1865628ae30f62bd4a3c78c89e4ea6d312a30ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 41/74] fix: scxml2gen generates the same code for the same
 document

---
 tools/scxml2gen/scxml2gen.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index aaa3a73..964831d 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -719,22 +719,27 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
                                                            registerCallbacks + ");")
         pendingStates = substates
 
-    # at this point we can be sure that all timers were identified
-    genVars["ENUM_TIMERS_ITEM"] = set(sorted(genVars["ENUM_TIMERS_ITEM"]))
-
     # register timers which don't have corresponding actions, but have defined events (such timers are usually started from code)
     for curEventName in genVars["ENUM_EVENTS_ITEM"]:
         if curEventName.startswith(TIMER_EVENT_PREFIX):
             newTimerName = curEventName[len(TIMER_EVENT_PREFIX):]
             genVars["ENUM_TIMERS_ITEM"].add(newTimerName)
 
+    # at this point we can be sure that all timers were identified
+    # NOTE: sort to always generate the same code (and the same IDs) for the same SCXML
+    genVars["ENUM_TIMERS_ITEM"] = sorted(genVars["ENUM_TIMERS_ITEM"])
+
     for curTimerName in genVars["ENUM_TIMERS_ITEM"]:
         # generate 1 event per timer (most of them are probably already available since they were used somewhere in the HSM)
         genVars["ENUM_EVENTS_ITEM"].add(f"{TIMER_EVENT_PREFIX}{curTimerName}")
         genVars["REGISTER_TIMERS"].append(prepareRegisterTimerFunc(genVars["ENUM_EVENTS"], genVars["ENUM_TIMERS"], curTimerName))
 
     genVars["ENUM_STATES_ITEM"] = sorted(genVars["ENUM_STATES_ITEM"])
-    genVars["ENUM_EVENTS_ITEM"] = set(sorted(genVars["ENUM_EVENTS_ITEM"]))
+    genVars["ENUM_EVENTS_ITEM"] = sorted(genVars["ENUM_EVENTS_ITEM"])
+
+    for curDeclarations in ["HSM_STATE_ACTIONS", "HSM_STATE_ENTERING_ACTIONS", "HSM_STATE_EXITING_ACTIONS",
+                            "HSM_TRANSITION_ACTIONS", "HSM_TRANSITION_CONDITIONS"]:
+        genVars[curDeclarations] = sorted(genVars[curDeclarations])
 
     generateFile(genVars, template_hpp, pathHpp)
     generateFile(genVars, template_cpp, pathCpp)
-- 
2.43.0


From 62c88b1125016ecdef37c1fb9372b288b3515299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 42/74] fix: scxml2gen defines events which are only used by
 final states or state actions

---
 tools/scxml2gen/scxml2gen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 964831d..82fc32d 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -655,6 +655,8 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
                     for curAction in curState['actions'][actionTrigger]:
                         if '_timer' in curAction['action']:
                             genVars["ENUM_TIMERS_ITEM"].add(curAction['args'][0])
+                        else:
+                            genVars["ENUM_EVENTS_ITEM"].add(curAction['args'][0])
                         stateId = f"{getStateEnumValue(genVars, curState['id'])}"
                         genVars["REGISTER_ACTIONS"].append(prepareRegisterActionFunction(stateId,
                                                                                          genVars['ENUM_EVENTS'],
@@ -670,6 +672,7 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
             if (curState["type"] != STATETYPE_HISTORY):
                 if curState["type"] == STATETYPE_FINAL:
                     if "final_event" in curState:
+                        genVars["ENUM_EVENTS_ITEM"].add(curState['final_event'])
                         finalEventID = f"{getEventEnumValue(genVars, curState['final_event'])}"
                     else:
                         finalEventID = "hsmcpp::INVALID_HSM_EVENT_ID"
-- 
2.43.0


From 34c6c460123a3c358c1d26e96268af3cd6096c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 43/74] fix: scxml2gen generated invalid code for history
 states with default transition

---
 tools/scxml2gen/scxml2gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 82fc32d..b00db50 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -575,12 +575,12 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
 
                             if ('transitions' in curSubstate) and (len(curSubstate['transitions']) > 0):
                                 defaultTransition = curSubstate['transitions'][0]
-                                defaultTarget = f", {getStateEnumValue(genVars, defaultTransition['target'])})"
+                                defaultTarget = f", {getStateEnumValue(genVars, defaultTransition['target'])}"
                                 if 'callback' in defaultTransition:
                                     if defaultTransition['callback'] not in definedCallbacks:
                                         genVars["HSM_TRANSITION_ACTIONS"].add(prepareHsmcppTransitionCallbackDeclaration(defaultTransition['callback']))
                                         definedCallbacks.append(defaultTransition['callback'])
-                                    historyCallback += f", &{genVars['CLASS_NAME']}::{defaultTransition['callback']}"
+                                    historyCallback += f", this, {prepareTransitionCallbackPtr(defaultTransition['callback'])}"
 
                             genVars["REGISTER_SUBSTATES"].append(f"registerHistory({getStateEnumValue(genVars, curState['id'])}, " +
                                                                  f"{getStateEnumValue(genVars, curSubstate['id'])}, " +
-- 
2.43.0


From 1b35e5ca5fe395dfeb227e9ed0e8023bb9f1a1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 44/74] fix: scxml2gen generated ambiguous transition callbacks

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index b00db50..c6aecf0 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -688,7 +688,7 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
                         if curTransition['callback'] not in definedCallbacks:
                             genVars["HSM_TRANSITION_ACTIONS"].add(prepareHsmcppTransitionCallbackDeclaration(curTransition['callback']))
                             definedCallbacks.append(curTransition['callback'])
-                        registerCallbacks += f", &{genVars['CLASS_NAME']}::{curTransition['callback']}"
+                        registerCallbacks += f", {prepareTransitionCallbackPtr(curTransition['callback'])}"
                     else:
                         registerCallbacks += ", nullptr"
 
-- 
2.43.0


From 0a4ec2c80a5a2f89beeafebf3e60699ab0ed346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 45/74] fix: scxml2gen handles whitespaces and commas inside of
 state action arguments

---
 tools/scxml2gen/scxml2gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index c6aecf0..bff7e2a 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -25,7 +25,8 @@ def isStateActionDefinition(identifier):
     if m is not None:
         isAction = True
         actionFunc = m.group(1).strip(' \r\n\t')
-        actionArgs = m.group(2).strip(' \r\n\t').split(',')
+        # NOTE: commas inside of string literals don't separate arguments
+        actionArgs = [arg.strip(' \r\n\t') for arg in re.split(r',(?=(?:(?:\\.|[^"\\])*"(?:\\.|[^"\\])*")*(?:\\.|[^"\\])*$)', m.group(2))]
     return (isAction, actionFunc, actionArgs)
 
 
-- 
2.43.0


From 86e35d335565d340f945843b96a0f5dc3c77a6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:56 +0000
Subject: [PATCH 46/74] fix: scxml2gen declared callback twice if it is used
 both for entering a state and as a condition

---
 tools/scxml2gen/scxml2gen.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index bff7e2a..fece367 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -608,7 +608,9 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
                                                 currentCondition = f", hsmcpp::INVALID_HSM_EVENT_ID"
 
                                             if transitionHasCallback is True:
-                                                genVars["HSM_TRANSITION_CONDITIONS"].add(prepareHsmcppConditionCallbackDeclaration(curTransition['condition'][0]))
+                                                if curTransition['condition'][0] not in definedCallbacks:
+                                                    genVars["HSM_TRANSITION_CONDITIONS"].add(prepareHsmcppConditionCallbackDeclaration(curTransition['condition'][0]))
+                                                    definedCallbacks.append(curTransition['condition'][0])
                                                 currentCondition += f", this, {prepareTransitionConditionCallbackPtr(curTransition['condition'][0])}"
                                                 currentCondition += f", {curTransition['condition'][1]}"
                                             initialStateConditions.append(currentCondition)
@@ -694,7 +696,9 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
                         registerCallbacks += ", nullptr"
 
                     if 'condition' in curTransition:
-                        genVars["HSM_TRANSITION_CONDITIONS"].add(prepareHsmcppConditionCallbackDeclaration(curTransition['condition'][0]))
+                        if curTransition['condition'][0] not in definedCallbacks:
+                            genVars["HSM_TRANSITION_CONDITIONS"].add(prepareHsmcppConditionCallbackDeclaration(curTransition['condition'][0]))
+                            definedCallbacks.append(curTransition['condition'][0])
                         registerCallbacks += f", {prepareTransitionConditionCallbackPtr(curTransition['condition'][0])}, {curTransition['condition'][1]}"
 
                     if "&" in registerCallbacks:
-- 
2.43.0


From 8e12e1da0625e5a304d24aa317be768138e20249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 47/74] fix: scxml2gen keeps history states of parallel states

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index fece367..0ff315a 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -233,7 +233,7 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         newState["type"] = STATETYPE_HISTORY
                         newState["history_type"] = curState.attrib["type"]
 
-                    if (getTag(parentElement.tag) == "parallel") or (newState['id'] in initialStates):
+                    if ((getTag(parentElement.tag) == "parallel") and (newState["type"] != STATETYPE_HISTORY)) or (newState['id'] in initialStates):
                         newState["type"] = STATETYPE_INITIAL
                         if newState['id'] in initialStatesTransitions:
                             newState["initial_state_transitions"] = initialStatesTransitions[newState['id']]
-- 
2.43.0


From 08cb013f0443719e74a078c0b1c1ee32c3058412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 48/74] fix: scxml2gen ignored unconditional entry transition
 if same substate also had a conditional one

---
 tools/scxml2gen/scxml2gen.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 0ff315a..3dff052 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -166,17 +166,16 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                     initialStateName = namePrefix + initialTransition.attrib["target"]
                     initialStates.append(initialStateName)
 
-                    if any(value in initialTransition.attrib for value in ["event", "cond"]):
-                        transitionInfo = {}
+                    transitionInfo = {}
 
-                        if "event" in initialTransition.attrib:
-                            transitionInfo["event"] = initialTransition.attrib["event"]
-                        if "cond" in initialTransition.attrib:
-                            transitionInfo["condition"] = getCallbackName(initialTransition)
+                    if "event" in initialTransition.attrib:
+                        transitionInfo["event"] = initialTransition.attrib["event"]
+                    if "cond" in initialTransition.attrib:
+                        transitionInfo["condition"] = getCallbackName(initialTransition)
 
-                        if initialStateName not in initialStatesTransitions:
-                            initialStatesTransitions[initialStateName] = []
-                        initialStatesTransitions[initialStateName].append(transitionInfo)
+                    if initialStateName not in initialStatesTransitions:
+                        initialStatesTransitions[initialStateName] = []
+                    initialStatesTransitions[initialStateName].append(transitionInfo)
 
             if len(initialStates) == 0:
                 print(f"ERROR: <initial> element doesn't have transition defined or that transition "
@@ -884,7 +883,7 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
 
         for currentEntryTransition in initialTransitions:
             condition = ""
-            if currentEntryTransition is not None:
+            if currentEntryTransition:
                 condition = " : "
                 if 'event' in currentEntryTransition:
                     condition += currentEntryTransition['event']
-- 
2.43.0


From f5793d85fca135d7e9d1cd1d7b23c1c89a6b5e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 49/74] fix: scxml2gen corrupted plantuml states which names
 start with name of a final state

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 3dff052..124f8a9 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -1069,7 +1069,7 @@ def generatePlantumlInMemory(hsm, left2right=False, highlight=None):
         finalStates += stateFinalStates
 
     for finalID in finalStates:
-        plantuml = plantuml.replace(f"--> {finalID}", "--> [*]")
+        plantuml = re.sub(rf"-> {finalID}:", "-> [*]:", plantuml)
 
     plantuml += "\n@enduml"
     return plantuml
-- 
2.43.0


From 3690974588e589199a077b24f36fe2ee868af681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 50/74] fix: scxml2gen plantuml transitions to final states
 were drawn for wrong states

---
 tools/scxml2gen/scxml2gen.py | 53 ++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 124f8a9..3117b72 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -754,9 +754,11 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
 
 # ==========================================================================================================
 # Plantuml generation
-def getHistoryStateName(state):
+def getPseudostateName(state):
     stateName = ""
-    if state["type"] == STATETYPE_HISTORY:
+    if state["type"] == STATETYPE_FINAL:
+        stateName = "[*]"
+    elif state["type"] == STATETYPE_HISTORY:
         if ('history_type' in state) and (state['history_type'] == 'deep'):
             stateName = "[H*]"
         else:
@@ -794,14 +796,14 @@ def findTranstitions(topLevelState, targetStateId):
     return transitions
 
 
-def isHistoryState(topLevelState, stateId):
+def isPseudostate(topLevelState, stateId):
     state = findState(topLevelState, stateId)
     if state is not None:
-        is_history = (state["type"] == STATETYPE_HISTORY)
+        is_pseudostate = (state["type"] in [STATETYPE_HISTORY, STATETYPE_FINAL])
     else:
-        is_history = False
+        is_pseudostate = False
 
-    return is_history
+    return is_pseudostate
 
 
 def generateStatesList(states, level):
@@ -852,7 +854,6 @@ def preparePlantumlTransition(offset, fromState, toState, curTransition, highlig
 #                               "state_3": {"from": "", "event": "event_self", "args": [...]}, ...}}           # entry
 def generatePlantumlState(hsm, stateData, level, highlight=None):
     plantumlState = ""
-    finalStates = []
     offset = generateOffset(level * 4)
 
     # -----------------------------------
@@ -910,13 +911,9 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
         plantumlState += generateStatesList(stateData['states'], level + 1)
 
         for substate in stateData["states"]:
-            (substatePlantuml, substateFinalStates) = generatePlantumlState(hsm, substate, level + 1, highlight)
-            plantumlState += substatePlantuml
-            finalStates += substateFinalStates
+            plantumlState += generatePlantumlState(hsm, substate, level + 1, highlight)
         plantumlState += f"{offset}}}\n\n"
-    elif stateData["type"] == STATETYPE_FINAL:
-        finalStates = [stateData['id']]
-    else:
+    elif stateData["type"] != STATETYPE_FINAL:
         highlightOnEntryGroup = ""
         highlightOnEntry = ""
         highlightOnEntryActions = ""
@@ -1024,18 +1021,20 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
 
     # -----------------------------------
     # handle transitions
-    if stateData["type"] == STATETYPE_HISTORY:
-        historyTransitions = findTranstitions(hsm, stateData['id'])
+    if stateData["type"] in [STATETYPE_HISTORY, STATETYPE_FINAL]:
+        incomingTransitions = findTranstitions(hsm, stateData['id'])
 
-        # render incomming history transitions
-        for fromState in historyTransitions:
-            for curTransition in historyTransitions[fromState]:
+        # render incomming transitions inside of the parent state since pseudostates don't have unique names
+        for fromState in incomingTransitions:
+            for curTransition in incomingTransitions[fromState]:
                 (highlightTransition, highlightTransitionEvent, transitionArgs) = prepareTransitionHighlight(highlight,
                                                                                                              highlightColorActive,
                                                                                                              findState(hsm, fromState),
                                                                                                              curTransition)
-                plantumlState += preparePlantumlTransition(offset, fromState, getHistoryStateName(stateData),
+                plantumlState += preparePlantumlTransition(offset, fromState, getPseudostateName(stateData),
                                                            curTransition, highlightTransition, highlightTransitionEvent)
+                if (stateData["type"] == STATETYPE_FINAL) and transitionArgs and len(transitionArgs) > 0:
+                    plantumlState += f"{offset}note on link\n{offset}  **Arguments:**\n\n{offset}  {transitionArgs}\n{offset}end note\n"
 
     for curTransition in stateData["transitions"]:
         (highlightTransition, highlightTransitionEvent, transitionArgs) = prepareTransitionHighlight(highlight,
@@ -1044,32 +1043,28 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
                                                                                                      curTransition)
         # render transition
         if stateData["type"] == STATETYPE_HISTORY:
-            plantumlState += preparePlantumlTransition(offset, getHistoryStateName(stateData), curTransition['target'],
+            plantumlState += preparePlantumlTransition(offset, getPseudostateName(stateData), curTransition['target'],
                                                        curTransition, highlightTransition, highlightTransitionEvent)
-        elif isHistoryState(hsm, curTransition['target']) is False:
+        elif isPseudostate(hsm, curTransition['target']):
+            continue
+        else:
             plantumlState += preparePlantumlTransition(offset, stateData['id'], curTransition['target'],
                                                        curTransition, highlightTransition, highlightTransitionEvent)
 
         if transitionArgs and len(transitionArgs) > 0:
             plantumlState += f"{offset}note on link\n{offset}  **Arguments:**\n\n{offset}  {transitionArgs}\n{offset}end note\n"
-    return (plantumlState, finalStates)
+    return plantumlState
 
 
 def generatePlantumlInMemory(hsm, left2right=False, highlight=None):
     plantuml = "@startuml\n\n"
     if left2right is True:
         plantuml += "left to right direction\n\n"
-    finalStates = []
 
     plantuml += generateStatesList(hsm, 0)
 
     for curState in hsm:
-        (statePlantuml, stateFinalStates) = generatePlantumlState(hsm, curState, 0, highlight)
-        plantuml += statePlantuml
-        finalStates += stateFinalStates
-
-    for finalID in finalStates:
-        plantuml = re.sub(rf"-> {finalID}:", "-> [*]:", plantuml)
+        plantuml += generatePlantumlState(hsm, curState, 0, highlight)
 
     plantuml += "\n@enduml"
     return plantuml
-- 
2.43.0


From 2e306ea2fb18c0534202ca86914d6c3645af12b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 51/74] fix: scxml2gen treats included states as entry points
 of parent state

---
 tools/scxml2gen/scxml2gen.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 3117b72..c49894c 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -284,6 +284,13 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                             newState["states"] = parseScxmlStates(curState, rootDir, namePrefix)
                             break
                     states.append(newState)
+
+    # states from included documents can be entry points of the parent state too
+    for curState in states:
+        if (curState["type"] == STATETYPE_REGULAR) and ((getTag(parentElement.tag) == "parallel") or (curState["id"] in initialStates)):
+            curState["type"] = STATETYPE_INITIAL
+            if curState["id"] in initialStatesTransitions:
+                curState["initial_state_transitions"] = initialStatesTransitions[curState["id"]]
     return states
 
 
-- 
2.43.0


From 0c4ac83d110f659d1b0bce67dc631eec16a43c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 52/74] fix: scxml2gen failed to process xi:include inside of
 the root element

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index c49894c..ffa6138 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -206,7 +206,7 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         if ('id' in parentElement.attrib) and (xmlFind(parentElement, "state") is None) and (len(list(xmlFindAll(parentElement, "include"))) == 1):
                             newPrefix += parentElement.attrib['id'] + "__"
                         else:
-                            print(f"WARNING: parent state({parentElement.attrib['id']}) of xi:include has other child states. State names will not be prefixed")
+                            print(f"WARNING: parent state({parentElement.attrib.get('id', '')}) of xi:include has other child states. State names will not be prefixed")
                         subScxml = parseScxml(includePath, newPrefix)
 
                         if subScxml is not None:
-- 
2.43.0


From 1472aaa91d920962cedae218b20127699791ba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 53/74] fix: scxml2gen uses shallow history type by default

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index ffa6138..ca429a0 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -230,7 +230,7 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
 
                     if getTag(curState.tag) == "history":
                         newState["type"] = STATETYPE_HISTORY
-                        newState["history_type"] = curState.attrib["type"]
+                        newState["history_type"] = curState.attrib.get("type", "shallow")
 
                     if ((getTag(parentElement.tag) == "parallel") and (newState["type"] != STATETYPE_HISTORY)) or (newState['id'] in initialStates):
                         newState["type"] = STATETYPE_INITIAL
-- 
2.43.0


From 6a5451e02de2283c840284df3d7bb27ee21b0000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 54/74] fix: scxml2gen validates all names which are used in
 generated code

---
 tools/scxml2gen/scxml2gen.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index ca429a0..9506f33 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -32,7 +32,7 @@ def isStateActionDefinition(identifier):
 
 def validateIdentifier(identifier):
     isCorrect = False
-    p = re.compile("^[a-zA-Z_]+[\w]*$")
+    p = re.compile("^[a-zA-Z_]+[\w]*$", re.ASCII)
     if p.match(identifier) is None:
         print(f"ERROR: <{identifier}> is not a valid C++ identifier (only digits, underscores, lowercase and uppercase Latin letters are permitted)")
         exit(3)
@@ -109,6 +109,8 @@ def getStateActions(elem):
                 if curScript.text is not None:
                     actionInfo = isStateActionDefinition(curScript.text)
                     if actionInfo[0] is True:
+                        # name of a timer or event
+                        validateIdentifier(actionInfo[2][0])
                         curActions.append({"action": actionInfo[1], "args": actionInfo[2]})
         if len(curActions) > 0:
             actions[nodeName + "_actions"] = curActions
@@ -170,6 +172,7 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
 
                     if "event" in initialTransition.attrib:
                         transitionInfo["event"] = initialTransition.attrib["event"]
+                        validateIdentifier(transitionInfo["event"])
                     if "cond" in initialTransition.attrib:
                         transitionInfo["condition"] = getCallbackName(initialTransition)
 
@@ -227,6 +230,7 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         newState["type"] = STATETYPE_FINAL
                         if "event" in curState.attrib:
                             newState["final_event"] = curState.attrib["event"]
+                            validateIdentifier(newState["final_event"])
 
                     if getTag(curState.tag) == "history":
                         newState["type"] = STATETYPE_HISTORY
-- 
2.43.0


From 3c72f73b6c9d9193d4e85ffb9876382862afcfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 55/74] fix: GLibmm dispatcher can be restarted, and used by
 other threads while it's stopped

---
 src/HsmEventDispatcherGLibmm.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index aa8301b..b04dfef 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -66,7 +66,7 @@ bool HsmEventDispatcherGLibmm::deleteSafe() {
 void HsmEventDispatcherGLibmm::emitEvent(const HandlerID_t handlerID) {
     HSM_TRACE_CALL_DEBUG();
 
-    if (mDispatcherConnection.connected() == true) {
+    if (mDispatcher && (false == mStopDispatcher)) {
         HsmEventDispatcherBase::emitEvent(handlerID);
     }
 }
@@ -77,18 +77,17 @@ bool HsmEventDispatcherGLibmm::start() {
     if (mMainContext) {
         if (!mDispatcher) {
             mDispatcher.reset(new Glib::Dispatcher(mMainContext));
+        }
 
-            if (mDispatcher) {
+        if (mDispatcher) {
+            if (mDispatcherConnection.connected() == false) {
+                mDispatcherConnection = mDispatcher->connect(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::onDispatchEvents));
+                mStopDispatcher = false;
+                // NOTE: notifications were ignored while dispatcher was stopped. Queue of enqueued events could be already full
                 mNotified = false;
-
-                if (mDispatcherConnection.connected() == false) {
-                    mDispatcherConnection =
-                        mDispatcher->connect(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::onDispatchEvents));
-                }
-
-                result = true;
+                notifyDispatcherAboutEvent();
             }
-        } else {
+
             result = true;
         }
     }
@@ -101,13 +100,13 @@ void HsmEventDispatcherGLibmm::stop() {
 
     HsmEventDispatcherBase::stop();
 
+    // NOTE: mDispatcher must not be deleted here because it could be in use by notifyDispatcherAboutEvent()
     if (true == mDispatcherConnection.connected()) {
         mDispatcherConnection.disconnect();
     }
 
     unregisterAllTimerHandlers();
     unregisterAllEventHandlers();
-    mDispatcher.reset();
 }
 
 void HsmEventDispatcherGLibmm::unregisterAllTimerHandlers() {
@@ -155,7 +154,7 @@ void HsmEventDispatcherGLibmm::stopTimerImpl(const TimerID_t timerID) {
 void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
     // NOTE: number of notifications is limited and emit() blocks if there are too many of them. One is enough for all events which
     //       are going to be handled by the next call of onDispatchEvents()
-    if (false == mNotified.exchange(true)) {
+    if (mDispatcher && (false == mNotified.exchange(true))) {
         mDispatcher->emit();
     }
 }
-- 
2.43.0


From bff1c0aff3487f26cfb69085b7654ddfe6ea2f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 56/74] fix: Qt dispatcher delivers events after it was
 restarted

---
 src/HsmEventDispatcherQt.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 3629e7c..2c1d49c 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -60,6 +60,12 @@ bool HsmEventDispatcherQt::start() {
         if (QObject::thread() != QCoreApplication::eventDispatcher()->thread()) {
             QObject::moveToThread(QCoreApplication::eventDispatcher()->thread());
         }
+
+        if (true == mStopDispatcher) {
+            mStopDispatcher = false;
+            // NOTE: notifications were ignored while dispatcher was stopped. Queue of enqueued events could be already full
+            notifyDispatcherAboutEvent();
+        }
     }
 
     return result;
-- 
2.43.0


From 98cbce64832c7505257eb265aab702261e664ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 57/74] fix: GLib dispatcher is deleted inside of its own
 context

---
 src/HsmEventDispatcherGLib.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 95d84b4..5e34d98 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -42,7 +42,11 @@ std::shared_ptr<HsmEventDispatcherGLib> HsmEventDispatcherGLib::create(GMainCont
 }
 
 bool HsmEventDispatcherGLib::deleteSafe() {
-    g_idle_add(
+    // NOTE: object must be deleted inside of the same context which is used for dispatching
+    GSource* idleSource = g_idle_source_new();
+
+    g_source_set_callback(
+        idleSource,
         // cppcheck-suppress misra-c2012-13.1 ; false-positive. this is a functor, not initializer list
         [](void* data) {
             if (nullptr != data) {
@@ -56,7 +60,10 @@ bool HsmEventDispatcherGLib::deleteSafe() {
             // cppcheck-suppress misra-c2012-15.5
             return G_SOURCE_REMOVE;
         },
-        this);
+        this,
+        nullptr);
+    g_source_attach(idleSource, mContext);
+    g_source_unref(idleSource);
 
     return false;
 }
-- 
2.43.0


From 1fb52d5b55b12b2cf4877b3474b7f31ac116881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 58/74] fix: GLib dispatcher can be restarted, and doesn't
 close its pipe while other threads use it

---
 src/HsmEventDispatcherGLib.cpp | 36 ++++++++++++++--------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 5e34d98..70decd4 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -29,6 +29,13 @@ HsmEventDispatcherGLib::~HsmEventDispatcherGLib() {
     HSM_TRACE_CALL();
 
     HsmEventDispatcherGLib::stop();
+
+    if ((-1) != mPipeFD[0]) {
+        close(mPipeFD[0]);
+        close(mPipeFD[1]);
+        mPipeFD[0] = -1;
+        mPipeFD[1] = -1;
+    }
 }
 
 std::shared_ptr<HsmEventDispatcherGLib> HsmEventDispatcherGLib::create(const size_t eventsCacheSize) {
@@ -73,8 +80,9 @@ bool HsmEventDispatcherGLib::start() {
     bool result = false;
 
     // check if dispatcher was already started
-    if ((-1) == mPipeFD[0]) {
-        int rc = pipe(mPipeFD);
+    if (nullptr == mIoSource) {
+        // NOTE: pipe is reused if dispatcher is restarted. see stop()
+        const int rc = (((-1) == mPipeFD[0]) ? pipe(mPipeFD) : 0);
 
         if (0 == rc) {
             // NOTE: sender must not wait for the dispatcher if there are too many notifications
@@ -85,11 +93,14 @@ bool HsmEventDispatcherGLib::start() {
                 mIoSource = g_io_create_watch(mReadChannel, static_cast<GIOCondition>(G_IO_IN | G_IO_HUP));
 
                 if (nullptr != mIoSource) {
+                    mStopDispatcher = false;
                     g_source_set_callback(mIoSource, reinterpret_cast<GSourceFunc>(onPipeDataAvailable), this, nullptr);
                     g_source_attach(mIoSource, mContext);
                     result = true;
                 } else {
                     HSM_TRACE_ERROR("failed to create io source");
+                    g_io_channel_unref(mReadChannel);
+                    mReadChannel = nullptr;
                 }
             } else {
                 HSM_TRACE_ERROR("failed to create io channel");
@@ -97,20 +108,6 @@ bool HsmEventDispatcherGLib::start() {
         } else {
             HSM_TRACE_ERROR("failed to create pipe (errno=%d)", errno);
         }
-
-        if (false == result) {
-            if (nullptr != mReadChannel) {
-                g_io_channel_unref(mReadChannel);
-                mReadChannel = nullptr;
-            }
-
-            if ((-1) == mPipeFD[0]) {
-                close(mPipeFD[0]);
-                close(mPipeFD[1]);
-                mPipeFD[0] = -1;
-                mPipeFD[1] = -1;
-            }
-        }
     } else {
         result = true;
     }
@@ -129,20 +126,17 @@ void HsmEventDispatcherGLib::stop() {
         mIoSource = nullptr;
     }
 
+    // NOTE: pipe must not be closed here because it could be in use by notifyDispatcherAboutEvent()
     if (nullptr != mReadChannel) {
         g_io_channel_unref(mReadChannel);
         mReadChannel = nullptr;
-        close(mPipeFD[0]);
-        close(mPipeFD[1]);
-        mPipeFD[0] = -1;
-        mPipeFD[1] = -1;
     }
 }
 
 void HsmEventDispatcherGLib::emitEvent(const HandlerID_t handlerID) {
     HSM_TRACE_CALL();
 
-    if (mPipeFD[1] > 0) {
+    if ((mPipeFD[1] > 0) && (false == mStopDispatcher)) {
         HsmEventDispatcherBase::emitEvent(handlerID);
     }
 }
-- 
2.43.0


From b421d4b3cbe1ce903b886ed9210dbc488741c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 59/74] fix: Arduino dispatcher restarts periodic timers

---
 src/HsmEventDispatcherArduino.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherArduino.cpp b/src/HsmEventDispatcherArduino.cpp
index 513ce13..2b11aa4 100644
--- a/src/HsmEventDispatcherArduino.cpp
+++ b/src/HsmEventDispatcherArduino.cpp
@@ -105,7 +105,7 @@ void HsmEventDispatcherArduino::handleTimers() {
 
         while (it != mRunningTimers.end()) {
             if (curTime >= it->second.elapseAfter) {
-                if (true == handleTimerEvent(it->first)) {
+                if (handleTimerEvent(it->first) > 0u) {
                     // fast way to check timer interval without searching the map
                     it->second.elapseAfter = it->second.elapseAfter - it->second.startedAt;
                     it->second.startedAt = millis();
-- 
2.43.0


From 9918951d357db60e76fef33c4297897bbb132e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 60/74] fix: Arduino dispatcher allows timer handlers to stop
 and restart timers

---
 src/HsmEventDispatcherArduino.cpp | 39 +++++++++++++++++--------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/HsmEventDispatcherArduino.cpp b/src/HsmEventDispatcherArduino.cpp
index 2b11aa4..d5aeb75 100644
--- a/src/HsmEventDispatcherArduino.cpp
+++ b/src/HsmEventDispatcherArduino.cpp
@@ -99,25 +99,30 @@ void HsmEventDispatcherArduino::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherArduino::handleTimers() {
-    if (false == mRunningTimers.empty()) {
-        unsigned long curTime = millis();
-        auto it = mRunningTimers.begin();
-
-        while (it != mRunningTimers.end()) {
-            if (curTime >= it->second.elapseAfter) {
-                if (handleTimerEvent(it->first) > 0u) {
-                    // fast way to check timer interval without searching the map
-                    it->second.elapseAfter = it->second.elapseAfter - it->second.startedAt;
-                    it->second.startedAt = millis();
-                    it->second.elapseAfter += it->second.startedAt;
-                    ++it;
-                } else {
-                    InterruptsFreeSection lck;
-                    it = mRunningTimers.erase(it);
-                }
+    auto it = mRunningTimers.begin();
+
+    while (it != mRunningTimers.end()) {
+        const TimerID_t timerID = it->first;
+        const unsigned long curTime = millis();
+
+        if (curTime >= it->second.elapseAfter) {
+            const auto itActive = mActiveTimers.find(timerID);
+
+            // NOTE: must be done before calling a handler because it's allowed to stop or restart any timer
+            if ((itActive != mActiveTimers.end()) && (false == itActive->second.isSingleShot)) {
+                // fast way to check timer interval without searching the map
+                it->second.elapseAfter = it->second.elapseAfter - it->second.startedAt;
+                it->second.startedAt = curTime;
+                it->second.elapseAfter += it->second.startedAt;
             } else {
-                ++it;
+                InterruptsFreeSection lck;
+                mRunningTimers.erase(it);
             }
+
+            (void)handleTimerEvent(timerID);
+            it = mRunningTimers.upper_bound(timerID);
+        } else {
+            ++it;
         }
     }
 }
-- 
2.43.0


From 5a9b163d5a8f5e52f1e7ace472eab2fdd9bb7d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 61/74] fix: Arduino dispatcher timers don't expire early when
 millis() overflows

---
 src/HsmEventDispatcherArduino.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HsmEventDispatcherArduino.cpp b/src/HsmEventDispatcherArduino.cpp
index d5aeb75..218d997 100644
--- a/src/HsmEventDispatcherArduino.cpp
+++ b/src/HsmEventDispatcherArduino.cpp
@@ -104,16 +104,16 @@ void HsmEventDispatcherArduino::handleTimers() {
     while (it != mRunningTimers.end()) {
         const TimerID_t timerID = it->first;
         const unsigned long curTime = millis();
+        const unsigned long intervalMs = it->second.elapseAfter - it->second.startedAt;
 
-        if (curTime >= it->second.elapseAfter) {
+        // NOTE: difference is calculated correctly even if millis() overflowed
+        if ((curTime - it->second.startedAt) >= intervalMs) {
             const auto itActive = mActiveTimers.find(timerID);
 
             // NOTE: must be done before calling a handler because it's allowed to stop or restart any timer
             if ((itActive != mActiveTimers.end()) && (false == itActive->second.isSingleShot)) {
-                // fast way to check timer interval without searching the map
-                it->second.elapseAfter = it->second.elapseAfter - it->second.startedAt;
                 it->second.startedAt = curTime;
-                it->second.elapseAfter += it->second.startedAt;
+                it->second.elapseAfter = curTime + intervalMs;
             } else {
                 InterruptsFreeSection lck;
                 mRunningTimers.erase(it);
-- 
2.43.0


From ccbbf26c430f40fe7f4a4a5ef07c925d77401dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 62/74] fix: Arduino dispatcher doesn't call timer handlers
 after it was stopped

---
 src/HsmEventDispatcherArduino.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherArduino.cpp b/src/HsmEventDispatcherArduino.cpp
index 218d997..3d37cdb 100644
--- a/src/HsmEventDispatcherArduino.cpp
+++ b/src/HsmEventDispatcherArduino.cpp
@@ -101,7 +101,7 @@ void HsmEventDispatcherArduino::stopTimerImpl(const TimerID_t timerID) {
 void HsmEventDispatcherArduino::handleTimers() {
     auto it = mRunningTimers.begin();
 
-    while (it != mRunningTimers.end()) {
+    while ((it != mRunningTimers.end()) && (false == mStopDispatcher)) {
         const TimerID_t timerID = it->first;
         const unsigned long curTime = millis();
         const unsigned long intervalMs = it->second.elapseAfter - it->second.startedAt;
-- 
2.43.0


From 9ba3ec37b5ea0192922d6aca296aafdf8a36eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 63/74] fix: hsmdebugger loses order of recent files when there
 are 10 of them

---
 tools/hsmdebugger/impl/recent.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tools/hsmdebugger/impl/recent.py b/tools/hsmdebugger/impl/recent.py
index 7abccc7..e1893dd 100644
--- a/tools/hsmdebugger/impl/recent.py
+++ b/tools/hsmdebugger/impl/recent.py
@@ -18,15 +18,19 @@ class RecentFilesManager():
         self.updateMenuRecentHsm()
         self.updateMenuRecentLogs()
 
+    # NOTE: keys are returned in alphabetical order, which would place item10 before item2
+    def getItemsKeys(self, settings):
+        return sorted(settings.childKeys(), key=lambda itemId: (len(itemId), itemId))
+
     def loadRecentItems(self):
         settings = QSettings(self.configPath, QSettings.IniFormat)
         settings.beginGroup("recent_hsm")
-        recentItems = settings.childKeys()
+        recentItems = self.getItemsKeys(settings)
         for itemId in recentItems:
             self.recentHsmFiles.append(settings.value(itemId))
         settings.endGroup()
         settings.beginGroup("recent_logs")
-        recentItems = settings.childKeys()
+        recentItems = self.getItemsKeys(settings)
         for itemId in recentItems:
             self.recentLogFiles.append(settings.value(itemId))
         settings.endGroup()
@@ -48,7 +52,7 @@ class RecentFilesManager():
     def addPathToList(self, newPath, settingsGroup, items, updateFunc):
         settings = QSettings(self.configPath, QSettings.IniFormat)
         settings.beginGroup(settingsGroup)
-        recentItems = settings.childKeys()
+        recentItems = self.getItemsKeys(settings)
         items.clear()
         items.append(newPath)
         for itemId in recentItems:
-- 
2.43.0


From b9aba6f8278c441dfe01950ec9ee2172a534428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 64/74] fix: hsmdebugger offers to go to a frame which doesn't
 exist

---
 tools/hsmdebugger/hsmdebugger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/hsmdebugger/hsmdebugger.py b/tools/hsmdebugger/hsmdebugger.py
index 5514cf2..1de2618 100644
--- a/tools/hsmdebugger/hsmdebugger.py
+++ b/tools/hsmdebugger/hsmdebugger.py
@@ -136,9 +136,9 @@ class hsmdebugger(QObject):
         if self.hsmLog:
             (newIndex, wasOk) = QInputDialog.getInt(QApplication.activeWindow(),
                                                     "Go to Frame",
-                                                    f"Frame index (1 ~ {len(self.hsmLog) + 1}):",
+                                                    f"Frame index (1 ~ {len(self.hsmLog)}):",
                                                     value=self.currentFrameIndex + 1,
-                                                    minValue=1, maxValue=len(self.hsmLog) + 1)
+                                                    minValue=1, maxValue=len(self.hsmLog))
             if wasOk:
                 self.setCurrentFrameIndex(newIndex - 1)
 
-- 
2.43.0


From 0b41cf59c46490230da41dcf78bdddc2e0192936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 65/74] fix: hsmdebugger can't open a log without entries

---
 tools/hsmdebugger/hsmdebugger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/hsmdebugger/hsmdebugger.py b/tools/hsmdebugger/hsmdebugger.py
index 1de2618..a4ec259 100644
--- a/tools/hsmdebugger/hsmdebugger.py
+++ b/tools/hsmdebugger/hsmdebugger.py
@@ -291,7 +291,7 @@ class hsmdebugger(QObject):
             self.enableLogActions(False)
             with open(path, 'r') as stream:
                 try:
-                    self.hsmLog = yaml.safe_load(stream)
+                    self.hsmLog = yaml.safe_load(stream) or []
                     self.enableLogActions(True)
                     loaded = True
                 except yaml.YAMLError as exc:
@@ -393,7 +393,7 @@ class hsmdebugger(QObject):
             self.statusBarLog.setText("")
 
     def updateHsmFrame(self, index):
-        if (self.hsmLog is not None) and (index < len(self.hsmLog)):
+        if self.hsmLog and (index < len(self.hsmLog)):
             logEntry = self.hsmLog[index]
             highlight = {"active_states": [], "callback": {}, "transitions": {}, "state_actions": {}}
             callbackStateId = None
-- 
2.43.0


From 48e73c76b94156cd5c2bf580a31088ddceb8595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 66/74] fix: hsmdebugger keeps showing a frame of the previous
 log after opening another one

---
 tools/hsmdebugger/hsmdebugger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/hsmdebugger/hsmdebugger.py b/tools/hsmdebugger/hsmdebugger.py
index a4ec259..6901c46 100644
--- a/tools/hsmdebugger/hsmdebugger.py
+++ b/tools/hsmdebugger/hsmdebugger.py
@@ -301,6 +301,8 @@ class hsmdebugger(QObject):
                 self.currentLogPath = path
                 self.recentFiles.addPathToRecentLogsList(path)
                 self.updateFrames()
+                # first frame of the new log must be displayed even if index didn't change
+                self.currentFrameIndex = None
                 self.setCurrentFrameIndex(0)
         return loaded
 
-- 
2.43.0


From 424f891d57232adde54e867db3fce8b9697bc833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 67/74] fix: hsmdebugger accepts files which aren't state
 machines

---
 tools/hsmdebugger/hsmdebugger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/hsmdebugger/hsmdebugger.py b/tools/hsmdebugger/hsmdebugger.py
index 6901c46..aa37f07 100644
--- a/tools/hsmdebugger/hsmdebugger.py
+++ b/tools/hsmdebugger/hsmdebugger.py
@@ -264,6 +264,8 @@ class hsmdebugger(QObject):
             self.enableHsmActions(False)
             try:
                 self.hsm = self.scxml2gen.parseScxml(path)
+                if self.hsm is None:
+                    raise ValueError("not a valid HSM")
             except:
                 self.hsm = None
                 loaded = False
-- 
2.43.0


From 2b86342c780795e07e0d3e9c24d226212bc2819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 68/74] fix: hsmdebugger applies previously opened log to
 another HSM

---
 tools/hsmdebugger/hsmdebugger.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/hsmdebugger/hsmdebugger.py b/tools/hsmdebugger/hsmdebugger.py
index aa37f07..0ec71db 100644
--- a/tools/hsmdebugger/hsmdebugger.py
+++ b/tools/hsmdebugger/hsmdebugger.py
@@ -283,7 +283,15 @@ class hsmdebugger(QObject):
         return loaded
 
     def unloadHsmLog(self):
-        print("TODO")
+        self.hsmLog = []
+        self.currentLogPath = None
+        self.currentFrameIndex = None
+        self.updateFrames()
+        self.window.frameSelector.setMaximum(0)
+        self.window.hsmStateView.hide()
+        self.window.hsmStateViewWait.hide()
+        self.statusBarFrame.setText("")
+        self.statusBarLog.setText("")
         self.enableLogActions(False)
 
     def loadHsmLog(self, path):
-- 
2.43.0


From 6dddd9d86f2ea2e9ad4c117b64a9eef91256f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 69/74] fix: hsmdebugger doesn't report a log which can't be
 read

---
 tools/hsmdebugger/hsmdebugger.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/hsmdebugger/hsmdebugger.py b/tools/hsmdebugger/hsmdebugger.py
index 0ec71db..5c2391a 100644
--- a/tools/hsmdebugger/hsmdebugger.py
+++ b/tools/hsmdebugger/hsmdebugger.py
@@ -299,14 +299,14 @@ class hsmdebugger(QObject):
 
         if path and len(path) > 0:
             self.enableLogActions(False)
-            with open(path, 'r') as stream:
-                try:
+            try:
+                with open(path, 'r') as stream:
                     self.hsmLog = yaml.safe_load(stream) or []
                     self.enableLogActions(True)
                     loaded = True
-                except yaml.YAMLError as exc:
-                    QMessageBox.critical(QApplication.activeWindow(), "Error", f"Failed to load HSM log:\n{exc}",
-                                         buttons=QMessageBox.Ok)
+            except (OSError, yaml.YAMLError) as exc:
+                QMessageBox.critical(QApplication.activeWindow(), "Error", f"Failed to load HSM log:\n{exc}",
+                                     buttons=QMessageBox.Ok)
             if loaded:
                 self.currentLogPath = path
                 self.recentFiles.addPathToRecentLogsList(path)
-- 
2.43.0


From c09410837f428f2303917144b8d3a52de1440d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 70/74] fix: hsmdebugger keeps colors which were picked in a
 cancelled settings dialog

---
 tools/hsmdebugger/impl/settings.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tools/hsmdebugger/impl/settings.py b/tools/hsmdebugger/impl/settings.py
index f6a8455..4257255 100644
--- a/tools/hsmdebugger/impl/settings.py
+++ b/tools/hsmdebugger/impl/settings.py
@@ -96,8 +96,7 @@ class QSettingsDialog:
             self.setCurrentColor(colorId, valueElement, newColor.name(QColor.HexRgb)[1:].upper())
 
     def setCurrentColor(self, colorId, valueElement, newColor):
-        self.styleColors[colorId] = newColor
-        valueElement.setText(self.styleColors[colorId])
+        valueElement.setText(newColor)
         valueElement.setStyleSheet(f"background-color: #{newColor};")
 
     def onRestoreDefaults(self, button):
-- 
2.43.0


From b502212ddfd2bccece31e220a3b011a4e9c08d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 71/74] fix: conditional entry transitions are never
 highlighted

---
 tools/scxml2gen/scxml2gen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 9506f33..56d902a 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -895,6 +895,8 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
 
         for currentEntryTransition in initialTransitions:
             condition = ""
+            highlightEntryTransition = ""
+            entryTransitionArgs = ""
             if currentEntryTransition:
                 condition = " : "
                 if 'event' in currentEntryTransition:
@@ -905,8 +907,8 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
             if highlight and (stateData['id'] in highlight['transitions']):
                 highlightEntryTransitionInfo = highlight['transitions'][stateData['id']]
                 if (highlightEntryTransitionInfo["from"] == "") and \
-                    (('initial_state_transitions' not in stateData) or \
-                    highlightEntryTransitionInfo["event"] == stateData['initial_state_transitions']):
+                    ((not currentEntryTransition) or ('event' not in currentEntryTransition) or \
+                    (highlightEntryTransitionInfo["event"] == currentEntryTransition['event'])):
                     highlightEntryTransition = f"[#{highlightColorActive},bold]"
                     if "args" in highlightEntryTransitionInfo:
                         entryTransitionArgs = highlightEntryTransitionInfo['args']
-- 
2.43.0


From b3212b7dab9d3af74068c622d6108f4cee634335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 72/74] fix: highlighting a transition to a final state adds an
 additional state to the diagram

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 56d902a..d0d4ca5 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -1027,7 +1027,7 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
     # highlighting transition targets must be done AFTER state is fully defined (since transitions can appear earlier)
     # but skip self transitions since in this case state will be active
     if highlight \
-            and (stateData["type"] != STATETYPE_HISTORY) \
+            and (stateData["type"] not in [STATETYPE_HISTORY, STATETYPE_FINAL]) \
             and (stateData['id'] in highlight['transitions']) \
             and (stateData['id'] != highlight['transitions'][stateData['id']]["from"]):
         plantumlState += f"{offset}state {stateData['id']} ##[dotted]{highlightColorActive}\n"
-- 
2.43.0


From 10f0aa5ba7bc9b55c092dfe468f10542483e04ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 73/74] fix: transition which was blocked by the target state
 isn't highlighted

---
 tools/scxml2gen/scxml2gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index d0d4ca5..b863025 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -1011,7 +1011,7 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
             plantumlState += f"{offset}{stateData['id']} : \n"
         plantumlState += plantumlOnExit
 
-        if highlightState and (stateData["type"] != STATETYPE_HISTORY):
+        if (highlightState or (len(callbackFailedMsg) > 0)) and (stateData["type"] != STATETYPE_HISTORY):
             if len(callbackFailedMsg) > 0:
                 plantumlState += f"{offset}state \"**{stateData['id']}**\" as {stateData['id']} #{highlightColorBlocked}\n"
                 plantumlState += f"note left of {stateData['id']} : " \
-- 
2.43.0


From 64e5252c73af33e734d63d31a1f32ba94f688642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 74/74] fix: hsmdebugger shows image of the wrong frame when
 frames are switched while images are being generated

---
 tools/hsmdebugger/hsmdebugger.py | 42 ++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/tools/hsmdebugger/hsmdebugger.py b/tools/hsmdebugger/hsmdebugger.py
index 5c2391a..d3cea1e 100644
--- a/tools/hsmdebugger/hsmdebugger.py
+++ b/tools/hsmdebugger/hsmdebugger.py
@@ -45,6 +45,7 @@ class hsmdebugger(QObject):
         self.currentLogPath = None
         self.hsmViewScaleFactor = 1.0
         self.currentFrameIndex = None
+        self.currentFrameImage = None
 
         self.load_settings()
         (loadScxml2genStatus, errMsg) = self.loadScxml2genModule()
@@ -286,6 +287,7 @@ class hsmdebugger(QObject):
         self.hsmLog = []
         self.currentLogPath = None
         self.currentFrameIndex = None
+        self.currentFrameImage = None
         self.updateFrames()
         self.window.frameSelector.setMaximum(0)
         self.window.hsmStateView.hide()
@@ -322,29 +324,32 @@ class hsmdebugger(QObject):
         else:
             argsPlantUml = [self.settings.pathPlantuml]
 
+        (base, ext) = os.path.splitext(srcFile)
+        pathImage = str(Path(destDirectory) / f"{os.path.basename(base)}.png")
+        plantuml = None
+
         try:
-            self.plantuml = subprocess.Popen(argsPlantUml + [format, "-o", Path("./"), srcFile])
+            # NOTE: self.plantuml could be reset by another thread at any time
+            plantuml = subprocess.Popen(argsPlantUml + [format, "-o", Path("./"), srcFile])
+            self.plantuml = plantuml
         except FileNotFoundError:
-            self.signalPlantumlDone.emit("", "not_found")
+            self.signalPlantumlDone.emit(pathImage, "not_found")
 
-        if self.plantuml:
-            rc = self.plantuml.wait()
-            if rc == 0:
-                (base, ext) = os.path.splitext(srcFile)
-                self.signalPlantumlDone.emit(str(Path(destDirectory) / f"{os.path.basename(base)}.png"), "ok")
-            else:
-                self.signalPlantumlDone.emit("", "cancelled")
+        if plantuml:
+            rc = plantuml.wait()
+            self.signalPlantumlDone.emit(pathImage, "ok" if rc == 0 else "cancelled")
 
-    @Slot(str)
+    @Slot(str, str)
     def plantumlGenerationDone(self, path, status):
-        self.plantuml = None
-        self.threadPlantuml = None
-        if len(path) > 0:
-            if len(path) > 0:
-                self.window.hsmStateView.setPixmap(QPixmap(path))
-                self.scaleView(self.hsmViewScaleFactor)
-                self.window.hsmStateViewWait.hide()
-                self.window.hsmStateView.show()
+        # results for frames which aren't selected anymore must be ignored
+        if path != self.currentFrameImage:
+            return
+
+        if status == "ok":
+            self.window.hsmStateView.setPixmap(QPixmap(path))
+            self.scaleView(self.hsmViewScaleFactor)
+            self.window.hsmStateViewWait.hide()
+            self.window.hsmStateView.show()
         elif status == "not_found":
             self.window.hsmStateView.setPixmap(QPixmap(str(self.appDir / "res" / "failed.png")))
             self.scaleView(0.5)
@@ -472,6 +477,7 @@ class hsmdebugger(QObject):
         plantumlChecksumNew = self.getDataChecksum(plantumlContent)
         pathPlantumlFile = str(dirHsmCache / f"{plantumlChecksumNew}.plantuml")
         pathFrameImage = str(dirHsmCache / f"{plantumlChecksumNew}.png")
+        self.currentFrameImage = pathFrameImage
 
         if (os.path.exists(pathFrameImage) is False) or (os.path.getsize(pathFrameImage) == 0):
             print("Generate image...")
-- 
2.43.0

