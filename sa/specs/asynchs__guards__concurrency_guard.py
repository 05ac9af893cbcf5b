MODULE = "aiootp.asynchs.guards.concurrency_guard"

from collections import deque
from aiootp._typing import Typing as t
from aiootp._exceptions import Issue, IncoherentConcurrencyState
from aiootp._exceptions import InvalidStateTransition, Metadata
from aiootp.commons import FrozenTypedSlots
from aiootp.asynchs.loops import asleep, sleep
from aiootp.asynchs.concurrency_interface import process_probe_delay
from aiootp.asynchs.guards.state_machine import ConcurrencyGuardUseTracker
from aiootp.asynchs.guards.policies import ConcurrencyGuardPolicies
from aiootp.asynchs.guards.policies import ExclusivePolicy, QueueManuallyPolicy
from aiootp.asynchs.guards.policies import NonExclusivePolicy, NonExclusiveQueueManuallyPolicy



class DequePair(FrozenTypedSlots):
    slots_types = dict(queue=deque, observers=deque)

    def __init__(self, /, *, queue: deque[t.ConcurrencyGuardType] | None=None, observers: deque[t.ConcurrencyGuardType] | None=None):
        self.queue = deque() if queue is None else queue
        self.observers = deque() if observers is None else observers


class ConcurrencyGuard(FrozenTypedSlots):
    _UNMAPPED_ATTRIBUTES = frozenset({'_use_tracker'})
    _DIRLESS_ATTRIBUTES = frozenset({'_use_tracker'})
    _RESTRICTED_ATTRIBUTES = frozenset({'_set_policy', '_set_deques'})
    _UseTracker = ConcurrencyGuardUseTracker
    _default_probe_delay = 1e-05
    DequePair = DequePair
    IncoherentConcurrencyState = IncoherentConcurrencyState
    InvalidStateTransition = InvalidStateTransition
    policies = ConcurrencyGuardPolicies(Exclusive=ExclusivePolicy, QueueManually=QueueManuallyPolicy, NonExclusive=NonExclusivePolicy, NonExclusiveQueueManually=NonExclusiveQueueManuallyPolicy)
    slots_types = dict(_use_tracker=t.ConcurrencyGuardUseTrackerType, deques=DequePair, observers=deque, policy=t.ConcurrencyGuardPolicyType, probe_delay=float, queue=deque)

    def _set_policy(self, /, policy):
        if policy is None:
            self.policy = self.policies.Exclusive()
        elif isinstance(policy, type):
            raise Issue.must_be_type(Metadata(policy), t.ConcurrencyGuardPolicyType)
        else:
            self.policy = policy

    def _set_deques(self, /, deques: DequePair):
        self.deques = deques
        self.queue = deques.queue
        self.observers = deques.observers

    def __init__(self, /, deques: DequePair, *, policy=None, probe_delay=None):
        self._set_policy(policy)
        self._set_deques(deques)
        self._use_tracker = self._UseTracker()
        self.probe_delay = process_probe_delay(probe_delay, default=self._default_probe_delay)

    def is_unused(self, /):
        return self._use_tracker.is_unused()

    def is_pending(self, /):
        return self._use_tracker.is_pending()

    def is_running(self, /):
        return self._use_tracker.is_running()

    def is_done(self, /):
        return self._use_tracker.is_done()

    def has_faulted(self, /):
        return self._use_tracker.has_faulted()

    def _stop_waiting(self, /):
        if not self.is_pending():
            return
        if self in self.queue:
            self.queue.remove(self)
        if self.policy.is_exclusive():
            self.policy.notify_off(self)

    def __enter__(self, /):
        policy = self.policy
        policy.use(self)
        policy.notify_on(self)
        policy.get_in_queue(self)
        try:
            while not policy.is_free_to_run(self):
                sleep(self.probe_delay)
        except BaseException:
            self._stop_waiting()
            raise
        return self

    def __exit__(self, /, exc_type: type | None=None, exc_value: Exception | None=None, traceback=None):
        self.policy.notify_off(self)
        self.policy.get_off_queue(self)
        return exc_type is None
