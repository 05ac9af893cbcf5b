MODULE = "aiootp.asynchs.guards.policies"

from aiootp._typing import Typing as t
from aiootp.commons import FrozenInstance, OpenFrozenTypedSlots



class ConcurrencyGuardPolicy(FrozenInstance):

    def __init__(self, /):
        pass


class ExclusivePolicy(ConcurrencyGuardPolicy):

    def is_exclusive(self, /):
        return True

    def use(self, /, guard: t.ConcurrencyGuardType):
        guard._use_tracker.transition_to_pending()

    def notify_on(self, /, guard: t.ConcurrencyGuardType):
        guard.observers.append(guard)

    def notify_off(self, /, guard: t.ConcurrencyGuardType):
        guard.observers.pop()

    def get_in_queue(self, /, guard: t.ConcurrencyGuardType):
        guard.queue.append(guard)

    def get_off_queue(self, /, guard: t.ConcurrencyGuardType):
        if guard is not guard.queue.popleft():
            guard._use_tracker.enter_fault_state()
            raise guard.IncoherentConcurrencyState from None
        guard._use_tracker.transition_to_done()

    def is_free_to_run(self, /, guard: t.ConcurrencyGuardType):
        is_next_in_queue = guard is guard.queue[0]
        no_others_running = guard.observers[0].policy.is_exclusive()
        if (can_run := (is_next_in_queue and no_others_running)):
            with guard._use_tracker as tracker:
                tracker.add_fault_signal(guard.observers.pop)
                tracker.add_fault_signal(guard.queue.popleft)
                tracker.transition_to_running()
        return can_run


class QueueManuallyPolicy(ExclusivePolicy):

    def get_in_queue(self, /, guard: t.ConcurrencyGuardType):
        pass


class NonExclusivePolicy(ConcurrencyGuardPolicy):

    def is_exclusive(self, /):
        return False

    def use(self, /, guard: t.ConcurrencyGuardType):
        guard._use_tracker.transition_to_pending()

    def notify_on(self, /, guard: t.ConcurrencyGuardType):
        pass

    def notify_off(self, /, guard: t.ConcurrencyGuardType):
        guard.observers.popleft()

    def get_in_queue(self, /, guard: t.ConcurrencyGuardType):
        guard.queue.append(guard)

    def get_off_queue(self, /, guard: t.ConcurrencyGuardType):
        guard._use_tracker.transition_to_done()

    def is_free_to_run(self, /, guard: t.ConcurrencyGuardType):
        if (can_run := (guard is guard.queue[0])):
            with guard._use_tracker as tracker:
                guard.observers.appendleft(guard)
                tracker.add_fault_signal(guard.observers.popleft)
                if guard is not guard.queue.popleft():
                    raise guard.IncoherentConcurrencyState from None
                tracker.transition_to_running()
        return can_run


class NonExclusiveQueueManuallyPolicy(NonExclusivePolicy):

    def get_in_queue(self, /, guard: t.ConcurrencyGuardType):
        pass


class ConcurrencyGuardPolicies(OpenFrozenTypedSlots):
    slots_types = dict(Exclusive=t.ConcurrencyGuardPolicyType, QueueManually=t.ConcurrencyGuardPolicyType, NonExclusive=t.ConcurrencyGuardPolicyType, NonExclusiveQueueManually=t.ConcurrencyGuardPolicyType)
