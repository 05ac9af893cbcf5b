MODULE = "aiootp.asynchs.guards.state_machine"

from collections import deque
from aiootp._typing import Typing as t
from aiootp._exceptions import IncoherentConcurrencyState
from aiootp._exceptions import InvalidStateTransition
from aiootp.commons import FrozenInstance



class ConcurrencyGuardState(FrozenInstance):

    def __init__(self, /):
        pass


class UnusedState(ConcurrencyGuardState):

    def begin_waiting(self, /, tracker: t.ConcurrencyGuardUseTrackerType):
        return tracker.Pending()


class PendingState(ConcurrencyGuardState):

    def run(self, /, tracker: t.ConcurrencyGuardUseTrackerType):
        return tracker.Running()


class RunningState(ConcurrencyGuardState):

    def finish(self, /, tracker: t.ConcurrencyGuardUseTrackerType):
        return tracker.Done()


class ConcurrencyGuardUseTracker(FrozenInstance):
    Unused = UnusedState
    Pending = PendingState
    Running = RunningState
    Done = DoneState
    IncoherentConcurrencyState = IncoherentConcurrencyState
    InvalidStateTransition = InvalidStateTransition

    def __init__(self, /):
        try:
            self._signals = deque()
            self._state = deque([self.Unused()], maxlen=1)
        except PermissionError as error:
            raise InvalidStateTransition from error

    def add_fault_signal(self, /, signal: t.Callable[[], t.Any]):
        self._signals.append(signal)

    def __enter__(self, /):
        return self

    def __exit__(self, /, exc_type: type | None=None, exc_value: Exception | None=None, traceback=None):
        signals = self._signals
        if (exception_status_is_none := (exc_type is None)):
            signals.clear()
        else:
            while signals:
                signals.popleft()()
        return exception_status_is_none

    def transition_to_pending(self, /):
        try:
            pending_state = self._state.pop().begin_waiting(self)
        except (IndexError, AttributeError) as error:
            raise InvalidStateTransition from error
        self._state.append(pending_state)

    def transition_to_running(self, /):
        try:
            running_state = self._state.pop().run(self)
        except (IndexError, AttributeError) as error:
            raise InvalidStateTransition from error
        self._state.append(running_state)

    def transition_to_done(self, /):
        try:
            done_state = self._state.pop().finish(self)
        except (IndexError, AttributeError) as error:
            raise InvalidStateTransition from error
        self._state.append(done_state)

    def enter_fault_state(self, /):
        self._state.clear()

    def is_unused(self, /):
        try:
            return isinstance(self._state[0], self.Unused)
        except IndexError:
            return False

    def is_pending(self, /):
        try:
            return isinstance(self._state[0], self.Pending)
        except IndexError:
            return False

    def is_running(self, /):
        try:
            return isinstance(self._state[0], self.Running)
        except IndexError:
            return False

    def is_done(self, /):
        try:
            return isinstance(self._state[0], self.Done)
        except IndexError:
            return False

    def has_faulted(self, /):
        return not self._state


class DoneState(ConcurrencyGuardState):
    pass
