MODULE = "aiootp.asynchs.guards.manager"

from collections import defaultdict, deque
from threading import Lock
from aiootp._typing import Typing as t
from aiootp._exceptions import Issue, IncoherentConcurrencyState
from aiootp._exceptions import InvalidStateTransition, Metadata
from aiootp.commons import FrozenTypedSlots, OpenFrozenTypedSlots
from aiootp.asynchs.loops import asleep
from aiootp.asynchs.concurrency_interface import process_probe_delay
from aiootp.asynchs.guards.concurrency_guard import ConcurrencyGuard, ConcurrencyGuardPolicies
from aiootp.asynchs.guards.concurrency_guard import DequePair



class TargetState(FrozenTypedSlots):
    _DequePair = DequePair
    slots_types = dict(deques=_DequePair, users=deque)

    def __init__(self, /):
        self.deques = self._DequePair()
        self.users = deque()


class SelfReferences(OpenFrozenTypedSlots):
    slots_types = dict(manager=t.MultiConcurrencyGaurdType, target=t.Hashable)


class DefaultDictOfStates(defaultdict):
    _TargetState = TargetState

    def __init__(self, /):
        super().__init__(self._TargetState)

    def __setitem__(self, target: t.Hashable, state: _TargetState, /):
        if not issubclass(state.__class__, self._TargetState):
            raise Issue.must_be_subtype(Metadata(state), self._TargetState)
        super().__setitem__(target, state)

    def update(self, target_states: t.Mapping[t.Hashable, _TargetState]={}, /, **states: _TargetState):
        for target, state in dict(target_states, **states).items():
            self[target] = state


class ManagedConcurrecyGuard(ConcurrencyGuard):
    _UNMAPPED_ATTRIBUTES = frozenset({'_refs'})
    _DIRLESS_ATTRIBUTES = frozenset({'_refs'})
    _RESTRICTED_ATTRIBUTES = frozenset({'__aenter__', '__enter__', '__aexit__', '__exit__'})
    slots_types = dict(_refs=SelfReferences)

    def __init__(self, /, *, policy=None, probe_delay=None):
        self._set_policy(policy)
        self._use_tracker = self._UseTracker()
        self.probe_delay = process_probe_delay(probe_delay, default=self._default_probe_delay)

    def __enter__(self, /):
        manager, target = (self._refs.manager, self._refs.target)
        manager._initialize_guard(target, self)
        try:
            return super().__enter__()
        except BaseException as error:
            manager._cleanup_references(target)
            raise error

    def __exit__(self, /, exc_type: type | None=None, exc_value: Exception | None=None, traceback=None):
        try:
            return super().__exit__(exc_type, exc_value, traceback)
        finally:
            manager, target = (self._refs.manager, self._refs.target)
            manager._cleanup_references(target)


class MultiConcurrencyGaurd(FrozenTypedSlots):
    _Lock = Lock
    _ManagedGuard = ManagedConcurrecyGuard
    _SelfReferences = SelfReferences
    _Targets = DefaultDictOfStates
    IncoherentConcurrencyState = IncoherentConcurrencyState
    InvalidStateTransition = InvalidStateTransition
    policies = _ManagedGuard.policies
    slots_types = dict(_resource_lock=_LockType, targets=_Targets)

    def __init__(self, /, *, targets: _Targets | None=None):
        self._resource_lock = self._Lock()
        self.targets = self._Targets() if targets is None else targets

    def _ensure_valid_policy(self, /, policy: t.ConcurrencyGuardPolicyType, *, policy_type):
        if policy is None:
            return policy_type()
        elif not issubclass(policy.__class__, policy_type):
            raise Issue.must_be_subtype(Metadata(policy), policy_type)
        return policy

    def _initialize_guard(self, /, target: t.Hashable, guard: t.ConcurrencyGuardType):
        with self._resource_lock:
            (state := self.targets[target]).users.append(guard)
            guard._set_deques(state.deques)

    def _pass_self_references(self, /, target: t.Hashable, guard: t.ConcurrencyGuardType):
        guard._refs = self._SelfReferences(manager=self, target=target)

    def guard(self, /, target: t.Hashable, *, policy=None, probe_delay=None):
        policy = self._ensure_valid_policy(policy=policy, policy_type=self.policies.Exclusive)
        guard = self._ManagedGuard(policy=policy, probe_delay=probe_delay)
        self._pass_self_references(target, guard)
        return guard

    def monitor(self, /, target: t.Hashable, *, policy=None, probe_delay=None):
        policy = self._ensure_valid_policy(policy=policy, policy_type=self.policies.NonExclusive)
        guard = self._ManagedGuard(policy=policy, probe_delay=probe_delay)
        self._pass_self_references(target, guard)
        return guard

    def _cleanup_references(self, /, target: t.Hashable):
        with self._resource_lock:
            state = self.targets[target]
            (users := state.users).popleft()
            if users or state.deques.queue or state.deques.observers:
                return
            self.targets.pop(target)
