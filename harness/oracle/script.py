"""User-defined layers, as the abstract layer class invites: they do what a script says and log their calls."""
import numpy as np
from oranssi.opt_tools import AdaptVQELayer, LieLayer


class ScriptLayer(LieLayer):
    """Call k returns unitaries[k % len] (mode 'set') or unitaries[k % len] @ input (mode 'mul')."""

    def __init__(self, device, observables, nqubits, unitaries, mode="set", name="script", log=None, states=None):
        super().__init__(device, observables, nqubits)
        self.us, self.mode, self.name = unitaries, mode, name
        self.log = [] if log is None else log
        self.k = 0
        self.states_ = states
        if states:
            self.su_state = states[0]

    def __call__(self, circuit_unitary, *args, **kwargs):
        u = self.us[self.k % len(self.us)]
        out = np.array(u) if self.mode == "set" else u @ circuit_unitary
        self.log.append((self.name, np.array(circuit_unitary), np.array(out), dict(kwargs)))
        self.k += 1
        if self.states_:
            self.su_state = self.states_[self.k % len(self.states_)]
        return out

    def __repr__(self):
        return self.name


class ScriptAdapt(AdaptVQELayer):
    """An AdaptVQE layer that logs what it is given and returns scripted parameters."""

    def __init__(self, device, observables, nqubits, unitaries, name="adapt", log=None, **kw):
        super().__init__(device, observables, **kw)
        self.us, self.name, self.k = unitaries, name, 0
        self.log = [] if log is None else log

    def __call__(self, circuit_unitary, *args, **kwargs):
        out = self.us[self.k % len(self.us)] @ circuit_unitary
        self.k += 1
        p = list(kwargs["params"]) + [[0.25 * self.k] * self.nqubits]
        self.log.append((self.name, np.array(circuit_unitary), np.array(out), dict(kwargs), p))
        return out, p

    def __repr__(self):
        return self.name
