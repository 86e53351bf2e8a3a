"""Exploration of update/read/clone histories of a framework against freshly built models.

The reference model is deliberately boring: a parameter dictionary with the documented
merge rules, from which a *new* framework object is built.  The implementation state that
matters for futures is (parameter values, which quantities are indexed/cached and under
which dependencies); a history is identified by its operation list, and two histories are
only merged (same fresh reference) when their specification states are equal.
"""

from __future__ import annotations

import copy
import json

from .impl import canon, same


def op_key(op):
    return json.dumps(op, sort_keys=True, default=lambda o: getattr(o, "__name__", repr(o)))


def thaw(op):
    """A private deep copy of an operation's arguments."""
    return copy.deepcopy(op)


class Spec:
    """Reference state: what the user has asked for so far."""

    def __init__(self, base):
        self.p = copy.deepcopy(base)

    def apply(self, op):
        s = Spec(self.p)
        if "hod_params" in op and "M_min" in op["hod_params"] and "tracer_density" not in op:
            s.p.pop("tracer_density", None)
        for k, v in op.items():
            if k.endswith("_params"):
                s.p[k] = dict(s.p.get(k) or {}, **thaw(v)) if v else {}
            else:
                s.p[k] = thaw(v)
        return s

    def key(self):
        return op_key(self.p)


class Fresh:
    """Per-worker cache of freshly built reference readings."""

    def __init__(self, cls, quantities, reader):
        self.cls, self.qs, self.reader, self.cache = cls, quantities, reader, {}

    def get(self, spec):
        k = spec.key()
        if k not in self.cache:
            if len(self.cache) > 400:
                self.cache.clear()
            try:
                o = self.cls(**thaw(spec.p))
                vals = {q: self.reader(o, q) for q in self.qs}
                pars = canon({n: v for n, v in o.parameter_values.items()})
                self.cache[k] = ("ok", vals, pars)
            except Exception as e:
                self.cache[k] = ("rejected", type(e).__name__, str(e)[:200])
        return self.cache[k]


def compare(res, key, hist, obj, ref, qs, reader, rtol=1e-7, names=None):
    """Compare every quantity (and the parameters) of obj with the fresh reference."""
    bad = []
    for q in names or qs:
        v = reader(obj, q)
        if not same(v, ref[1][q], rtol=rtol):
            bad.append((q, v, ref[1][q]))
    if names is None:
        pars = canon({n: v for n, v in obj.parameter_values.items()})
        if not same(pars, ref[2]):
            diff = [n for n in ref[2] if not same(pars.get(n), ref[2][n])]
            res.fail(f"params:{key}", f"parameters {diff} differ from a fresh model after {hist}",
                     history=hist)
    res.traces += 1
    if bad:
        q, v, w = bad[0]
        res.fail(
            f"stale:{key}",
            f"{len(bad)} quantities differ from a fresh model after {hist}; e.g. {q}: "
            f"{str(v)[:90]} != {str(w)[:90]}",
            history=hist,
            quantities=[b[0] for b in bad],
        )
    return bad
