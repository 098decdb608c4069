"""C21: records tensor operations on operands of all shapes (enumerated by MC_Tensor) and chains of them."""

import json
import os
import numpy as np
import pyomo.environ as pyo
from common import nested, num, rng, call
from tvemoves_rufbad.tensors import Vector, Matrix, Tensor3D, BarycentricCoordinates, inverse_2x2


def scenarios(prop, tier, seed, work):
    r = rng(prop, seed)
    cases = sorted(set(open(os.path.join(work, "MC_Tensor.cases"))))
    cases = [json.loads(c) for c in cases]
    scns = []
    m = 40
    rounds = 12 if tier == "thorough" else 4
    for k in range(0, len(cases), m):
        for j in range(rounds):
            scns.append({"id": f"shapes-{k // m}-{j}", "cases": cases[k : k + m], "seed": seed, "symbolic": j % 2 == 1})
        scns.append({"id": f"shapes-{k // m}-whole", "cases": cases[k : k + m], "seed": seed, "symbolic": False, "whole": True})
    for k in range(400 if tier == "thorough" else 60):
        scns.append({"id": f"chain-{k}", "chain": 25, "seed": seed, "symbolic": k % 4 == 3})
    for s in scns:
        s["spec"] = "TraceTensor"
        s["cost"] = 2 if s["symbolic"] else 1
    return scns


class Maker:
    def __init__(self, r, symbolic, unit=1):
        self.r = r
        self.unit = unit
        self.symbolic = symbolic
        self.m = pyo.ConcreteModel()
        self.n = 0
        self.style = r.randrange(5)
        self.whole = False   # large whole numbers only

    def value(self):
        x = self._value()
        return x if self.unit == 1 else x * self.unit

    def _value(self):
        r = self.r
        if self.style == 0:
            return r.randint(-3, 3)
        if self.style == 4 or self.whole:
            return r.choice([-1, 1]) * r.randint(1, 10 ** 13) if r.random() < 0.8 else r.randint(-3, 3)
        if self.style == 1:
            return r.randint(-12, 12) / 4
        if self.style == 2:
            return r.choice([0.0, 1.0, -1.0, r.uniform(-2, 2)])
        return r.uniform(-10, 10)

    def entry(self, x):
        if not self.symbolic:
            return x
        v = pyo.Var(initialize=x)
        self.m.add_component(f"v{self.n}", v)
        self.n += 1
        return v

    def nest(self, dims):
        self.style = self.r.randrange(5) if self.r.random() < 0.3 else self.style
        if not dims:
            return self.value()
        return [self.nest(dims[1:]) for _ in range(dims[0])]

    def wrap(self, x):
        return [self.wrap(y) for y in x] if isinstance(x, list) else self.entry(x)


def kind_of(x):
    if isinstance(x, (bool, np.bool_)):
        return {"kind": "E", "data": bool(x)}
    if isinstance(x, Vector):
        return {"kind": "V", "data": nested(x)}
    if isinstance(x, Matrix):
        return {"kind": "M", "data": nested(x)}
    if isinstance(x, Tensor3D):
        return {"kind": "T", "data": nested(x)}
    if isinstance(x, np.ndarray):
        return {"kind": {1: "V", 2: "M", 3: "T"}.get(x.ndim, "?"), "data": nested(x)}
    if isinstance(x, (list, tuple)):
        return {"kind": "V", "data": [num(y) for y in x]}
    return {"kind": "S", "data": num(x)}


CLASSES = {"V": Vector, "M": Matrix, "T": Tensor3D}


def perform(op, a, b, p, s):
    if op == "neg":
        return -a
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * s
    if op == "rmul":
        return s * a
    if op == "div":
        return a / s
    if op == "eq":
        return a == b
    if op == "matmul":
        return a @ b
    if op == "map":
        return a.map(lambda x: 2 * x + 1)
    if op == "iter":
        return list(a)
    if op == "parts":
        return [a.l1, a.l2, a.l3]
    if op == "len":
        return len(a)
    if op == "numpy":
        return a.numpy()
    if op == "reshape":
        return a.reshape(p[0], p[1])
    if op == "get":
        return a[p[0]] if len(p) == 1 else a[tuple(p)]
    if op == "slice":
        return a[p[0] : p[1]]
    if op == "inverse":
        return inverse_2x2(a)
    if op in ("dot", "stack", "extend", "scalar_product"):
        return getattr(a, op)(b)
    return getattr(a, op)()


NONE = {"kind": "none", "data": []}


def event(op, a, b, p, s):
    before = [nested(a) if a is not None else 0, nested(b) if b is not None else 0]
    ok, res = call(perform, op, a, b, p, s)
    if ok:
        ok, rec = call(kind_of, res)
    after = [nested(a) if a is not None else 0, nested(b) if b is not None else 0]
    kind = lambda x: NONE if x is None else {"kind": "B", "data": nested(list(x))} if isinstance(x, BarycentricCoordinates) else kind_of(x)
    e = {"ev": "op", "op": op, "a": kind(a), "b": kind(b), "p": p, "s": num(s), "outcome": "ok" if ok else "error", "before": before, "after": after}
    if ok:
        e["result"] = rec
    return e, (res if ok else None)


def run(scn):
    r = rng(scn["id"], scn["seed"])
    mk = Maker(r, scn["symbolic"], 1 if "chain" in scn or "whole" in scn else r.choice([1, 1, 2.0**-30, 1e-9, 2.0**30, 1e-5]))
    mk.whole = "whole" in scn
    events = []
    if "chain" in scn:
        return {"events": chain(scn, r, mk)}
    for c in scn["cases"]:
        op, shape = c[0], c[1]
        if scn["symbolic"] and op in ("eq", "numpy"):
            op = "map"  # not defined for symbolic entries
            c = ["map", shape] if shape[0] in "VMT" else c
        rest = c[2] if len(c) > 2 else None
        if shape[0] in ("R", "R3"):
            raw = [mk.nest([n]) for n in shape[1]] if shape[0] == "R" else [[mk.nest([n]) for n in m] for m in shape[1]]
            data = mk.wrap(raw)
            before = nested(data)
            ok, res = call(Matrix if op == "newM" else Tensor3D, data)
            e = {"ev": "op", "op": op, "a": {"kind": "L", "data": before}, "b": NONE, "p": [0], "s": "0", "outcome": "ok" if ok else "error", "before": before, "after": nested(data)}
            if ok:
                e["result"] = kind_of(res)
            events.append(e)
            continue
        if shape[0] == "B":
            a = BarycentricCoordinates(*[mk.entry(r.choice([0.25, 0.5, 0, 1, r.random()])) for _ in range(2)])
            b = None
        else:
            raw = mk.nest(shape[1:])
            if op == "inverse" and r.random() < 0.1 and shape[1:] == [2, 2] and not scn["symbolic"]:
                raw = [[2, 4], [1, 2]]
            elif op == "inverse" and r.random() < 0.4 and shape[1:] == [2, 2]:
                t, q = r.uniform(-1e-4, 1e-4), r.uniform(0.5, 2)  # nearly singular
                raw = [[1 + t, q], [1 / q, 1.0]] if r.random() < 0.5 else [[mk.value() for _ in range(2)], [mk.value() for _ in range(2)]]
            while scn["symbolic"] and op == "inverse" and shape[1:] == [2, 2] and raw[0][0] * raw[1][1] == raw[0][1] * raw[1][0]:
                raw = mk.nest([2, 2])  # the values of a model are not known when the inverse is formed
            a = CLASSES[shape[0]](mk.wrap(raw))
            b = None
        p = [0]
        if rest is not None and isinstance(rest[0], str):
            if op == "eq" and rest == shape and not scn["symbolic"]:
                other = json.loads(json.dumps(raw))
                if r.random() < 0.6:
                    x = other
                    while isinstance(x[0], list):
                        x = r.choice(x)
                    k = r.randrange(len(x))
                    x[k] = x[k] + r.choice([1, -1, 1e-6, 1e-12])
                b = CLASSES[rest[0]](other)
            else:
                b = CLASSES[rest[0]](mk.wrap(mk.nest(rest[1:])))
        elif rest is not None:
            p = rest
        s = r.choice([0.5, -2, 3, 0.1, 7.25, 1e-12, -1e8])
        if op == "div" and r.random() < 0.1 and not scn["symbolic"]:
            s = 0
        e, _ = event(op, a, b, p, s)
        events.append(e)
    return {"events": events}


def chain(scn, r, mk):
    """Operations on a growing pool of results: values stay what they were."""
    mk.style = 1
    n = r.choice([1, 2, 3])
    pool = [Vector(mk.wrap(mk.nest([n]))), Vector(mk.wrap(mk.nest([n]))), Matrix(mk.wrap(mk.nest([n, n]))), Matrix(mk.wrap(mk.nest([n, n])))]
    record = [nested(x) for x in pool]
    events = []
    for _ in range(scn["chain"]):
        a = r.choice(pool)
        if isinstance(a, Vector):
            op = r.choice(["neg", "add", "sub", "mul", "rmul", "div", "dot", "stack", "extend", "transpose", "map", "normsqr", "iter"])
            b = r.choice([x for x in pool if isinstance(x, Vector)])
        elif isinstance(a, Matrix):
            op = r.choice(["neg", "add", "sub", "mul", "rmul", "div", "matmul", "transpose", "det", "flatten", "dot", "map", "stack", "scalar_product", "normsqr"])
            if op == "det" and a.shape[0] > 3:
                op = "transpose"
            b = r.choice([x for x in pool if isinstance(x, Vector if op == "dot" else Matrix)])
        else:
            op = r.choice(["neg", "add", "sub", "normsqr", "map"])
            b = r.choice([x for x in pool if isinstance(x, Tensor3D)])
        if op in ("neg", "mul", "rmul", "div", "transpose", "map", "normsqr", "iter", "numpy", "det", "flatten"):
            b = None
        e, res = event(op, a, b, [0], r.choice([0.5, -0.5, 1, 2]))
        events.append(e)
        # everything computed so far, compared with what it was
        e["before"] = [e["before"], record]
        e["after"] = [e["after"], [nested(x) for x in pool]]
        if isinstance(res, (Vector, Matrix, Tensor3D)):
            rec = nested(res)
            flat = str(rec).split(",")
            if len(flat) <= 16 and len(pool) < 14 and all(abs(float(x.strip("[]' "))) < 50 for x in flat):
                pool.append(res)
                record = record + [rec]
    return events
