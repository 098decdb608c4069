"""C22, C23: records the material laws on deformation gradients and temperatures."""

import math
from common import nested, num, nums, rng, call
import pyomo.environ as pyo
import tvemoves_rufbad.helpers as h
from tvemoves_rufbad.tensors import Matrix, Tensor3D


def rot(a):
    return [[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]]


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(2)) for j in range(2)] for i in range(2)]


def det(F):
    return F[0][0] * F[1][1] - F[0][1] * F[1][0]


def gradients(r, count):
    """Deformation gradients with positive determinant of all kinds."""
    special = [
        [[1.0, 0.0], [0.0, 1.0]], [[1.0, 0.5], [0.0, 1.0]], [[1.0, -0.5], [0.0, 1.0]], [[1.0, 0.0], [0.5, 1.0]],
        [[0.0, -1.0], [1.0, 0.0]], [[-1.0, 0.0], [0.0, -1.0]], [[2.0, 0.0], [0.0, 0.5]], [[2.0, 0.0], [0.0, 2.0]],
        [[0.5, 0.0], [0.0, 0.5]], [[1.0, 1.0], [0.0, 1.0]], [[1.0, 0.25], [0.0, 1.0]], [[0.25, 0.0], [0.0, 2.0]],
        [[1.5, 0.5], [-0.5, 1.0]], [[0.0, -0.5], [2.0, 0.0]], [[3.0, -2.0], [1.0, 1.0]],
    ]
    res = list(special)
    while len(res) < count:
        kind = r.randrange(6)
        if kind == 5:  # far from everything, also nearly degenerate
            a, b = 10 ** r.uniform(-1.5, 1.5), 10 ** r.uniform(-1.5, 1.5)
            F = mul(mul(rot(r.uniform(0, 7)), [[a, 0.0], [0.0, b]]), rot(r.uniform(0, 7)))
            if det(F) > 2e-3:
                res.append(F)
            continue
        if kind == 0:
            F = [[r.uniform(-2, 2) for _ in range(2)] for _ in range(2)]
        elif kind == 1:  # close to a rotation
            e = 10 ** r.uniform(-4, -0.5)
            F = mul(rot(r.uniform(0, 7)), [[1 + r.uniform(-e, e), r.uniform(-e, e)], [r.uniform(-e, e), 1 + r.uniform(-e, e)]])
        elif kind == 2:  # close to a martensite well
            e = 10 ** r.uniform(-4, -0.5)
            F = mul(rot(r.uniform(0, 7)), [[1 + r.uniform(-e, e), r.choice([-0.5, 0.5])], [r.uniform(-e, e), 1 + r.uniform(-e, e)]])
        elif kind == 3:
            F = [[r.randint(-12, 12) / 4 for _ in range(2)] for _ in range(2)]
        else:
            a, b = 10 ** r.uniform(-0.6, 0.6), 10 ** r.uniform(-0.6, 0.6)
            F = mul(mul(rot(r.uniform(0, 7)), [[a, 0.0], [0.0, b]]), rot(r.uniform(0, 7)))
        if det(F) > 0.05:
            res.append(F)
    return res[:count]


def temps(r, count):
    fixed = [0.0, 1.0, 0.25, 1e-6, 0.01, 3.0, 10.0, 0.5, 100.0, 300.0, 1e-9, 1000.0, 20.0, 50.0, 5.0, 1e-3]
    return fixed[:count] + [r.choice([r.uniform(0, 1), r.uniform(0, 0.1), r.uniform(0, 5), r.randint(0, 16) / 8]) for _ in range(max(0, count - len(fixed)))]


def scenarios(prop, tier, seed, work):
    r = rng(prop, seed)
    n = 3000 if tier == "thorough" else 400
    fs = gradients(r, n)
    ps = gradients(r, n)
    r.shuffle(ps)
    ts = temps(r, n)
    r.shuffle(ts)
    scns = []
    per = 10
    for k in range(0, n, per):
        scns.append({"id": f"{prop}-{k // per}", "kind": "elastic" if prop == "C22" else "thermal", "F": fs[k : k + per], "P": ps[k : k + per],
                     "t": ts[k : k + per], "fps": [r.choice([1, 10, 0.5, 24, 3, 0.01, 120, 1e4]) for _ in range(per)], "angle": r.uniform(0, 7),
                     "symbolic": (k // per) % 3 == 0})
    for k in range(60 if tier == "thorough" else 12):
        scns.append({"id": f"{prop}-rising-{k}", "kind": "rising", "t": sorted(temps(r, 30)[r.randrange(10):]), "symbolic": k % 3 == 0})
    for s in scns:
        s["spec"] = "TraceMaterial"
    return scns


class Env:
    """Numbers, or variables of a model holding them."""

    def __init__(self, symbolic):
        self.symbolic = symbolic
        self.m = pyo.ConcreteModel()
        self.n = 0

    def __call__(self, x):
        if not self.symbolic:
            return x
        v = pyo.Var(initialize=x)
        self.m.add_component(f"v{self.n}", v)
        self.n += 1
        return v

    def mat(self, F):
        return Matrix([[self(x) for x in row] for row in F])


def run(scn):
    events = []
    n = Env(scn["symbolic"])
    if scn["kind"] == "rising":
        ts = scn["t"]
        vs = [n(t) for t in ts]
        return {"events": [{"ev": "rising", "t": nums(ts), "fraction": nums([h.austenite_percentage(t) for t in vs]),
                            "weight": nums([h.internal_energy_weight(t) for t in vs])}]}
    for F, P, t, fps in zip(scn["F"], scn["P"], scn["t"], scn["fps"]):
        f, p, th = n.mat(F), n.mat(P), n(t)
        Q = rot(scn["angle"])
        rf, rp = n.mat(mul(Q, F)), n.mat(mul(Q, P))
        if scn["kind"] == "elastic":
            events.append({
                "ev": "elastic", "F": nested(F), "t": num(t),
                "austenite": num(h.austenite_potential(f)), "martensite": num(h.martensite_potential(f)),
                "daustenite": nested(h.derivative_austenite_potential(f)),
                "dmartensite": nested(h.derivative_martensite_potential(f)),
                "total": num(h.total_elastic_potential(f, th)), "fraction": num(h.austenite_percentage(th)),
                "raustenite": num(h.austenite_potential(rf)), "rmartensite": num(h.martensite_potential(rf)),
            })
        else:
            events.append({
                "ev": "thermal", "F": nested(F), "P": nested(P), "t": num(t), "fps": num(fps),
                "weight": num(h.internal_energy_weight(th)), "anti": num(h.antider_internal_energy_weight(th)),
                "internal": num(h.internal_energy(f, th)), "internal0": num(h.internal_energy_no_entropy(f, th)),
                "antiinternal": num(h.temp_antrider_internal_energy_no_entropy(f, th)),
                "coupling": nested(h.strain_derivative_coupling_potential(f, th)),
                "dissipation": num(h.dissipation_potential(p, f)), "still": num(h.dissipation_potential(f, f)),
                "rate": nested(h.symmetrized_strain_delta(p, f)),
                "dissipationrate": num(h.dissipation_rate(p, f, fps)),
                "rdissipation": num(h.dissipation_potential(rp, rf)),
                "conductivity": nested(h.heat_conductivity_reference(f)),
            })
            H = [F, P]
            events.append({"ev": "hyper", "H": nested(H), "value": num(h.hyper_elastic_potential(Tensor3D([[[n(x) for x in row] for row in A] for A in H])))})
    return {"events": events}
