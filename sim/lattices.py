"""Generated lattices and their reference models."""

import json
import os

import numpy as np

import ref

with open(os.path.join(os.path.dirname(__file__), "lattice_db.json")) as f:
    DB = {k: np.array(v, dtype=float) for k, v in json.load(f).items()}

CELLS = ["chain", "square", "triangle", "honeycomb", "kagome", "cubic"]
CLUSTERS = {
    "cross": "SQUARE_CROSS", "square_12": "SQUARE_CROSS", "z": "SQUARE_Z",
    "s": "SQUARE_S", "star": "TRIANGLE_STAR", "SD": "TRIANGLE_STAR",
    "benzene": "HONEYCOMB_BENZENE", "diphenyl": "HONEYCOMB_DIPHENYL",
    "gear": "HONEYCOMB_GEAR",
}


def gen(rng, max_points=14):
    r = rng.random()
    if r < 0.5:
        which = rng.choice(CELLS)
        if which == "chain":
            nums = [rng.randint(1, 6), 1, 1]
        elif which == "cubic":
            nums = [rng.randint(1, 2), rng.randint(1, 2), rng.randint(1, 2)]
        else:
            nums = [rng.randint(1, 3), rng.randint(1, 3), 1]
        return {"make": "cell", "which": which, "nums": nums}
    if r < 0.62:
        return {"make": "cluster", "which": rng.choice(sorted(CLUSTERS))}
    dim = rng.choice([1, 2, 2, 2, 3])
    trans = rng.choice([dim, dim, dim, max(1, dim - 1)])
    while True:
        if trans == dim == 2 and rng.random() < 0.4:
            # possibly badly reduced cell of a simple lattice
            m = rng.randint(-4, 5)
            vec = [[rng.choice([1.0, 2.0]), 0.0], [float(m), 1.0]]
        else:
            vec = [[0.5 * rng.randint(-4, 6) for _ in range(dim)]
                   for _ in range(trans)]
        v = np.array(vec)
        g = v @ v.T
        if np.linalg.det(g) > 0.6 and (
                dim < 3 or np.prod([2 * b + 1 for b in ref.span_bound(
                    v, 5.0)]) < 1200):
            break
    n = rng.randint(1, 5)
    pts = []
    model = ref.LatticeModel([[0.0] * dim], vec)
    guard = 0
    while len(pts) < n and guard < 60:
        guard += 1
        p = [0.5 * (rng.randint(-3, 4) if dim < 3 else rng.randint(-1, 2))
             for _ in range(dim)]
        # no two points may be translations of each other
        if all(model.locate(np.array(p) - np.array(q)) is None for q in pts):
            pts.append(p)
    return {"make": "custom", "points": pts, "vectors": vec}


def large(rng):
    """A cluster of 33 to 64 points, each with surroundings of its own."""
    if rng.random() < 0.3:
        n = rng.randint(33, 60)
        pts = [[i + 0.25 * rng.randint(0, 2)] for i in range(n)]
        vec = [[float(n) + 0.5 * rng.randint(0, 2)]]
    else:
        a = rng.randint(5, 8)
        b = rng.randint(-(-33 // a), 64 // a)
        pts = [[i + 0.25 * rng.randint(0, 2), j + 0.25 * rng.randint(0, 2)]
               for i in range(a) for j in range(b)]
        vec = [[float(a), 0.0], [rng.choice([0.0, 1.0]), float(b)]]
    if rng.random() < 0.5:      # a regular one, but for a few points
        for p in rng.sample(pts, len(pts) - rng.randint(1, 3)):
            p[:] = [float(int(x)) for x in p]
    rng.shuffle(pts)
    return {"make": "custom", "points": pts, "vectors": vec}


def sibling(rng, desc):
    """Another lattice that has much in common with the given one."""
    pts, vec = (x.copy() for x in expected(desc))
    dim = pts.shape[1]
    for _ in range(30):
        p, v = pts.copy(), vec.copy()
        how = rng.choice(["flip", "swap", "shear", "half", "move", "order",
                          "scale", "turn", "turn"])
        i = rng.randrange(len(v))
        if how == "flip":           # the same lengths, another angle
            v[i, rng.randrange(dim)] *= -1
        elif how == "swap":
            a, b = rng.randrange(dim), rng.randrange(dim)
            v[i, [a, b]] = v[i, [b, a]]
        elif how in ("shear", "half") and len(v) > 1:
            v[i] += v[i - 1] * (1 if how == "shear" else 0.5)
        elif how == "move":         # one point of many is elsewhere
            p[rng.randrange(len(p)), rng.randrange(dim)] += 0.25
        elif how == "order":
            p = p[rng.sample(range(len(p)), len(p))]
        elif how == "scale":
            v[i] *= 2
        elif how == "turn" and dim > 1:    # one vector, its length kept
            a, b = rng.sample(range(dim), 2)
            v[i, [a, b]] = [0.8 * v[i, a] - 0.6 * v[i, b],
                            0.6 * v[i, a] + 0.8 * v[i, b]]
        if np.linalg.det(v @ v.T) < 0.6 or np.prod(
                [2 * b + 1 for b in ref.span_bound(v, 5.0)]) > 1200:
            continue
        if np.array_equal(p, pts) and np.array_equal(v, vec):
            continue
        model = ref.LatticeModel([[0.0] * dim], v)
        if not any(model.locate(a - b) is not None
                   for k, a in enumerate(p) for b in p[:k]):
            return {"make": "custom", "points": p.tolist(),
                    "vectors": v.tolist(), "named": rng.choice([0, 0, 0, None])}
    return gen(rng)


def expected(desc):
    """Points (any order) and vectors."""
    if desc["make"] == "custom":
        return np.array(desc["points"]), np.array(desc["vectors"])
    if desc["make"] == "cluster":
        base = CLUSTERS[desc["which"]]
        return DB[base + "_POINTS"], DB[base + "_AS"]
    base = desc["which"].upper() + "_CELL"
    cell, vec = DB[base + "_POINTS"], DB[base + "_AS"]
    nums = desc["nums"][:len(vec)]
    pts = []
    for idx in np.ndindex(*nums):
        for p in cell:
            pts.append(p + np.array(idx, dtype=float) @ vec)
    return np.array(pts), vec * np.array(nums, dtype=float)[:, None]


def build(desc):
    from HamiltonianPy import lattice
    if desc["make"] == "cell":
        return lattice.lattice_generator(desc["which"], *desc["nums"])
    if desc["make"] == "cluster":
        return lattice.special_cluster(desc["which"])
    return lattice.Lattice(np.array(desc["points"]),
                           np.array(desc["vectors"]),
                           name=desc.get("name", "custom"))


def model_of(desc, points=None):
    pts, vec = expected(desc)
    return ref.LatticeModel(pts if points is None else points, vec)


def same_point_set(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    d = np.sqrt(((a[:, None, :] - b[None, :, :]) ** 2).sum(-1))
    return bool((d.min(axis=1) < 1e-9).all() and (d.min(axis=0) < 1e-9).all())
