"""
Independent reference models.  Nothing here imports HamiltonianPy: each model
is the textbook definition, written the slow and obvious way.
"""

import itertools
import math

import numpy as np

# -- fermions in occupation-number representation ---------------------------
CREATION, ANNIHILATION = 1, 0


def fermion_apply(term, ket):
    """Apply [(index, otype), ...] (rightmost first) to |ket>; (sign, ket)."""
    sign = 1
    for index, otype in reversed(term):
        occupied = (ket >> index) & 1
        if occupied == otype:
            return 0, None
        below = bin(ket & ((1 << index) - 1)).count("1")
        if below & 1:
            sign = -sign
        ket ^= 1 << index
    return sign, ket


class LeavesBasis(Exception):
    pass


def fermion_matrix(term, right, left=None):
    right = [int(x) for x in right]
    left = right if left is None else [int(x) for x in left]
    pos = {k: i for i, k in enumerate(left)}
    m = np.zeros((len(left), len(right)))
    for j, ket in enumerate(right):
        sign, out = fermion_apply(term, ket)
        if sign:
            if out not in pos:
                raise LeavesBasis(out)
            m[pos[out], j] = sign
    return m


def fermion_arrays(term, right, left=None):
    """fermion_matrix for very many kets: (values, rows, columns)."""
    kets = np.array(right, dtype=np.uint64)
    left = kets if left is None else np.array(left, dtype=np.uint64)
    one = np.uint64(1)
    cols = np.arange(len(kets))
    odd = np.zeros(len(kets), dtype=bool)
    for index, otype in reversed(term):
        bit = (kets >> np.uint64(index)) & one == one
        keep = bit != bool(otype)
        kets, cols, odd = kets[keep], cols[keep], odd[keep]
        for j in range(index):
            odd ^= (kets >> np.uint64(j)) & one == one
        kets = kets ^ (one << np.uint64(index))
    order = np.argsort(left, kind="stable")
    at = np.searchsorted(left, kets, sorter=order)
    if len(kets) and (at.max() >= len(left)
                      or (left[order[at]] != kets).any()):
        raise LeavesBasis()
    return 1.0 - 2.0 * odd, order[at], cols


def spin_arrays(term, total):
    """spin_matrix for very many spins: (values, rows, columns)."""
    cols = np.arange(1 << total)
    now, vals = cols.copy(), np.ones(1 << total, dtype=complex)
    for index, otype in reversed(term):
        bit = (now >> index) & 1
        if otype == "z":
            vals = vals * (0.5 - bit)
            continue
        # new bit is the other one: <1-b| S |b>
        m = SPIN[otype]
        vals = vals * np.where(bit == 0, m[1, 0], m[0, 1])
        now = now ^ (1 << index)
    keep = vals != 0
    return vals[keep], now[keep], cols[keep]


def basis(specifiers):
    """Sorted occupation kets for [(states, number or -1), ...]."""
    out = []
    parts = []
    for states, number in specifiers:
        opts = [sum(1 << s for s in full)
                for k in ([number] if number >= 0
                          else range(len(states) + 1))
                for full in itertools.combinations(states, k)]
        parts.append(opts)
    for combo in itertools.product(*parts):
        out.append(sum(combo))
    return sorted(out)


# -- spins ------------------------------------------------------------------
SPIN = {
    "x": np.array([[0, 0.5], [0.5, 0]]),
    "y": np.array([[0, -0.5j], [0.5j, 0]]),
    "z": np.array([[0.5, 0], [0, -0.5]]),
    "p": np.array([[0, 1.0], [0, 0]]),
    "m": np.array([[0, 0], [1.0, 0]]),
}


def spin_matrix(term, total):
    """Dense matrix of a product [(index, otype), ...] of spin operators."""
    res = np.eye(1 << total, dtype=complex)
    for index, otype in term:
        one = np.eye(1)
        for i in range(total - 1, -1, -1):
            one = np.kron(one, SPIN[otype] if i == index else np.eye(2))
        res = res @ one
    return res


# -- lattices ---------------------------------------------------------------
def span_bound(vectors, reach):
    """Integer bounds n_i so that |sum n_i a_i| <= reach implies |n_i|<=."""
    vectors = np.asarray(vectors, dtype=float)
    if len(vectors) == 0:
        return []
    dual = np.linalg.pinv(vectors).T       # dual[i] . a_j = delta_ij
    return [int(math.floor(np.linalg.norm(d) * reach + 1e-9)) for d in dual]


class LatticeModel:
    """Brute force over every translation within reach."""

    def __init__(self, points, vectors):
        self.points = np.array(points, dtype=float)
        self.vectors = np.array(vectors, dtype=float).reshape(
            -1, self.points.shape[1])
        d = self.points[:, None, :] - self.points[None, :, :]
        self.diam = float(np.sqrt((d ** 2).sum(-1)).max())
        self._memo = {}

    def translations(self, reach):
        key = ("t", round(reach, 6))
        if key not in self._memo:
            bound = span_bound(self.vectors, reach)
            coef = np.array(list(itertools.product(
                *[range(-b, b + 1) for b in bound])), dtype=float)
            coef = coef.reshape(-1, len(self.vectors))
            self._memo[key] = (coef.astype(int), coef @ self.vectors)
        return self._memo[key]

    def distances(self, count):
        """The first `count`+1 distinct distances (0 first), exact."""
        radius = max(self.diam, 1.0)
        if len(self.vectors):
            radius = max(radius, float(
                np.linalg.norm(self.vectors, axis=1).min()))
        radius = 1.01 * min(radius, 4.0)
        while True:
            key = ("d", round(radius, 6))
            if key not in self._memo:
                _, trans = self.translations(radius + self.diam)
                out = set()
                for i in range(len(self.points)):
                    diff = (self.points[None, :, :] + trans[:, None, :]
                            - self.points[i])
                    dist = np.sqrt((diff ** 2).sum(-1)).ravel()
                    out.update(np.round(dist[dist <= radius], 9).tolist())
                merged = []
                for x in sorted(out):
                    if not merged or x - merged[-1] > 1e-6:
                        merged.append(x)
                self._memo[key] = merged
            merged = self._memo[key]
            if len(merged) > count or not len(self.vectors):
                return merged
            radius *= 1.3

    def bonds(self, low, high):
        """
        All bonds with low < length <= high (low None: onsite excluded),
        one per class under translation, as canonical keys:
        ("in", i, j) or ("out", i, j, (R coefficients)).
        """
        coef, trans = self.translations(high + self.diam + 1e-3)
        intra, inter = [], {}
        n = len(self.points)
        for i in range(n):
            for j in range(n):
                dist = np.sqrt(
                    ((self.points[j] + trans - self.points[i]) ** 2).sum(-1))
                for c, d in zip(coef[(dist > low + 1e-6)
                                     & (dist <= high + 1e-6)],
                                dist[(dist > low + 1e-6)
                                     & (dist <= high + 1e-6)]):
                    c = tuple(int(x) for x in c)
                    if not any(c):
                        if i < j:
                            intra.append((i, j))
                        continue
                    key = self.canon(i, j, c)
                    inter[key] = 1
        return sorted(intra), sorted(inter)

    @staticmethod
    def canon(i, j, c):
        a = (i, j, tuple(int(x) for x in c))
        b = (j, i, tuple(-int(x) for x in c))
        return min(a, b)

    def locate(self, site, tol=1e-5):
        """(index, coefficients) of a lattice site, or None."""
        site = np.asarray(site, dtype=float)
        found = []
        for i, p in enumerate(self.points):
            d = site - p
            if len(self.vectors):
                c = np.linalg.lstsq(self.vectors.T, d, rcond=None)[0]
                r = np.rint(c)
                if np.linalg.norm(r @ self.vectors - d) < tol:
                    found.append((i, tuple(int(x) for x in r)))
            elif np.linalg.norm(d) < tol:
                found.append((i, ()))
        return found[0] if len(found) == 1 else None


# -- linearizability of one register ----------------------------------------
def linearizable(ops, initial, same=None):
    """
    ops: list of dicts {invoke, ret, kind: "w"|"r"|"rw"|"maybe-w", value}
      w        writes value
      r        must read value
      maybe-w  may or may not have written value (interrupted call)
    True if some order consistent with real time explains every read.
    """
    same = same or (lambda a, b: a == b)
    n = len(ops)
    seen = set()

    def go(done, value_id, value):
        if len(done) == n:
            return True
        key = (done, value_id)
        if key in seen:
            return False
        seen.add(key)
        rest = [i for i in range(n) if i not in done]
        horizon = min(ops[i]["ret"] for i in rest)
        for i in rest:
            o = ops[i]
            if o["invoke"] > horizon:
                continue
            d = done | {i}
            if o["kind"] == "r":
                if same(o["value"], value) and go(d, value_id, value):
                    return True
            elif o["kind"] == "w":
                if go(d, i, o["value"]):
                    return True
            else:
                if go(d, i, o["value"]) or go(d, value_id, value):
                    return True
        return False

    return go(frozenset(), -1, initial)
