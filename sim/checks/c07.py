"""C07: objects own their data; callers' later writes never reach them."""

import numpy as np
from scipy.sparse import issparse

from runner import Check, in_child
import simclock


# -- values -----------------------------------------------------------------
def frozen(x):
    """An immutable picture of a value."""
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return x
    if isinstance(x, (float, complex, np.generic)):
        v = complex(x)
        return ("num", round(v.real, 9) + 0.0, round(v.imag, 9) + 0.0)
    if isinstance(x, np.ndarray):
        a = np.array(x)
        if a.dtype.kind in "fc":
            a = np.round(a.astype(complex), 9) + 0.0
        return ("array", x.shape, x.dtype.kind, str(a.tolist()))
    if issparse(x):
        return ("sparse", frozen(x.toarray()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(frozen(e) for e in x)
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted((frozen(e) for e in x), key=repr))
    if isinstance(x, dict):
        return ("dict",) + tuple(sorted(
            ((repr(k), frozen(v)) for k, v in x.items()), key=repr))
    if type(x).__name__.startswith(("dict_", "odict_")):
        return ("view",) + tuple(frozen(e) for e in x)
    return (type(x).__name__, str(x), frozen(getattr(x, "endpoints", None))
            if type(x).__name__ == "Bond" else None)


def handed(x):
    """What a caller was given: as it is if it can be written to."""
    return x if isinstance(x, (dict, list, set)) else list(x)


def arrays(x, out=None):
    out = [] if out is None else out
    if isinstance(x, np.ndarray):
        out.append(x)
    elif issparse(x):
        out += [getattr(x, n) for n in ("data", "indices", "indptr")
                if hasattr(x, n)]
    elif isinstance(x, (list, tuple, set)):
        for e in x:
            arrays(e, out)
    elif isinstance(x, dict):
        for e in x.values():
            arrays(e, out)
    return out


def shaped(x, form):
    """The same arguments, with the arrays as pieces of bigger ones."""
    if isinstance(x, np.ndarray) and x.ndim:
        if x.dtype == np.uint64 and form > 1:
            return x               # compiled code takes ordinary arrays only
        if form == 1:              # some rows of a bigger array
            big = np.concatenate([x[:1], x, x[-1:]])
            return big[1:-1]
        if form == 2:              # a read-only view
            y = x.copy()[:]
            y.setflags(write=False)
            return y
        if form == 3:              # every other element
            big = np.repeat(x, 2, axis=-1)
            return big[..., ::2]
        if form == 4:              # columns first
            return x.T.copy().T
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(shaped(e, form) for e in x)
    if isinstance(x, dict):
        return {k: shaped(v, form) for k, v in x.items()}
    return x


def scribble(x, style, mine=False):
    """Write over everything in x that its owner can write to: the callers'
    arguments also through the arrays that they are views of."""
    if isinstance(x, np.ndarray):
        if mine and isinstance(x.base, np.ndarray):
            x = x.base
        if not x.flags.writeable or not x.size:
            return
        if style == 0:
            x.fill(7)
        elif style == 1:
            x[...] = x[::-1].copy() if x.ndim else 3
        elif x.dtype.kind in "fci":
            x[...] = x * -3 + 1
        else:
            x[...] = 5
    elif issparse(x):
        scribble(x.data, style % 2)
        if style == 2 and hasattr(x, "indices"):
            x.indices.fill(0)
    elif isinstance(x, (tuple, list)):
        for e in x:
            scribble(e, style, mine)
        if isinstance(x, list) and x:
            if style == 0:
                x.clear()
            elif style == 1:
                x.reverse()
                x.append(0)
            else:
                x[:] = [None, -1]
    elif isinstance(x, dict):
        for e in x.values():
            scribble(e, style, mine)
        for k in list(x):
            if style == 0:
                del x[k]
            else:
                x[k] = None
    elif isinstance(x, set):
        x.clear()
        if style:
            x.add(17)
    elif hasattr(x, "components") and hasattr(x, "coeff"):
        x.coeff = 77.5 + style


def refill(dst, src):
    """Give the caller's existing containers new content, in place."""
    if isinstance(dst, np.ndarray) and isinstance(src, np.ndarray) \
            and dst.shape == src.shape and dst.dtype == src.dtype \
            and dst.flags.writeable:
        dst[...] = src
        return dst
    if isinstance(dst, list) and isinstance(src, list):
        n = len(dst)
        dst[:] = [refill(dst[i], s) if i < n else s
                  for i, s in enumerate(src)]
        return dst
    if isinstance(dst, dict) and isinstance(src, dict):
        new = {k: refill(dst[k], s) if k in dst else s
               for k, s in src.items()}
        dst.clear()
        dst.update(new)
        return dst
    if isinstance(dst, set) and isinstance(src, set):
        dst.clear()
        dst.update(src)
        return dst
    return src


# -- what can be made and asked ------------------------------------------------
A = np.array


def catalogue():
    """name -> (number of variants, args(v), make(*args), asks) with
    asks: name -> (number of variants, args(v), call(obj, *args))."""
    import HamiltonianPy as H
    from HamiltonianPy import averages, bond, hilbertspace, indextable
    from HamiltonianPy import lanczos, line2d, rotation3d
    from HamiltonianPy import GreenFunction as G
    from HamiltonianPy import lattice as L
    from HamiltonianPy.quantumoperator import factory as F
    from HamiltonianPy.quantumoperator import matrixrepr as M
    from HamiltonianPy.quantumoperator import particlesystem as P
    from HamiltonianPy.quantumoperator import quantumstate as S
    from HamiltonianPy.quantumoperator import spinsystem as Z
    from HamiltonianPy.tools import TotalSpin
    cat = {}
    no = lambda v: []

    def get(name):
        return (1, no, lambda o: getattr(o, name))

    def do(name, *args):
        return (1, no, lambda o: getattr(o, name)(*args))

    # lattices
    far = [A([2.0, 1.0]), A([-1.0, 3.0]), A([1.0, 1.0]), A([0.5, 0.25])]
    lat = {
        "points": get("points"), "vectors": get("vectors"), "bs": get("bs"),
        "str": (1, no, str),
        "site": (2, lambda v: [v], lambda o, i: o.getSite(i % o.point_num)),
        "distance": (5, lambda v: [v], lambda o, n: o.neighbor_distance(n)),
        "bonds": (3, lambda v: [v], lambda o, n: o.bonds(n)),
        "bondsfold": (2, lambda v: [v + 1],
                      lambda o, n: o.bonds(n, only=False, fold=True)),
        "endpoints": (2, lambda v: [v + 1], lambda o, n: sorted(
            ([e.tolist() for e in b.endpoints] for b in o.bonds(n)[0]))),
    }
    planar = dict(lat)
    planar.update({
        "decompose": (4, lambda v: [far[v].copy()],
                      lambda o, s: o.decompose(s)),
        "index": (4, lambda v: [far[v].copy()],
                  lambda o, s: o.getIndex(s, fold=True)),
        "in": (4, lambda v: [far[v].copy()], lambda o, s: o.in_cluster(s)),
    })
    cat["lattice"] = (
        3, lambda v: [[A([[0.0, 0.0], [1.0, 0.0]]),
                       A([[0.0, 0.0]]), A([[0.0, 0.0], [0.0, 1.0],
                                           [1.0, 1.0]])][v],
                      [A([[2.0, 0.0], [0.0, 1.0]]),
                       A([[1.0, 0.0], [0.5, 1.0]]),
                       A([[2.0, 0.0], [0.0, 2.0]])][v], "mine"],
        lambda p, a, n: L.Lattice(p, a, n), planar)
    rough = [[i + 0.25 * (i * j % 3), j + 0.25 * (i % 2)]
             for i in range(6) for j in range(7)]
    cat["large"] = (
        2, lambda v: [A(rough) + v, A([[6.0, 0.0], [0.0, 7.0 + v]])],
        lambda p, a: L.Lattice(p, a),
        {k: planar[k] for k in ("points", "vectors", "bs", "str", "site",
                                "distance", "decompose", "index", "in")})
    cat["chainlike"] = (
        2, lambda v: [A([[0, 0], [0, 1]]) if v else A([[0.0, 0.0]]),
                      A([[1, 0]]) if v else A([[1.0, 0.5]])],
        lambda p, a: L.Lattice(p, a), lat)
    cat["generated"] = (
        4, lambda v: [[("square", 1, 1), ("square", 2, 1), ("triangle", 1, 1),
                       ("square", 2, 2)][v]],
        lambda a: L.lattice_generator(*a), planar)
    cat["generated2"] = (
        5, lambda v: [[("chain", 1), ("chain", 3), ("honeycomb", 1, 1),
                       ("kagome", 1, 1), ("cubic", 1, 1, 1)][v]],
        lambda a: L.lattice_generator(*a),
        {k: lat[k] for k in ("points", "vectors", "bs", "site", "distance",
                             "str")})
    cat["cluster"] = (
        3, lambda v: [["cross", "star", "benzene"][v]],
        L.special_cluster, {k: lat[k] for k in ("points", "vectors", "bs",
                                                "site", "str")})
    cat["shipped"] = (
        1, no, lambda: L,
        {n: (1, no, lambda o, n=n: getattr(o, n).tolist())
         for n in L.__all__ if n.isupper()})
    cat["rotations"] = (
        1, no, lambda: rotation3d,
        {n: (1, no, lambda o, n=n: getattr(o, n).tolist())
         for n in dir(rotation3d) if n.isupper() and isinstance(
             getattr(rotation3d, n), np.ndarray)})
    cat["kpath"] = (
        1, no, lambda: L.KPath,
        {"path": (3, lambda v: [[A([0.0, 0.0]), A([1.0, 0.0]),
                                 A([1.0, 1.0 + v])], 3 + v],
                  lambda o, p, n: o(p, n)),
         "many": (2, lambda v: [[A([0.5 * i, (i + v) % 3])
                                 for i in range(20)], 3],
                  lambda o, p, n: o(p, n)),
         "array": (2, lambda v: [A([[0.0, 0.0], [1.0, v], [2.0, 2.0]])],
                   lambda o, p: o(p, 4, loop=False, return_indices=False))})
    # bonds
    bonds = {
        "ends": get("endpoints"), "length": do("getLength"),
        "repr": (1, no, repr), "str": (1, no, str), "hash": (1, no, hash),
        "displace": (2, lambda v: [None if v else 2],
                     lambda o, n: o.getDisplace(n) if o.directional else 0),
        "azimuth": (2, lambda v: [bool(v)], lambda o, r:
                    o.getAzimuth(r) if o.directional else 0),
        "flip": (1, no, lambda o: o.flip().endpoints
                 if o.directional else 0),
        "opposite": (1, no, lambda o: o.oppositeTo(o.flip())
                     if o.directional else 0)}
    cat["bond"] = (
        4, lambda v: [[A([0.0, 1.0]), A([1, 2, 3]), [0.5, 0.0], A([1.5])][v],
                      [A([1.0, 3.0]), A([0, 2, 5]), [2, 2], A([0.5])][v],
                      v != 2],
        lambda p, q, d: bond.Bond(p, q, directional=d), bonds)
    # states and operators
    site = lambda v: [A([0.5, 1.0]), [0.5, 1.0], A([1, 0]), [0.25]][v]
    common = {"coordinate": get("coordinate"), "site": get("site"),
              "repr": (1, no, repr), "hash": (1, no, hash),
              "latex": do("tolatex")}
    cat["siteid"] = (4, lambda v: [site(v)], S.SiteID, common)
    cat["stateid"] = (4, lambda v: [site(v), v % 2, v // 2], S.StateID,
                      common)
    oper = dict(common)
    oper["dagger"] = do("dagger")
    oper["derive"] = (4, lambda v: [site(v)],
                      lambda o, s: o.derive(site=s))
    aoc = dict(oper)
    aoc["state"] = get("state")
    aoc["times"] = (1, no, lambda o: 2 * o)
    cat["aoc"] = (4, lambda v: [v % 2, site(v)], P.AoC, aoc)
    num = {k: v for k, v in aoc.items()}
    num["term"] = do("toterm")
    cat["number"] = (4, lambda v: [site(v)], P.NumberOperator, num)
    spin = dict(oper)
    spin.update({"matrix": do("matrix"), "id": get("site_id"),
                 "schwinger": do("Schwinger"),
                 "times": (1, no, lambda o: 3 * o)})
    cat["spin"] = (5, lambda v: ["xyzpm"[v], site(v % 4)], Z.SpinOperator,
                   spin)
    # terms
    keys = [S.StateID((i, 0), s) for i in range(2) for s in range(2)]
    kets = [A([1, 2, 4, 8], dtype=np.uint64),
            A([3, 5, 6, 9, 10, 12], dtype=np.uint64),
            A([7, 11, 13, 14], dtype=np.uint64)]
    full = lambda: np.arange(16, dtype=np.uint64)
    ops = lambda v: [[P.AoC(1, (0, 0), 1), P.AoC(0, (1, 0), 1)],
                     [P.AoC(1, A([1, 0]), 0), P.AoC(0, A([1, 0]), 0)],
                     [P.AoC(1, (0, 0), 1), P.AoC(0, (0, 0), 1),
                      P.AoC(1, (1, 0), 0), P.AoC(0, (1, 0), 0)],
                     [P.AoC(0, [0, 0], 0), P.AoC(0, [1, 0], 1)],
                     [P.AoC(1, [i % 2, 0], i // 2 % 2) for i in range(4)]
                     + [P.AoC(0, [i % 2, 0], i // 2 % 2)
                        for i in range(3, -1, -1)] * 2][v]
    table = indextable.IndexTable(keys)
    term = {
        "components": get("components"), "str": (1, no, str),
        "coeff": get("coeff"), "dagger": do("dagger"),
        "times": (1, no, lambda o: 2.0 * o),
        "right": (1, no, lambda o: o * 2.0),
        "square": (1, no, lambda o: o * o),
        "latex": do("tolatex"), "class": get("classification"),
        "compatible": do("check_compatibility"),
        "matrix": (3, lambda v: [kets[v].copy()],
                   lambda o, k: o.matrix_repr(table, k)),
        "left": (3, lambda v: [kets[v].copy(), full()],
                 lambda o, k, f: o.matrix_repr(table, k, left_bases=f)),
        "raw": (2, lambda v: [kets[v].copy(), full()],
                lambda o, k, f: o.matrix_repr(table, k, left_bases=f,
                                              to_csr=False))}
    cat["term"] = (5, lambda v: [ops(v), [1.5, 1, 0, -1.5, 2.5][v]],
                   P.ParticleTerm, term)
    cat["normalize"] = (
        1, no, lambda: P.ParticleTerm.normalize,
        {"norm": (3, lambda v: [ops([3, 0, 4][v])[::-1 if v == 1 else 1]],
                  lambda o, a: o(a))})
    cat["aocmatrix"] = (
        2, lambda v: [v, A([1, 0])], lambda o, s: P.AoC(o, s),
        {"matrix": (2, lambda v: [kets[v].copy(), full()], lambda o, k, f:
                    o.matrix_repr(table, k, left_bases=f))})
    cat["nummatrix"] = (
        1, lambda v: [A([1, 0])], lambda s: P.NumberOperator(s),
        {"matrix": (3, lambda v: [kets[v].copy()], lambda o, k:
                    o.matrix_repr(table, k))})
    cat["function"] = (
        1, no, lambda: M.matrix_function,
        {"matrix": (3, lambda v: [[(0, 1), (1 + v, 0)], full()],
                    lambda o, t, k: o(t, k, coeff=2.0)),
         "plain": (3, lambda v: [[(1, 1), (1, 0)], full()[:4 + v], v - 1],
                   lambda o, t, k, c: o(t, k, coeff=c)),
         "lists": (3, lambda v: [[[v, 1], [3, 0]], full()],
                   lambda o, t, k: o(t, k, to_csr=False))})
    two = lambda v: [A([0, 0]), A([1, 0])] if v else [[0, 0], [1, 0]]
    for name, call in (
            ("CP", lambda a, b: F.CPFactory(a, coeff=2.0)),
            ("Hubbard", lambda a, b: F.HubbardFactory(b, coeff=3.0)),
            ("Hopping", lambda a, b: F.HoppingFactory(a, b, coeff=-1.0)),
            ("Pairing", lambda a, b: F.PairingFactory(a, b)),
            ("Coulomb", lambda a, b: F.CoulombFactory(a, b, coeff=0.5)),
            ("Heisenberg", lambda a, b: F.HeisenbergFactory(a, b)),
            ("Ising", lambda a, b: F.IsingFactory(a, b, "z")),
            ("TwoSpin", lambda a, b: F.TwoSpinTermFactory(a, b, "x", "y")),
            ("Creator", lambda a, b: [F.Creator(a), F.Annihilator(b)])):
        cat[name] = (1, no, lambda: None, {
            "term": (2, two, lambda o, a, b, call=call: call(a, b))})
    for name in ("Hopping", "Hubbard"):
        make = {"Hopping": F.HoppingFactory,
                "Hubbard": lambda a, b: F.HubbardFactory(a)}[name]
        cat[name + "Obj"] = (2, two, make, term)
    stable = indextable.IndexTable([S.SiteID((i, 0)) for i in range(3)])
    sop = lambda v: [[Z.SpinOperator("xyz"[v % 3], A([0, 0])),
                      Z.SpinOperator("zzp"[v % 3], [1, 0])],
                     [Z.SpinOperator("m", (2, 0))],
                     [Z.SpinOperator("xyz"[i % 3], [i % 2, 0])
                      for i in range(5)]][v // 3 + (v == 4)]
    inter = {
        "components": get("components"), "str": (1, no, str),
        "dagger": do("dagger"), "schwinger": do("Schwinger"),
        "times": (1, no, lambda o: o * 2), "latex": do("tolatex"),
        "matrix": (1, no, lambda o: o.matrix_repr(stable))}
    cat["interaction"] = (5, lambda v: [sop(v), 0.5 + v], Z.SpinInteraction,
                          inter)
    cat["heisenberg"] = (2, two, lambda a, b: F.HeisenbergFactory(a, b)[1],
                         inter)
    cat["spinmatrix"] = (
        5, lambda v: ["xyzpm"[v], [0, 0]], Z.SpinOperator,
        {"repr": (1, no, lambda o: o.matrix_repr(stable)),
         "matrix": do("matrix")})
    cat["spinfunction"] = (
        1, no, lambda: Z, {
            "one": (3, lambda v: [[v, "xyz"[v]]],
                    lambda o, t: o.SpinOperator.matrix_function(t, 3)),
            "many": (3, lambda v: [[[v, "p"], [0, "z"]]], lambda o, t:
                     o.SpinInteraction.matrix_function(t, 3, 2.0))})
    # tables and spaces
    many = list(range(40))
    cat["table"] = (
        5, lambda v: [[[S.SiteID((i,)) for i in range(3)], list("abc"),
                       [(0, 1), (1, 0)], many[::-1],
                       [S.SiteID(A([0.5, i])) for i in many]][v], v],
        lambda o, s: indextable.IndexTable(o, start=s),
        {"objects": (1, no, lambda o: handed(o.objects())),
         "indices": (1, no, lambda o: handed(o.indices())),
         "iter": (1, no, list), "len": (1, no, len), "str": (1, no, str),
         "object": (1, no, lambda o: [o.query_object(i)
                                      for i in o.indices()]),
         "index": (1, no, lambda o: [o(k) for k in list(o.objects())])})
    basis = {"repr": (1, no, repr), "str": (1, no, str)}
    for c in ("array", "list", "tuple"):
        for s in (True, False):
            basis["%s%d" % (c, s)] = (
                1, no, lambda o, c=c, s=s: o.base_vectors(container=c,
                                                          sort=s))
    simple = dict(basis)
    simple["states"] = get("single_particle_states")
    cat["simplespace"] = (
        6, lambda v: [[[[3, 0, 2], 2], [{0, 1, 2}, 1], [[1, 0]],
                       [3, 1], [many[::-1], 1], [many, 39]][v]],
        lambda a: hilbertspace.SimpleHilbertSpace(*a), simple)
    space = dict(basis)
    space["specs"] = get("subspace_specifiers")
    specs = lambda v: [[[[3, 0], 1], [[1, 2], 1]], [[{0, 1, 2}, 2]], [2],
                       [[3, 1]], [[list(many), 1]],
                       [[many[20:9:-1], 1], [many[9::-1], 9]]][v]
    cat["space"] = (6, lambda v: [specs(v)],
                    lambda a: hilbertspace.HilbertSpace(*a), space)
    cat["bases"] = (
        1, no, lambda: hilbertspace.base_vectors,
        {"array": (6, lambda v: [specs(v)], lambda o, a: o(*a)),
         "list": (6, lambda v: [specs(v)],
                  lambda o, a: o(*a, container="list", sort=False))})
    # averages
    ket = lambda v: [A([1.0, 0.0, 0.0, 0.0]), A([0.0, 0.6, 0.8j, 0.0]),
                     A([0.5, 0.5, 0.5, 0.5]), A([0.0, 1.0, 1j, 2.0])][v]
    cat["averager"] = (2, lambda v: [2], averages.TotalSpinAverages,
                       {"eval": (4, lambda v: [ket(v)],
                                 lambda o, k: o(k))})
    cat["average"] = (
        1, no, lambda: averages.QuantumAverages,
        {"eval": (4, lambda v: [ket(v), np.diag([1.0, 2.0, 3.0, 4.0 + v])],
                  lambda o, k, m: o(k, m))})
    cat["totalspin"] = (
        1, no, lambda: None,
        {"averages": (3, lambda v: [v + 1],
                      lambda o, n: averages.TotalSpinMatrices(n)),
         "tools": (3, lambda v: [v + 1],
                   lambda o, n: TotalSpin.TotalSpin(n))})
    # projections and Green's functions

    class Key(str):
        def dagger(self):
            return Key(self[:-1] if self.endswith("+") else self + "+")

    a, b = Key("a"), Key("b")
    ham = lambda v: A([[1.0 + v, 0.5, 0.0], [0.5, 2.0, 0.25],
                       [0.0, 0.25, 3.0]])
    vecs = lambda v: {a: A([1.0, 0.5, 0.0]), b: A([0.0, 1.0, v + 1.0]),
                      a.dagger(): A([0.5, 0.0, 1.0]),
                      b.dagger(): A([1.0, 1.0, 1.0 + v])}
    cat["krylov"] = (
        1, no, lambda: lanczos,
        {"one": (3, lambda v: [ham(v), vecs(v), A([1.0, 1.0, 0.5 * v])],
                 lambda o, m, k, s: o.KrylovRepresentation(
                     m, k, s, krylov_space_dim=3)),
         "big": (2, lambda v: [
             np.diag(np.arange(40.0)) + np.eye(40, k=1) + np.eye(40, k=-1),
             {a: np.cos(np.arange(40.0)), b: np.ones(40)},
             np.sin(np.arange(1.0, 41.0 + 0 * v) + v)],
             lambda o, m, k, s: o.KrylovRepresentation(
                 m, k, s, krylov_space_dim=20)),
         "unit": (3, lambda v: [np.eye(3), vecs(v), A([1.0, 0.0, 0.0])],
                  lambda o, m, k, s: o.KrylovRepresentation(m, k, s)),
         "multi": (2, lambda v: [ham(v), vecs(v)],
                   lambda o, m, k: o.MultiKrylov(m, k,
                                                 krylov_space_dim=3))})
    om = lambda v: np.linspace(-1.0, 1.0 + v, 40 if v == 2 else 4)
    kry = lambda v: list(lanczos.MultiKrylov(ham(v), vecs(v),
                                             krylov_space_dim=3))
    gf = {}
    for n in ("GFSolver", "RGFSolver"):
        f = getattr(G, n + "ExactSingle")
        gf[n + "1"] = (2, lambda v: [ham(v), vecs(v)], lambda o, m, k, f=f:
                       f(0.3, a, b, 0.1, m, k, eta=0.2))
        f = getattr(G, n + "ExactMultiple")
        for st in ("array", "dict"):
            gf[n + "2" + st] = (
                3, lambda v: [om(v), [a, b], [b], ham(v), vecs(v)],
                lambda o, w, x, y, m, k, f=f, st=st: f(
                    w, x, y, 0.1, m, k, eta=0.2, structure=st))
        f = getattr(G, n + "LanczosMultiple")
        gf[n + "3"] = (
            2, lambda v: [om(v), [a], [b, a]] + kry(v),
            lambda o, w, x, y, m, k, f=f: f(w, x, y, 0.1, m, k, eta=0.2))
        f = getattr(G, n + "LanczosSingle")
        gf[n + "4"] = (2, lambda v: kry(v), lambda o, m, k, f=f:
                       f(0.3, a, b, 0.1, m, k, eta=0.2))
    cat["green"] = (1, no, lambda: None, gf)
    # geometry
    cat["line"] = (
        3, lambda v: [A([0.0, v]), [[1.0, 1.0], A([0, 4]), A([2.0, 2.0])][v]],
        line2d.Line2D,
        {"repr": (1, no, repr), "str": (1, no, str),
         "flags": (1, no, lambda o: [o.IsHorizontal, o.IsVertical]),
         "points": (3, lambda v: [np.linspace(0.0, 2.0, 50) if v == 2
                                  else A([0.0, 0.5 + v, 2.0])],
                    lambda o, r: o.PointsFactory(r)),
         "default": do("PointsFactory"),
         "where": (3, lambda v: [A([0.5, v - 1.0])], lambda o, p:
                   o.LocationRelation(p).name),
         "solve": (2, lambda v: [0.5], lambda o, x: o.Coordinate(x, "x"))})

    def nothing(o, which, inv):     # rotate by nothing at all
        if which == 0:
            return o.RotationGeneral([0.3, 0.4], 0.0, inversion=inv)
        if which == 1:
            return o.RotationGeneral([1.0, 2.0, 3.0], 0, inversion=inv)
        if which == 2:
            return o.RotationEuler(0, 0, 0, inversion=inv)
        return [o.RotationX, o.RotationY, o.RotationZ][which - 3](
            0, inversion=inv)
    cat["rotate"] = (
        1, no, lambda: rotation3d,
        {"x": (2, lambda v: [0.3, bool(v)],
               lambda o, t, i: o.RotationX(t, inversion=i)),
         "y": (3, lambda v: [90 * v], lambda o, t: o.RotationY(t, deg=True)),
         "z": (2, lambda v: [0.3, bool(v)],
               lambda o, t, i: o.RotationZ(t, inversion=i)),
         "axis": (3, lambda v: [A([0.0, 1.0 * v, 1.0]), 0.4],
                  lambda o, x, t: o.RotationGeneral(x, t)),
         "list": (2, lambda v: [[0.5, 1.0 + v], 0.4],
                  lambda o, x, t: o.RotationGeneral(x, t, inversion=True)),
         "euler": (2, lambda v: [0.1, 0.2 + v, 0.3],
                   lambda o, *t: o.RotationEuler(*t)),
         "none": (12, lambda v: [v % 6, v > 5], nothing)})
    return cat


class Ctx:
    pass


class Held:
    """Something mutable that a caller holds."""

    def __init__(self, value, what):
        self.value, self.what = value, what
        self.written = False
        self.picture = frozen(value)


class C07(Check):
    id = "C07"
    quick = {"seeds": 640, "variants": 6}
    thorough = {"seeds": 14000, "variants": 12}
    real = ("lattices, bonds, states, operators, terms, factories, tables, "
            "Hilbert spaces, averages, Krylov and Green's function code, "
            "lines, rotations; numpy and scipy")
    stub = "thread scheduling, Ctrl-C, allocation failure, clock"
    rule = ("Scenarios hold 2-4 objects of the catalogue; 1-3 callers ask "
            "them (with fresh argument objects, or with the same containers "
            "given new content), make further ones, and write over the "
            "arguments they passed and the values they got, also while "
            "another call is under way. Every answer must be the one a "
            "freshly made object gives in a process where nobody ever wrote "
            "to anything, and every value nobody wrote to must still be "
            "what it was.")
    assumptions = [
        "callers do not write to arguments of a call that is under way, nor "
        "to the shipped constants themselves or to private attributes",
        "an array marked read-only cannot be written to by a caller",
    ]
    must_reach = ("ask", "refill", "wrote_args", "wrote_result", "remade",
                  "during", "view")

    def seams(self, eng):
        self.eng = eng
        simclock.install(eng)

    def imports(self):
        import HamiltonianPy  # noqa: F401
        import HamiltonianPy.averages
        import HamiltonianPy.GreenFunction
        import HamiltonianPy.lattice
        import HamiltonianPy.quantumoperator
        import HamiltonianPy.tools.TotalSpin  # noqa: F401

    def warm(self):
        # in a child, so that nothing the baseline left behind is inherited
        kind, val = in_child(self._baseline)
        if kind != "ok":
            raise RuntimeError("baseline: %s %s" % (kind, val))
        self.base, self.shape = val
        self.names = sorted(self.shape)

    def _baseline(self):
        cat = catalogue()
        base, shape = {}, {}
        for name, (n, args, make, asks) in cat.items():
            shape[name] = (n, {k: asks[k][0] for k in asks})
            for cv in range(n):
                for k, (m, aargs, fn) in asks.items():
                    for v in range(m):
                        base[name, cv, k, v] = self._value(
                            lambda: fn(make(*args(cv)), *aargs(v)))[0]
        return base, shape

    def _value(self, fn):
        try:
            res = fn()
        except MemoryError:
            raise
        except Exception as e:
            return ("raises", type(e).__name__), None
        return frozen(res), res

    # -- scenarios ---------------------------------------------------------
    def gen(self, rng, tier):
        n = rng.choice([1, 2, 2, 3])
        slots = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            name = rng.choice(self.names)
            slots.append([name, rng.randrange(self.shape[name][0]),
                          self._form(rng)])
        if rng.random() < 0.3:      # two objects made alike
            slots.append(list(slots[0]))
        sc = {"slots": slots, "threads": {}, "settle": []}
        num = 0
        for t in range(n):
            ops = []
            for _ in range(rng.randint(4, 14 if n == 1 else 8)):
                todo = [self._op(rng, slots)]
                if todo[0]["kind"] != "scribble" and rng.random() < 0.5:
                    todo.append(self._write(rng, rng.choice(
                        ["last", "last", "lastargs"])))
                for op in todo:
                    op["id"] = str(num)
                    num += 1
                    ops.append(op)
            sc["threads"]["T%d" % t] = ops
        for s in range(len(slots)):
            asks = sorted(self.shape[slots[s][0]][1])
            for k in rng.sample(asks, min(len(asks), 9)):
                sc["settle"].append(self._ask(rng, slots, s, k))
            sc["settle"].append(dict(self._ask(rng, slots, s), kind="new"))
        for i, op in enumerate(sc["settle"]):
            op["id"] = "s%d" % i
        return sc

    def _form(self, rng):
        return rng.choice([0, 0, 0, 0, 1, 2, 3, 4])

    def _ask(self, rng, slots, s=None, k=None):
        s = rng.randrange(len(slots)) if s is None else s
        asks = self.shape[slots[s][0]][1]
        k = rng.choice(sorted(asks)) if k is None else k
        return {"kind": "ask", "o": s, "ask": k,
                "v": rng.randrange(asks[k]), "refill": rng.random() < 0.4,
                "form": self._form(rng)}

    def _op(self, rng, slots):
        r = rng.random()
        if r < 0.55:
            return self._ask(rng, slots)
        if r < 0.68:
            return dict(self._ask(rng, slots), kind="new")
        return self._write(rng, rng.choice(["args", "args", "result"]))

    def _write(self, rng, what):
        return {"kind": "scribble", "what": what,
                "n": int(rng.random() * 1000) / 1000, "style": rng.randrange(3)}

    def start(self, eng, sc):
        ctx = Ctx()
        ctx.cat = catalogue()
        ctx.args, ctx.results, ctx.last = [], [], {}
        ctx.kept = {}
        ctx.slots = []
        ctx.probe = {}
        ctx.running = 0
        for name, cv, form in sc["slots"]:
            n, args, make, asks = ctx.cat[name]
            got = shaped(args(cv), form)
            ctx.slots.append(make(*got))
            self._hold(ctx.args, got, "arguments of %s" % name)
        ctx.sc = sc
        return ctx

    def _hold(self, where, value, what):
        h = Held(value, what)
        where.append(h)
        return h

    def call(self, ctx, op):
        if op["kind"] == "scribble":
            return self._scribble(ctx, op)
        name, cv, _ = ctx.sc["slots"][op["o"]]
        n, args, make, asks = ctx.cat[name]
        m, aargs, fn = asks[op["ask"]]
        ctx.running += 1
        got = None
        try:
            obj = ctx.slots[op["o"]]
            if op["kind"] == "new":
                got = shaped(args(cv), op["form"])
                obj = make(*got)
                ctx.probe["remade"] = ctx.probe.get("remade", 0) + 1
            # only one call at a time may use one set of containers
            key = self.eng.cur.tid, op["o"], op["ask"]
            new = shaped(aargs(op["v"]), op["form"])
            ctx.probe["view"] = ctx.probe.get("view", 0) + (op["form"] > 0)
            if op["refill"] and key in ctx.kept:
                new = refill(ctx.kept[key], new)
                ctx.probe["refill"] = ctx.probe.get("refill", 0) + 1
            busy = ctx.kept[key] = new
            for h in ctx.args:
                if h.value is busy:
                    ctx.args.remove(h)
                    break
            pic, res = self._value(lambda: fn(obj, *busy))
        finally:
            ctx.running -= 1
            if got is not None:
                self._hold(ctx.args, got, "arguments of %s" % name)
        ctx.last[self.eng.cur.tid, "lastargs"] = self._hold(
            ctx.args, busy, "arguments of %s.%s" % (name, op["ask"]))
        if res is not None:
            h = self._hold(ctx.results, res, "op %s, %s.%s" % (
                op["id"], name, op["ask"]))
            h.picture = pic
            ctx.last[self.eng.cur.tid, "last"] = h
        return pic

    def _scribble(self, ctx, op):
        if op["what"].startswith("last"):
            h = ctx.last.get((self.eng.cur.tid, op["what"]))
        else:
            pool = ctx.args if op["what"] == "args" else ctx.results
            h = pool[int(op["n"] * len(pool))] if pool else None
        if h is None:
            return "nothing"
        h.written = True
        scribble(h.value, op["style"], op["what"].endswith("args"))
        k = "wrote_args" if op["what"].endswith("args") else "wrote_result"
        ctx.probe[k] = ctx.probe.get(k, 0) + 1
        if ctx.running:
            ctx.probe["during"] = ctx.probe.get("during", 0) + 1
        return h.what

    def judge(self, ctx, rec):
        op = rec["op"]
        if rec["exc"] is not None:
            if rec["injected"]:
                return None
            return (self.id + "/raised", "raised %s: %s" % rec["exc"])
        if op["kind"] == "scribble":
            return None
        ctx.probe["ask"] = ctx.probe.get("ask", 0) + 1
        name, cv, _ = ctx.sc["slots"][op["o"]]
        want = self.base[name, cv, op["ask"], op["v"]]
        if rec["value"] != want:
            return (self.id + "/changed", "%s.%s gives %s, where nobody "
                    "wrote to anything %s" % (
                        name, op["ask"], str(rec["value"])[:160],
                        str(want)[:160]))
        return None

    def finish(self, eng, ctx, sc, history):
        bad = []
        for h in ctx.results:
            if not h.written and frozen(h.value) != h.picture:
                bad.append((self.id + "/reached", "the value of %s changed "
                            "although nobody wrote to it" % h.what))
        arr = [(i, x) for i, h in enumerate(ctx.results)
               for x in arrays(h.value) if x.flags.writeable and x.size]
        for n, (i, x) in enumerate(arr):
            for j, y in arr[:n]:
                if i != j and np.shares_memory(x, y):
                    bad.append((self.id + "/shared", "the values of %s and "
                                "%s share memory" % (ctx.results[j].what,
                                                     ctx.results[i].what)))
                    return bad
        return bad

    def coverage(self, ctx, sc, history):
        return dict(ctx.probe)

    def digest(self, rec):
        return str(rec.get("value"))


CHECK = C07()
