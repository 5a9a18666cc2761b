"""Objects with an identity, described by plain data, and what can be observed
of them.  Used by C08 in the simulated process and in its peer processes."""

import operator

import numpy as np

RELATIONS = (operator.eq, operator.ne, operator.lt, operator.le, operator.gt,
             operator.ge)


def coords(c, form):
    if form == "list":
        return list(c)
    if form == "array":
        return np.array(c)
    if form == "scalars":
        return [np.float64(x) for x in c]
    return tuple(c)


def number(x):
    """A coefficient; complex ones are described as pairs."""
    return complex(*x) if isinstance(x, list) else x


def build(spec, form="tuple"):
    from HamiltonianPy import lattice
    from HamiltonianPy.bond import Bond
    from HamiltonianPy import quantumoperator as Q
    from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace
    from HamiltonianPy.indextable import IndexTable
    from HamiltonianPy.quantumoperator import particlesystem as P
    from HamiltonianPy.quantumoperator import quantumstate as S
    from HamiltonianPy.quantumoperator import spinsystem as Z
    kind, args = spec[0], spec[1:]
    if kind == "site":
        return S.SiteID(coords(args[0], form))
    if kind == "state":
        return S.StateID(coords(args[0], form), args[1], args[2])
    if kind == "aoc":
        return P.AoC(args[0], coords(args[1], form), args[2], args[3])
    if kind == "number":
        return P.NumberOperator(coords(args[0], form), args[1], args[2])
    if kind == "spin":
        return Z.SpinOperator(args[0], coords(args[1], form))
    if kind == "bond":
        return Bond(coords(args[0], form), coords(args[1], form),
                    directional=args[2])
    if kind == "table":
        return IndexTable([build(s, form) for s in args[0]], start=args[1])
    if kind == "term":
        return P.ParticleTerm([build(s, form) for s in args[0]],
                              number(args[1]))
    if kind == "interaction":
        return Z.SpinInteraction([build(s, form) for s in args[0]],
                                 number(args[1]))
    if kind == "factory":
        kw = dict(args[2])
        if "coeff" in kw:
            kw["coeff"] = number(kw["coeff"])
        return getattr(Q, args[0])(*[coords(c, form) for c in args[1]], **kw)
    if kind == "simple":
        return SimpleHilbertSpace(*args)
    if kind == "lattice":
        return lattice.lattice_generator(*args)
    if kind == "space":
        return HilbertSpace(*[tuple(a) if isinstance(a, list) else a
                              for a in args[0]])
    raise KeyError(kind)


def set_precision(p):
    from HamiltonianPy import bond
    from HamiltonianPy.quantumoperator import quantumstate
    quantumstate.set_float_point_precision(p)
    bond.set_float_point_precision(p)


KIN = (("conjugate_of", "AoC SpinOperator"), ("same_state", "AoC"),
       ("same_site", "SpinOperator"), ("oppositeTo", "Bond"))


def relation(a, b):
    """Six comparisons, hash codes, and what else one says of the other."""
    out = []
    for f in RELATIONS:
        try:
            out.append("1" if f(a, b) else "0")
        except TypeError:
            out.append("T")
    out.append("h" if hash(a) == hash(b) else "-")
    for name, who in KIN:
        if type(a).__name__ in who.split():
            try:
                out.append("1" if getattr(a, name)(b) else "0")
            except NotImplementedError:     # of bonds without direction
                out.append("N")
    return "".join(out)


def find(objs, keys):
    """What tables, sets, dictionaries and sorting make of objs and keys."""
    from HamiltonianPy.indextable import IndexTable
    try:
        table = IndexTable(objs)
    except ValueError:
        table = None
    as_dict = {o: i for i, o in enumerate(objs)}
    as_set = set(objs)
    out = [table is None, len(as_dict), len(as_set)]
    for k in keys:
        try:
            i = None if table is None else table(k)
        except KeyError:
            i = "missing"
        out.append([i, as_dict.get(k, "missing"), k in as_set])
    return out


def ranks(objs):
    """The order of the objects: position -> rank (equal ones share it)."""
    try:
        ordered = sorted(objs)
    except TypeError:
        return None
    rank, out = 0, {}
    for n, o in enumerate(ordered):
        if n and not ordered[n - 1] == o:
            rank += 1
        out[id(o)] = rank
    return [out[id(o)] for o in objs]


def matrix(states, pairs):
    """Hopping matrices over the table of the given states."""
    from HamiltonianPy.indextable import IndexTable
    from HamiltonianPy.quantumoperator import particlesystem as P
    table = IndexTable(states)
    bases = np.arange(1 << len(states), dtype=np.uint64)
    out = []
    for x, y in pairs:
        m = P.ParticleTerm([x, y], 2.0).matrix_repr(table, bases)
        out.append(np.asarray(m.toarray()).tolist())
    return out


def facts(kind, obj, natives):
    """Plain data about a compound object; natives: objects built here."""
    from HamiltonianPy.indextable import IndexTable
    if kind == "table":
        res = [[i, str(o)] for i, o in obj]
        for n in natives:
            try:
                res.append(obj(n))
            except (KeyError, TypeError) as e:
                res.append(type(e).__name__)
        return res
    if kind in ("term", "factory"):
        states = IndexTable([n for n in natives])
        bases = np.arange(1 << len(natives), dtype=np.uint64)
        return [str(obj), obj.classification, obj.check_compatibility(),
                np.asarray(obj.matrix_repr(states, bases).toarray()).tolist(),
                str(obj.dagger()), [str(c) for c in obj.components]]
    if kind == "interaction":
        sites = IndexTable([n for n in natives])
        m = np.asarray(obj.matrix_repr(sites).toarray(), dtype=complex)
        # The conjugate is made now: its order may follow the present precision
        conj = obj.dagger()
        return [str(obj), m.tolist(), str(conj.coeff),
                sorted(str(c) for c in conj.components)]
    if kind == "lattice":
        intra, inter = obj.bonds(1)
        return [obj.points.tolist(), obj.vectors.tolist(), obj.name,
                sorted(str(b) for b in intra), sorted(str(b) for b in inter),
                obj.neighbor_distance(2)]
    if kind in ("space", "simple"):
        return [str(obj), obj.base_vectors(container="list"), repr(obj),
                obj.base_vectors(container="list", sort=False)]
    raise KeyError(kind)
