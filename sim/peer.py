"""A peer interpreter: forks one session per connection.  A session is one
incarnation of a peer node; its objects are lost when it ends."""

import os
import pickle
import select
import signal
import socket
import struct
import sys

import objs


def send(conn, value):
    data = pickle.dumps(value)
    conn.sendall(struct.pack("<Q", len(data)) + data)


def recv(conn):
    head = b""
    while len(head) < 8:
        part = conn.recv(8 - len(head))
        if not part:
            return None
        head += part
    size = struct.unpack("<Q", head)[0]
    data = bytearray()
    while len(data) < size:
        part = conn.recv(min(1 << 20, size - len(data)))
        if not part:
            return None
        data += part
    return pickle.loads(bytes(data))


def natives(specs, prec, form="tuple"):
    objs.set_precision(prec)
    try:
        return [objs.build(s, form) for s in specs]
    finally:
        objs.set_precision(4)


def answer(store, msg):
    op = msg["op"]
    if op == "put":
        store.setdefault(msg["name"], []).append(pickle.loads(msg["data"]))
        return "stored"
    if op == "baseline":
        return baseline(msg["classes"], msg["precs"])
    if op == "nothing":
        return None
    if op == "part":
        return part(msg)
    if op == "krylov":
        from HamiltonianPy.lanczos import MultiKrylov
        h, kets = pickle.loads(msg["data"])
        return pickle.dumps(MultiKrylov(h, kets,
                                        krylov_space_dim=msg["dim"]))
    if op == "native":
        return pickle.dumps(natives([msg["spec"]], msg["prec"])[0],
                            msg["protocol"])
    if any(n not in store for n in msg["names"]):
        return "missing"
    copies = [store[n] for n in msg["names"]]
    here = natives(msg["specs"], msg["prec"], msg["form"])
    if op == "relate":
        return [[[objs.relation(c, h) for h in here]
                 + [objs.relation(h, c) for h in here] for c in cs]
                for cs in copies]
    if op == "find":        # shipped objects in tables, native keys; and back
        first, last = [c[0] for c in copies], [c[-1] for c in copies]
        return [objs.find(first, here), objs.find(here, last),
                objs.ranks(first + here)]
    if op == "matrix":
        pairs = natives([p for pair in msg["pairs"] for p in pair],
                        msg["prec"])
        pairs = list(zip(pairs[::2], pairs[1::2]))
        return objs.matrix([c[0] for c in copies], pairs)
    if op == "facts":
        return [objs.facts(msg["kind"], c, here) for c in copies[0]]
    raise KeyError(op)


def part(msg):
    """The sum of the matrices of the terms that were shipped."""
    from HamiltonianPy.hilbertspace import HilbertSpace
    from HamiltonianPy.indextable import IndexTable
    terms, table, space = pickle.loads(msg["data"])
    if table is None:
        table = IndexTable(objs.build(s) for s in msg["native"])
    if space is None and msg["specs"] is not None:
        space = HilbertSpace(*msg["specs"])
    bases = () if space is None else (space.base_vectors(),)
    out = 0.0
    for t in terms:
        out = out + t.matrix_repr(table, *bases)
    return pickle.dumps(out)


def baseline(classes, precs):
    out = {}
    for p in precs:
        objs.set_precision(p)
        for kind, specs in classes.items():
            one = [objs.build(s) for s in specs]
            two = [objs.build(s, "list") for s in specs]
            for i, a in enumerate(one):
                for j, b in enumerate(two):
                    out[p, kind, i, j] = objs.relation(a, b)
        objs.set_precision(4)
    return out


def session(conn):
    store = {}
    while True:
        msg = recv(conn)
        if msg is None or msg["op"] == "die":
            return
        try:
            out = ("ok", answer(store, msg))
        except Exception as e:
            out = ("raised", "%s: %s" % (type(e).__name__, e))
        send(conn, out)


def main(repo, path):
    sys.path.insert(0, repo)
    parent = os.getppid()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    try:
        import HamiltonianPy.lattice    # noqa: F401
        import HamiltonianPy.quantumoperator    # noqa: F401
        a = objs.build(["state", (0,), 0, 0])
        x = objs.build(["aoc", 1, (0,), 0, 0])
        objs.matrix([a], [(x, x.dagger())])
    except Exception:
        pass
    server = socket.socket(socket.AF_UNIX)
    server.bind(path + ".tmp")
    server.listen(256)
    os.rename(path + ".tmp", path)
    while os.getppid() == parent:
        ready, _, _ = select.select([server], [], [], 1.0)
        if not ready:
            continue
        conn, _ = server.accept()
        if os.fork() == 0:
            code = 0
            try:
                server.close()
                session(conn)
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        conn.close()


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
