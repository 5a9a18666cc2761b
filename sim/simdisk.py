"""
The simulated disk: files below one scratch directory are real files, but
opening, writing, closing and making directories may fail on the plan's order.

Streams a plan can name:
    disk   one raw write      enospc | torn | short
    open   one open()         open-fail | taken (another process makes the
                              file first, with a text of its own)
    close  one close()        close-fail
    mkdir  one os.mkdir()     mkdir-fail | mkdir-taken (another process makes
                              the directory first)
"""

import builtins
import errno
import io
import os
import threading

REAL_OPEN = io.open
REAL_MKDIR = os.mkdir

KINDS = {"enospc": "disk", "torn": "disk", "short": "disk",
         "open-fail": "open", "taken": "open",
         "close-fail": "close", "mkdir-fail": "mkdir",
         "mkdir-taken": "mkdir"}
FOREIGN = b"another process took this name at the same moment\n"


def action(rng, kind):
    act = {}
    if kind in ("enospc", "torn"):
        act["count"] = rng.choice([1, 1, 2, 3, 1000])
    if kind == "open-fail":
        act["count"] = rng.choice([1, 1, 1, 2, 10000])
        act["errno"] = rng.choice([errno.EACCES, errno.EMFILE, errno.ENOSPC])
    if kind == "taken":
        act["count"] = rng.choice([1, 1, 2, 5, 12])
    return KINDS[kind], act


class Hung(BaseException):
    """The code under test tries the same thing for ever."""


class _File(io.FileIO):
    def __init__(self, disk, *args, **kwargs):
        self.sim = disk
        io.FileIO.__init__(self, *args, **kwargs)
        if self.writable():
            disk.opened.append(self)

    def write(self, b):
        disk = self.sim
        if not disk.mine():
            return io.FileIO.write(self, b)
        if disk.full > 0:
            disk.full -= 1
            disk.hits += 1
            raise OSError(errno.ENOSPC, "No space left on device")
        act = disk.eng.device_fault("disk")
        if act is None:
            return io.FileIO.write(self, b)
        view = memoryview(b).cast("B")
        if act["kind"] == "short" or (act["kind"] == "torn"
                                      and len(view) > 1):
            if act["kind"] == "torn":
                disk.full = act.get("count", 1)
            return io.FileIO.write(self, view[:max(1, len(view) // 2)])
        disk.hits += 1
        disk.full = act.get("count", 1) - 1
        raise OSError(errno.ENOSPC, "No space left on device")

    def close(self):
        if self.closed:
            return
        disk = self.sim
        io.FileIO.close(self)
        if disk.mine() and disk.eng.device_fault("close") is not None:
            disk.hits += 1
            raise OSError(errno.EIO, "Input/output error")


class Disk:
    def __init__(self, eng):
        self.eng = eng
        self.root = None
        self.reset(None)

    def reset(self, root):
        self.root = root and os.path.join(os.path.realpath(root), "")
        self.full = 0         # further writes that find the disk full
        self.refuse = [0, 0, None]  # opens to refuse, why, operation
        self.hits = 0         # calls that were made to fail
        self.opened = []
        self.taken = [0, None]  # names to take, operation
        self.foreign = {}     # files of other processes and their contents

    def mine(self):
        eng = self.eng
        return eng.active and threading.get_ident() == eng.cur_ident

    def inside(self, path):
        if isinstance(path, int) or self.root is None:
            return False
        try:
            full = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(full, bytes):
            full = os.fsdecode(full)
        return (full + os.sep).startswith(self.root)

    def still_open(self):
        return [f.name for f in self.opened if not f.closed]

    def install(self):
        disk = self

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
                     newline=None, closefd=True, opener=None):
            if not disk.mine() or not disk.inside(file):
                return REAL_OPEN(file, mode, buffering, encoding, errors,
                                 newline, closefd, opener)
            act = disk.eng.device_fault("open")
            if act is not None and act["kind"] == "taken":
                disk.taken = [act["count"], disk.eng.cur.opid]
            elif act is not None:
                disk.refuse = [act.get("count", 1), act["errno"],
                               disk.eng.cur.opid]
            if disk.refuse[0] > 0 and disk.refuse[2] == disk.eng.cur.opid:
                disk.refuse[0] -= 1
                disk.hits += 1
                if disk.refuse[0] == 9000:
                    raise Hung("a thousand refused attempts to open a file")
                raise OSError(disk.refuse[1], os.strerror(disk.refuse[1]),
                              os.fspath(file))
            if disk.taken[0] > 0 and disk.taken[1] == disk.eng.cur.opid \
                    and "r" not in mode and not os.path.lexists(file):
                disk.taken[0] -= 1
                with REAL_OPEN(file, "wb") as other:
                    other.write(FOREIGN)
                disk.foreign[os.path.realpath(file)] = FOREIGN
            binary = "b" in mode
            raw_mode = mode.replace("b", "").replace("t", "")
            if binary and (encoding or errors or newline):
                raise ValueError("binary mode takes no text arguments")
            if buffering == 0 and not binary:
                raise ValueError("can't have unbuffered text I/O")
            raw = _File(disk, file, raw_mode, closefd=closefd, opener=opener)
            if buffering == 0:
                return raw
            size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) \
                else buffering
            if "+" in mode:
                buf = io.BufferedRandom(raw, size)
            elif raw.writable():
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, size)
            if binary:
                return buf
            text = io.TextIOWrapper(buf, io.text_encoding(encoding), errors,
                                    newline, line_buffering=buffering == 1)
            text.mode = mode
            return text

        def sim_mkdir(path, mode=0o777, *, dir_fd=None):
            if disk.mine() and disk.inside(path):
                act = disk.eng.device_fault("mkdir")
                if act is not None and act["kind"] == "mkdir-taken":
                    if os.path.isdir(os.path.dirname(os.path.abspath(path))) \
                            and not os.path.lexists(path):
                        REAL_MKDIR(path, mode)
                elif act is not None:
                    disk.hits += 1
                    raise OSError(errno.EACCES, "Permission denied",
                                  os.fspath(path))
            return REAL_MKDIR(path, mode, dir_fd=dir_fd)

        builtins.open = io.open = sim_open
        os.mkdir = sim_mkdir
