"""Simulated disk: files opened below one scratch directory read through a raw layer whose faults the simulator schedules."""
import builtins
import errno
import io
import os


class FaultyRaw(io.RawIOBase):
    def __init__(self, path, plan, log):
        super().__init__()
        self._f = io.FileIO(path, "r")
        self._plan = plan          # shared by all opens of one call: consumed read by read
        self._log = log

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        return self._f.seek(off, whence)

    def tell(self):
        return self._f.tell()

    def close(self):
        if not self.closed:
            self._f.close()
        super().close()

    def readinto(self, b):
        n = len(b)
        act = self._plan.pop(0) if self._plan else None
        if act is not None:
            if act[0] == "short" and n > act[1]:
                n = max(1, act[1])
                self._log.append("short-read")
            elif act[0] == "eintr":
                self._log.append("eintr")
                raise InterruptedError(errno.EINTR, "simulated")
            elif act[0] == "eio":
                self._log.append("eio")
                raise OSError(errno.EIO, "simulated")
        data = self._f.read(n)
        b[:len(data)] = data
        return len(data)


class SimDisk:
    """Within the context, read-only opens of files below root go through FaultyRaw; everything else is real."""

    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        self.plan = []
        self.log = []
        self.open_error = None

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        try:
            path = os.path.realpath(os.fspath(file)) if not isinstance(file, int) else None
        except TypeError:
            path = None
        if path is None or not path.startswith(self.root) or any(c in mode for c in "wax+"):
            return self._real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if self.open_error:
            e, self.open_error = self.open_error, None
            self.log.append("open-" + errno.errorcode[e])
            raise OSError(e, os.strerror(e), path)
        raw = FaultyRaw(path, self.plan, self.log)
        buf = io.BufferedReader(raw, 64)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)

    def __enter__(self):
        self._real = builtins.open
        import numpy.lib._datasource as ds
        self._ds = ds
        ds._file_openers._load() if hasattr(ds._file_openers, "_load") else None
        self._ds_old = ds._file_openers._file_openers.get(None)
        ds._file_openers._file_openers[None] = self._open
        builtins.open = self._open
        io.open = self._open
        return self

    def __exit__(self, *a):
        builtins.open = self._real
        io.open = self._real
        self._ds._file_openers._file_openers[None] = self._ds_old
        return False
