"""A file system that only exists in the process: everything below /virtual."""
import builtins
import contextlib
import os
import pickle
import shutil
import stat
import sys
import time
from types import SimpleNamespace

ROOT = "/virtual"


class VirtualFS:
    def __init__(self, now=None):
        self.nodes = {ROOT: (True, 0, 0)}   # path -> (is directory, mtime, ctime)
        self.content = {}
        self.deleted, self.written, self.read = [], [], []
        self.now = now
        self.unwritable = lambda path: False
        self.uncreatable = lambda path: False

    def put(self, path, isdir=False, mtime=0, ctime=0):
        self.nodes[path] = (isdir, mtime, ctime)

    def mine(self, path):
        return isinstance(path, (str, os.PathLike)) and (os.fspath(path) + "/").startswith(ROOT + "/")

    def norm(self, path):
        return os.path.normpath(os.fspath(path))

    def children(self, path):
        p = self.norm(path)
        return [os.path.basename(n) for n in self.nodes if n != p and os.path.dirname(n) == p]

    # stand-ins
    def stat(self, path, *a, **k):
        if not self.mine(path):
            return self._stat(path, *a, **k)
        if self.norm(path) not in self.nodes:
            raise FileNotFoundError(path)
        d, m, c = self.nodes[self.norm(path)]
        return SimpleNamespace(st_mtime=m, st_ctime=c, st_mode=(stat.S_IFDIR if d else stat.S_IFREG) | 0o755)

    def listdir(self, path="."):
        return self.children(path) if self.mine(path) else self._listdir(path)

    @contextlib.contextmanager
    def _entries(self, path):
        yield [SimpleNamespace(name=n, path=os.path.join(path, n), is_dir=lambda n=n, **k: self.nodes[self.norm(os.path.join(path, n))][0],
                               is_file=lambda n=n, **k: not self.nodes[self.norm(os.path.join(path, n))][0],
                               stat=lambda n=n, **k: self.stat(os.path.join(path, n))) for n in self.children(path)]

    def scandir(self, path="."):
        return self._entries(path) if self.mine(path) else self._scandir(path)

    def access(self, path, mode, **k):
        return not self.unwritable(path) if self.mine(path) else self._access(path, mode, **k)

    def makedirs(self, path, mode=0o777, exist_ok=False):
        if not self.mine(path):
            return self._makedirs(path, mode, exist_ok)
        path = self.norm(path)
        if self.uncreatable(path):
            raise PermissionError(path)
        if path in self.nodes and not exist_ok:
            raise FileExistsError(path)
        while path not in self.nodes:
            self.put(path, True)
            path = os.path.dirname(path)

    def mkdir(self, path, mode=0o777, **k):
        return self.makedirs(path) if self.mine(path) else self._mkdir(path, mode, **k)

    def rmtree(self, path, *a, **k):
        self.deleted.append(self.norm(path))

    def open(self, path, mode="r", *a, **k):
        if not self.mine(path):
            return self._open(path, mode, *a, **k)
        path = self.norm(path)
        if "w" in mode:
            self.put(path)
        elif path not in self.nodes:
            raise FileNotFoundError(path)
        return FakeFile(path)

    def dump(self, data, f, *a, **k):
        self.written.append(f.name)
        self.content[f.name] = data

    def load(self, f, *a, **k):
        self.read.append(f.name)
        return self.content[f.name]

    def time(self):
        if self.now is not None and "/ocelot/" in sys._getframe(1).f_code.co_filename:
            return self.now
        return self._time()

    def ctime(self, x=None):
        return "some day" if self.now is not None and "/ocelot/" in sys._getframe(1).f_code.co_filename else self._ctime(x)

    @contextlib.contextmanager
    def installed(self, **env):
        places = [(os, n) for n in ("stat", "listdir", "scandir", "access", "makedirs", "mkdir")] + [
            (shutil, "rmtree"), (pickle, "dump"), (pickle, "load"), (builtins, "open"), (time, "time"), (time, "ctime")]
        olds = [getattr(m, n) for m, n in places]
        old_env = {k: os.environ.get(k) for k in env}
        for (m, n), o in zip(places, olds):
            setattr(self, "_" + n, o)
        try:
            for m, n in places:
                setattr(m, n, getattr(self, n))
            for k, v in env.items():
                os.environ.pop(k, None) if v is None else os.environ.update({k: v})
            yield self
        finally:
            for (m, n), o in zip(places, olds):
                setattr(m, n, o)
            for k, v in old_env.items():
                os.environ.pop(k, None) if v is None else os.environ.update({k: v})


class FakeFile:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass
