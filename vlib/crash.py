"""Every stopping point of a program that writes files: the states of a directory that a kill, or an interrupt with its
clean-up running, leaves behind at each file-system event, and the torn versions of what was being written."""
import gc
import hashlib
import os
import shutil
import sys
import weakref
from pathlib import Path

import h5py

_active = None
_installed = False
T0 = 10 ** 18      # the modification time given to restored files


class Stop(KeyboardInterrupt):
    pass


def _hook(event, args):
    r = _active
    if r is None or r.busy:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, (str, bytes, os.PathLike)) and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR):
            r.event("open", path)
    elif event in ("os.mkdir", "os.remove", "os.rmdir", "os.symlink", "os.truncate", "os.link"):
        r.event(event, args[1] if event in ("os.symlink", "os.link") else args[0])
    elif event == "os.rename":
        r.event(event, args[1])
        r.renamed.add(r.rel(args[1]))


def install():
    """hooks that only act while a Recorder is active"""
    global _installed
    if _installed:
        return
    _installed = True
    sys.addaudithook(_hook)
    init, close = h5py.File.__init__, h5py.File.close

    def new_init(self, name, mode="r", *a, **k):
        r = _active
        if r is not None and mode != "r":
            r.event("h5open", name)
        init(self, name, mode, *a, **k)
        if r is not None and mode != "r":
            r.open_files.add(weakref.ref(self))
            r.event("h5opened", name)

    def new_close(self):
        r = _active
        live = r is not None and bool(self.id) and self.mode != "r"
        name = self.filename if live else None
        if live:
            r.event("h5close", name)
        close(self)
        if live:
            r.event("h5closed", name)

    h5py.File.__init__, h5py.File.close = new_init, new_close
    for attr in ("create_dataset", "create_group"):
        def wrap(f, attr):
            def g(self, *a, **k):
                r = _active
                if r is not None:
                    r.event("h5" + attr, self.file.filename)
                return f(self, *a, **k)
            return g
        setattr(h5py.Group, attr, wrap(getattr(h5py.Group, attr), attr))


class Recorder:
    """Runs a program over `root`; visit(i, kind, path) is called at each event inside root; stop_at raises there."""

    def __init__(self, root, visit=None, stop_at=None):
        self.root = Path(os.path.realpath(root))
        self.visit, self.stop_at = visit, stop_at
        self.n, self.busy, self.renamed, self.open_files = 0, False, set(), set()
        self.kinds = []

    def rel(self, p):
        try:
            p = os.path.abspath(os.fsdecode(p))
            p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
            return os.path.relpath(p, self.root)
        except (TypeError, ValueError):
            return ".."

    def event(self, kind, path):
        if self.busy:
            return
        rel = self.rel(path)
        if rel.startswith(".."):
            return
        i = self.n
        self.n += 1
        self.kinds.append((kind, rel))
        if self.visit is not None:
            self.busy = True
            try:
                self.visit(i, kind, rel)
            finally:
                self.busy = False
        if self.stop_at == i:
            raise Stop(f"stopped at event {i}: {kind} {rel}")

    def run(self, fn):
        """(finished, exception) of fn under observation"""
        global _active
        install()
        _active = self
        try:
            fn()
            return True, None
        except Stop:
            return False, None
        finally:
            _active = None
            gc.collect()
            for ref in self.open_files:   # what the library does when the process ends
                f = ref()
                if f is not None and f.id:
                    f.close()


def snapshot(root, cache=None):
    """relative path -> bytes | None for a directory | ('link', target)"""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in list(dirs):
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = ("link", os.readlink(p))
            else:
                out[os.path.relpath(p, root)] = None
        for n in files:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ("link", os.readlink(p))
                continue
            st = os.stat(p)
            key = (st.st_ino, st.st_size, st.st_mtime_ns)
            if cache is not None and cache.get(rel, (None,))[0] == key:
                out[rel] = cache[rel][1]
                continue
            data = open(p, "rb").read()
            if cache is not None:
                cache[rel] = (key, data)
            out[rel] = data
    return out


def restore(root, snap):
    root = Path(root)
    for p in list(root.iterdir()) if root.exists() else []:
        if p.is_dir() and not p.is_symlink():
            shutil.rmtree(p)
        else:
            p.unlink()
    root.mkdir(exist_ok=True)
    for rel in sorted(snap, key=lambda r: (r.count(os.sep), r)):
        v, p = snap[rel], root / rel
        if v is None:
            p.mkdir(exist_ok=True)
    for rel, v in snap.items():
        p = root / rel
        if isinstance(v, tuple):
            os.symlink(v[1], p)
        elif v is not None:
            p.write_bytes(v)
            os.utime(p, ns=(T0, T0))


def digest(snap, ignore=()):
    h = hashlib.blake2b(digest_size=12)
    for rel in sorted(snap):
        if any(s in rel for s in ignore):
            continue
        v = snap[rel]
        h.update(rel.encode() + b"\0" + (b"dir" if v is None else repr(v).encode() if isinstance(v, tuple)
                                         else hashlib.blake2b(v, digest_size=12).digest()))
    return h.hexdigest()
