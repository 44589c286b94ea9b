"""Scratch directories for file-format checks (below the check's own scratch directory)."""
import os
import shutil
import tempfile


class Tmp(object):
    """with Tmp() as d: ... -> an empty directory that is removed afterwards"""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="t")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def put(d, name, text, encoding="latin-1"):
    fn = os.path.join(d, name)
    with open(fn, "wb") as fh:
        fh.write(text.encode(encoding))
    return fn


def get(fn):
    with open(fn, "rb") as fh:
        return fh.read().decode("latin-1")
