"""Lazy access to the modules of the package under test: pye.MP_system is PyECLOUD.MP_system."""
import importlib
import os
import shutil
import tempfile


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return importlib.import_module("PyECLOUD." + name)


class TempDir:
    """A scratch directory that is also the working directory inside the block."""

    def __init__(self, chdir=True):
        self.chdir = chdir

    def __enter__(self):
        self.old = os.getcwd()
        self.path = tempfile.mkdtemp(prefix="case-", dir=self.old)
        if self.chdir:
            os.chdir(self.path)
        return self.path

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)
