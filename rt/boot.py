"""Import the real bdld from /repo with real numpy/scipy.

bdld/helpers is an un-fetched git submodule, so the external dependency
``bdld.helpers`` is supplied by the small stand-ins below (same observable
behaviour as the python-helpers code: header line, SET constants, backup).
Everything else that runs is /repo's own source.
"""
import io
import os
import sys
import types
import warnings
import contextlib

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")


class PlumedHeader:
    def __init__(self, fields=None, constants=None, delim=None):
        self.fields = fields or []
        self.constants = constants or {}
        self.delim = delim or "#!"

    def __repr__(self):
        lines = [self.delim + " FIELDS " + " ".join(self.fields)]
        for name, value in self.constants.items():
            lines.append(f"{self.delim} SET {name} {value}")
        return "\n".join(lines)

    def set_constant(self, name, val):
        self.constants[name] = str(val)

    def add_field(self, name):
        self.fields.append(name)


def backup_if_exists(name):
    if os.path.exists(name):
        d, f = os.path.split(name)
        n = 0
        while os.path.exists(os.path.join(d, f"bck.{n}.{f}")):
            n += 1
        os.rename(name, os.path.join(d, f"bck.{n}.{f}"))


def initialize_file(filename, fields=None, constants=None, comment_delim=None, overwrite=False):
    if not overwrite:
        backup_if_exists(filename)
    with open(filename, "w") as f:
        if fields:
            f.write(str(PlumedHeader(fields, constants, comment_delim)) + "\n")


def write_2d_sliced_to_file(filename, data, nbins, fmt="%.18e", header=None):
    import numpy as np

    data = data.reshape(*nbins, len(data[0]))
    with open(filename, "w") as out:
        if header:
            out.write(str(header) + "\n")
        for row in data[:-1]:
            np.savetxt(out, row, comments="", fmt=fmt, delimiter=" ", newline="\n")
            out.write("\n")
        np.savetxt(out, data[-1], comments="", fmt=fmt, delimiter=" ", newline="\n")


def make_ordinal(n):
    n = int(n)
    suffix = ["th", "st", "nd", "rd", "th"][min(n % 10, 4)]
    if 11 <= (n % 100) <= 13:
        suffix = "th"
    return str(n) + suffix


def install():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    pkg = types.ModuleType("bdld.helpers")
    pkg.__path__ = []
    misc = types.ModuleType("bdld.helpers.misc")
    for f in (backup_if_exists, initialize_file, write_2d_sliced_to_file, make_ordinal):
        setattr(misc, f.__name__, f)
    ph = types.ModuleType("bdld.helpers.plumed_header")
    ph.PlumedHeader = PlumedHeader
    pkg.misc, pkg.plumed_header = misc, ph
    sys.modules["bdld.helpers"] = pkg
    sys.modules["bdld.helpers.misc"] = misc
    sys.modules["bdld.helpers.plumed_header"] = ph


install()


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield
