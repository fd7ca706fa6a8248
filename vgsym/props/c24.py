"""C24: saved results are read back unchanged."""
import contextlib
import os
import shutil
import tempfile

from .common import thin
from .c23 import inputs, points
from .simu import run

BOUNDS = {"results": "dictionaries with scalars, vectors, matrices and 3-d arrays of any values "
                     "(sizes up to 2 x 3 x 3; up to 288 values, axes of length one, with "
                     "one in 16 arbitrary), and no results",
          "names": "with blanks around and inside, with dots, default name",
          "whole runs": "Ornstein-Uhlenbeck and Lorenz-63, every result of a run"}
ASSUMPTIONS = ["symbolically h5py is a dictionary of arrays that keeps what create_dataset() is "
               "given; witnesses and counterexamples run with the real h5py"]


class Disk:
    """h5py stand-in (symbolic runs)."""

    def __init__(self, h):
        self.h, self.files = h, {}
        disk = self

        class File:
            def __init__(self, name, mode="r", **k):
                self.name, self.mode = str(name), mode
                if mode in ("w", "w-", "x"):
                    if mode != "w" and self.name in disk.files:
                        raise OSError("file exists")
                    disk.files[self.name] = {}
                elif self.name not in disk.files:
                    if mode == "a":
                        disk.files[self.name] = {}
                    else:
                        raise FileNotFoundError(self.name)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

            def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
                d = disk.files[self.name]
                if name in d:
                    raise ValueError("name already exists")
                a = h.np.array(data)
                if dtype is not None:
                    a = a.astype(dtype)
                if k.get("scaleoffset") is not None:
                    a = a.astype("float16")         # not the same values any more
                if a.ndim == 0 and k.get("compression") is not None:
                    raise TypeError("Scalar datasets don't support chunk/filter options")
                if shape is not None:
                    shape = (shape,) if isinstance(shape, int) else tuple(shape)
                    if a.size != h.np.empty(shape).size:
                        raise ValueError("Shape tuple is incompatible with data")
                    a = a.reshape(shape)
                d[name] = a
                return a

            def __setitem__(self, name, data):
                self.create_dataset(name, data=data)

            def __getitem__(self, name):
                v = disk.files[self.name][name]
                return h.np.array(v)

            def __iter__(self):
                return iter(sorted(disk.files[self.name]))

            def __contains__(self, k):
                return k in disk.files[self.name]

            def keys(self):
                return sorted(disk.files[self.name])

            def items(self):
                return [(k, self[k]) for k in self.keys()]

            def __len__(self):
                return len(disk.files[self.name])
        self.File = File


FOLDERS = ("out/old",)


@contextlib.contextmanager
def storage(h, S):
    """Symbolic: the stand-in; concrete: the real library in a scratch directory."""
    if h.symbolic:
        old, disk = S.h5py, Disk(h)
        S.h5py = disk
        try:
            yield lambda: sorted(disk.files)
        finally:
            S.h5py = old
        return
    cwd, tmp = os.getcwd(), tempfile.mkdtemp(prefix="vgsym-")
    os.chdir(tmp)
    try:
        for folder in FOLDERS:
            os.makedirs(folder)
        yield lambda: sorted(os.path.relpath(os.path.join(d, f), tmp)
                             for d, _, fs in os.walk(tmp) for f in fs)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


TOL = 1e-14             # saved values are compared exactly, not up to rounding


def results(h):
    third = h.const("1/3")                  # not a short binary fraction
    return {"fx": h.real("fx") * third, "m0": h.vec("m0", 3) * third,
            "st": h.ten("st", (2, 3, 3)) * third, "bt": h.mat("bt", 2, 3) * third,
            "s0": h.mat("s0", 3, 3) * third, "mt": h.vec("mt", 2) * third,
            "one": h.vec("one", 1) * third}


NAMES = {"plain": ("run", "run.h5"), "inside": ("my first run", "my_first_run.h5"),
         "around": ("  run 2 ", "run_2.h5"), "dots": ("a.b", "a.b.h5"), "none": (None, "ID_None.h5"),
         "folder": ("out/my run", "out/my_run.h5"), "folders": ("out/old/a.1", "out/old/a.1.h5"),
         "empty": ("", "ID_None.h5")}


SHAPES = ((1,), (1, 1), (1, 3), (3, 1), (1, 1, 1), (4, 1, 1), (1, 2, 2), (100,), (70, 2),
          (30, 3, 3), (2, 12, 12))


def shapes(h):
    """Results of every shape, also with axes of length one, and long ones."""
    third = h.const("1/3")
    return {f"r{k}": h.ten(f"r{k}", s) * third for k, s in enumerate(SHAPES)}


def trip(h, name, results=results):
    S = h.mod("src.var_bayes.simulation")
    given, expected = NAMES[name]
    with storage(h, S) as files:
        out = results(h)
        sim = S.Simulation(given)
        sim.output = dict(out)
        sim.save()
        h.same("files", files(), [expected])
        back = S.load(expected)
        h.same("names", sorted(back), sorted(out))
        for k, v in out.items():
            a = back[k]
            want = h.np.atleast_1d(v)
            h.same(f"{k}: shape", tuple(a.shape), tuple(want.shape))
            h.eq(k, h.arr(a), want, tol=TOL)
        h.same("names kept", sorted(sim.output), sorted(out))
        for k, v in out.items():
            h.eq(f"{k} kept", h.np.atleast_1d(sim.output[k]), h.np.atleast_1d(v), tol=TOL)


def again(h):
    """Saving again replaces the file; other files are untouched."""
    S = h.mod("src.var_bayes.simulation")
    with storage(h, S) as files:
        first, second = S.Simulation("a"), S.Simulation("b")
        x, y, z = h.vec("x", 2), h.mat("y", 2, 2), h.real("z")
        first.output = {"x": x, "old": y}
        first.save()
        second.output = {"x": y}
        second.save()
        first.output = {"x": z}
        first.save()
        first.save()
        h.same("files", files(), ["a.h5", "b.h5"])
        a, b = S.load("a.h5"), S.load("b.h5")
        h.same("names", (sorted(a), sorted(b)), (["x"], ["x"]))
        h.eq("replaced", h.arr(a["x"]), h.arr([z]), tol=TOL)
        h.eq("other", h.arr(b["x"]), y, tol=TOL)


def nothing(h):
    S = h.mod("src.var_bayes.simulation")
    with storage(h, S) as files:
        S.Simulation("a").save()
        h.same("no file", files(), [])
        h.raises("no name", RuntimeError, lambda: S.load(None))
        h.raises("no file to load", (OSError,), lambda: S.load("b.h5"))


def whole(h, model):
    """Everything a run produces survives."""
    p, obs, n, d = inputs(h, model, "Euler", True)
    sim, rec = run(h, p, obs, *points(h, n, d))
    want = {k: h.np.array(v) for k, v in sim.output.items()}
    S = h.mod("src.var_bayes.simulation")
    with storage(h, S):
        sim.save()
        back = S.load("x.h5")
        h.same("names", sorted(back), sorted(want))
        h.true("all results", {"at", "bt", "fx", "mt", "st", "m0", "s0"} <= set(back))
        for k, v in want.items():
            w = h.np.atleast_1d(v)
            h.same(f"{k}: shape", tuple(back[k].shape), tuple(w.shape))
            h.eq(k, h.arr(back[k]) - w, h.zeros(*w.shape), tol=TOL)


def harnesses(thorough):
    return [("run-ou", whole, dict(model="OU")), ("run-l63", whole, dict(model="L63"))] +\
         [(f"name-{n}", trip, dict(name=n)) for n in NAMES] + [
        ("shapes", thin(trip, 16), dict(name="plain", results=shapes)),
        ("again", again, {}), ("nothing", nothing, {})]
