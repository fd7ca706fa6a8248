"""C25: the parameter file and the command line entry points."""
import contextlib
import json
import os
import shutil
import sys
import tempfile

import numpy

from .simu import patched

KEYS = ["Output_Name", "Model", "Ode-method", "Time-window", "Noise", "Observations", "Drift",
        "Prior", "Random-Seed"]
BOUNDS = {"keys": "every subset of the nine required keys, in every order, with or without "
                  "further keys", "data file": "three rows of arbitrary values",
          "program": "every combination of its two options, in both orders and spellings"}
ASSUMPTIONS = ["symbolically the json and csv readers return arbitrary contents; witnesses and "
               "counterexamples read real files"]


class Contents(dict):
    """A file with unknown keys: membership is decided by the solver."""

    def __init__(self, here, values):
        super().__init__(values)
        self.here = here

    def __contains__(self, k):
        if k in self.here:
            return bool(self.here[k])
        return dict.__contains__(self, k)

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return dict.__getitem__(self, k)

    def keys(self):
        return [k for k in dict.keys(self) if k in self]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def items(self):
        return [(k, self[k]) for k in self.keys()]


class Json:
    """Reader that returns the given contents."""

    def __init__(self, doc):
        self.doc = doc
        self.JSONDecodeError = json.JSONDecodeError

    def load(self, f, **k):
        return self.doc

    def loads(self, s, **k):
        return self.doc


@contextlib.contextmanager
def scratch():
    tmp = tempfile.mkdtemp(prefix="vgsym-")
    try:
        yield tmp
    finally:
        shutil.rmtree(tmp)


def present(h):
    """Which keys are there (symbolic), and the contents of the file."""
    here = {k: h.int(f"has_{i}", 0, 1) == 1 for i, k in enumerate(KEYS)}
    vals = {k: f"value of {k}" for k in KEYS}
    vals["Info"] = "text"
    return here, vals


@contextlib.contextmanager
def file_with(h, M, here, vals):
    """The name of a parameter file; yields (name, expected contents or None)."""
    with scratch() as tmp:
        name = os.path.join(tmp, "p.json")
        if h.symbolic:
            with open(name, "w") as f:
                f.write("{}")
            doc = Contents(here, vals)
            old, M.json = M.json, Json(doc)
            try:
                yield name, doc
            finally:
                M.json = old
        else:
            doc = {k: v for k, v in vals.items() if k not in here or here[k]}
            with open(name, "w") as f:
                json.dump(doc, f)
            yield name, doc


def validate(h):
    M = h.mod("vgpa_main")
    here, vals = present(h)
    everything = h.conj(*here.values())
    with file_with(h, M, here, vals) as (name, doc):
        try:
            r = M.validate_input_parameters_file(name)
        except ValueError:
            h.true("rejected only if a key is missing", h.neg(everything))
            return
    h.true("accepted only if all keys are there", everything)
    h.same("contents", dict(dict.items(r)), vals)


class Sim:
    """Stand-in for Simulation that records how it is used."""
    log = None

    def __init__(self, name=None):
        Sim.log.append(("new", name))

    def setup(self, params, data):
        Sim.log.append(("setup", params, data))
        if Sim.broken:
            raise ValueError("broken")

    def run(self):
        Sim.log.append(("run",))

    def save(self):
        Sim.log.append(("save",))


def call(M, *a, broken=False):
    """Exit status of main()."""
    Sim.log, Sim.broken = [], broken
    try:
        M.main(*a)
    except SystemExit as e:
        return 0 if e.code is None else e.code
    return 0


def status(h, M, *a, broken=False):
    with patched(h, "src.var_bayes.simulation", "Simulation", Sim, ["vgpa_main"]):
        return call(M, *a, broken=broken)


def main(h):
    M = h.mod("vgpa_main")
    here, vals = present(h)
    everything = h.conj(*here.values())
    with file_with(h, M, here, vals) as (name, doc):
        st = status(h, M, name)
    log = Sim.log
    if st != 0:
        h.true("fails only if a key is missing", h.neg(everything))
        h.same("nothing is run", log, [])
        return
    h.true("runs only if all keys are there", everything)
    h.same("steps", [e[0] for e in log], ["new", "setup", "run", "save"])
    h.same("name", log[0][1], vals["Output_Name"])
    h.same("parameters", dict(dict.items(log[1][1])), vals)
    h.true("no data", log[1][2] is None)


def names(h):
    M = h.mod("vgpa_main")
    here, vals = {}, {k: 1 for k in KEYS}
    vals["Output_Name"] = None
    with file_with(h, M, here, vals) as (name, doc):
        h.same("status", status(h, M, name), 0)
        h.same("default name", Sim.log[0], ("new", "Sim_00"))
        h.true("errors reach the caller", status(h, M, name, broken=True) != 0)
        h.same("stops at the error", [e[0] for e in Sim.log], ["new", "setup"])
    h.true("parameters are required", status(h, M) != 0)


class Pandas:
    """The real library, except that reading a file gives a table with unknown values."""

    def __init__(self, pd, t, y):
        self.pd, self.t, self.y = pd, t, y

    def __getattr__(self, k):
        return getattr(self.pd, k)

    def read_csv(self, f, names=None, header=None, skiprows=0, nrows=None, **k):
        if set(k) - {"sep", "delimiter", "engine", "dtype", "encoding", "index_col"} or \
                names is None or len(names) != 2 or k.get("index_col") not in (None, False):
            raise NotImplementedError(f"read_csv {names} {k}")
        if isinstance(header, int):
            skiprows += header + 1
        col = [numpy.empty(len(self.y), dtype=object), numpy.array([int(v) for v in self.t])]
        for i, v in enumerate(self.y):
            col[0][i] = v
        rows = self.pd.DataFrame({names[0]: col[1], names[1]: self.pd.Series(col[0], dtype=object)})
        return rows[skiprows:] if nrows is None else rows[skiprows:skiprows + nrows]


def data(h):
    """The data file holds times (indexes) and values, one pair per row."""
    M = h.mod("vgpa_main")
    here, vals = {}, {k: 1 for k in KEYS}
    t, y = h.ints([2, 5, 9]), h.vec("y", 3)
    with file_with(h, M, here, vals) as (name, doc), scratch() as tmp:
        csv = os.path.join(tmp, "d.csv")
        with open(csv, "w") as f:
            for a, b in zip(t, y):
                f.write(f"{int(a)},{0.0 if h.symbolic else repr(float(b))}\n")
        old = M.pd
        if h.symbolic:
            import pandas
            M.pd = Pandas(pandas, t, y)
        try:
            st = status(h, M, name, csv)
        finally:
            M.pd = old
        h.same("status", st, 0)
        got = Sim.log[1][2]
        h.same("pair", len(got), 2)
        h.same("times", [int(v) for v in got[0]], [2, 5, 9])
        h.eq("values", h.arr(list(got[1])), y)


@contextlib.contextmanager
def files(h, doc, t, y):
    """Names of a parameter file and a data file with the given contents."""
    with scratch() as tmp:
        par, csv = os.path.join(tmp, "p.json"), os.path.join(tmp, "d.csv")
        with open(csv, "w") as f:
            for a, b in zip(t, y):
                f.write(f"{int(a)},{0.0 if h.symbolic else repr(float(b))}\n")
        with open(par, "w") as f:
            json.dump({} if h.symbolic else doc, f)
        if not h.symbolic:
            yield par, csv
            return
        import pandas
        old = json.load, json.loads, pandas.read_csv
        json.load = json.loads = lambda *a, **k: doc
        tab = Pandas(pandas, t, y)
        pandas.read_csv = tab.read_csv
        try:
            yield par, csv
        finally:
            json.load, json.loads, pandas.read_csv = old


def program(h, argv, broken=False):
    """Exit status of the program."""
    Sim.log, Sim.broken = [], broken
    old = sys.argv, sys.stdout, sys.stderr
    with patched(h, "src.var_bayes.simulation", "Simulation", Sim), open(os.devnull, "w") as null:
        sys.argv, sys.stderr = ["vgpa_main.py"] + argv, null
        if not h.symbolic:
            sys.stdout = null
        try:
            h.script("vgpa_main")
        except SystemExit as e:
            return 0 if e.code is None else e.code
        finally:
            sys.argv, sys.stdout, sys.stderr = old
    return 0


def commands(h):
    """The program and its arguments."""
    par = h.choice("params", [True, False])
    dat = h.choice("data", [True, False])
    swap, joined = h.choice("swap", [True, False]), h.choice("joined", [True, False])
    broken, lacking = h.choice("broken", [True, False]), h.choice("lacking", [True, False])
    doc = {k: f"value of {k}" for k in KEYS if not (lacking and k == "Noise")}
    t, y = h.ints([2, 5, 9]), h.vec("y", 3)
    with files(h, doc, t, y) as (p, d):
        opts = ([["--params", p]] if par else []) + ([["--data", d]] if dat else [])
        if swap:
            opts.reverse()
        argv = ["=".join(o) for o in opts] if joined else [a for o in opts for a in o]
        st = program(h, argv, broken)
    log = Sim.log
    steps = [e[0] for e in log]
    if not par or lacking:
        h.true("fails", st != 0)
        h.same("nothing is run", steps, [])
        return
    if broken:
        h.true("errors reach the shell", st != 0)
        h.same("stops at the error", steps, ["new", "setup"])
    else:
        h.same("succeeds", st, 0)
        h.same("steps", steps, ["new", "setup", "run", "save"])
    h.same("name", log[0][1], doc["Output_Name"])
    h.same("parameters", dict(log[1][1]), doc)
    if dat:
        got = log[1][2]
        h.same("pair", len(got), 2)
        h.same("times", [int(v) for v in got[0]], [2, 5, 9])
        h.eq("values", h.arr(list(got[1])), y)
    else:
        h.true("no data", log[1][2] is None)


def harnesses(thorough):
    return [("validate", validate, {}, dict(max_paths=1200)), ("main", main, {}, dict(max_paths=1200)),
            ("names", names, {}), ("data", data, {}),
            ("commands", commands, {})]
