"""Registry of contracts."""
CONTRACTS = []


class Contract:
    def __init__(self, prop, name, fn, functions, bounded, runs, doc, quick):
        self.prop, self.name, self.fn = prop, name, fn
        self.functions = functions
        self.bounded = bounded
        self.runs = runs
        self.doc = doc
        self.quick = quick

    @property
    def id(self):
        return "%s.%s" % (self.prop, self.name)


def contract(prop, name, functions=(), bounded=None, runs=(6, 60), symbolic=True, shards=0):
    """prop: property id; functions: the functions of /repo whose bodies this contract executes;
    bounded: text of the bound when some dimension or option is fixed instead of universally quantified;
    runs: number of random concrete executions (quick, thorough)."""
    def deco(fn):
        c = Contract(prop, name, fn, list(functions), bounded, runs, (fn.__doc__ or "").strip(), symbolic)
        c.symbolic = symbolic
        c.shards = shards           # number of options of the contract's first choice: explored in parallel
        CONTRACTS.append(c)
        return fn
    return deco


def load_all():
    import importlib
    import os
    import pathlib
    import sys
    root = pathlib.Path(__file__).resolve().parent.parent
    sys.path.insert(0, str(root))
    for f in sorted((root / "contracts").glob("*.py")):
        if f.name != "__init__.py":
            importlib.import_module("contracts." + f.stem)
    return CONTRACTS


def for_prop(prop):
    return [c for c in CONTRACTS if c.prop == prop]
