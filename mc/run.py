"""python -m mc.run C01 : run the check of one property."""
import importlib
import os
import sys

from mc import core


def main():
    prop = sys.argv[1]
    sys.path.insert(0, core.REPO)
    sys.dont_write_bytecode = True
    import warnings

    warnings.filterwarnings("ignore")
    mod = importlib.import_module("mc.checks." + prop.lower())

    def run(ctx):
        import hadar

        assert os.path.realpath(hadar.__file__).startswith(os.path.realpath(core.REPO) + os.sep), hadar.__file__
        mod.run(ctx)

    sys.exit(core.main(prop, mod.TITLE, mod.LEVEL, run, mod.RULE, getattr(mod, "ASSUMPTIONS", ())))


if __name__ == "__main__":
    main()
