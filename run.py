"""python3 run.py C01 [--thorough]: decide one property on the current source of /repo."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    from checks import base
    sys.exit(base.main(mod, sys.argv[2:]))


if __name__ == "__main__":
    main()
