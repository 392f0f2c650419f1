import sys
from vlib import core


def main():
    args = sys.argv[1:]
    if "--selfcheck" in args:  # setup: the interpreter and the package are there
        import numpy  # noqa: F401
        import seyfert  # noqa: F401
        sys.exit(0)
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = args[i + 1]
        del args[i:i + 2]
    sys.exit(core.run(f"checks.{args[0]}", replay))


main()
