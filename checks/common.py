import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, core            # noqa
from vlib.core import Check, Out, run, run2, Scratch, write_tree, sig  # noqa


def built(fn, *a):
    """A build failure is an error of the check, never a verdict."""
    try:
        return fn(*a)
    except build.BuildError as e:
        print('cannot build:', e, file=sys.stderr)
        sys.exit(3)
