import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import fwd
import vlib


def check(c):
    fwd.run(c, list(fwd.COMP))


vlib.main(check, "C23")
