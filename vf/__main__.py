import sys
import traceback

from .core import main

try:
    code = main(sys.argv[1:])
except Exception:
    # no answer (e.g. the sources do not build): neither 0 nor 1
    traceback.print_exc()
    code = 2
sys.exit(code)
