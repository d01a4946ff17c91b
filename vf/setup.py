"""Builds everything the checks use, from /repo's working tree (offline)."""
import glob
import os
import sys

from . import build


def main():
    for k in build.SAN:
        build.cli(k)
    for f in sorted(glob.glob(os.path.join(build.VERIF, 'native', '*.cc'))):
        if os.path.basename(f) != 'fuzz.cc':
            build.native(os.path.basename(f)[:-3])
    try:
        build.fuzzer('fuzz')
    except build.BuildError:
        pass  # the check says so
    for f in sorted(glob.glob(os.path.join(build.VERIF, 'native', '*.c'))):
        build.preload(os.path.basename(f)[:-2])
    return 0


if __name__ == '__main__':
    sys.exit(main())
