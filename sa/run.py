"""entry point:  python -m sa.run --property K01 [--tier quick|thorough]"""
from __future__ import annotations

import argparse
import json
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--obligation", default=None)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    from .driver import check

    return check(a.property, a.tier, a.obligation, a.verbose)


if __name__ == "__main__":
    rc = [2]

    def body():
        rc[0] = main()

    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(60000)
    th = threading.Thread(target=body)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])
