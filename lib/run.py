"""Entry point of all checks: run.py <property> [--tier T] [--replay FILE] ..."""

from __future__ import annotations

import argparse
import os
import sys

import bootstrap

bootstrap.ensure()
sys.path.insert(0, os.path.join(bootstrap.HERE, "checks"))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))


def main() -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--replay")
    parser.add_argument("--sub", action="append")
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--jobs", type=int, default=0)
    args = parser.parse_args()
    from vf import harness

    return harness.main(args)


if __name__ == "__main__":
    sys.exit(main())
