"""Entry point of helper processes (see vf/peer.py)."""

import os
import sys

import bootstrap

bootstrap.ensure()
sys.path.insert(0, os.path.join(bootstrap.HERE, "checks"))
sys.path.insert(0, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))

from vf import peer  # noqa: E402

peer.serve(sys.argv[1])
