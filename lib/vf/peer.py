"""Helper processes with another hash seed, which answer questions about cases."""

from __future__ import annotations

import base64
import importlib
import json
import os
import pickle
import subprocess
import sys
import traceback
from pathlib import Path

LIB = Path(__file__).resolve().parents[1]
_PEERS: dict = {}


class Peer:
    def __init__(self, module: str, seed: int) -> None:
        self.process = subprocess.Popen(  # ends when its input ends
            [sys.executable, "-u", str(LIB / "peer_main.py"), module],
            env={**os.environ, "PYTHONHASHSEED": str(seed)},
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            text=True,
        )

    def ask(self, question: dict, objects: bytes):
        self.process.stdin.write(json.dumps({**question, "objects": base64.b64encode(objects).decode()}) + "\n")
        self.process.stdin.flush()
        answer = self.process.stdout.readline()
        if not answer:
            from vf.harness import HarnessError

            raise HarnessError("helper process has ended")
        return json.loads(answer)


def get(module: str, seed: int) -> Peer:
    key = (module, seed, os.getpid())
    if key not in _PEERS:
        _PEERS[key] = Peer(module, seed)
    return _PEERS[key]


def forget() -> None:
    """After an interruption, answers may belong to earlier questions."""
    for peer in _PEERS.values():
        peer.process.kill()
        peer.process.wait()
    _PEERS.clear()


def serve(module: str) -> None:
    """Loop of the helper process: the module has a function `answer`."""
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    answer = importlib.import_module(module).answer
    for line in sys.stdin:
        question = json.loads(line)
        blob = base64.b64decode(question.pop("objects"))
        try:
            result = answer(question, lambda blob=blob: pickle.loads(blob))  # noqa: S301
        except Exception:  # noqa: BLE001
            result = {"error": traceback.format_exc(limit=-8)}
        out.write(json.dumps(result) + "\n")
        out.flush()
