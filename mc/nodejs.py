"""Talk to V8 (node) as an oracle."""

from __future__ import annotations

import json
import os
import subprocess

_node = None


class Node:
    def __init__(self):
        self.pid = os.getpid()
        self.proc = subprocess.Popen(
            ["node", "--stack-size=4000", os.path.join(os.path.dirname(__file__), "oracle.js")],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            env={**os.environ, "TZ": os.environ.get("TZ", "UTC")},
        )

    def batch(self, requests, size: int = 400):
        out = []
        for i in range(0, len(requests), size):
            part = requests[i : i + size]
            self.proc.stdin.write(json.dumps(part).encode() + b"\n")
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
            if not line:
                raise RuntimeError("node died")
            out.extend(json.loads(line))
        return out


def node() -> Node:
    global _node
    if _node is None or _node.pid != os.getpid():
        _node = Node()
    return _node


def batch(requests, size: int = 400):
    return node().batch(requests, size)


def tuplify(x):
    if isinstance(x, list):
        return tuple(tuplify(i) for i in x)
    return x


def table(reply):
    """(root, nodes) of a describe() reply."""
    return tuplify(reply["root"]), [tuplify(n) for n in reply["nodes"]]
