"""worlds for the demonstrations"""
import random

from common import *  # noqa
from framework import World, make_spec  # noqa


def world(rng, code, ok=None, **kw):
    """a world satisfying ok(w)"""
    for _ in range(400):
        spec = make_spec(rng, code, **kw)
        try:
            w = World(spec)
        except Exception as e:
            if type(e).__name__ == "Retry":
                continue
            raise
        if ok is None or ok(w):
            return w
    raise RuntimeError("no world")


def named(w):
    return w.args() + ["-kpnames=" + ",".join(w.spec["kp"])] + w.ref_args()
