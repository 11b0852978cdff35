"""A warm process with its own configuration that executes plans on request."""
import json
import os
import sys


def main(k):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(null, fd)
    from sim import engine, surround
    surround.dress(k)
    engine.boot()
    from sim.checks.c12 import CHECK, warm
    warm()
    surround.settle(k)
    surround.WORLD.install()
    for line in inp:
        req = json.loads(line)
        r = engine.forked(engine.child(CHECK, req["plan"], 1, req["env"], req["verbose"]), 120)
        r["id"] = req["id"]
        out.write(json.dumps(r).encode() + b"\n")
        out.flush()


if __name__ == "__main__":
    main(int(sys.argv[1]))
