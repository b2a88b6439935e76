"""Set-up: nothing to build; verifies that the code under test and the engine can be used offline."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "lib"))
import mc  # noqa
import env  # noqa

# the explorer enumerates every leaf of a tree exactly once
seen = []
class _S:  # noqa
    ID = "self"
ctx = mc.Ctx("self", {}, "quick", float("inf"))
def execute(ch):
    a = ch.choose(3)
    seen.append((a,) + tuple(ch.choose(2) for _ in range(a)))
ctx.explore(execute)
assert len(seen) == len(set(seen)) == 1 + 2 + 4, seen
assert mc.outcome(lambda: 1) == ("ok", 1)
def loop():
    while True:
        pass
assert mc.outcome(loop, limit=0.2)[0] == "hang"
print("engine and code under test usable:", env.pymars.__file__)
