"""C08: every row visits every node of its chain in order; a sink's rows all go on, in order."""
from walk import *

RULE = ("All traces of the chain walker with its recursive calls kept opaque: the visited position starts at the given "
        "node and grows by one per iteration up to the node count of the given chain; a sink is called exactly once with "
        "the rows left so far; the rows it leaves are passed on as an in-order cover (recursion at the next node for all "
        "but the carried one); merge and split nodes hand the row to each target chain from its first node and keep "
        "the row for the rest of the chain; a failing call ends the walk with that failure.")


def run(ctx):
    m = model(ctx)
    Walk(ctx, m.rowfn, WRITE_ROW, True).run()
