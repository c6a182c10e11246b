"""U03: what the undo stack reports about itself."""
from .. import undo_harness as uh

LEVEL = "model_checking"
ASSUMPTIONS = ["single threaded use", "undo/redo/clear/savepoint are not called from inside an open group"]
SA, SB = ["set", "a", 1], ["set", "a", 2]
ALPHA = [SA, SB, ["add", "b"], ["undo"], ["redo"], ["save"], ["clear"], ["group", [SA, ["add", "b"]]],
         ["badredo", "c"]]
TEXTS = [["note", "a"], ["one", "b"], ["none", "a"], ["ret", "b"], ["undo"], ["redo"], ["group", [["note", "a"], ["one", "b"], ["none", "a"]]], ["save"]]


def explore(ctx):
    uh.explore_histories(ctx, "reports", ALPHA, ["report"], ctx.pick(6, 7), memory=1)
    uh.explore_histories(ctx, "texts", TEXTS, ["state", "report"], ctx.pick(4, 6), memory=1)
    ctx.each("long", uh.long_cases(ctx, ["report"]), uh.long_history)


replay = uh.replay
