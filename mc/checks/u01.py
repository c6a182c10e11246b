"""U01: undo/redo is an exact linear history."""
from .. import undo_harness as uh

LEVEL = "model_checking"
ASSUMPTIONS = ["actions follow the documented generator protocol; their undo part is an exact inverse",
               "single threaded use", "undo/redo/clear are not called from inside an open group"]
SA, SB = ["set", "a", 1], ["set", "a", 2]
ALPHA = [SA, SB, ["add", "b"], ["undo"], ["redo"], ["group", [SA, ["add", "b"]]], ["group", []],
         ["group", [SB, ["group", [["add", "b"], SA]], ["set", "a", 3]]], ["clear"]]
ALPHA2 = [SA, ["add", "b"], ["undo"], ["redo"], ["group", [SB, ["add", "b"]]], ["switch"],
          ["off", "x"], ["off_group", "x"], ["off_undo", "x"], ["off_clear", "x"]]


def explore(ctx):
    uh.explore_histories(ctx, "linear", ALPHA, ["state"], ctx.pick(6, 7), memory=1)
    uh.explore_histories(ctx, "stacks", ALPHA2, ["state"], ctx.pick(5, 6), memory=1)
    ctx.each("long", uh.long_cases(ctx, ["state"]), uh.long_history)


replay = uh.replay
