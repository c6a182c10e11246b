"""U02: failures of actions leave the undo history usable."""
from .. import undo_harness as uh

LEVEL = "model_checking"
ASSUMPTIONS = ["after an action failed while being undone or redone the document itself is not defined, only the stack is",
               "single threaded use"]
SA = ["set", "a", 1]
ALPHA = [SA, ["add", "b"], ["undo"], ["redo"], ["fail_do"], ["badundo", "c"], ["badredo", "c"],
         ["gfail", []], ["gfail", [["set", "a", 2], ["add", "b"]]], ["group", [SA, ["add", "b"]]]]
ALPHA2 = [SA, ["undo"], ["redo"], ["group", [SA, ["badundo", "c"], ["add", "b"]]],
          ["group", [["badredo", "c"], ["add", "b"]]], ["gfail", [SA, ["badundo", "c"]]],
          ["group", [["set", "a", 3], ["gfail", [SA]], ["add", "b"]]],
          ["gfail", [["add", "b"], ["group", [SA]]]]]
ALPHA3 = [SA, ["undo"], ["redo"], ["fail_do"], ["badundo", "c"], ["badredo", "c"], ["gfail", [SA, ["add", "b"]]], ["group", [SA, ["badundo", "c"]]]]


def explore(ctx):
    uh.explore_histories(ctx, "failures", ALPHA, ["state"], ctx.pick(5, 6), memory=2)
    uh.explore_histories(ctx, "group-failures", ALPHA2, ["state"], ctx.pick(5, 6), memory=2)
    kinds = [["raise", k] for k in uh.KINDS]
    uh.explore_histories(ctx, "kinds", kinds + ALPHA3, ["state"], ctx.pick(4, 5), memory=2)


replay = uh.replay
