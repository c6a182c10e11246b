"""
Reference model and driver of the generic undo stack (bgem.undo).

The model is a plain linear history: a list of document snapshots with a cursor.  The driver executes
an operation list on a fresh real Stack and on the model side by side and compares everything a user can
observe after every single operation.

Operations (JSON lists):
 ["set", k, v]                elementary action: document[k] = v, returns (old, v)
 ["add", k]                   elementary action whose undo part itself calls an undoable action
 ["group", [ops]]             group of elementary actions or further groups
 ["gfail", [ops]]             group whose body raises after performing ops
 ["note", k], ["one", k]      actions yielding the text alone: as a string, as a tuple of one; with two returned values ["two", k]
 ["fail_do"]                  an action raising while done the first time
 ["badundo", k]               an action which raises when it is undone
 ["badredo", k]               an action which raises when it is done again
 ["raise", kind]              from now on failing actions raise exceptions of this kind
 ["undo"], ["redo"], ["clear"], ["save"]
 ["off", k]                   disable recording, perform an action on a private key, enable again
 ["off_undo", k]              disable, undo, perform an action on a private key, enable again
 ["off_group", k]             disable, perform a whole group on a private key, enable
 ["off_clear", k]             disable, clear, perform an action on a private key, enable
 ["switch"]                   make the other of two stacks the current one
"""
import copy

from bgem import undo
from .core import require


# Exceptions raised by failing actions, of all kinds.
KINDS = {c.__name__: type("Boom" + c.__name__, (c,), {}) for c in
         (Exception, BaseException, KeyboardInterrupt, SystemExit, GeneratorExit, AssertionError, ValueError, KeyError, IndexError, AttributeError, OSError, MemoryError)}
Boom = tuple(KINDS.values())
BOOM = ["Exception", None]          # kind and instance raised the last time


def boom(where):
    BOOM[1] = KINDS[BOOM[0]](where)
    return BOOM[1]


def same(e):
    require(e is BOOM[1], "an other exception reached the caller: {!r}", e)


class Doc:
    """A document per stack, edited only through undoable actions."""

    def __init__(self):
        self.d = {}
        self.serial = 0
        self.redo_fail = set()


def make_actions(doc):
    @undo.undoable
    def set_(k, v):
        had, old = k in doc.d, doc.d.get(k)
        doc.d[k] = v
        yield "set {}={}".format(k, v), old, v
        if had:
            doc.d[k] = old
        else:
            del doc.d[k]

    @undo.undoable
    def sub(k):
        doc.d[k] = doc.d.get(k, 0) - 1
        if doc.d[k] == 0:
            del doc.d[k]
        yield "sub " + k
        add(k)

    @undo.undoable
    def add(k):
        doc.d[k] = doc.d.get(k, 0) + 1
        yield "add " + k, doc.d[k]
        sub(k)

    def plain(text):
        def action(k):
            doc.d[k] = doc.d.get(k, 0) + 1
            yield text(k)
            doc.d[k] -= 1
            if doc.d[k] == 0:
                del doc.d[k]
        return undo.undoable(action)

    note = plain(lambda k: "note " + k)
    one = plain(lambda k: ("one " + k,))
    none = plain(lambda k: None)
    ret1 = plain(lambda k: ("ret " + k, [k]))

    @undo.undoable
    def fail_do():
        raise boom("do")
        yield "never"

    @undo.undoable
    def badundo(k):
        doc.d[k] = doc.d.get(k, 0) + 10
        yield "badundo"
        raise boom("undo")

    @undo.undoable
    def badredo(token, k):
        if token in doc.redo_fail:
            raise boom("redo")
        doc.redo_fail.add(token)
        old = doc.d.get(k)
        doc.d[k] = (old or 0) + 100
        yield
        if old is None:
            del doc.d[k]
        else:
            doc.d[k] = old

    return dict(note=note, one=one, none=none, ret=ret1, set=set_, add=add, fail_do=fail_do, badundo=badundo, badredo=badredo)


class Model:
    """Boring reference: recorded steps (text, before, after, undo_fails, redo_fails) and a cursor."""

    def __init__(self):
        self.doc = {}
        self.done = []
        self.undone = []
        self.saved = None          # None, or the position marker (identity of the top step)
        self.ndo = 0
        self.nundo = 0
        self.serial = 0

    def top(self):
        return self.done[-1]["id"] if self.done else 0

    def record(self, text, before, bad=None):
        self.serial += 1
        self.done.append(dict(id=self.serial, text=text, before=before, after=copy.deepcopy(self.doc), bad=bad))
        self.undone = []
        self.ndo += 1

    def clear(self):
        self.done, self.undone, self.saved = [], [], None

    def canon(self):
        items = lambda d: sorted((k, v) for k, v in d.items() if not k.startswith("_"))
        return (items(self.doc),
                [(s["text"], items(s["before"]), s["bad"]) for s in self.done],
                [(s["text"], items(s["after"]), s["bad"]) for s in self.undone],
                None if self.saved is None else
                [i for i, s in enumerate([dict(id=0)] + self.done + self.undone) if s["id"] == self.saved])


def norm(d):
    return {k: v for k, v in d.items()}


class Sut:
    def __init__(self, stack=None):
        self.stack = stack or undo.Stack()
        self.doc = Doc()
        self.act = make_actions(self.doc)
        self.model = Model()
        self.ndo = 0
        self.nundo = 0

        self.seen = None

        def did():
            self.ndo += 1
            self.seen = self.report()

        def undid():
            self.nundo += 1
            self.seen = self.report()
        self.stack.docallback = did
        self.stack.undocallback = undid


    def report(self):
        st = self.stack
        return st.canundo(), st.canredo(), st.undocount(), st.redocount(), st.undotext(), st.redotext(), st.haschanged()


class Run:
    def __init__(self, aspects):
        self.aspects = aspects
        # the first stack is the default one: none is set, it is made by the first request
        undo.setstack(None)
        first = undo.stack()
        require(isinstance(first, undo.Stack) and undo.stack() is first, "default stack is not created and kept")
        self.suts = [Sut(first), Sut()]
        self.cur = 0

    @property
    def sut(self):
        return self.suts[self.cur]

    # --- elementary actions, also inside groups: execute on the real code, update model document only
    def elem(self, op):
        s = self.sut
        m = s.model
        kind = op[0]
        if kind == "set":
            k, v = op[1], op[2]
            old = m.doc.get(k)
            ret = s.act["set"](k, v)
            require(ret == (old, v), "action returned {} instead of {}", ret, (old, v))
            m.doc[k] = v
            return "set {}={}".format(k, v), None
        if kind == "add":
            k = op[1]
            ret = s.act["add"](k)
            m.doc[k] = m.doc.get(k, 0) + 1
            require(ret == m.doc[k], "action returned {} instead of {}", ret, m.doc[k])
            return "add " + k, None
        if kind in ("note", "one", "none", "ret"):
            k = op[1]
            ret = s.act[kind](k)
            require(ret == ([k] if kind == "ret" else None), "action returned {}", ret)
            m.doc[k] = m.doc.get(k, 0) + 1
            return (kind + " " + k if kind != "none" else ""), None
        if kind == "badundo":
            k = op[1]
            ret = s.act["badundo"](k)
            require(ret is None, "action returned {} instead of nothing", ret)
            m.doc[k] = m.doc.get(k, 0) + 10
            return "badundo", "undo"
        if kind == "badredo":
            k = op[1]
            s.doc.serial += 1
            ret = s.act["badredo"](s.doc.serial, k)
            require(ret is None, "action returned {} instead of nothing", ret)
            m.doc[k] = m.doc.get(k, 0) + 100
            return "", "redo"
        raise AssertionError(op)

    def body(self, ops):
        """Perform the ops of a group, return (number of members, bad)."""
        bad = None
        n = 0
        for o in ops:
            if o[0] == "group":
                with undo.group("inner {count}"):
                    _, b = self.body(o[1])
            elif o[0] == "gfail":
                k0 = 0
                try:
                    with undo.group("inner {count}"):
                        k0, b = self.body(o[1])
                        raise boom("body")
                except Boom as e:
                    same(e)
                    pass
                if k0 == 0:
                    n -= 1
            else:
                _, b = self.elem(o)
            n += 1
            bad = bad or b
        return n, bad

    def step(self, op):
        s = self.sut
        m = s.model
        kind = op[0]
        s.seen = None
        before = copy.deepcopy(m.doc)
        if kind == "raise":
            BOOM[0] = op[1]
        elif kind in ("set", "add", "badundo", "badredo", "note", "one", "none", "ret"):
            text, bad = self.elem(op)
            m.record(text, before, bad)
        elif kind == "group":
            with undo.group("Group of {count}"):
                n, bad = self.body(op[1])
            m.record("Group of {}".format(n), before, bad)
        elif kind == "gfail":
            raised = False
            n, bad = 0, None
            try:
                with undo.group("Group of {count}"):
                    n, bad = self.body(op[1])
                    raise boom("body")
            except Boom as e:
                same(e)
                raised = True
            require(raised, "the exception of the group body was swallowed")
            # what was completed before the failure stays undoable
            if n:
                m.record("Group of {}".format(n), before, bad)
        elif kind == "fail_do":
            try:
                s.act["fail_do"]()
                require(False, "the exception of a failing action was swallowed")
            except Boom as e:
                same(e)
                pass
        elif kind == "undo":
            if m.done:
                if m.done[-1]["bad"] == "undo":
                    try:
                        s.stack.undo()
                        require(False, "the exception raised while undoing was swallowed")
                    except Boom as e:
                        same(e)
                        pass
                    m.doc = copy.deepcopy(s.doc.d)      # aborted: contents are not defined
                    m.clear()
                else:
                    s.stack.undo()
                    st = m.done.pop()
                    m.doc = copy.deepcopy(st["before"])
                    m.undone.append(st)
                    m.nundo += 1
            else:
                s.stack.undo()
        elif kind == "redo":
            if m.undone:
                if m.undone[-1]["bad"] == "redo":
                    try:
                        s.stack.redo()
                        require(False, "the exception raised while redoing was swallowed")
                    except Boom as e:
                        same(e)
                        pass
                    m.doc = copy.deepcopy(s.doc.d)
                    m.clear()
                else:
                    s.stack.redo()
                    st = m.undone.pop()
                    m.doc = copy.deepcopy(st["after"])
                    m.done.append(st)
                    m.ndo += 1
            else:
                s.stack.redo()
        elif kind == "clear":
            s.stack.clear()
            m.clear()
        elif kind == "save":
            s.stack.savepoint()
            m.saved = m.top()
        elif kind in ("off", "off_undo", "off_group", "off_clear"):
            # private key: never touched by recorded actions
            from bgem.polygons import polygons as pg
            pg.disable_undo()
            if kind == "off_undo":
                s.stack.undo()
                if m.done:
                    st = m.done.pop()
                    m.doc = {k: v for k, v in st["before"].items() if not k.startswith("_")}
                    m.doc.update({k: v for k, v in before.items() if k.startswith("_")})
                    m.undone.append(st)
                    m.nundo += 1
            elif kind == "off_clear":
                s.stack.clear()
                m.clear()
            k = "_" + op[1]
            if kind == "off_group":
                with undo.group("hidden"):
                    s.act["add"](k)
            s.act["add"](k)
            m.doc[k] = s.doc.d[k]
            pg.enable_undo()
        elif kind == "switch":
            self.cur = 1 - self.cur
            undo.setstack(self.sut.stack)
            require(undo.stack() is self.sut.stack, "setstack did not change the current stack")
        else:
            raise AssertionError(op)

    def compare(self, op):
        for i, s in enumerate(self.suts):
            m, st = s.model, s.stack
            pub = lambda d: {k: v for k, v in d.items() if not k.startswith("_")}
            if "state" in self.aspects:
                require(pub(s.doc.d) == pub(m.doc),
                        "document of stack {} is {} instead of {}", i, s.doc.d, m.doc)
                require(st.canundo() == bool(m.done), "canundo is {} with {} undoable actions", st.canundo(), len(m.done))
                require(st.canredo() == bool(m.undone), "canredo is {} with {} redoable actions", st.canredo(),
                        len(m.undone))
                require(st.undocount() == len(m.done), "undocount {} instead of {}", st.undocount(), len(m.done))
            if "report" in self.aspects:
                require(s.seen is None or s.seen == s.report(), "state reported in the callback {} instead of {}", s.seen, s.report())
                s.seen = None
                require(st.undocount() == len(m.done), "undocount {} instead of {}", st.undocount(), len(m.done))
                require(st.redocount() == len(m.undone), "redocount {} instead of {}", st.redocount(), len(m.undone))
                ut = ("Undo " + m.done[-1]["text"]).strip() if m.done else None
                rt = ("Redo " + m.undone[-1]["text"]).strip() if m.undone else None
                require(st.undotext() == ut, "undotext {!r} instead of {!r}", st.undotext(), ut)
                require(st.redotext() == rt, "redotext {!r} instead of {!r}", st.redotext(), rt)
                require(s.ndo == m.ndo, "done callback called {} times instead of {}", s.ndo, m.ndo)
                require(s.nundo == m.nundo, "undone callback called {} times instead of {}", s.nundo, m.nundo)
                ch = m.saved is None or m.saved != m.top()
                require(st.haschanged() == ch, "haschanged is {} instead of {}", st.haschanged(), ch)

    def drain(self):
        """Undo everything, redo everything, undo everything: all intermediate states must match."""
        for i in (0, 1):
            self.cur = i
            undo.setstack(self.sut.stack)
            if any(x["bad"] for x in self.sut.model.done + self.sut.model.undone):
                continue
            for ops in (["undo"], ["redo"], ["undo"]):
                for _ in range(len(self.sut.model.done) + len(self.sut.model.undone) + 1):
                    self.step(ops)
                    self.compare(ops)

    def canon(self):
        return [s.model.canon() for s in self.suts], self.cur, BOOM[0]


def run(history, aspects, drain=True):
    """Execute the history with full comparison after every operation; return the canonical state."""
    saved = undo._stack if hasattr(undo, "_stack") else None
    BOOM[0] = "Exception"
    r = Run(aspects)
    try:
        for op in history:
            r.step(op)
            r.compare(op)
        c = r.canon()
        if drain:
            r.drain()
        return c
    finally:
        undo.setstack(saved)


def long_history(case, out):
    """A long history is undone and redone as a whole."""
    kind, n, aspects = case
    saved = undo._stack if hasattr(undo, "_stack") else None
    r = Run(aspects)
    one = {"set": lambda i: ["set", "a", i], "add": lambda i: ["add", "b"], "groups": lambda i: ["group", [["set", "a", i], ["add", "b"]]],
           "mixed": lambda i: [["set", "ab"[i % 2], i], ["group", [["add", "c"]]], ["add", "d"]][i % 3]}
    try:
        if kind == "members":
            ops = [["add", "a"], ["group", [["set", "b", i] for i in range(n)]], ["add", "c"]]
        elif kind == "deep":
            g = [["add", "a"]]
            for i in range(n):
                g = [["set", "b", i], ["group", g], ["add", "c"]]
            ops = [["add", "a"], ["group", g], ["add", "c"]]
        else:
            ops = [one[kind](i) for i in range(n)]
        for op in ops + [["undo"]] * (len(ops) + 2) + [["redo"]] * (len(ops) + 2) + [["undo"]] * (len(ops) // 2) + [["set", "z", 1]] + [["undo"]] * (len(ops) + 2):
            r.step(op)
            r.compare([op[0], kind, n])
            out.transitions += 1
    finally:
        undo.setstack(saved)
    out.states += 1
    out.outcomes.add((kind, n))


def long_cases(ctx, aspects):
    for kind in ("set", "add", "groups", "mixed", "members"):
        for n in [2 ** k + d for k in range(3, ctx.pick(13, 16)) for d in (-1, 0, 1)] + [100, 1000, 5000]:
            yield [kind, n, aspects]
    for n in range(1, 33):
        yield ["deep", n, aspects]


def explore_histories(ctx, name, alphabet, aspects, depth, memory=1):
    """BFS; canonical form = model state + last `memory` operations (so that what an operation leaves
    behind invisibly in the stack is exercised by every possible continuation)."""
    from . import core

    def expand(h, out):
        res = []
        out.extra["expanded"] += 1
        for op in alphabet:
            hist = h + [op]
            if op[0] == "switch" and h and h[-1][0] == "switch":
                continue
            c, err = core.guarded(run, hist, aspects)
            out.transitions += 1
            out.traces += 1
            if err is not None:
                out.violations.append((len(hist), name + ":" + repr(hist), err, {"space": name, "case": hist, "aspects": list(aspects)}))
                continue
            out.outcomes.add(core.canon_hash(c[0])[:6])
            res.append(((c, hist[-memory:] if memory else None), op))
        return res
    ctx.bfs(name, [[]], expand, depth, chunk=16)


def replay(case):
    if case["space"] == "long":
        from . import core
        return long_history(case["case"], core.Out())
    run(case["case"], case["aspects"])
    return []
