"""C12: the ini database."""
from vlib import *

TABLES = ["", "t1", "my table", "t-3"]
KEYS = ["a", "b b", "k;x", "[k]", "key.4", "0f3c"]
VALUES = ["", "1", "x=y", "a # b", "[t1]", "~{some}, text!", "z" * 120]


def tset(xs):
    return "{" + ",".join('"%s"' % x for x in xs) + "}"


def c12(ctx):
    P = dict(Protocol='"copy"', Checked="TRUE", Depth=1, Versions=ctx.pick(3, 5), Chunks=2)
    INV = ["OldOrNew", "Durable", "BackupBound"]
    model_check(ctx, "IniSave", "save protocol", P, INV, reach=["CrashedHalf"], constraints=["Few"])
    for weak in (dict(P, Protocol='"move"'), dict(P, Protocol='"inplace"'), dict(P, Checked="FALSE")):
        expect_model_violation(ctx, "IniSave", str(weak), weak, ["OldOrNew", "Durable"], constraints=["Few"])
    model_check(ctx, "Inidb", "map", dict(Tables='{"","t"}', Keys='{"a","b"}', Values='{"1","2"}', Depth=2),
                ["OneValue", "InTable"], timeout=900) if ctx.thorough else \
        model_check(ctx, "Inidb", "map", dict(Tables='{"","t"}', Keys='{"a"}', Values='{"1","2"}', Depth=2), ["OneValue", "InTable"])
    C = dict(Tables=tset(TABLES), Keys=tset(KEYS), Values=tset(VALUES), Depth=10)
    beh = simulate(ctx, "InidbGen", dict(C, Len0=40, Faults="FALSE"), ctx.pick(150, 2000), 43, spec="GSpec")
    evs = replay(ctx, ["inidb", "-"], beh, "InidbTrace", C, "histories")
    if evs:
        ctx.sample({"behaviour": beh[0][:8], "recorded": evs[:6]})
    fb = simulate(ctx, "InidbGen", dict(C, Len0=14, Faults="TRUE"), ctx.pick(10, 120), 17, spec="GSpec", seed=ctx.seed + 5)
    big = [{"op": "newtable", "t": "t1"}] + [{"op": "set", "t": "t1", "k": "k%d" % i, "v": VALUES[-1] * 4} for i in range(12)] + \
          [{"op": "save"}, {"op": "set", "t": "t1", "k": "k0", "v": "new"}, {"op": "del", "t": "t1", "k": "k1"}, {"op": "savefault"}]
    fe = replay(ctx, ["inifault", ctx.pick(60, 400)], [[{"op": "savefault"}], big] + fb, "InidbTrace", C, "faults", timeout=850)
    ctx.log("%d saves with a fault, of them %d reported an error, %d killed" % (
        sum(e["op"].startswith("fault") for e in fe), sum(e.get("rc") == 3 for e in fe), sum(e.get("rc", 0) > 128 for e in fe)))
    if fe:
        ctx.sample({"faults": [{k: e[k] for k in ("op", "point", "rc")} for e in fe if e["op"].startswith("fault")][:12]})

    def corrupt(e):
        for x in reversed(e):
            if x["op"] == "get" and x["res"] == "notfound":
                x["res"] = "1"
                return e
    binding_control(ctx, "InidbTrace", evs[:1000], C, corrupt, "wrong value")
    ctx.assume("names and values are ones the ini format can carry (no newline, no leading/trailing blanks, no '=' in names)")
    ctx.assume("a crash is the death of the process; writes that completed are on disk")


CHECKS = {"C12": (c12, "model_checking")}
