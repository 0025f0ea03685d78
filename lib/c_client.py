"""C20, C21: private messages of the real client."""
import os
from vlib import *

RIGHT = dict(SaveFirst="TRUE", ShowFirst="TRUE", Resend='"same"', BindTags="TRUE")
SAFE = ["OnceInOrder", "NoKeyTwice", "NothingForgotten", "AckedShown", "ShownOnce", "ShownInOrder", "NoWrongAck"]


def impl(ctx, kills):
    B = dict(RIGHT, NT=2, NS=2, MaxCut=ctx.pick(1, 2) if kills else 2, MaxKill=kills)
    model_check(ctx, "ClientImpl", "sessions end, %d kills" % kills, B, SAFE, reach=["Resent"] + (["TwiceShown", "Lost"] if kills else []), timeout=3000)
    L = dict(RIGHT, NT=2, NS=1, MaxCut=1, MaxKill=kills)
    model_check(ctx, "ClientImpl", "everything arrives", L, ["OnceInOrder"], ["AllArrive", "AllShown"], timeout=1200)
    W = dict(RIGHT, NT=2, NS=2, MaxCut=1, MaxKill=1)
    if kills:
        expect_model_violation(ctx, "ClientImpl", "saved after sending", dict(W, SaveFirst="FALSE"), ["NoKeyTwice"])
        expect_model_violation(ctx, "ClientImpl", "shown after saving", dict(W, ShowFirst="FALSE"), ["AckedShown"])
    else:
        expect_model_violation(ctx, "ClientImpl", "not sent again", dict(W, Resend='"no"', MaxKill=0), ["NothingForgotten"])
        expect_model_violation(ctx, "ClientImpl", "encrypted again", dict(W, Resend='"new"', MaxKill=0), ["OnceInOrder"])
        expect_model_violation(ctx, "ClientImpl", "tags of an earlier session", dict(W, BindTags="FALSE", MaxKill=0, NT=0, NS=3), ["AckedShown"])


P = dict(Peers='{"p","q"}')
IDS = os.path.join(VERIF, "harness", "ids")
CALLS = '{"write", "write", "renameat", "fsync", "openat", "close"}'


def msgs(ctx, kills, num, length):
    os.environ["ZKC_IDS"] = IDS
    zkc = build_repo(ctx, "./zkclient", "zkclient")
    beh = simulate(ctx, "ClientMsgsGen", dict(P, Len0=length, Kills="TRUE" if kills else "FALSE", Calls=CALLS), num, length + 5, spec="GSpec")
    evs = replay_par(ctx, ["clmsg", zkc, "p,q"], beh, "ClientMsgsTrace", P, "private messages", jobs=8, timeout=800)
    if evs:
        ctx.sample({"behaviour": beh[0][:8], "recorded": evs[:4]})

    def corrupt(e):
        for x in e:
            if len(x["obs"]["shown"]["p"]) > 2:
                x["obs"] = json.loads(json.dumps(x["obs"]))
                s = x["obs"]["shown"]["p"]
                s[-1], s[-2] = s[-2], s[-1]
                return e
    binding_control(ctx, "ClientMsgsTrace", evs[:400], P, corrupt, "shown out of order")


def c20(ctx):
    impl(ctx, 0)
    msgs(ctx, False, ctx.pick(160, 800), ctx.pick(22, 40))


def c21(ctx):
    impl(ctx, 1)
    msgs(ctx, True, ctx.pick(200, 1000), ctx.pick(16, 30))


FSAFE = ["Intact", "ToldOnlyComplete", "OncePerSend"]


def c19(ctx):
    B = dict(NF=3, MaxDie=ctx.pick(2, 3), PerFile="TRUE", Rewrite="TRUE", Fresh="TRUE")
    model_check(ctx, "Files", "three files, the client dies", B, FSAFE, ["Kept", "AllArrive"], reach=["Half"], timeout=2400)
    W = dict(B, MaxDie=1)
    expect_model_violation(ctx, "Files", "one descriptor per sender", dict(W, PerFile="FALSE", MaxDie=0), [], ["AllArrive"])
    expect_model_violation(ctx, "Files", "half a part stays", dict(W, Rewrite="FALSE"), [], ["AllArrive"])
    expect_model_violation(ctx, "Files", "name in use", dict(W, Fresh="FALSE", MaxDie=0), [], ["Kept"])
    os.environ["ZKC_IDS"] = IDS
    zkc = build_repo(ctx, "./zkclient", "zkclient")
    beh = simulate(ctx, "FilesGen", dict(P, Len0=ctx.pick(14, 30), Calls=CALLS[:-1] + ', "unlinkat", "time"}'), ctx.pick(240, 1600), 60, spec="GSpec")
    evs = replay_par(ctx, ["clfile", zkc, "p,q"], beh, "FilesTrace", P, "files", jobs=8, timeout=800)
    if evs:
        ctx.sample({"behaviour": beh[0][:8], "recorded": evs[:4]})

    def corrupt(e):
        for x in e:
            if len(x["obs"]["area"]) > 2:
                x["obs"] = json.loads(json.dumps(x["obs"]))
                x["obs"]["area"].pop()
                return e
    binding_control(ctx, "FilesTrace", evs[:300], P, corrupt, "a file that is gone")


KX = dict(Peers='{"p","q","r"}', Old='"p"')


def c17(ctx):
    B = dict(CheckFrom="TRUE", CheckValid="TRUE", StoreReply="TRUE", SaveFirst="TRUE", Crossing="FALSE", Again="FALSE", MaxDie=ctx.pick(2, 3), MaxForge=ctx.pick(2, 3))
    inv = ["TrueIdentity", "Authentic"]
    model_check(ctx, "KX", "two clients and a third party", B, inv, ["CanTalk", "Kept"], reach=["Talk"], timeout=2400)
    W = dict(B, MaxDie=0, MaxForge=1)
    expect_model_violation(ctx, "KX", "anybody can begin for anybody", dict(W, CheckFrom="FALSE"), ["Authentic"], [])
    expect_model_violation(ctx, "KX", "identities not verified", dict(W, CheckFrom="FALSE", CheckValid="FALSE"), ["TrueIdentity"], [])
    expect_model_violation(ctx, "KX", "answer not stored", dict(W, MaxDie=1, MaxForge=0, StoreReply="FALSE"), [], ["CanTalk"])
    expect_model_violation(ctx, "KX", "answered before saved", dict(W, MaxForge=0, SaveFirst="FALSE"), [], ["CanTalk"])
    expect_model_violation(ctx, "KX", "begins twice", dict(W, MaxForge=0, Again="TRUE", SaveFirst="FALSE"), [], ["CanTalk"])
    expect_model_violation(ctx, "KX", "both begin", dict(W, MaxForge=0, Crossing="TRUE"), [], ["CanTalk"])
    os.environ["ZKC_IDS"] = IDS
    zkc = build_repo(ctx, "./zkclient", "zkclient")
    beh = simulate(ctx, "KxGen", dict(KX, Len0=ctx.pick(16, 30), Calls=CALLS[:-1] + ', "unlinkat", "time"}'), int(os.environ.get("KXN") or ctx.pick(120, 1600)), 60, spec="GSpec")
    evs = replay_par(ctx, ["clkx", zkc, "p,q,r"], beh, "KxTrace", KX, "exchange", jobs=8, timeout=800)
    if evs:
        ctx.sample({"behaviour": beh[0][:8], "recorded": evs[:4]})
        made = sum(1 for x, y in zip(evs, evs[1:]) for p in "qr" if y["op"] != "reset" and y["obs"]["in"][p] and not x["obs"]["in"][p])
        ctx.add(contacts_made=made)
        if made < len(beh) // 4 and not ctx.violations:
            raise CheckError("only %d contacts were made" % made)

    def corrupt(e):
        for x in e:
            if x["op"] in ("hello", "answer") and x["obs"]["in"][x["p"]] and x["obs"]["ids"][x["p"]] == "true":
                x["obs"] = json.loads(json.dumps(x["obs"]))
                x["obs"]["in"][x["p"]] = False
                return e
    binding_control(ctx, "KxTrace", evs[:600], KX, corrupt, "a contact that cannot be read")


CHECKS = {"C17": (c17, "model_checking"), "C19": (c19, "model_checking"), "C20": (c20, "model_checking"), "C21": (c21, "model_checking")}
