"""C01-C03: the double ratchet."""
from vlib import *

INV = ["AtMostOnce", "Acceptable", "InStep", "NoFarFuture", "Erased", "SavedSane"]
PROPS = ["RefusalNeutral", "KeysKept"]


def mc(ctx, expiry=False):
    if expiry:
        model_check(ctx, "Ratchet", "expiry", dict(Limit=2, MaxMsgs=ctx.pick(4, 5), Lifetime=1, MaxTime=3, Bulk="{1}"),
                    INV, PROPS, reach=["TwoSaved", "Refused"], timeout=1500)
    else:
        model_check(ctx, "Ratchet", "order", dict(Limit=2, MaxMsgs=ctx.pick(5, 7), Lifetime=5, MaxTime=0, Bulk="{1}"),
                    INV, PROPS, reach=["TwoSaved", "Refused"], timeout=1500)
        model_check(ctx, "Ratchet", "tight", dict(Limit=1, MaxMsgs=ctx.pick(6, 7), Lifetime=5, MaxTime=0, Bulk="{1}"),
                    INV, PROPS, reach=["Exceeded"], timeout=1500)


def run(ctx, what, ops, small, big, life, maxtime, probe, n_small, n_big):
    """small: many behaviours with few messages; big: bulk sends around the reordering limit."""
    sets = [("small", n_small, small, "{1,2,3}", 26), ("big", n_big, big, "{1,40,79,80,81,82}", 24)]
    for name, num, depth, bulk, maxm in sets:
        C = dict(Limit=80, MaxMsgs=330 if name == "big" else maxm, Lifetime=life, MaxTime=maxtime, Bulk=bulk)
        beh = simulate(ctx, "RatchetGen", dict(C, Depth=depth, Ops=ops), num, depth + 2, spec="GSpec", timeout=900)
        # end every behaviour by delivering what is still outstanding, in a random order
        evs = replay(ctx, ["ratchet", life, probe], beh, "RatchetTrace", C, "%s (%s)" % (what, name), timeout=800)
        ctx.log("%s: %d behaviours, %d events" % (name, len(beh), len(evs)))
        if evs:
            ctx.sample({"behaviour": beh[0][:12], "recorded": [e for e in evs[:14]]})
    return evs, C


def c01(ctx):
    mc(ctx)
    evs, C = run(ctx, "delivery", '{"reload","save"}', 44, 16, 100, 0, "noprobe", ctx.pick(220, 2500), ctx.pick(12, 150))

    def corrupt(e):
        for x in e:
            if x["op"] == "recv" and x["ok"]:
                x["match"] = False
                return e
    binding_control(ctx, "RatchetTrace", evs[:1500], C, corrupt, "wrong plaintext")
    ctx.assume("ideal cryptography in the model; the code's scrypt parameters are the real ones")


def c02(ctx):
    mc(ctx)
    evs, C = run(ctx, "refusal", '{"bad"}', 44, 14, 100, 0, "probe", ctx.pick(150, 1500), ctx.pick(8, 80))

    def corrupt(e):
        for x in e:
            if x["op"] == "bad":
                x["ok"] = True
                return e
    binding_control(ctx, "RatchetTrace", evs[:1500], C, corrupt, "accepted forgery")
    ctx.assume("forgeries are bit flips, truncations, extensions, splices, reflections, replays and random strings; "
               "forgeries needing to break secretbox are outside")


def c03(ctx):
    mc(ctx, expiry=True)
    evs, C = run(ctx, "erasure", '{"reload","save","tick"}', 44, 14, 3, 12, "probe", ctx.pick(180, 1500), ctx.pick(8, 80))

    def corrupt(e):
        for x in e:
            if x["op"] == "probe" and (x["a"] or x["b"]):
                x["a"], x["b"] = [], []
                return e
    binding_control(ctx, "RatchetTrace", evs[:1500], C, corrupt, "missing key")
    ctx.assume("erasure is judged by what a ratchet reloaded from the saved state still decrypts, not by scanning memory")


CHECKS = {"C01": (c01, "model_checking"), "C02": (c02, "model_checking"), "C03": (c03, "model_checking")}
