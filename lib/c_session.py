"""C04-C05: the session channel and its handshake."""
from vlib import *

INIT_DEVS = [("", 0), ("c1", 1), ("epklen", 2), ("c3", 3), ("c3len", 3), ("c3toLong", 3), ("pklen", 4), ("pklonger", 4),
             ("cpzero", 5), ("cpkey", 5), ("cppk", 5), ("cpsp", 5), ("cpflip", 5), ("cplen", 5), ("cpempty", 5), ("cpsp2", 5)]
RESP_DEVS = [("", 0), ("c2", 1), ("c2len", 1), ("epklen", 2), ("spzero", 3), ("spflip", 3), ("spkey", 3), ("spswap", 3),
             ("spepk", 3), ("splen", 3), ("spempty", 3), ("c4", 4), ("c4len", 4), ("c4other", 4), ("fpzero", 5),
             ("fpflip", 5), ("fpkey", 5), ("fppk", 5), ("fpcp", 5), ("fplen", 5), ("fpempty", 5)]


def c04(ctx):
    model_check(ctx, "Channel", "two sessions", dict(MaxSent=ctx.pick(2, 3), Sessions="{0,1}", BurstSizes="{1}"),
                ["InOrder", "PrefixUntilError", "NeverUnsent"], reach=["GapRead"], timeout=1500)
    C = dict(MaxSent=100000, Sessions="{0,1}", BurstSizes="{1}")
    beh = simulate(ctx, "ChannelGen", dict(C, BurstSizes="{1,3,17}", Depth=30), ctx.pick(150, 2500), 33, spec="GSpec")

    # frame counters beyond a byte and two, with the frames of one and two wraps ago offered again
    def rd(d, i, b=False, q=None):
        return {"op": "read", "p": d, "q": q or d, "i": i, "n": 0, "b": b}
    for d in ("ab", "ba"):
        o = "ba" if d == "ab" else "ab"
        for n in (230, 250, 500) + ((66000,) if d == "ab" or ctx.tier != "quick" else ()):
            b = [{"op": "burst", "p": d, "n": n}, {"op": "burst", "p": o, "n": 40}]
            last = n
            for k in range(24):
                b.append({"op": "write", "p": d})
                last += 1
                for back in (256, 255, 65536):
                    if last - back >= 1 and k % 4 == 0:
                        b.append(rd(d, last - back))
                        # a failed read may use up a position: write another
                        b.append({"op": "write", "p": d})
                        last += 1
            beh.append(b)
            c = [{"op": "burst", "p": d, "n": n}]
            for k in range(30):
                c += [{"op": "write", "p": d}, rd(d, n + k + 1)]
            beh.append(c + [rd(d, n + 30 - 256)] if n > 256 else c)
    evs = replay(ctx, ["channel"], beh, "ChannelTrace", C, "channel", timeout=800)
    if evs:
        ctx.sample({"behaviour": beh[0][:12], "recorded": evs[:14]})

    def corrupt(e):
        for x in e:
            if x["op"] == "read" and x["ok"]:
                x["match"] = False
                return e
    binding_control(ctx, "ChannelTrace", evs[:1200], C, corrupt, "wrong content")
    ctx.assume("ideal authenticated encryption; forgeries tried are bit flips, length changes, replays, reorderings, "
               "reflections and frames of another session between the same parties")


def c05(ctx):
    for sc, a, r in (("1x1", 3, ["BothDone", "Impersonated", "Mallory"]), ("2x1", 2, []), ("1x2", 2, []), ("2x2", ctx.pick(1, 2), [])):
        model_check(ctx, "HandshakeMC", sc, dict(Scenario='"%s"' % sc, AttKeys=a, Stolen="{}"),
                    ["ClientAuth", "ServerAuth"], reach=r, timeout=1500)
    for who, inv in (("S", "ClientAuth"), ("C", "ServerAuth")):
        expect_model_violation(ctx, "HandshakeMC", "stolen key " + who, dict(Scenario='"1x1"', AttKeys=2, Stolen='{"%s"}' % who), [inv])
    beh = []
    for luck, num in ((40, ctx.pick(40, 800)), (12, ctx.pick(60, 1200))):
        beh += simulate(ctx, "HandshakeGen", dict(Luck=luck), num, 60, spec="GSpec")
    for rep in range(ctx.pick(2, 30)):
        for p, devs in (("init", INIT_DEVS), ("resp", RESP_DEVS)):
            for k, n in devs:
                beh.append([{"op": "dev", "p": p, "k": k, "n": n, "v": "own"}])
            beh.append([{"op": "dev", "p": p, "k": "", "n": 0, "v": "other"}])
    evs = replay(ctx, ["handshake"], beh, "HandshakeTrace", {}, "handshake", timeout=800)
    if evs:
        ctx.sample({"behaviour": beh[0], "recorded": evs[:30]})
    ctx.log("done %d/%d endpoints, %d/%d uses accepted" % (
        sum(e["op"] == "done" and e["ok"] for e in evs), sum(e["op"] == "done" for e in evs),
        sum(e["op"] == "use" and e["ok"] for e in evs), sum(e["op"] == "use" for e in evs)))

    def corrupt(e):
        for x in e:
            if x["op"] == "done" and not x["ok"]:
                x.update(ok=True, peer="S1", idok=True)
                return e
    binding_control(ctx, "HandshakeTrace", evs[:2000], {}, corrupt, "failed endpoint reported as done")
    ctx.assume("ideal key encapsulation, authenticated encryption and MAC in the model (Dolev-Yao attacker)")


CHECKS = {"C04": (c04, "model_checking"), "C05": (c05, "model_checking")}
