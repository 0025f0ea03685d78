"""C13-C16: identities, blobs, tag stacks and the address book."""
from vlib import *


def tset(xs):
    return "{" + ",".join('"%s"' % x for x in xs) + "}"


def c13(ctx):
    model_check(ctx, "IdentityMC", "digest frames its fields", dict(Framed="TRUE"), ["TamperEvident", "HandleOfKey"],
                constraints=["Bounded"], reach=["Other"])
    expect_model_violation(ctx, "IdentityMC", "digest of the concatenation", dict(Framed="FALSE"), ["TamperEvident"], constraints=["Bounded"])
    names = ["", "a", "ab", "John Doe", "name with (stuff) #1", "n" * 300]
    msgs = ["", "m", "message", "message ", "x" * 1000, "0"]
    beh = simulate(ctx, "IdentityGen", dict(Names=tset(names), Msgs=tset(msgs), Len0=ctx.pick(60, 120)), ctx.pick(40, 500), 125, spec="GSpec")
    evs = replay(ctx, ["identity"], beh, "IdentityTrace", dict(Framed="TRUE"), "identities", timeout=800)
    if evs:
        ctx.sample({"behaviour": beh[0][:8], "recorded": evs[:10]})
    # the name/nick boundary
    sh = [[{"op": "new", "p": "A", "k": "ab", "v": "cd"}, {"op": "alter", "p": "A", "q": "A", "k": "shift"}]]
    rc, out, ev2 = run_driver(ctx, ["identity"], sh)
    for e in ev2:
        if e["op"] == "alter":
            e["op"] = "shift"
    bad = validate(ctx, "IdentityTrace", ev2, dict(Framed="TRUE"))
    if bad:
        ctx.violation("an identity with a letter moved from the nick to the name still verifies", {"events": ev2}, key="name-nick-boundary")

    def corrupt(e):
        for x in e:
            if x["op"] == "alter" and not x["ok"]:
                x.update(ok=True, v=True)
                return e
    binding_control(ctx, "IdentityTrace", evs[:600], dict(Framed="TRUE"), corrupt, "accepted alteration")
    ctx.assume("ideal hash and signature in the model")


def c14(ctx):
    pws = ["", "a", "A", "pass word", "p" * 64, "p" * 65, "p" * 63, "aa"]
    P = dict(Passwords=tset(pws[:4]))
    model_check(ctx, "Blob", "alterations", P, ["OnlyOriginal"], reach=["Open"])
    beh = simulate(ctx, "BlobGen", dict(Passwords=tset(pws), Len0=60), ctx.pick(120, 2500), 63, spec="GSpec")
    evs = replay(ctx, ["blob"], beh, "BlobTrace", dict(Passwords=tset(pws)), "blobs", timeout=800)
    if evs:
        ctx.sample({"behaviour": beh[0][:8], "recorded": evs[:10]})

    def corrupt(e):
        for x in e:
            if x["op"] == "open" and x["v"] == "flip":
                x.update(ok=True, same=True)
                return e
    binding_control(ctx, "BlobTrace", evs[:600], dict(Passwords=tset(pws)), corrupt, "opened altered blob")
    ctx.assume("ideal authenticated encryption and key derivation; most runs use cheap scrypt parameters, one in fifty the real ones")


def c15(ctx):
    for blk, reach in (("FALSE", ["Under", "Over"]), ("TRUE", ["Waiting"])):
        model_check(ctx, "TagStack", "blocking=" + blk, dict(Depth=ctx.pick(2, 3), Threads='{"a","b","c"}' if blk == "TRUE" or ctx.thorough else '{"a","b"}', Blocking=blk),
                    ["Conserved"], ["NoLostWakeup"] if blk == "TRUE" else [], reach=reach, timeout=1500)
    T = dict(Threads="{0,1,2,3}")
    n = ctx.pick(20000, 400000)
    evs = replay(ctx, ["tagstack", n, ctx.pick(240, 2000)], [], "TagTrace", T, "tag stacks", timeout=800)
    ctx.add(rounds=n)
    if evs:
        ctx.sample({"recorded": evs[:20]})

    def corrupt(e):
        last = None
        for x in e:
            if x["op"] == "reset":
                last = None
            if x["op"] == "ret" and x["ok"] and x["t"] == 0:
                x["x"] = 77
                return e
    binding_control(ctx, "TagTrace", evs[:600], T, corrupt, "tag out of range")
    ctx.assume("callers return only tags they hold; schedules are those the Go scheduler produces under load")


def c16(ctx):
    model_check(ctx, "AddressBook", "three identities", dict(Ids='{"i","j","k"}', Nicks='{"a","b","c","d"}'), ["OneToOne"], ["KeepsNick"], reach=["Clash"])
    want = ["al", "al_", "al__", "bob", ""]
    C = dict(Ids='{"i1","i2","i3","i4","i5"}', Nicks=tset(want + ["al___", "bob_", "_"]), Wanted=tset(want))
    beh = simulate(ctx, "AddressBookGen", dict(C, Len0=40), ctx.pick(200, 3000), 43, spec="GSpec")
    T = dict(Threads="{0,1,2,3}")
    evs = replay(ctx, ["addressbook", "seq"], beh, "AddressBookTrace", T, "address book", timeout=800)
    if evs:
        ctx.sample({"behaviour": beh[0][:8], "recorded": evs[:10]})
    beh2 = simulate(ctx, "AddressBookGen", dict(C, Len0=24), ctx.pick(200, 3000), 27, spec="GSpec", seed=ctx.seed + 9)
    replay(ctx, ["addressbook", "conc"], beh2, "AddressBookTrace", T, "address book, concurrently", timeout=800)

    def corrupt(e):
        for x in e:
            if x["op"] == "call" and x.get("kind") == "all" and len(x["all"]) > 1:
                x["all"][1][1] = x["all"][0][1]
                return e
    binding_control(ctx, "AddressBookTrace", evs[:600], T, corrupt, "shared nick")


CHECKS = {"C13": (c13, "model_checking"), "C14": (c14, "model_checking"), "C15": (c15, "model_checking"), "C16": (c16, "model_checking")}
