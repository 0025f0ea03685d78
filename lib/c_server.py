"""C06-C11, C22: the server, as its clients, strangers and its administrator see it."""
from vlib import *

T = dict(Users='{"u1","u2","u3","u4"}', Depth="32")


def server(ctx):
    build_repo(ctx, "./tools/zkservertoken", "zkservertoken")
    return build_repo(ctx, "./zkserver", "zkserver")


def behaviours(ctx, prof, num, length):
    return simulate(ctx, "ServerGen", dict(T, Prof='"%s"' % prof, Len0=length), num, length + 5, spec="GSpec")


def run(ctx, beh, what, corrupt=None, jobs=8):
    evs = replay_par(ctx, ["server", server(ctx)], beh, "ServerTrace", T, what, jobs=jobs, timeout=ctx.pick(700, 3000))
    ops = {}
    for e in evs:
        if e["op"] == "ret":
            k = "%s %s" % (e["kind"], e["res"])
        elif e["op"] in ("push", "ack", "eof", "bad"):
            k = e["op"]
        else:
            continue
        ops[k] = ops.get(k, 0) + 1
    ctx.log("%d behaviours, %d events: %s" % (len(beh), len(evs), ", ".join("%s %d" % x for x in sorted(ops.items()))))
    ctx.add(events=len(evs))
    ctx.sample({"behaviour": beh[0][:14], "recorded": evs[:16]})
    if corrupt and not ctx.violations:
        # in the first trace that has what is to be corrupted
        for t in split_traces(evs):
            c = corrupt([dict(e) for e in t])
            if c:
                binding_control(ctx, "ServerTrace", t, T, corrupt, what)
                break
        else:
            raise CheckError("nothing to corrupt in the recording of %s" % what)
    return evs


def first(evs, pred, change):
    for i, e in enumerate(evs):
        if pred(e):
            return change(evs, i)
    return None


def edit(**kw):
    def f(evs, i):
        evs[i].update(kw)
        return evs
    return f


def drop(evs, i):
    return evs[:i] + evs[i + 1:]


def c06(ctx):
    beh = behaviours(ctx, "queue", ctx.pick(110, 1500), 45) + behaviours(ctx, "fault", ctx.pick(60, 1500), 40)
    # the message pushed first is another one's
    run(ctx, beh, "store and forward", lambda t: first(t, lambda e: e["op"] == "push", edit(m=999)))


HONEST = dict(D=2, M=4, Reqs=1, B=1, Hostile="FALSE", Bugs="{}")
HOSTILE = dict(D=2, M=2, Reqs=3, B=1, Hostile="TRUE", Bugs="{}")


def c07(ctx):
    model_check(ctx, "Session", "a session of the server, honest client", dict(HONEST, M=ctx.pick(4, 5), D=ctx.pick(2, 3)),
                ["Window", "Distinct", "OnlyAcked", "InOrder", "Conserved", "NoTagTwice"], ["Drains"], timeout=2000)
    for b in ("losetag", "keep"):
        expect_model_violation(ctx, "Session", b, dict(HONEST, Bugs='{"%s"}' % b), [], ["Drains"])
    expect_model_violation(ctx, "Session", "strayack", dict(HOSTILE, Bugs='{"strayack"}'), ["NoTagTwice"], [])
    beh = behaviours(ctx, "window", ctx.pick(90, 1200), 40)
    run(ctx, beh, "push window", lambda t: first(t, lambda e: e["op"] == "push", edit(t=32)))


def c08(ctx):
    beh = behaviours(ctx, "admission", ctx.pick(130, 2000), 45)
    def corrupt(t):
        for i in range(1, len(t)):
            if t[i]["op"] == "ret" and t[i]["kind"] == "disable" and t[i]["res"] == "ok" and t[i - 1].get("id") == t[i]["id"] \
                    and all(any(r["op"] == "ret" and r["id"] == c["id"] for r in t[:i + 1]) for c in t[:i] if c["op"] == "call"):
                return drop_login(t, i)
    run(ctx, beh, "admission", corrupt)


def drop_login(evs, i):
    u = [e for e in evs[:i] if e["op"] == "call" and e["id"] == evs[i]["id"]][0]["u"]
    return evs[:i + 1] + [{"op": "call", "kind": "login", "id": 9999, "u": u, "v": "", "k": "", "x": "", "sid": 9999, "m": 0, "b": False, "f": False, "res": "ok"},
                          {"op": "ret", "id": 9999, "res": "ok", "kind": "login"}]


def c09(ctx):
    beh = behaviours(ctx, "create", ctx.pick(130, 2000), 45)

    def twice(evs, i):
        c = dict([e for e in evs if e["op"] == "call" and e["id"] == evs[i]["id"]][0], id=9999)
        return evs[:i + 1] + [c, dict(evs[i], id=9999)]
    run(ctx, beh, "accounts", lambda t: first(t, lambda e: e["op"] == "ret" and e["kind"] == "create" and e["res"] == "ok", twice))


def c10(ctx):
    beh = behaviours(ctx, "rendezvous", ctx.pick(110, 1500), 45) + behaviours(ctx, "crowded", ctx.pick(4, 40), 14)
    run(ctx, beh, "rendezvous", lambda t: first(t, lambda e: e["op"] == "call" and e["kind"] == "pull" and e["res"] == "ok", edit(x="blob999")))


def c11(ctx):
    model_check(ctx, "Session", "a session of the server, hostile client", dict(HOSTILE, M=ctx.pick(2, 3)), ["NoTagTwice"], ["Ends"],
                reach=["Full", "DeafEnd"], timeout=2000)
    for b in ("nodrain", "strayack"):
        expect_model_violation(ctx, "Session", b, dict(HOSTILE, Bugs='{"%s"}' % b), [], ["Ends"])
    beh = behaviours(ctx, "hostile", ctx.pick(110, 1500), 45)
    run(ctx, beh, "hostile clients", lambda t: first(t, lambda e: e["op"] == "ret" and e["kind"] == "send", lambda v, i: v[:i + 1] + [{"op": "died", "what": ""}]))


def c22(ctx):
    beh = behaviours(ctx, "directory", ctx.pick(120, 1500), 45)
    run(ctx, beh, "directory", lambda t: first(t, lambda e: e["op"] == "call" and e["kind"] == "find" and e["res"] == "ok", edit(x="nobody")))


CHECKS = {"C06": (c06, "model_checking"), "C07": (c07, "model_checking"), "C08": (c08, "model_checking"), "C09": (c09, "model_checking"),
          "C10": (c10, "model_checking"), "C11": (c11, "model_checking"), "C22": (c22, "model_checking")}
