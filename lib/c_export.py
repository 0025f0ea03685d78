"""C23: zkexport and zkimport."""
from vlib import *


def c23(ctx):
    S = dict(Servers='{"s1","s2"}', Clients='{"c1","c2"}', Addrs='{"127.0.0.1:12345","zk.example.com:443","[::1]:7"}')
    model_check(ctx, "Export", "two servers, two blobs", dict(S, Servers='{"s1","s2"}', Clients='{"c1"}' if not ctx.thorough else S["Clients"], Addrs='{"a1"}' if not ctx.thorough else '{"a1","a2"}'),
                ["OnlyExported", "OnlyClients"], ["Guarded"], constraints=["Bounded"], reach=["Replaced", "Emptied"], timeout=1200)
    bins = [build_repo(ctx, p, n) for p, n in (("./zkserver", "zkserver"), ("./tools/zkexport", "zkexport"), ("./tools/zkimport", "zkimport"))]
    beh = simulate(ctx, "ExportGen", dict(S, Len0=ctx.pick(40, 80)), ctx.pick(80, 600), 90, spec="GSpec")
    evs = replay_par(ctx, ["export"] + bins, beh, "ExportTrace", S, "export and import", jobs=8, timeout=600)
    if evs:
        ctx.sample({"behaviour": beh[0][:8], "recorded": evs[:8]})

    def corrupt(e):
        for x in e:
            if x["op"] == "import" and x["conf"]["c1"]["id"] == "s1":
                x["conf"] = dict(x["conf"], c1=dict(x["conf"]["c1"], id="s2"))
                return e
    binding_control(ctx, "ExportTrace", evs[:1500], S, corrupt, "other server")
    ctx.assume("records are not authenticated: alterations of address, certificate and directory setting are left to the user, who compares fingerprints")


CHECKS = {"C23": (c23, "model_checking")}
