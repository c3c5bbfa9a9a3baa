"""The checks: property id -> function(ctx)."""
from core import *

CHECKS = {}
TECHNIQUE = {}
NOTES = {}
NOT_APPLICABLE = {}
DEFAULT_NOTE = ("The specification is explored exhaustively within the stated bounds and satisfies the property; the "
                "implementation is bound to it by executing every generated stimulus plus seeded random ones and "
                "validating each recorded trace with TLC. Trusts: TLC, the Go driver's recording, and the shims of the "
                "two external modules that are not available offline (shim/).")


def check(*ids):
    def deco(f):
        for i in ids:
            CHECKS[i] = f
        return f
    return deco


def words(ctx, fn, n):
    """explore the textual specification fn over all words of up to n tokens; returns a stimuli file"""
    r = ctx.model("MC_Words", 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\nINVARIANT Emit\n'
                  'CONSTANTS\n Fn = "%s"\n MaxTok = %d\n' % (fn, n))
    p = ctx.tmp("stim-%s.ndjson" % fn)
    ctx.stimuli(r, p)
    return p


def crashed(ctx, r, what):
    """a driver that dies inside the code under test: a violation; anything else: an error of the check"""
    if r.returncode == 0:
        return False
    o = r.stdout
    if r.returncode in (76, 77):
        k = max(0, o.find("stopped:"))
        ctx.violate("", "%s: %s" % (what, o[k:k + 900]), dict(output=o[k:k + 6000]))
        return True
    if r.returncode == 78:   # too slow: what was recorded is judged; without a violation there is no answer
        ctx.unfinished = "the driver did not finish in time: %s" % what
        return False
    if ("panic:" in o or "fatal error:" in o or "DATA RACE" in o) and "driver:" not in o:
        k = min([i for i in (o.find("panic:"), o.find("fatal error:"), o.find("WARNING: DATA RACE")) if i >= 0])
        ctx.violate("", "the process crashed while running %s: %s" % (what, o[k:k + 900]), dict(output=o[k:k + 6000]))
        return True
    raise CheckError("driver failed (%d): %s\n%s\n...\n%s" % (r.returncode, what, o[:3000], o[-1500:]))


def drive(ctx, area, what, stim="", n=0, race=False, timeout=300, lanes=1):
    out = ctx.tmp("trace-%s-%s.ndjson" % (area, what))
    if ctx.violations:   # the verdict is there: nothing more to find out
        return ctx.tmp("nothing")
    args = ["-prop", what, "-out", out, "-n", str(n), "-seed", str(ctx.seed)]
    if stim:
        args += ["-stim", stim]
    if ctx.tier != "thorough":   # an answer is due in time, if only about what was recorded until then
        timeout = int(max(20, min(timeout, (700 if ctx.prop == "C16" else 400) - (time.time() - ctx.t0))))
    args += ["-limit", str(timeout)]
    if lanes > 1:
        args += ["-lanes", str(lanes)]
    scratch = ctx.tmp("scratch-" + what)
    os.makedirs(scratch, exist_ok=True)
    # (the home of the process under test is a scratch folder too: certificates are cached there)
    r = run_driver(build(area, race=race), args, timeout=timeout + 60, ok=None,
                   env=dict(VERIF_SCRATCH=scratch, HOME=scratch, XDG_CACHE_HOME=scratch))
    crashed(ctx, r, what)
    return out


def patiently(ctx, area, what):
    """a schedule during which real time passes, meanwhile: returns the function that waits for its trace"""
    import threading
    build(area)
    res = {}

    def go():
        try:
            res["out"] = drive(ctx, area, what, n=ctx.scale(36, 130))
        except BaseException as e:
            res["err"] = e
    t = threading.Thread(target=go)
    t.start()

    def wait():
        t.join()
        if "err" in res:
            raise res["err"]
        return res["out"]
    return wait


def cfg(init, nxt, invs=(), consts=(), extra=""):
    t = "INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n" % (init, nxt)
    t += "".join("INVARIANT %s\n" % i for i in invs)
    if consts:
        t += "CONSTANTS\n" + "".join(" %s = %s\n" % c for c in consts)
    return t + extra


def stim_file(ctx, results, name="stim.ndjson", limit=None):
    """the distinct stimuli printed by some model runs (a seeded sample of them if there are more than limit)"""
    import random
    lines = sorted({s for r in results for s in r.lines.get("STIM", [])})
    if not lines:
        raise CheckError("the model generated no stimuli")
    ctx.notes["stimuli_from_model"] = ctx.notes.get("stimuli_from_model", 0) + len(lines)
    if limit and len(lines) > limit:
        lines = sorted(random.Random(ctx.seed).sample(lines, limit))
        ctx.notes["stimuli_sampled"] = ctx.notes.get("stimuli_sampled", 0) + limit
    p = ctx.tmp(name)
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    return p


def textual(ctx, fn, area, quick, thorough, n_quick, n_thorough):
    stim = words(ctx, fn, ctx.scale(quick, thorough))
    out = drive(ctx, area, fn, stim, ctx.scale(n_quick, n_thorough))
    ctx.judge("TraceText", out, chunk=100000, describe=lambda tr, o: "%s(%r): observed %s, specified %s" % (
        fn, b(tr["in"]), _ev(tr["ev"][o["i"] - 1]), json.dumps(o["exp"])))


def _ev(e):
    out = {}
    for k, v in e.items():
        if isinstance(v, list) and v and all(isinstance(x, int) for x in v):
            v = b(v)
        out[k] = v
    return json.dumps(out)


@check("C25")
def c25(ctx):
    textual(ctx, "decode", "leaf", 6, 8, 4000, 60000)


@check("C34")
def c34(ctx):
    textual(ctx, "address", "leaf", 4, 5, 3000, 40000)


@check("C35")
def c35(ctx):
    textual(ctx, "domain", "domain", 4, 5, 4000, 40000)


@check("C21")
def c21(ctx):
    textual(ctx, "normpath", "leaf", 8, 10, 4000, 40000)
    # and what the router makes of equivalent paths
    router(ctx, [tree(ctx)], (1200, 15000), limit=(500, 5000))


@check("C37")
def c37(ctx):
    textual(ctx, "header", "data", 4, 5, 3000, 40000)


@check("C38")
def c38(ctx):
    textual(ctx, "escape", "data", 3, 4, 3000, 40000)


@check("C26")
def c26(ctx):
    stim = words(ctx, "query", ctx.scale(4, 6))
    out = drive(ctx, "data", "query", stim, ctx.scale(2500, 40000))
    ctx.judge("TraceData", out, chunk=60000)


@check("C27")
def c27(ctx):
    stim = words(ctx, "cookie", ctx.scale(5, 7))
    out = drive(ctx, "data", "cookie", stim, ctx.scale(4000, 40000))
    ctx.judge("TraceData", out, chunk=60000)


@check("C28")
def c28(ctx):
    r = ctx.model("MC_KV", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\nINVARIANT Emit\nCONSTANTS\n MaxOps = %d\n" % ctx.scale(4, 5))
    p = ctx.tmp("stim.ndjson")
    ctx.stimuli(r, p)
    out = drive(ctx, "data", "kv", p, ctx.scale(1500, 20000))
    ctx.judge("TraceData", out, chunk=60000)


def maps_model(ctx, what, n):
    r = ctx.model("MC_Maps", 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\nINVARIANT Emit\nCONSTANTS\n What = "%s"\n MaxOps = %d\n' % (what, n))
    p = ctx.tmp("stim.ndjson")
    ctx.stimuli(r, p)
    return p


@check("C29")
def c29(ctx):
    out = drive(ctx, "leaf", "strmap", maps_model(ctx, "map", ctx.scale(4, 6)), ctx.scale(800, 8000))
    ctx.judge("TraceMaps", out, chunk=60000)


@check("C32")
def c32(ctx):
    out = drive(ctx, "leaf", "coding", maps_model(ctx, "coding", ctx.scale(3, 4)), ctx.scale(600, 6000))
    ctx.judge("TraceMaps", out, chunk=60000)


@check("C30")
def c30(ctx):
    r = ctx.model("MC_Stash", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Exact\nINVARIANT NoAskAfterError\nINVARIANT Emit\n"
                  "CONSTANTS\n MaxPieces = 2\n MaxOps = %d\n Sizes = {%s}\n" % (ctx.scale(4, 5), ctx.scale("0, 1, 4", "0, 1, 2, 4")))
    p = ctx.tmp("stim.ndjson")
    ctx.stimuli(r, p)
    out = drive(ctx, "leaf", "stash", p, ctx.scale(3000, 30000))
    ctx.judge("TraceStash", out, chunk=60000)


@check("C31")
def c31(ctx):
    r = ctx.model("MC_Client", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Exact\nINVARIANT Emit\n"
                  "CONSTANTS\n MaxScript = 2\n MaxOps = %d\n Room = 2\n" % ctx.scale(6, 8))
    p = ctx.tmp("stim.ndjson")
    ctx.stimuli(r, p)
    out = drive(ctx, "leaf", "client", p, ctx.scale(3000, 30000))
    ctx.judge("TraceClient", out, chunk=60000)


@check("C33")
def c33(ctx):
    ctx.model("MC_Tables", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\n")
    stim = words(ctx, "method", ctx.scale(3, 4))
    ctx.judge("TraceData", drive(ctx, "leaf", "tables", stim, ctx.scale(1000, 20000)))
    ctx.judge("TraceData", drive(ctx, "data", "proto", "", ctx.scale(1500, 20000)))


@check("C36")
def c36(ctx):
    out = drive(ctx, "data", "config", "", ctx.scale(500, 5000))
    ctx.judge("TraceData", out)


@check("C14")
def c14(ctx):
    rs = []
    for dl in ("TRUE", "FALSE"):
        rs.append(ctx.model("MC_TcpServer", cfg("TcpInit", "TcpNext", ["NothingAfterWait", "Once", "Emit"],
                  [("Conns", ctx.scale("{1, 2}", "{1, 2, 3}")), ("MaxActs", ctx.scale(5, 6)), ("HasDeadline", dl), ("GuardedTrack", "TRUE")])))
    # the accounting has to be atomic with the shutdown mark: without it the model itself breaks the property
    r = tlc("MC_TcpServer", cfg("TcpInit", "TcpNext", ["NothingAfterWait"],
            [("Conns", "{1}"), ("MaxActs", 4), ("HasDeadline", "FALSE"), ("GuardedTrack", "FALSE")]))
    if "NothingAfterWait is violated" not in r.out:
        raise CheckError("the model does not tell the unguarded accounting from the guarded one")
    late = patiently(ctx, "tcpsrv", "patient")
    out = drive(ctx, "tcpsrv", "tcp", stim_file(ctx, rs, limit=ctx.scale(2500, 20000)), ctx.scale(1500, 10000))
    ctx.judge("TraceTcp", out, chunk=20000)
    ctx.judge("TraceTcp", late())


APP_INVS = ["ClosedAtReturn", "NothingAfterHook", "HookOnce", "GracefulServes", "RightCause", "NoStuckTeardown", "Emit"]


def app_models(ctx, graceful, binds):
    rs = []
    for nl, inter in ((1, "{1}"), (1, "{}"), (2, "{1}"), (2, "{1, 2}"), (2, "{}")):
        acts = ctx.scale(5, 6) if nl == 1 else ctx.scale(4, 5)
        for bf in [0] + ([n + 1 for n in range(nl)] if binds else []):
            rs.append(ctx.model("MC_App", cfg("AppInit", "AppNext", APP_INVS,
                      [("NL", nl), ("NC", 2), ("MaxActs", acts), ("Interruptible", inter), ("BindFails", bf),
                       ("Graceful", "TRUE" if graceful else "FALSE")])))
    return rs


@check("C12")
def c12(ctx):
    late = patiently(ctx, "app", "patient")
    out = drive(ctx, "app", "graceful", stim_file(ctx, app_models(ctx, True, False), limit=ctx.scale(900, 12000)), ctx.scale(1200, 12000), timeout=800)
    ctx.judge("TraceApp", out, chunk=20000)
    ctx.judge("TraceApp", late())


@check("C13")
def c13(ctx):
    late = patiently(ctx, "app", "patientstop")
    out = drive(ctx, "app", "stop", stim_file(ctx, app_models(ctx, False, True), limit=ctx.scale(900, 12000)), ctx.scale(1200, 12000), timeout=800)
    ctx.judge("TraceApp", out, chunk=20000)
    ctx.judge("TraceApp", late())


@check("C15")
def c15(ctx):
    r = ctx.model("MC_Own", cfg("Init", "Next", ["Laws", "Emit"], [("MaxLis", ctx.scale(3, 4))]))
    out = drive(ctx, "app", "own", stim_file(ctx, [r]), ctx.scale(60, 600))
    ctx.judge("TraceOwn", out)


@check("C40")
def c40(ctx):
    invs = ["ServesAPair", "Reused", "Copes", "Emit"]
    r = ctx.model("MC_Cert", cfg("CertInit", "CertNext", invs,
                  [("MaxGen", 5), ("MaxStarts", ctx.scale(2, 3)), ("Trusting", "FALSE")]))
    # taking the files for a pair because they are there breaks it: the model tells the two apart
    bad = tlc("MC_Cert", cfg("CertInit", "CertNext", invs[:3], [("MaxGen", 5), ("MaxStarts", 2), ("Trusting", "TRUE")]))
    if "Copes is violated" not in bad.out:
        raise CheckError("the model does not tell trusted files from checked ones")
    out = drive(ctx, "app", "local", stim_file(ctx, [r], limit=ctx.scale(80, 2500)), ctx.scale(10, 250), lanes=4, timeout=ctx.scale(300, 3000))
    ctx.judge("TraceCert", out)


# ---------------------------------------------------------------- HTTP/1 connections
# property -> areas of MC_Http1, areas of MC_Conn, random connections (quick, thorough)
HTTP1 = {
    "C01": (("line", "head", "tight", "plain", "chunked"), ("sync",), (250, 4000)),
    "C02": (("line", "head"), ("leak",), (450, 6000)),
    "C03": (("plain", "chunked"), ("sync",), (450, 6000)),
    "C04": (("line", "head", "chunked"), ("leak",), (1200, 12000)),
    "C05": (("tight",), ("sync",), (1300, 12000)),
    "C06": ((), ("leak", "keep"), (700, 8000)),
    "C07": ((), ("keep",), (900, 10000)),
    "C08": ((), ("keep",), (900, 10000)),
    "C09": ((), ("leak",), (1100, 12000)),
    "C10": (("plain", "chunked"), ("sync",), (450, 6000)),
    "C11": ((), ("hijack", "keep"), (500, 6000)),
    "C39": ((), (), (900, 12000)),
}


def http1_models(ctx, streams, conns):
    rs = []
    for a in streams:
        rs.append(ctx.model("MC_Http1", cfg("Init", "Next", ["Agree", "BodyAgree", "BodyLaw", "Emit"],
                  [("MaxTok", ctx.scale(3, 4)), ("Area", '"%s"' % a)], "PROPERTY Stable\n")))
    cs = []
    for a in conns:
        big = ctx.tier == "thorough"
        cs.append(ctx.model("MC_Conn", cfg("Init", "Next", ["Outcome", "NeverStuck", "Emit"],
                  [("MaxReqs", 3 if big and a in ("sync", "hijack") else 2), ("Area", '"%s"' % a),
                   ("Pieces", "{1, 7, 1000}" if big else "{5, 1000}")]), timeout=3000))
    return rs, cs


def http1(ctx):
    streams, conns, n = HTTP1[ctx.prop]
    rs, cs = http1_models(ctx, streams, conns)
    files = []
    if ctx.prop == "C39":
        r = ctx.model("MC_Json", cfg("Init", "Next", ["Laws", "Emit"], [("MaxTok", ctx.scale(3, 4))]))
        files.append(stim_file(ctx, [r], "stim-json.ndjson", limit=ctx.scale(4000, 60000)))
    if rs:
        files.append(stim_file(ctx, rs, "stim-words.ndjson", limit=ctx.scale(700, 20000)))
    if cs:
        files.append(stim_file(ctx, cs, "stim-conn.ndjson", limit=ctx.scale(600, 6000)))
    p = ctx.tmp("stim-all.ndjson")
    with open(p, "w") as f:
        for x in files:
            f.write(open(x).read())
    out = drive(ctx, "http1", ctx.prop, p, ctx.scale(*n), timeout=600)
    ctx.judge("TraceHttp1", out, chunk=20000, describe=http1_describe)


def http1_describe(tr, o):
    e = tr["ev"][o["i"] - 1]
    return "%s (event %d, %s) on the stream %r (read buffer %d, pieces %s): observed %s" % (
        o["exp"]["why"], o["i"], e["op"], b(tr["stream"]), tr["rbuf"], tr["segs"] or "all", _ev(e)[:1200])


for _p in HTTP1:
    CHECKS[_p] = http1


@check("C41")
def c41(ctx):
    r = ctx.model("MC_Tune", cfg("Init", "Next", ["Agree", "Settled", "Emit"], [("MaxCalls", 2), ("MaxSet", 2)]))
    rs = [r]
    if ctx.tier == "thorough":
        rs.append(ctx.model("MC_Tune", cfg("Init", "Next", ["Agree", "Settled", "Emit"], [("MaxCalls", 3), ("MaxSet", 1)])))
    out = drive(ctx, "http1", "C41", stim_file(ctx, rs, limit=ctx.scale(500, 8000)), ctx.scale(500, 8000), timeout=600)
    ctx.judge("TraceTune", out, chunk=20000, describe=http1_describe)


# ---------------------------------------------------------------- routers
def show(x):
    """a recorded value with its byte sequences readable"""
    if isinstance(x, list) and x and all(isinstance(y, int) and 0 <= y < 256 for y in x):
        return b(x)
    if isinstance(x, list):
        return [show(y) for y in x]
    if isinstance(x, dict):
        return {k: show(v) for k, v in x.items() if v not in ([], "", None)}
    return x


def router_describe(tr, o):
    return "with the registrations %s: observed %s, specified %s" % (
        json.dumps(show(tr.get("ops", tr.get("regs"))))[:1500], json.dumps(show(tr["ev"][o["i"] - 1]))[:1200], json.dumps(show(o["exp"]))[:1500])


def tree(ctx):
    return ctx.model("MC_Tree", cfg("Init", "Next", ["Found", "Agree", "Emit"], [("MaxRoutes", ctx.scale(2, 3))]))


def routes(ctx, area, n):
    return ctx.model("MC_Router", cfg("Init", "Next", ["Composed", "Laws", "Once", "ErrorLaws", "Emit"], [("Area", '"%s"' % area), ("MaxOps", n)]), timeout=3000)


def router(ctx, results, n, limit=(1500, 20000)):
    out = drive(ctx, "router", ctx.prop, stim_file(ctx, results, limit=ctx.scale(*limit)), ctx.scale(*n), timeout=600)
    ctx.judge("TraceRouter", out, chunk=ctx.scale(20000, 40000), describe=router_describe)


@check("C17", "C18")
def c18(ctx):
    router(ctx, [tree(ctx), routes(ctx, "scope", ctx.scale(2, 3))], (2500, 30000))


@check("C19")
def c19(ctx):
    router(ctx, [routes(ctx, "scope", ctx.scale(4, 5))], (2000, 30000))


@check("C20")
def c20(ctx):
    router(ctx, [routes(ctx, "errors", ctx.scale(3, 4))], (2500, 30000))


@check("C24")
def c24(ctx):
    router(ctx, [routes(ctx, "inbuilt", ctx.scale(3, 4))], (2500, 30000))


@check("C22")
def c22(ctx):
    r = ctx.model("MC_Hosts", cfg("Init", "Next", ["Laws", "Insignificant", "Emit"], [("MaxRegs", ctx.scale(3, 4))]))
    router(ctx, [r], (2500, 40000))


# ---------------------------------------------------------------- what connections share
@check("C23")
def c23(ctx):
    r = ctx.model("MC_Static", cfg("Init", "Next", ["Contained", "Slashes", "Reachable", "Emit"], [("MaxTok", ctx.scale(4, 5))]))
    out = drive(ctx, "static", "C23", stim_file(ctx, [r], limit=ctx.scale(12000, 200000)), ctx.scale(1000, 15000), timeout=600)
    ctx.judge("TraceStatic", out, chunk=20000, describe=lambda tr, o: "mounts %s: observed %s, specified %s" % (
        json.dumps(show(tr["mounts"])), json.dumps(show(tr["ev"][o["i"] - 1])), json.dumps(show(o["exp"]))))


CONN_KINDS = '{"echo", "alias", "denied", "trace", "static", "lost", "cookie", "json", "stream", "other"}'


# everything else a connection is made of, several connections at once: (driver, what, random cases, trace specification)
LANES = [("leaf", "decode", 50, "TraceText"), ("leaf", "normpath", 300, "TraceText"), ("leaf", "tables", 50, "TraceData"), ("leaf", "coding", 100, "TraceMaps"),
         ("leaf", "strmap", 60, "TraceMaps"), ("leaf", "stash", 100, "TraceStash"), ("leaf", "client", 100, "TraceClient"), ("domain", "domain", 300, "TraceText"),
         ("data", "header", 200, "TraceText"), ("data", "query", 200, "TraceData"), ("data", "cookie", 200, "TraceData"), ("data", "kv", 60, "TraceData"),
         ("http1", "C06", 60, "TraceHttp1"), ("http1", "C03", 60, "TraceHttp1"), ("router", "C18", 80, "TraceRouter"), ("router", "C22", 80, "TraceRouter")]


@check("C16")
def c16(ctx):
    def model(nc, first, kinds):
        return ctx.model("MC_Conns", cfg("Init", "Next", ["Independent", "Emit"], [("NC", nc), ("First", first), ("Kinds", kinds), ("Shared", "FALSE")]))
    rs = [model(2, 1, CONN_KINDS), model(3, 1, '{"echo", "trace"}')]
    if ctx.tier == "thorough":
        rs += [model(2, 2, CONN_KINDS), model(3, 1, '{"echo", "trace", "static"}'), model(3, 1, '{"lost", "stream", "alias"}')]
    # connections which share the memory of a request: the model itself breaks the property
    r = tlc("MC_Conns", cfg("Init", "Next", ["Independent"], [("NC", 2), ("First", 1), ("Kinds", CONN_KINDS), ("Shared", "TRUE")]))
    if "Independent is violated" not in r.out:
        raise CheckError("the model does not tell shared memory from separate one")
    stim = stim_file(ctx, rs, limit=ctx.scale(3500, 60000))
    desc = lambda tr, o: "requests %s: observed %s, specified %s" % (
        json.dumps(show(tr["reqs"]))[:1500], json.dumps(show(tr["ev"][o["i"] - 1]))[:800], json.dumps(show(o["exp"]))[:800])
    ctx.judge("TraceConns", drive(ctx, "static", "C16", stim, ctx.scale(1500, 20000), timeout=600), chunk=20000, describe=desc)
    # the same application under the race detector, all connections at once
    ctx.judge("TraceConns", drive(ctx, "static", "C16", "", ctx.scale(600, 8000), race=True, timeout=800), chunk=20000, describe=desc)
    for area, what, n, module in LANES:
        out = drive(ctx, area, what, "", ctx.scale(n, 10 * n), race=True, timeout=800, lanes=4)
        ctx.judge(module, out, chunk=20000)
