"""What each check explores."""
import collections, random
import vlib


# ---------------------------------------------------------------- C11, C12: tcpnetwork.Connection
CONN_GROUPS = {"C11": {"written", "closed", "returns", "status"},
               "C12": {"events", "status", "leak", "closed"},
               "C18": {"events", "status", "leak", "closed"}}


def conn_trace(case, r):
    """Adds to a recorded trace what ConnTrace prunes with (derived from the trace alone)."""
    w, off = [], 0
    for x in r["lines"]:
        if x["a"] == "obs":
            w += x["wr"]
    last = [x["tail"] for x in r["lines"] if x["a"] == "obs"][-1]
    named = set(w) | {last}
    lines = []
    for x in r["lines"]:
        x = dict(x, off=off)
        if x["a"] == "obs":
            off += len(x["wr"])
            if x["tail"] > 0 and x["tail"] not in named:
                named.add(x["tail"])
        elif x["a"] == "send":
            x["ids"] = [i if i in named else -1 for i in x["ids"]]
        lines.append(x)
    return {"cap": r["cap"], "rto": r["rto"], "w": w + ([last] if last > 0 else []), "lines": lines}


def conn(run):
    rng = random.Random(run.seed)
    both = run.q(1, 8)
    cases = []
    gens = {"C11": [("send", 2400), ("events", 800)], "C12": [("send", 800), ("events", 2400)], "C18": [("silence", 2400)]}[run.prop]
    for k, (profile, n) in enumerate(gens):
        for s in run.generate("ConnGen", "ConnGen.cfg", n * both, 200, {"Profile": '"%s"' % profile}, seedoff=k):
            s["proto"] = rng.choice(["len2", "term", "cont", "tcon", "raw"] + (["cont", "tcon"] * 2 if run.prop == "C18" else []))
            s["seed"] = rng.randrange(1 << 30)
            cases.append(s)
    results = run.drive("conn", cases)
    run.traces_verdict("conn", "ConnTrace", "ConnTrace.cfg", cases, results, CONN_GROUPS[run.prop], totrace=conn_trace)
    for o in run.q(conn_models_quick, conn_models_thorough)[run.prop]:
        run.model_check("ConnMC", "ConnMC.cfg", o, workers=vlib.NCPU, timeout=700)
    run.assumptions += ["calls, callbacks and transport are scheduled by testing/synctest in virtual time",
                        "the transport honours Close (a blocked Read or Write returns)"]


conn_models_quick = {
    "C11": [{"Cap": 1, "MaxMsgs": 2, "MaxCalls": 2, "MaxFeed": 0, "Ticks": 1, "Gates": '{"w","s"}'}],
    "C12": [{"Cap": 1, "MaxMsgs": 1, "MaxCalls": 2, "MaxFeed": 2, "Ticks": 0, "Gates": '{"w","h","b"}'}],
    "C18": [{"Rto": 1000, "Cap": 1, "MaxMsgs": 0, "MaxCalls": 1, "MaxFeed": 2, "Ticks": 3, "Gates": '{"h"}'}],
}
conn_models_thorough = {
    "C11": [{"Cap": 1, "MaxMsgs": 2, "MaxCalls": 3, "MaxFeed": 1, "Ticks": 1, "Gates": '{"w","h"}'},
            {"Cap": 0, "MaxMsgs": 3, "MaxCalls": 3, "MaxFeed": 0, "Ticks": 2, "Gates": '{"w","s"}'},
            {"Cap": 2, "MaxMsgs": 3, "MaxCalls": 4, "MaxFeed": 0, "Ticks": 1, "Gates": '{"w"}'}],
    "C12": [{"Cap": 1, "MaxMsgs": 1, "MaxCalls": 2, "MaxFeed": 3, "Ticks": 0, "Gates": '{"w","h","b","c"}'},
            {"Cap": 1, "MaxMsgs": 2, "MaxCalls": 3, "MaxFeed": 1, "Ticks": 1, "Gates": '{"w","h"}'}],
    "C18": [{"Rto": r, "Cap": 1, "MaxMsgs": m, "MaxCalls": c, "MaxFeed": f, "Ticks": t, "Gates": g} for r, m, c, f, t, g in [
        (1000, 1, 1, 2, 3, '{"h","w"}'), (1000, 1, 2, 1, 2, '{"h","w"}'), (5000, 0, 1, 3, 3, '{"h","b"}'), (5000, 1, 1, 2, 3, '{"h","b"}')]],
}

# ---------------------------------------------------------------- C01: framing
def framing(run):
    rng = random.Random(run.seed)
    cases = run.generate("FramingGen", "FramingGen.cfg", run.q(3000, 20000), 200)
    cuts = run.enumerate("FramingGen", "FramingGen.cfg", {"Mode": '"cuts"'})
    run.cov["single_cut_positions"] = len(cuts)
    cases += cuts
    for s in cases:
        s["seed"] = rng.randrange(1 << 30)
        s["reads"] = rng.choice([0, 0, 0, 1]) if sum(m["h"] + m["b"] for m in s["msgs"]) > 2000 else rng.choice([0, 0, 1, 2])
    results = run.drive("framing", cases)
    run.traces_verdict("framing", "FramingTrace", "FramingTrace.cfg", cases, results, None, chunk=700)
    run.model_check("FramingMC", "FramingMC.cfg", {"MaxMsgs": run.q(2, 3)}, workers=vlib.NCPU)
    run.assumptions += ["the bytes of the response header are any of the spellings in harness/framing_test.go"]


# ---------------------------------------------------------------- C02-C05, C09, C10, C17: the session
SESSION = {
    "C02": ({"seq", "chan", "cseq"}, [("hand", 80, 1600), ("auth", 90, 400)]),
    "C03": ({"result", "closed"}, [("hand", 75, 1400), ("life", 90, 600)]),
    "C04": ({"sid"}, [("hand", 92, 1200), ("ctl", 96, 800)]),
    "C05": ({"auth", "retry"}, [("auth", 88, 1400), ("auth", 97, 600)]),
    "C09": ({"media"}, [("media", 96, 1600)]),
    "C10": ({"disc", "closed", "leak", "ctl"}, [("life", 90, 2000)]),
    "C16": (None, [("hand", 80, 600), ("auth", 90, 200), ("media", 96, 400), ("life", 90, 800), ("ctl", 96, 200)]),
    "C17": ({"ctl", "hdr", "cseq", "media"}, [("ctl", 96, 2000)]),
}


def _m(replies, feed, play=1, close=1, tick=1, ctl=0, gates=("end",), ws=False):
    st = lambda xs: "{%s}" % ",".join('"%s"' % x for x in xs)
    return {"Replies": st(replies), "MaxFeed": feed, "MaxPlay": play, "MaxClose": close, "MaxTick": tick, "MaxCtl": ctl,
            "Gates": st(gates), "Ws": "TRUE" if ws else "FALSE"}


SESSION_MODELS = {   # quick, thorough
    "C02": ([_m(["ok2", "no"], 3)], [_m(["ok2", "bad"], 4), _m(["ok2", "dig"], 5, gates=["cred"], close=0, tick=0)]),
    "C03": ([_m(["ok1", "bad"], 3)], [_m(["ok1", "none", "no"], 4), _m(["ok1"], 3, gates=["end", "w"])]),
    "C04": ([_m(["sid", "ok1"], 4, close=0, tick=0)], [_m(["sid", "ok1"], 5, play=2, close=0, tick=0), _m(["sid", "sid2"], 4, ctl=1, close=1, tick=0)]),
    "C05": ([_m(["ok1", "dig", "bas"], 4, close=0, tick=0, gates=["cred"])],
            [_m(["ok1", "dig", "no"], 4, gates=["cred"]), _m(["ok1", "dig", "bas"], 5, play=2, close=0, tick=0, gates=["cred", "end"])]),
    "C09": ([_m(["ok1", "rtp"], 4, close=0, tick=0)], [_m(["ok1", "rtp"], 5, tick=0, gates=["end", "hold"]), _m(["ok1", "rtp", "junk"], 5, close=1, tick=0)]),
    "C10": ([_m(["no"], 1, play=2, close=1), _m(["no"], 1, gates=["end", "w"])],
            [_m(["no"], 1, play=2, close=2, gates=["end", "w"]), _m(["ok1", "no"], 3, tick=0, gates=["end", "nest"]),
             _m(["ok1", "rtp"], 4, tick=0, gates=["end", "hold", "nest"])]),
    "C16": ([_m(["no"], 1, gates=["end", "w"], ws=True)], [_m(["ok1", "no"], 3, gates=["end", "w"], ws=True)]),
    "C17": ([_m(["no"], 2, ctl=1)], [_m(["no"], 3, ctl=2), _m(["ok1", "rtp"], 3, ctl=2, tick=0)]),
}
LIVE = {"C03": _m(["ok1", "no"], 2, gates=["end", "w"]), "C10": _m(["no"], 1, play=2, close=1, gates=["end", "w"]),
        "C16": _m(["no"], 1, gates=["end", "w"], ws=True)}
WITNESS = {"C02": ("NeverTeardown", _m(["ok1"], 2)), "C03": ("NeverTimedOut", _m(["ok1"], 2)), "C04": ("NeverSid", _m(["sid"], 3)),
           "C05": ("NeverTwice", _m(["dig"], 2, gates=["cred"])), "C09": ("NeverData", _m(["ok1", "rtp"], 4)),
           "C10": ("NeverSecond", _m(["ok1"], 2, play=2)), "C16": ("NeverOk", _m(["ok1"], 3, ws=True)), "C17": ("NeverPause", _m(["ok1"], 3, ctl=1))}


def session_models(run):
    for o in SESSION_MODELS[run.prop][0 if run.tier == "quick" else 1]:
        run.model_check("SessionMC", "SessionMC.cfg", o, workers=vlib.NCPU, timeout=run.q(100, 240))
    if run.tier == "thorough":
        name, o = WITNESS[run.prop]
        run.witness("SessionMC", "SessionMC.cfg", name, o)
        if run.prop in LIVE:
            run.model_check("SessionMC", "SessionLive.cfg", LIVE[run.prop], workers=vlib.NCPU, timeout=200)


# whatever goes wrong on a later connection of the session concerns C10
AGAIN = {"C10": lambda trace, at: at <= len(trace["lines"]) and len(trace["lines"][at - 1].get("closed", [])) >= 2}


def session(run, ws=False):
    rng = random.Random(run.seed)
    groups, gens = SESSION[run.prop]
    cases = []
    for k, (profile, ok, n) in enumerate(gens):
        cases += run.generate("SessionGen", "SessionGen.cfg", n * run.q(1, 8), 500,
                              {"Profile": '"%s"' % profile, "OkPct": ok, "Ws": "TRUE" if ws else "FALSE"}, seedoff=k, procs=run.q(2, 4))
    for s in cases:
        s["seed"] = rng.randrange(1 << 30)
    mode = "wssession" if ws else "session"
    results = run.drive(mode, cases)
    # the CSeq a new session begins with
    first = collections.Counter(r["r"]["cseq"] for r in results if "r" in r).most_common(1)
    first = first[0][0] if first else 0
    run.traces_verdict(mode, "SessionTrace", "SessionTrace.cfg", cases, results, groups, also=AGAIN.get(run.prop, lambda trace, at: False),
                       totrace=lambda case, r: dict(r, cseq=first, **{"from": vlib.Run.NOFROM}))
    session_models(run)
    run.assumptions += ["calls, callbacks and transport are scheduled by testing/synctest in virtual time",
                        "the transport honours Close (a blocked Read or Write returns)"]


# ---------------------------------------------------------------- C06, C07, C08: media units
DEPACK = {"C06": ("264", "Codecs264"), "C07": ("265", "Codecs265"), "C08": ("mix", "CodecsMix")}


def depack_run(run, profile, noise, gens, ws=False):
    rng = random.Random(run.seed)
    cases = []
    for k, (sizes, n, depth) in enumerate(gens):
        for s in run.generate("DepackGen", "DepackGen.cfg", n * run.q(1, 10), depth,
                              {"Profile": '"%s"' % profile, "Sizes": '"%s"' % sizes, "Noise": noise}, seedoff=k, procs=run.q(2, 4)):
            s["seed"] = rng.randrange(1 << 30)
            s["hold"] = rng.random() < (0.6 if ws else 0.25)
            s["merge"] = rng.random() < 0.5
            s["ws"] = ws
            cases.append(s)
    results = run.drive("depack", cases)
    run.cov["packets"] = sum(r["r"].get("pkts", 0) for r in results if "r" in r)
    run.cov["units"] = sum(r["r"].get("units", 0) for r in results if "r" in r)
    run.vectors_verdict("depack", cases, results)


def depack(run):
    profile, model = DEPACK[run.prop]
    depack_run(run, profile, 0 if run.prop != "C08" else 12, [("small", 2400, 2000), ("mid", 800, 2000), ("big", 60, 4000)])
    for n, b in run.q({"264": [(2, 2), (3, 1)], "265": [(2, 2), (3, 1)], "mix": [(3, 1)]},
                      {"264": [(3, 2), (2, 3)], "265": [(2, 3), (3, 1)], "mix": [(2, 2), (4, 1)]})[profile]:
        run.model_check("DepackMC", "DepackMC.cfg", {"Codecs": ("<-", model), "MaxUnits": n, "MaxBody": b}, workers=vlib.NCPU)
    run.assumptions += ["every RTP packet arrives (the transport is reliable)"]


# ---------------------------------------------------------------- C13, C14: session descriptions
def sdp(run):
    rng = random.Random(run.seed)
    n = run.q(1, 15)
    msgs = run.generate("SdpGen", "SdpGen.cfg", 150 * n, 30, {"Mode": '"msg"'}, procs=4)
    grammar = run.enumerate("SdpGen", "SdpGen.cfg", {"Mode": '"grammar"'})
    cases = msgs + grammar
    if run.prop == "C14":
        cases += run.generate("SdpGen", "SdpGen.cfg", 250 * n, 30, {"Mode": '"bad"'}, seedoff=1, procs=4)
    for c in cases:
        c["seed"] = rng.randrange(1 << 30)
        c["what"] = "encode" if run.prop == "C13" else "decode"
    cases += [dict(c, seed=rng.randrange(1 << 30)) for c in cases if rng.random() < run.q(1, 5)]
    results = run.drive("sdp", cases)
    run.cov["combinations_of_optional_lines"] = len(grammar)
    run.cov["refused"] = sum(1 for c in cases if c["kind"] == "bad")
    run.vectors_verdict("sdp", cases, results)
    run.model_check("SdpMC", "SdpMC.cfg", {"MaxTiming": run.q(0, 2)}, workers=vlib.NCPU)


# ---------------------------------------------------------------- C20: descriptions built line by line
def sdpbuild(run):
    rng = random.Random(run.seed)
    n = run.q(1, 12)
    cases = run.generate("SdpBuildGen", "SdpBuildGen.cfg", 2000 * n, 60, seedoff=2, procs=4)
    calls = run.enumerate("SdpBuildGen", "SdpBuildGen.cfg", {"Mode": '"calls"'})
    cases += calls + run.generate("SdpGen", "SdpGen.cfg", 150 * n, 30, {"Mode": '"msg"'}, procs=4)
    grammar = run.enumerate("SdpGen", "SdpGen.cfg", {"Mode": '"grammar"'})
    cases += grammar if run.tier == "thorough" else rng.sample(grammar, len(grammar) // 3)
    for c in cases:
        c["seed"] = rng.randrange(1 << 30)
    cases += [dict(c, seed=rng.randrange(1 << 30)) for c in cases]
    results = run.drive("sdpbuild", cases)
    run.cov["single_calls"] = len(calls)
    run.vectors_verdict("sdpbuild", cases, results)
    run.model_check("SdpBuildMC", "SdpBuildMC.cfg", {"MaxCalls": run.q(2, 3)}, workers=vlib.NCPU)


# ---------------------------------------------------------------- C15: track information
def mediainfo(run):
    rng = random.Random(run.seed)
    cases = run.generate("MediaInfoGen", "MediaInfoGen.cfg", run.q(250, 3000), 30, procs=4)
    table = run.enumerate("MediaInfoGen", "MediaInfoGen.cfg", {"Mode": '"table"'})
    run.cov["payload_types_and_rtpmap_forms"] = len(table)
    cases += table
    for c in cases:
        c["seed"] = rng.randrange(1 << 30)
    results = run.drive("mediainfo", cases)
    run.cov["descriptions"] = sum(len(c["descs"]) for c in cases)
    run.vectors_verdict("mediainfo", cases, results)


# ---------------------------------------------------------------- C09: any bytes
def hostile(run):
    session(run)
    if run.violations:
        return
    rng = random.Random(run.seed + 1)
    cases = []
    for k, (ws, n) in enumerate([(False, 6000), (True, 1500)]):
        for s in run.generate("HavocGen", "HavocGen.cfg", n * run.q(1, 10), 600, {"Ws": "TRUE" if ws else "FALSE"}, seedoff=50 + k, procs=4):
            s["seed"], s["ws"] = rng.randrange(1 << 30), ws
            cases.append(s)
    results = run.drive("havoc", cases)
    run.traces_verdict("havoc", "HavocTrace", "HavocTrace.cfg", cases, results, None)
    for o in run.q([_m(["ok1", "junk"], 2)], [_m(["ok1", "bad"], 2, play=2), _m(["ok1", "rtp"], 5, ctl=1, close=0), _m(["no", "junk", "dig"], 4, gates=["cred", "end"])]):
        run.model_check("HavocMC", "HavocMC.cfg", o, workers=vlib.NCPU, timeout=run.q(100, 240))
    if not run.violations:
        depack_run(run, "mix", 40, [("small", 800, 2000), ("mid", 200, 2000)])


# ---------------------------------------------------------------- C19: where Play goes
def dial(run):
    rng = random.Random(run.seed)
    cases = run.generate("DialGen", "DialGen.cfg", run.q(600, 4500), 30)
    slow = run.generate("DialGen", "DialGen.cfg", run.q(60, 400), 30, {"SlowPct": 45}, seedoff=1)
    slow = [s for s in slow if any(x["a"] == "play" and x["beh"] in ("deaf", "lost") for x in s["steps"])][:run.q(12, 120)]
    cases += slow
    for s in cases:
        s["seed"] = rng.randrange(1 << 30)
    results = run.drive("dial", cases, shards=1, limit=120)
    left = [r["r"]["skipped"] for r in results if "r" in r and r["r"].get("skipped")]
    if left:
        run.notes.append("%d histories this machine cannot provide (%s)" % (len(left), left[0]))
    run.cov["histories_left_out"] = len(left)
    run.cov["connects_lost_or_unanswered"] = len(slow)
    run.vectors_verdict("dial", cases, results, limit=120, shards=1, again=6)
    run.model_check("DialMC", "DialMC.cfg", {"MaxSteps": run.q(3, 4)}, workers=vlib.NCPU)
    run.assumptions += ["real TCP connections on the loopback network, in real time"]


# ---------------------------------------------------------------- C16: WebSockets
def websocket(run):
    session(run, ws=True)
    if not run.violations:
        depack_run(run, "mix", 5, [("small", 500, 2000), ("mid", 500, 2000), ("big", 60, 4000)], ws=True)


TABLE = {"C16": websocket, "C01": framing, "C11": conn, "C12": conn, "C18": conn, "C19": dial}
TABLE.update({p: session for p in SESSION if p != "C16"})
TABLE.update({"C09": hostile})
TABLE.update({p: depack for p in DEPACK})
TABLE.update({"C15": mediainfo})
TABLE.update({"C13": sdp, "C14": sdp, "C20": sdpbuild})
