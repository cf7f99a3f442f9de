CONN = ("TLA+ specification of the connection (spec/Conn.tla) model-checked with TLC; random behaviours of it replayed "
        "on the real code in virtual time, recorded executions checked against it with TLC")
CONN_NOTE = ("Design: exhaustive within the constants of the cfg. Code: every recorded execution is accepted by the specification, "
             "for the scripts generated from it; trusts testing/synctest and the in-memory net.Conn.")
SESS = ("TLA+ specification of the session (spec/Session.tla: user calls, server, connections, clock) checked with TLC; random "
        "behaviours of it replayed on the real code in virtual time, recorded executions checked against it with TLC")
SESS_NOTE = ("Code: every recorded execution is accepted by the specification, for thousands of scripts generated from it (%s); "
             "trusts testing/synctest, the in-memory net.Conn and the harness's rendering of abstract replies.")
DEP = ("TLA+ specification of media units, their RTP packets and the receiver (spec/Depack.tla) model-checked with TLC; random senders "
       "of it exported as vectors (packets and the units each completes) and replayed on the real code")
DEP_NOTE = ("Design: every packetization of every sequence of a few units of a few bytes. Code: thousands of random packet sequences with "
            "units of 0 bytes to 8 MiB (%s), compared byte by byte after every packet; trusts testing/synctest and the in-memory net.Conn.")
SDP = ("TLA+ specification of session descriptions, their lines and a decoder (spec/Sdp.tla) model-checked with TLC; messages and texts "
       "generated from it (all combinations of optional lines, random messages, descriptions to refuse) replayed on the real code")
SDP_NOTE = ("Design: all small messages, each line refused where it may not stand. Code: all combinations of optional lines and thousands of "
            "random messages (%s).")
TEXT = {
    "C01": ("TLA+ specification of the framing (spec/Framing.tla; byte-level refinement FramingMC checked with TLC); streams and "
            "cuts generated from it replayed on the real code, recorded deliveries checked against it with TLC",
            "Design: all splits of all streams of up to 3 scaled-down messages. Code: every recorded execution is accepted, for all "
            "single cuts of eight streams and for random streams and cuts with messages up to the receive limit."),
    "C11": (CONN, CONN_NOTE),
    "C12": (CONN, CONN_NOTE),
    "C18": (CONN, CONN_NOTE),
    "C02": (SESS, SESS_NOTE % "every reply at every step of the handshake, several connections"),
    "C03": (SESS, SESS_NOTE % "replies, silence, disconnects and garbage at every step of the handshake"),
    "C04": (SESS, SESS_NOTE % "session ids and header spellings, later requests, reconnects"),
    "C05": (SESS, SESS_NOTE % "challenges, credentials and replies, several connections"),
    "C06": (DEP, DEP_NOTE % "single, STAP, MTAP and FU-A packets"),
    "C07": (DEP, DEP_NOTE % "single, aggregation and fragmentation packets"),
    "C08": (DEP, DEP_NOTE % "several tracks of mixed codecs, RTCP, unknown channels, packets without content"),
    "C09": ("TLA+ specifications of the session (spec/Session.tla) and of what is left to hold when the server's bytes are arbitrary "
            "(spec/Havoc.tla); scripts generated from them with TLC, filled with mutated and random bytes, run on the real code; recorded "
            "executions checked with TLC",
            "Code: thousands of random conversations with garbage of many kinds, over TCP and WebSockets, none crashes, blocks or loses the "
            "disconnect event, and units around garbage that leaves the framing intact are undisturbed; sampling, no proof over all bytes."),
    "C10": (SESS, SESS_NOTE % "user calls, nested calls, held callbacks, slow and failing writes, several connections"),
    "C13": (SDP, SDP_NOTE % "the encoder's lines and the decoded message are compared with the specification's"),
    "C14": (SDP, SDP_NOTE % "the decoded message is compared with the specification's, damaged descriptions must be refused or at least survived"),
    "C15": ("TLA+ specification of what a media section says about its track (spec/MediaInfo.tla); descriptions generated from it with the "
            "media map each leads to (TLC) are replayed on the real code, several connections per session",
            "Every payload type with every form of rtpmap; thousands of random descriptions, compared field by field; trusts the in-memory net.Conn."),
    "C16": ("TLA+ specifications of the session (spec/Session.tla, with WebSocket closing) and of media units (spec/Depack.tla); behaviours and "
            "vectors generated from them with TLC are replayed on the real code over an in-memory WebSocket, recorded executions checked with TLC",
            "Code: the same specifications that decide the TCP properties accept every execution over WebSockets (random message sizes up to 2 MB, "
            "fragmented messages, control frames, refused upgrades, stalled and failing writes); trusts testing/synctest and the harness's server side."),
    "C19": ("TLA+ specification of where Play goes and what becomes of it (spec/Dial.tla) model-checked with TLC; random histories of it with the outcome "
            "of each step exported as vectors and replayed on the real code over real TCP connections on the loopback network",
            "Design: every history of 3-4 steps. Code: hundreds of random histories over URL forms, servers that answer, refuse, hang up, stay silent or cannot be "
            "reached, in real time; addresses the machine does not have are left out."),
    "C20": ("TLA+ specification of the line each call adds (spec/SdpBuild.tla on top of spec/Sdp.tla) model-checked with TLC; sequences of calls and messages "
            "generated from it are replayed as calls on the real code, whose lines, text, decoded messages and accessors are compared with the specification's",
            "Code: every call with 40 random arguments each, thousands of sequences and messages, with and without reused memory; design: every pair (thorough: "
            "triple) of calls."),
    "C17": (SESS, SESS_NOTE % "control requests, waits, unsolicited replies and media"),
}
