#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here so that it can be edited readably)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=list(state), mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=hook)))

NOTESTS = "The root package and tcpnetwork have no tests at all; "

p("C01", "The byte stream is cut back into exactly the messages the server wrote",
  "However the server's byte stream is split into reads, a connection using the RTSP stream protocol delivers exactly the messages the server wrote - interleaved '$' frames of every length from 0 to 65535 and RTSP responses with or without a body - each once, in order, byte-identical, and as soon as its last byte has arrived. "
  "A message cut short by the end of the stream is never delivered, and a response that, with its declared body, does not fit the receive limit of 65535 bytes ends the connection instead of being delivered truncated or misaligned.",
  ["inputs", "schedules"], "every sequence of messages, every split of the byte stream into reads (also inside headers, terminators and bodies), every point at which the stream ends",
  NOTESTS + "no test feeds the unpacker at all, and no sample of splits covers all of them.",
  ["tcpnetwork/tcpnetwork.go", "rtpstreamprotocol.go", "rtspparser.go"],
  [("Connection.unpack / Connection.read", "tcpnetwork/tcpnetwork.go"), ("RTPStreamProtocol.UnserializeHeader / GetContentLength", "rtpstreamprotocol.go")],
  observe=["ConnEventData payloads handed to the event handler of tcpnetwork.Connection"])

p("C02", "Play performs DESCRIBE, one SETUP per track in order, then PLAY",
  "Against every server, starting playback sends DESCRIBE, then one SETUP per described track in description order - each for the track's own URL (absolute control URLs as they are, relative ones appended to the request URL with '/') and its own interleaved channel pair 2i-(2i+1) - then PLAY, with nothing skipped, repeated (except the single DESCRIBE retry after an authentication challenge) or reordered. "
  "A request is written only after the previous one was answered, CSeq grows by exactly one from each request to the next on the session, and nothing more is sent after the first unsuccessful reply.",
  ["histories", "inputs"], "every sequence of server replies (success, any failure status, challenge, silence, disconnect, unparsable reply), every number of tracks, every combination of control URLs",
  NOTESTS + "the handshake never runs in the existing tests.",
  ["rtspclient.go", "rtsprequest.go"],
  [("sendRequest", "rtspclient.go"), ("SendDescribe/SendTcpSetup/SendPlay, sendRequst", "rtsprequest.go")],
  observe=["bytes the client writes to the connection"])

p("C03", "The result of Play and its event always match what the server answered",
  "Starting playback returns nil and raises exactly one request-success event if and only if every reply of the handshake was 200 and the description contained at least one track; in every other case on an established connection it returns an error and raises exactly one request-error event (if the server cannot be reached: an error, one disconnect event and no request event; while the session is connected: just an error). "
  "It always returns: a request that is not answered is given up after the 2-second response timeout (not earlier) and the connection is then closed, and a server that disconnects ends the call at once.",
  ["histories", "schedules", "fault_sequences"], "every sequence of server replies and faults (silence, disconnect, garbage, unsolicited or delayed replies) at every step of the handshake",
  NOTESTS + "outcomes under server silence or disconnect at each step are never exercised.",
  ["rtspclient.go"],
  [("sendRequest deferred event", "rtspclient.go"), ("WaitRtspResponse timeout", "rtspclient.go")],
  observe=["return value of Play/SetConnection", "RtspEvent callbacks", "closing of the connection"])

p("C04", "Requests after SETUP carry the session id the server assigned",
  "Once a SETUP reply has assigned a session id, every later request of that playback session - further SETUPs, PLAY, PAUSE and TEARDOWN - carries exactly that id (without parameters such as ';timeout=60' and without surrounding blanks), however the server spells or orders its reply headers; before an id is assigned no Session header value is sent. "
  "An id from an earlier connection is never sent on a later one.",
  ["histories", "inputs"], "every assignment of ids to SETUP replies, every spelling/order of the reply headers, every sequence of later requests and reconnects",
  NOTESTS + "no test sends or parses a session id.",
  ["rtspclient.go", "rtspparser.go", "rtsprequest.go"],
  [("ParserRtspResponse Session header", "rtspparser.go"), ("session header in the Send* requests", "rtsprequest.go")],
  observe=["Session header of the requests the client writes"])

p("C05", "A challenged client authenticates every request and leaks no credentials",
  "When the first DESCRIBE is answered 401 and the URL carried a user name and password, the client repeats DESCRIBE exactly once with a valid Authorization for the challenge (Digest with MD5 preferred to Basic whatever their order and capitals, challenges of other schemes and algorithms passed over, quoted realm and nonce taken over literally, also when they contain blanks or colons), and every later request on that connection - SETUP, PLAY, PAUSE, TEARDOWN - carries a valid Authorization for its own method; a second 401 ends the handshake. "
  "Without a challenge or without credentials no Authorization is ever sent, credentials never appear in a request line, and credentials of one URL are never used for another URL.",
  ["histories", "inputs", "configurations"], "every combination of challenge schemes, realms, nonces, credentials and reply sequences, including consecutive sessions with different URLs",
  NOTESTS + "no test covers a challenge.",
  ["authenticator.go", "rtspclient.go", "rtspparser.go", "rtsprequest.go"],
  [("createAuthenticatorString", "authenticator.go"), ("401 branch of sendRequest", "rtspclient.go"), ("parsingAuthenticate", "rtspparser.go"), ("ParsingURL", "rtspclient.go")],
  observe=["Authorization header and request line of every request the client writes"])

p("C06", "H.264 access: delivered NAL units are exactly those the sender packetized",
  "For every H.264 packet sequence a sender may legally produce - single NAL unit packets, STAP-A/STAP-B/MTAP16/MTAP24 aggregation packets and FU-A fragmentation (also beginning with FU-B), in any order, in RTP packets with or without contributing sources, header extension and padding - the data handler receives exactly the sender's NAL units, each once, in order and byte-identical (the NAL header of a fragmented unit being rebuilt), for every unit size up to 8 MiB and every non-empty fragment size. "
  "A unit is handed over when the packet completing it arrives, never earlier and never merged with another.",
  ["inputs", "histories"], "every sequence of packets, every way of packetizing the same units, every NAL type/NRI value and every unit and fragment size",
  NOTESTS + "no RTP packet is ever parsed in the existing tests.",
  ["h264rtpparser.go", "rtpparser.go", "rtspclient.go"],
  [("H264RtpParser.SplitHeader/ParsingRtp", "h264rtpparser.go"), ("RtpParser.pushData reassembly buffer", "rtpparser.go"), ("parsingRtp", "rtspclient.go")],
  observe=["RtspData callbacks"])

p("C07", "H.265 access: delivered NAL units are exactly those the sender packetized",
  "For every H.265 packet sequence a sender may legally produce without DONL fields - single NAL unit packets, aggregation packets and fragmentation units, in any order, in RTP packets with or without contributing sources, header extension and padding - the data handler receives exactly the sender's NAL units, each once, in order and byte-identical (the two-byte NAL header of a fragmented unit being rebuilt), for every unit size up to 8 MiB and every non-empty fragment size. "
  "A unit is handed over when the packet completing it arrives, never earlier and never merged with another.",
  ["inputs", "histories"], "every sequence of packets, every way of packetizing the same units, every NAL type/layer/TID value and every unit and fragment size",
  NOTESTS + "no RTP packet is ever parsed in the existing tests.",
  ["hevcrtpparser.go", "rtpparser.go", "rtspclient.go"],
  [("HevcRtpParser.SplitHeader/ParsingRtp", "hevcrtpparser.go"), ("RtpParser.pushData reassembly buffer", "rtpparser.go"), ("parsingRtp", "rtspclient.go")],
  observe=["RtspData callbacks"])

p("C08", "Tracks never mix and every codec gets the right unit rule",
  "Data is delivered under the even channel number of the track whose packets carried it, and packets of different tracks interleaved in any order never end up in each other's units, whatever mix of codecs the tracks have; RTCP (odd) channels and channels that were never set up deliver nothing; contributing sources, header extension and padding of an RTP packet are never part of a unit. "
  "For codecs other than H.264/H.265 every non-empty packet payload is one unit, except for 'bbw' where the non-empty payloads up to and including the packet with the RTP marker bit form one unit.",
  ["inputs", "histories", "configurations"], "every number and codec mix of tracks, every interleaving of their packets with RTCP and unknown channels, every marker-bit pattern",
  NOTESTS + "no multi-track stream is ever received in the existing tests.",
  ["rtspclient.go", "rtpparser.go", "simplertpparser.go", "markrtpparser.go"],
  [("rtpChannelMap", "rtspclient.go"), ("getRTPSourceHandler", "rtpparser.go")],
  observe=["RtspData callbacks", "RtpMediaMap"])

p("C09", "Nothing a server sends can crash or wedge the client",
  "No byte sequence sent by a server at any moment - malformed or truncated RTSP responses, session descriptions or challenges, interleaved frames of any content and length, unsolicited replies, arbitrary garbage - makes the client process panic or exit (whether the session has a data handler or not), blocks a call beyond the 2-second response timeout, or stops the disconnect event from being raised once the server closes the connection. "
  "Truncated packets, packets for unknown channels and unparsable or unsolicited replies received between two media units leave the units before and after them undisturbed.",
  ["inputs", "fault_sequences", "schedules"], "every malformed message at every position of the handshake and of the playing stream",
  NOTESTS + "hostile input is only tried against the sdp decoder, on a fixed list of files.",
  ["rtspclient.go", "rtpparser.go", "h264rtpparser.go", "hevcrtpparser.go", "markrtpparser.go", "simplertpparser.go", "rtspparser.go", "sdpparser.go", "rtpstreamprotocol.go", "tcpnetwork/tcpnetwork.go"],
  [("parsingData/parsingRtp/parsingRtsp", "rtspclient.go"), ("parsingSDPLine", "sdpparser.go"), ("ParserRtspResponse", "rtspparser.go"), ("recover in routineMain", "tcpnetwork/tcpnetwork.go")],
  observe=["process exit", "return of Play/Close/WaitRtspResponse", "RtspEventDisconnected", "RtspData callbacks"])

p("C10", "Session lifecycle: one disconnect per connection, clean close, clean restart",
  "Every established connection ends in exactly one disconnect event, raised after the last data callback of that connection, whoever ends it and in whatever phase; afterwards nothing of that connection is left running. "
  "Close always returns (within the 2-second response timeout even if the server stays silent), sends TEARDOWN if the session is connected and no request is outstanding, never crashes (also before any connection or when repeated), and leads to the connection being closed once the transport has taken the bytes queued before. "
  "After the disconnect event - also from inside its handler - the same session can start playback again and then behaves exactly like a new session, except that CSeq keeps counting.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of user calls, server replies, data and disconnects, in every phase, over any number of consecutive connections",
  NOTESTS + "no test opens or closes a session.",
  ["rtspclient.go", "tcpnetwork/tcpnetwork.go"],
  [("HandleConn", "rtspclient.go"), ("Close, WaitRtspResponse", "rtspclient.go"), ("routineMain teardown", "tcpnetwork/tcpnetwork.go")],
  observe=["RtspEvent and RtspData callbacks", "return of Close/Play", "closing of the connection", "goroutines of the library left after the disconnect event"])

p("C11", "tcpnetwork: messages sent are written whole, once, in order, and before Close",
  "The bytes a connection writes are exactly the messages accepted by Send (each preceded by the stream protocol's serialized header if there is one), whole, once each and in acceptance order; all messages (non-nil byte slices) accepted before Close are written before the connection is closed unless it fails first, and with the copy option the caller may change its buffer immediately after Send returns. "
  "Send and Close never panic and always return within the 5-second send timeout - whatever the peer does, however full the send queue is, and whether the connection is not started, being torn down or gone - and a failed write or a send timeout closes the connection.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of senders, Close, slow or failing writes and peer disconnects, for every queue size",
  NOTESTS + "concurrent senders, full queues and disconnects during sends are never exercised.",
  ["tcpnetwork/tcpnetwork.go"],
  [("Send/sendRaw/Close and sendMsgQueue", "tcpnetwork/tcpnetwork.go"), ("routineSend", "tcpnetwork/tcpnetwork.go")],
  observe=["bytes written to net.Conn and its Close", "return of Send/Close", "GetStatus"])

p("C12", "tcpnetwork: connected, data in order, exactly one disconnected",
  "For every connection that is run, the event handler sees one connected event, then the received messages one at a time in arrival order as delimited by the stream protocol (header length plus announced length or terminator, plus announced content; whatever one read gives after the header, if the protocol announces neither), then exactly one disconnected event and nothing afterwards, however the connection ends (peer close, read error, local Close, failed write, a panic of the protocol or the handler while receiving) and however slowly the handler runs. "
  "The status is connected from Run until the teardown and disconnected from the disconnected event on, and after that event no goroutine of the connection remains.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of handler progress, arriving data, local close and peer faults; every stream protocol",
  NOTESTS + "no test runs a connection.",
  ["tcpnetwork/tcpnetwork.go"],
  [("routineMain/routineRead/unpack", "tcpnetwork/tcpnetwork.go"), ("status", "tcpnetwork/tcpnetwork.go")],
  observe=["ConnEvent callbacks", "GetStatus", "goroutines left after the disconnected event"])

p("C13", "SDP: decoding an encoded message gives the message back",
  "For every valid session description message - any combination of optional session fields, any number of time descriptions with or without repeats, time zone adjustments, bandwidths, attributes and flags, connection data (IPv4 with optional TTL and address count, IPv6 with optional address count), encryption and any number of media sections with their own title, connection, bandwidths, encryption and attributes - encoding it, serializing it to text (with any line ending) and decoding that text succeeds and yields an equal message. "
  "The lines are emitted in RFC 4566 order.",
  ["inputs"], "every message in the representable domain (whole-second times and durations, text without line breaks, any bandwidth type, numbers of up to 64 bits in the origin)",
  "sdp tests encode one fixed message and decode another; no test compares decode(encode(m)) with m, so e.g. lost repeat times or a TTL stored in the wrong section go unnoticed.",
  ["sdp/encoder.go", "sdp/decoder.go", "sdp/fields.go", "sdp/sdp.go"],
  [("Message.Append", "sdp/encoder.go"), ("Decoder.Decode", "sdp/decoder.go"), ("Session.AppendTo / DecodeSession", "sdp/sdp.go")],
  observe=["sdp.Message values and the text between"])

p("C14", "SDP: decoder accepts RFC order, files each line in its section, rejects the rest",
  "Every description whose lines follow the RFC 4566 order (optional lines present or absent; attributes, bandwidths, time descriptions and media repeated; time zones before or after the time descriptions; blank lines, surrounding blanks and either line ending) is decoded without error, with each line's value stored in the session or in the media section it belongs to. "
  "Unknown line types, session-level lines after a media line, repeat times without a time description and field values with a wrong number of sub-fields, missing or non-numeric numbers, TTLs or address counts above 255 and negative times yield an error, and no input makes the decoder panic.",
  ["inputs"], "every sequence of line types, every well-formed or malformed value in every section",
  "tests decode a few sample files and a fixed list of bad ones; section/ordering logic depends on the whole line sequence.",
  ["sdp/decoder.go", "sdp/sdp.go"],
  [("isExpected / decodeSession / decodeTiming / decodeMedia", "sdp/decoder.go"), ("DecodeSession", "sdp/sdp.go")],
  observe=["result and error of DecodeSession / Decoder.Decode"])

p("C15", "Track information reflects the description's media sections",
  "After DESCRIBE, the session's media map holds for each set-up track (key 2i) what media section i says: medium name, payload type (the first listed format), codec name, clock rate and channels (from the RFC 3551 static table for the payload types it covers, else from the rtpmap of that payload type, -1 where rtpmap leaves a value out), control URL, x-dimensions, integer framerate or x-framerate, and each fmtp parameter under its name with its exact value, whether parameters are separated by ';' or '; '. "
  "Nothing from another media section, an earlier description or an earlier connection appears in it, and a map that a handler has taken stays as it is while the handshake goes on.",
  ["inputs", "configurations"], "every combination of media sections, payload types and attributes in every order",
  NOTESTS + "the translation from SDP to track information is untested.",
  ["sdpparser.go", "rtspclient.go"],
  [("parsingSDP and helpers", "sdpparser.go"), ("RtpMediaMap", "rtspclient.go")],
  observe=["RtspClientSession.RtpMediaMap"])

p("C16", "WebSocket transport behaves like a byte stream",
  "Over a WebSocket server the client behaves exactly as over TCP: the server's byte stream may be cut into WebSocket messages of any size in any way (also larger than the receive buffer) without losing, repeating or reordering a byte, each request is sent as one binary message, and the result of starting playback, the events and the media units are those the same server would produce over TCP. "
  "A WebSocket that cannot be opened (or not within the 2-second timeout) gives an error and one disconnect event, and closing the session closes the WebSocket even if the server does not answer.",
  ["inputs", "histories", "schedules"], "every server behaviour, every segmentation into WebSocket messages, every way the socket ends",
  NOTESTS + "the WebSocket path is never executed.",
  ["websocketconn.go", "rtspclient.go"],
  [("WebsocketConn.Read/Write/Close", "websocketconn.go"), ("PlayUseWebsocket", "rtspclient.go")],
  observe=["return of PlayUseWebsocket", "messages received by the server", "RtspEvent/RtspData callbacks"])

p("C17", "Control requests after the handshake are well-formed and strictly one at a time",
  "While the session is connected, each of the public request calls (DESCRIBE, SETUP, PLAY, PAUSE, TEARDOWN) either returns an error without writing anything, because a request is still waiting for its reply, or writes exactly one complete RTSP/1.0 request for the session's URL (SETUP: the given track URL and channels) with the next CSeq; PLAY with a start time carries 'Range: npt=<start>.0-' and with a speed other than 1 a Speed header, and neither otherwise. "
  "Waiting returns the reply to the outstanding request with its status, or an error on timeout, disconnect or an unparsable reply, after which requests may be sent again; before the first connection all these calls just return an error. Replies that arrive while no request is outstanding never block media delivery and are never taken for the reply to a later request.",
  ["histories", "inputs", "schedules"], "every sequence of request/wait calls, replies, unsolicited replies and media",
  NOTESTS + "no request is ever issued.",
  ["rtsprequest.go", "rtspclient.go"],
  [("SendDescribe/SendTcpSetup/SendPlay/SendPause/SendTeardown", "rtsprequest.go"), ("WaitRtspResponse, rtspRequestInitial", "rtspclient.go")],
  observe=["bytes the client writes", "return of the calls", "RtspData callbacks"])

p("C18", "tcpnetwork: a read timeout ends silent connections and only those",
  "With a read timeout of n seconds set before Run, a connection that waits for a message is torn down like after a failed read as soon as the part it waits for - the header, the announced or terminated body, or the announced content - is not complete n seconds after the wait for that part began (the wait for the header begins when the handler is back from the event before, that for each further part when the part before it is complete). "
  "A message whose parts each arrive in time is always delivered, the time the handler takes does not count, sending neither shortens nor prolongs the wait, and without a read timeout silence never ends a connection.",
  ["schedules", "histories", "inputs"], "every timing of arriving bytes and handler progress relative to the timeout, every split of messages over time, every stream protocol",
  NOTESTS + "read timeouts are never set in a test.",
  ["tcpnetwork/tcpnetwork.go"],
  [("unpack: SetReadDeadline before each part, cleared after the message", "tcpnetwork/tcpnetwork.go"), ("SetReadTimeoutSec", "tcpnetwork/tcpnetwork.go")],
  observe=["ConnEvent callbacks", "closing of the connection", "GetStatus"])

p("C19", "Play goes to the server its URL names and asks for exactly that URL",
  "Starting playback connects to the host of the URL (IPv4 or IPv6 literal or name) at the port it gives, or 554 if it gives none, and to no other, and the requests ask for the URL as it was given, with port, path and query, but without user name and password. "
  "If nobody listens there or the connection is not made within the 2-second timeout, playback fails with one disconnect event; a URL that cannot be parsed, or a session that is connected already, gives an error and neither a connection nor an event; and none of this keeps the session from playing another URL afterwards or disturbs the playback that is under way.",
  ["inputs", "histories", "configurations"], "every form of URL (host, port, credentials, path, query), every sequence of playbacks of reachable and unreachable servers",
  NOTESTS + "no test opens a connection.",
  ["rtspclient.go"],
  [("Play, ParsingURL", "rtspclient.go"), ("SetConnection", "rtspclient.go")],
  observe=["connections accepted at the addresses of the loopback network", "request lines", "return of Play", "RtspEvent and RtspData callbacks"])

p("C20", "SDP: building line by line and reading by accessors say what was added",
  "Each Add function of a session (version, origin, texts, connection data, bandwidth, timing, repeat times plain and compact, time zones, encryption, attributes and flags, media, raw lines) appends exactly one line whose text says its arguments, with network type IN and the address type of the address where they are left out; lines added before stay as they were, also when the session's memory is reused. "
  "The session's text is these lines in their order, equals the session that is decoded from it, and differs from every session with other lines. "
  "A description that is built this way decodes to the message it was built from, and the accessors (Flag, Attribute, Value, Values, Start, End, Blank, Equal, ConnectionAddress, String) say of it what its fields say: the first value, all values in their order, present or not; what is added to a message comes after what was there.",
  ["inputs"], "every sequence of calls with every kind of argument",
  "sdp tests call each function with one or two fixed arguments and compare no text of most of them; defaults, sizes of numbers, combinations with memory reuse and nearly-equal values are not sampled.",
  ["sdp/fields.go", "sdp/sdp.go", "sdp/decoder.go"],
  [("Session.Add...", "sdp/fields.go"), ("Session.AppendTo / Equal / append", "sdp/sdp.go"), ("Attributes, Message and Media accessors", "sdp/decoder.go")],
  observe=["lines and text of the built session", "results of the accessors and comparisons"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
