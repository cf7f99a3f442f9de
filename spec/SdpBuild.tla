------------------------------ MODULE SdpBuild -------------------------------
(* A session description that is built line by line (Session.Add...): what   *)
(* each call adds, and that it adds nothing else.                            *)
EXTENDS Sdp

Plain(d) == ToString(d)
\* an IP address has the type of its form; a host name counts as IP4
IpType(ip) == ip.t
\* calls: [op, ...]; the line a call adds: type and text
Def(x, d) == IF x = "" THEN d ELSE x
Line(c) ==
  CASE c.op = "version" -> <<"v", c.n>>
    [] c.op = "origin"  -> <<"o", Join(<<c.user, c.id, c.ver, Def(c.net, "IN"), Def(c.at, IpType(c.addr)), c.addr.a>>, " ")>>
    [] c.op = "name"    -> <<"s", c.x>>
    [] c.op = "info"    -> <<"i", c.x>>
    [] c.op = "uri"     -> <<"u", c.x>>
    [] c.op = "email"   -> <<"e", c.x>>
    [] c.op = "phone"   -> <<"p", c.x>>
    [] c.op = "conn"    -> <<"c", Join(<<Def(c.net, "IN"), Def(c.at, IpType(c.addr)), c.addr.a \o Opt(c.ttl, "/") \o Opt(c.n, "/")>>, " ")>>
    [] c.op = "connip"  -> <<"c", Join(<<"IN", IpType(c.addr), c.addr.a>>, " ")>>
    [] c.op = "bw"      -> <<"b", c.t \o ":" \o c.n>>
    [] c.op \in {"timing", "ntp"} -> <<"t", c.start \o " " \o c.end>>
    [] c.op = "repeat"  -> <<"r", Value(L("r", c), Plain)>>
    [] c.op = "compact" -> <<"r", Value(L("r", c), Compact)>>
    [] c.op = "zones"   -> <<"z", Value(L("z", c.z), Compact)>>
    [] c.op = "key"     -> <<"k", c.m \o Opt(c.k, ":")>>
    [] c.op = "method"  -> <<"k", c.m>>
    [] c.op = "flag"    -> <<"a", c.k>>
    [] c.op = "attr"    -> <<"a", c.k \o (IF c.vs = <<>> THEN "" ELSE ":" \o Join(c.vs, " "))>>
    [] c.op = "media"   -> <<"m", Value(L("m", c), Plain)>>
    [] c.op \in {"raw", "line"} -> <<c.t, c.x>>

VARIABLE lines
BInit == lines = <<>>
Add(c) == lines' = Append(lines, Line(c))
=============================================================================
