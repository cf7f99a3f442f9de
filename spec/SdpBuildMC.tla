----------------------------- MODULE SdpBuildMC ------------------------------
(* Every short sequence of calls, with arguments that are present or left out. *)
EXTENDS SdpBuild
CONSTANT MaxCalls
VARIABLE calls
vars == <<lines, calls>>
A4 == [a |-> "10.0.0.1", t |-> "IP4"]
A6 == [a |-> "::1", t |-> "IP6"]
Calls == [op : {"version"}, n : {"0"}]
  \cup [op : {"origin"}, user : {"-"}, id : {"1"}, ver : {"2"}, net : {"", "IN"}, at : {"", "IP4", "IP6"}, addr : {A4, A6}]
  \cup [op : {"name", "info", "uri", "email", "phone"}, x : {"x", "a=b"}]
  \cup [op : {"conn"}, net : {"", "IN"}, at : {"", "IP4", "IP6"}, addr : {A4, A6}, ttl : {"", "1"}, n : {"", "2"}]
  \cup [op : {"connip"}, addr : {A4, A6}]
  \cup [op : {"bw"}, t : {"AS"}, n : {"0", "64"}]
  \cup [op : {"timing", "ntp"}, start : {"0", "1"}, end : {"0"}]
  \cup [op : {"repeat", "compact"}, interval : {0, 59, 60, 3600, 86400}, active : {0, 3660}, offs : {<<0>>, <<0, 90000>>}]
  \cup [op : {"zones"}, z : {<<<<"1", -3600>>>>, <<<<"1", 0>>, <<"2", 60>>>>}]
  \cup [op : {"key"}, m : {"clear"}, k : {"", "x"}]
  \cup [op : {"method"}, m : {"prompt"}]
  \cup [op : {"flag"}, k : {"x"}]
  \cup [op : {"attr"}, k : {"x"}, vs : {<<>>, <<"1">>, <<"1", "2">>}]
  \cup [op : {"media"}, type : {"audio"}, port : {"0"}, nports : {"", "2"}, proto : {"udp"}, fmt : {"0", "0 1"}]
Init == BInit /\ calls = <<>>
Next == Len(calls) < MaxCalls /\ \E c \in Calls : Add(c) /\ calls' = Append(calls, c)
Spec == Init /\ [][Next]_vars
\* one line per call, in their order, and what was added stays
OneLineEach == Len(lines) = Len(calls) /\ \A i \in 1..Len(lines) : lines[i] = Line(calls[i])
Stays == [][\A i \in 1..Len(lines) : lines'[i] = lines[i]]_vars
\* the line does not depend on whether a default was written out
Defaults == \A i \in 1..Len(calls) : LET c == calls[i] IN
  /\ c.op \in {"conn", "origin"} => Line(c) = Line([c EXCEPT !.net = Def(@, "IN"), !.at = Def(@, c.addr.t)])
  /\ (c.op = "conn" /\ c.net \in {"", "IN"} /\ c.at \in {"", c.addr.t} /\ c.ttl = "" /\ c.n = "") => Line(c) = Line([op |-> "connip", addr |-> c.addr])
  /\ (c.op = "key" /\ c.k = "") => Line(c) = Line([op |-> "method", m |-> c.m])
  /\ (c.op = "attr" /\ c.vs = <<>>) => Line(c) = Line([op |-> "flag", k |-> c.k])
\* both spellings of repeat times are spellings of the same durations
Repeats == \A i \in 1..Len(calls) : LET c == calls[i] IN
  c.op \in {"repeat", "compact"} => \A d \in {c.interval, c.active} \cup {c.offs[j] : j \in 1..Len(c.offs)} : Plain(d) \in Spellings(d) /\ Compact(d) \in Spellings(d)
=============================================================================
