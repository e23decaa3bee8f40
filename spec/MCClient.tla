-------------------------------- MODULE MCClient --------------------------------
(* Every combination of the identifying headers.                                    *)
EXTENDS Client, Json, TLC
VARIABLE r
Real == {<<>>, <<"9.9.9.9">>, <<"2001:db8::9">>}
Fwd  == {<<>>, <<"1.1.1.1">>, <<"1.1.1.1, 2.2.2.2">>, <<"1.1.1.1,2.2.2.2 , 3.3.3.3">>, <<"1.1.1.1", "2.2.2.2,3.3.3.3">>, <<"">>, <<" ,2.2.2.2">>}
Pto  == {<<>>, <<"http">>, <<"https">>, <<"HTTPS">>, <<"ftp">>, <<"wss", "https">>}
Peers == {"192.0.2.1:1234", "[2001:db8::1]:80", "pipe"}
H(n, q) == [j \in 1..Len(q) |-> <<n, q[j]>>]
Other == {<<>>, <<<<"X-Requested-With", "XMLHttpRequest">>, <<"Connection", "Upgrade">>, <<"Upgrade", "WebSocket">>, <<"Content-Type", "text/x; charset=utf-8">>>>,
          <<<<"X-Requested-With", "xmlhttprequest">>, <<"Connection", "keep-alive, upgrade">>, <<"Upgrade", "h2c">>, <<"Content-Type", "a/b">>, <<"User-Agent", "u;x y">>>>}
Init == \E a \in Real, f \in Fwd, p \in Pto, e \in Peers, t \in BOOLEAN, o \in Other :
          r = [id |-> "mc", hs |-> H("X-Real-Ip", a) \o H("X-Forwarded-For", f) \o H("X-Forwarded-Proto", p) \o o, peer |-> e, tls |-> t]
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
C == Client(r)
RealIpFirst    == First(r, "X-Real-Ip") # "" => C.ip = First(r, "X-Real-Ip")
ForwardedNext  == (First(r, "X-Real-Ip") = "" /\ C.proxy # <<>> /\ C.proxy[1] # "") => C.ip = C.proxy[1]
PeerLast       == (First(r, "X-Real-Ip") = "" /\ Lines(r, "X-Forwarded-For") = <<>>) => HasPrefix(r.peer, C.ip) /\ C.ip # ""
EntriesClean   == \A j \in 1..Len(C.proxy) : ~Contains(C.proxy[j], " ") /\ ~Contains(C.proxy[j], ",")
ProtoIsOne     == C.proto \in {"http", "https"} /\ ((C.proto = "https") # (C.proto = "http"))
TlsUnlessTold  == First(r, "X-Forwarded-Proto") \notin {"http", "https"} => (C.proto = "https") = r.tls
NoParameters   == ~Contains(C.ct, ";")
Emit == PrintT("SCEN " \o ToJson(r))
================================================================================
