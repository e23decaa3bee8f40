---------------------------------- MODULE Client --------------------------------
(* What the request says about the client. r = [hs: <<<<name, value>>>> in order,   *)
(* names in canonical form, peer: the connection's peer address, tls]               *)
EXTENDS Str
Lines(r, n) == LET f == SelectSeq(r.hs, LAMBDA p : p[1] = n) IN [j \in 1..Len(f) |-> f[j][2]]
First(r, n) == LET l == Lines(r, n) IN IF l = <<>> THEN "" ELSE l[1]
Proxy(r) == LET t == Join(Lines(r, "X-Forwarded-For"), ",") IN IF t = "" THEN <<>> ELSE [j \in 1..Len(Split(t, ",")) |-> TrimSpace(Split(t, ",")[j])]
Peer(r)  == LET j == LastIndex(r.peer, ":") IN IF j = 0 THEN r.peer ELSE SubSeq(r.peer, 1, j - 1)
RealIp(r) == IF First(r, "X-Real-Ip") # "" THEN First(r, "X-Real-Ip")
             ELSE IF Proxy(r) # <<>> /\ Proxy(r)[1] # "" THEN Proxy(r)[1] ELSE Peer(r)
Protocol(r) == IF First(r, "X-Forwarded-Proto") \in {"http", "https"} THEN First(r, "X-Forwarded-Proto") ELSE IF r.tls THEN "https" ELSE "http"
Cut(s) == LET P == Positions(s, " ") \cup Positions(s, ";") IN IF P = {} THEN s ELSE SubSeq(s, 1, MinOf(P) - 1)
Client(r) ==
  [ip |-> RealIp(r), proxy |-> Proxy(r), proto |-> Protocol(r), ajax |-> First(r, "X-Requested-With") = "XMLHttpRequest",
   ws |-> (Contains(Lower(First(r, "Connection")), "upgrade") /\ Lower(First(r, "Upgrade")) = "websocket"),
   ua |-> First(r, "User-Agent"), ct |-> Cut(First(r, "Content-Type"))]
================================================================================
