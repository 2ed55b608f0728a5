-------------------------------- MODULE Auth --------------------------------
(***************************************************************************
 Which messages a VTN acts upon: client certificates, XML signatures and replay
 protection (openleadr/messaging.py, openleadr/service/vtn_service.py).

 Time counts in ticks of half a second; certificates and keys go by their names.

 cfg  fl, vl: the VTN has a fingerprint lookup, a VEN lookup;  verify: it checks signatures
      sign: certificate with which it signs its answers ("" = none)
      lag: ticks that a lookup takes
 state
   known  ven -> [reg, fp]: what the lookups say.  reg: "none", "noreg", "reg", "raise";
          fp: the VEN's certificate, "" (not known) or "raise"
   used   <<time stamp, nonce>> of the signed messages that were accepted
   now

 A message is [kind, svc, ven, x, rq, tls, conn, by, shown, alt, rp, stamp, nonce]: connection with or without
 TLS and with which client certificate; signed with which key ("" = not signed), showing which certificate,
 altered in which way, with which replay protection.
 ***************************************************************************)
EXTENDS Util

Init0(cfg) == [cfg |-> cfg, known |-> Empty, used |-> {}, now |-> 0]

MaxAge == 10
\* ways to sign, and changes of a signed message, that make no difference to what has been signed
Benign == {"", "exclusive", "sha384", "sha512", "flat", "chain", "order", "comment", "outer", "nocomment"}
\* additions to a signed message that must not get it accepted when it would be refused without them
Extra == {"second", "noncecomment"}

Home(kind) ==
  CASE kind \in {"query", "create", "cancelreg"} -> "EiRegisterParty"
    [] kind \in {"update", "createdreport"} -> "EiReport"
    [] kind = "poll" -> "OadrPoll"
    [] OTHER -> "EiEvent"

Says(s, v) == Get(s.known, v, [reg |-> "none", fp |-> ""])
AsksReg(s, p) == s.cfg.vl /\ p.kind \notin {"query", "create"} /\ p.ven # ""
Checked(s, p) == p.tls /\ p.ven # "" /\ (s.cfg.fl \/ s.cfg.vl)
Lookups(s, p) == (IF AsksReg(s, p) THEN 1 ELSE 0) + (IF Checked(s, p) /\ p.conn # "" THEN 1 ELSE 0)
When(s, p) == s.now + s.cfg.lag * Lookups(s, p)

\* the certificate that a VEN has to use, "" if none will do
Expected(s, p) ==
  LET k == Says(s, p.ven)
  IN IF k.fp = "raise" \/ (~s.cfg.fl /\ k.reg \in {"none", "raise"}) THEN "" ELSE k.fp

ConnOk(s, p) == p.conn # "" /\ p.conn = Expected(s, p)
SignatureOk(s, p) == p.by # "" /\ p.by = p.shown /\ p.alt \in Benign \cup Extra /\ p.shown = Expected(s, p)
FreshOk(s, p) == p.rp = "ok" /\ p.stamp >= When(s, p) - MaxAge /\ <<p.stamp, p.nonce>> \notin s.used
\* Extra: such a message may be refused for what it has too much
Authentic(s, p) == ConnOk(s, p) /\ (s.cfg.verify => SignatureOk(s, p) /\ FreshOk(s, p))

Early(s, p) ==
  CASE AsksReg(s, p) /\ Says(s, p.ven).reg = "raise" -> "refused"
    [] AsksReg(s, p) /\ Says(s, p.ven).reg # "reg" -> "rereg"
    [] Checked(s, p) /\ ~Authentic(s, p) -> "refused"
    [] Home(p.kind) # p.svc -> "oadrResponse:459"
    [] OTHER -> ""

Answer(p) ==
  CASE p.kind \in {"query", "create"} -> "oadrCreatedPartyRegistration:200"
    [] p.kind = "cancelreg" -> "oadrCanceledPartyRegistration:200"
    [] p.kind = "update" -> "oadrUpdatedReport:200"
    [] p.kind = "reqevent" -> "oadrDistributeEvent:200"
    [] OTHER -> "oadrResponse:200"

Handler(p) == [h |-> p.kind, ven |-> p.ven, x |-> p.x, fp |-> IF p.kind = "create" /\ p.tls THEN p.conn ELSE ""]

Serve(s, p) ==
  LET e == Early(s, p)
      uses == Checked(s, p) /\ s.cfg.verify /\ e \notin {"refused", "rereg"}
  IN [s |-> IF uses THEN [s EXCEPT !.used = @ \cup {<<p.stamp, p.nonce>>}] ELSE s,
      out |-> [ans |-> IF e = "" THEN Answer(p) ELSE e, calls |-> IF e = "" THEN <<Handler(p)>> ELSE <<>>]]

\* messages that arrive together are dealt with in the order in which the lookups are done
Order(s, ps) == SortBy([i \in DOMAIN ps |-> i], LAMBDA i : (IF s.cfg.lag = 0 THEN 0 ELSE Lookups(s, ps[i])) * 1000 + i)

RECURSIVE ServeAll(_, _, _, _)
ServeAll(s, ps, ord, outs) ==
  IF ord = <<>> THEN [s |-> s, out |-> outs]
  ELSE LET r == Serve(s, ps[Head(ord)])
       IN ServeAll(r.s, ps, Tail(ord), [outs EXCEPT ![Head(ord)] = r.out])

Nothing == [ans |-> "", calls |-> <<>>]
Post(s, ps) ==
  LET r == ServeAll(s, ps, Order(s, ps), [i \in DOMAIN ps |-> Nothing])
  IN [s |-> [r.s EXCEPT !.now = @ + 2 * s.cfg.lag], out |-> [posts |-> r.out, stray |-> <<>>]]

None == [posts |-> <<>>, stray |-> <<>>]
Apply(s, a) ==
  CASE a.op = "know" -> [s |-> [s EXCEPT !.known = Put(@, a.v, [reg |-> a.reg, fp |-> a.fp])], out |-> None]
    [] a.op = "wait" -> [s |-> [s EXCEPT !.now = @ + a.n], out |-> None]
    [] a.op = "post" -> Post(s, a.posts)

----------------------------------------------------------------------------
(* Properties of the design *)

Reached(o, i) == o.posts[i].calls # <<>>

\* C17: over TLS nothing gets to the application unless connection and signature are the VEN's own
OnlyAuthentic(s, a, o) ==
  \A i \in DOMAIN a.posts :
    LET p == a.posts[i] IN
    p.tls /\ p.ven # "" /\ (s.cfg.fl \/ s.cfg.vl) /\ Reached(o, i) =>
      /\ p.conn = Says(s, p.ven).fp /\ p.conn # ""
      /\ s.cfg.verify => p.by = p.conn /\ p.shown = p.conn /\ p.alt \in Benign \cup Extra

\* C18: at most once, and only while fresh
OnceAndFresh(s, t, a, o) ==
  LET I == {i \in DOMAIN a.posts : Reached(o, i) /\ Checked(s, a.posts[i]) /\ s.cfg.verify}
      id(i) == <<a.posts[i].stamp, a.posts[i].nonce>>
  IN /\ \A i \in I : a.posts[i].rp = "ok" /\ a.posts[i].stamp >= s.now - MaxAge /\ id(i) \notin s.used /\ id(i) \in t.used
     /\ \A i, j \in I : i # j => id(i) # id(j)

\* what is refused leaves no trace, and does not stop a message that comes with it
NoTrace(s, t, a, o) ==
  LET I == SelectSeq([i \in DOMAIN a.posts |-> i], LAMBDA i : o.posts[i].ans \notin {"refused", "rereg"})
      r == Post(s, [j \in DOMAIN I |-> a.posts[I[j]]])
  IN r.s = t /\ \A j \in DOMAIN I : r.out.posts[j] = o.posts[I[j]]

\* an authentic message of a registered VEN is served
Served(s, a, o) ==
  Len(a.posts) = 1 =>
    LET p == a.posts[1] IN
    Says(s, p.ven).reg = "reg" /\ ConnOk(s, p) /\ SignatureOk(s, p) /\ FreshOk(s, p) /\ Home(p.kind) = p.svc => Reached(o, 1)

DesignOk(s, t, a, o) ==
  a.op = "post" => OnlyAuthentic(s, a, o) /\ OnceAndFresh(s, t, a, o) /\ NoTrace(s, t, a, o) /\ Served(s, a, o)

----------------------------------------------------------------------------
\* the certificate that signs the answer; a refusal may be a plain HTTP error, which is not signed
Signed(s, q) == q.sig = s.cfg.sign \/ (q.ans = "refused" /\ q.http)

\* an additional element may also be reason enough to refuse the message
Free(p, o) == p.alt \in Extra /\ o.ans = "refused" /\ o.calls = <<>>

PostClauses(s, p, x, q) ==
  LET same == x.ans = q.ans /\ x.calls = q.calls
      signed == Checked(s, p) /\ s.cfg.verify /\ ConnOk(s, p) /\ SignatureOk(s, p)
      regd == ~AsksReg(s, p) \/ Says(s, p.ven).reg = "reg"
  IN (IF same \/ Free(p, q) THEN {}
      ELSE IF signed /\ regd /\ ~FreshOk(s, p) THEN {"C18"}
      ELSE IF signed /\ regd THEN {"C17", "C18"}
      ELSE {"C17"})
     \cup (IF Signed(s, q) THEN {} ELSE {"C19"})

\* the state in which a message of a batch is dealt with
Before(s, ps, i) ==
  LET ord == Order(s, ps)
      k == CHOOSE j \in DOMAIN ord : ord[j] = i
  IN ServeAll(s, ps, SubSeq(ord, 1, k - 1), [j \in DOMAIN ps |-> Nothing]).s

Clauses(s, a, x, o) ==
  IF a.op # "post" THEN (IF o.stray = <<>> THEN {} ELSE {"C17"})
  ELSE IF Len(o.posts) # Len(x.posts) THEN {"C17"}
  ELSE (IF o.stray # <<>> THEN {"C17"} ELSE {})
       \cup UNION {PostClauses(Before(s, a.posts, i), a.posts[i], x.posts[i], o.posts[i]) : i \in DOMAIN a.posts}
=============================================================================
