------------------------------- MODULE Multi -------------------------------
(***************************************************************************
 Several servers and clients in one process: the product of the other
 specifications.  A step is a step of one of them, [i, k, a]; it leaves the
 others as they are, and what comes out is what that one gives alone.

 cfg: a sequence of [kind, cfg]
 state: a sequence of [k |-> kind, s |-> that component's state]
 ***************************************************************************)
EXTENDS Util

O == INSTANCE Opts
A == INSTANCE Auth
E == INSTANCE VtnEvents WITH Hist <- FALSE
V == INSTANCE VtnService
H == INSTANCE VenEvents WITH Hist <- FALSE
S == INSTANCE VenSession

Init0(cfg) == [i \in DOMAIN cfg |-> [k |-> cfg[i].kind, s |->
  CASE cfg[i].kind = "opts" -> O!Init0(cfg[i].cfg)
    [] cfg[i].kind = "auth" -> A!Init0(cfg[i].cfg)
    [] cfg[i].kind = "vtnevents" -> E!Init0
    [] cfg[i].kind = "vtnservice" -> V!Init0(cfg[i].cfg)
    [] cfg[i].kind = "venevents" -> H!Init0(cfg[i].cfg)
    [] cfg[i].kind = "session" -> S!Init0(cfg[i].cfg)
    [] OTHER -> Empty]]

One(k, s, a) ==
  CASE k = "opts" -> O!Apply(s, a)
    [] k = "auth" -> A!Apply(s, a)
    [] k = "vtnevents" -> E!Apply(s, a)
    [] k = "vtnservice" -> V!Apply(s, a)
    [] k = "venevents" -> H!Apply(s, a)
    [] k = "session" -> S!Apply(s, a)

Apply(s, a) == LET r == One(a.k, s[a.i].s, a.a)
               IN [s |-> [s EXCEPT ![a.i].s = r.s], out |-> r.out]

Clauses(s, a, x, o) ==
  LET t == s[a.i].s
  IN CASE a.k = "opts" -> O!Clauses(t, a.a, x, o)
       [] a.k = "auth" -> A!Clauses(t, a.a, x, o)
       [] a.k = "vtnevents" -> E!Clauses(t, a.a, x, o)
       [] a.k = "vtnservice" -> V!Clauses(t, a.a, x, o)
       [] a.k = "venevents" -> H!Clauses(t, a.a, x, o)
       [] a.k = "session" -> S!Clauses(t, a.a, x, o)
=============================================================================
