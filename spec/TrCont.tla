-------------------------------- MODULE TrCont --------------------------------
(***************************************************************************)
(* Every recorded step of a container history is a transition of Cont, and  *)
(* the queries show the state (C14).                                        *)
(***************************************************************************)
EXTENDS TraceBase, Cont

Old(o) == [p |-> o.p, q |-> o.q]
S0 == [p |-> PL(0, <<>>), q |-> PL(0, <<>>)]
Verdict(r) ==
    LET h == r.in.h
        o == r.out
        pre(i) == IF i = 1 THEN S0 ELSE Old(o.h[i - 1])
        end == IF h = <<>> THEN S0 ELSE Old(o.h[Len(h)])
        want == Shows(end.p)
    IN  [ bad |-> { "operation " \o h[i][1] : i \in { i \in DOMAIN h : ~Conforms(pre(i), h[i], o.h[i]) } }
                  \cup { "operation " \o r.in.fan[i][1] : i \in { i \in DOMAIN r.in.fan : ~Conforms(end, r.in.fan[i], o.fan[i]) } }
                  \cup { "query " \o k : k \in { k \in DOMAIN want : want[k] # o.look[k] } }
                  \cup If(\E i \in DOMAIN r.in.others :
                            \/ o.alike[i][1] # (IF Alike(end.p, r.in.others[i], 10, 10000) THEN 1 ELSE 0)
                            \/ o.alike[i][2] # (IF Alike(end.p, r.in.others[i], 100, 100000) THEN 1 ELSE 0), "query fuzzy_eq"),
          tags |-> { h[i][1] : i \in DOMAIN h } \cup If(\E i \in DOMAIN o.h : o.h[i].k = 1, "refused") \cup If(\E i \in DOMAIN o.fan : o.fan[i].k = 1, "refused") ]
Next == TraceNext(Verdict)
Spec == TraceInit /\ [][Next]_<<l, bad>>
=============================================================================
