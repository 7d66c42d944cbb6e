------------------------------ MODULE LifeTrace ------------------------------
(* Judges recorded histories of requests on the variable graph               *)
EXTENDS Life, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Why(e, T) ==
  LET v == Valid(e)  x == NewExt(e)  C == IF e.f = "cb" /\ e.ok = 1 THEN [g \in DOMAIN cbs \cup {e.p[1]} |-> IF g = e.p[1] THEN e.a[1] ELSE cbs[g]] ELSE cbs
  IN << <<"accepted an invalid request", e.ok = 1 => v # "n">>, <<"refused a valid request", e.ok = 0 => v # "y">>,
        <<"a refused request has an effect", e.ok = 0 => Refused(e, T)>>, <<"result", e.ok = 1 => ResultsOk(e, T)>>, <<"a variable changed", e.ok = 1 => Kept(e, T)>>,
        <<"references", Conserved(T, x, NewStk(e), NewHid(e, T))>>, <<"callbacks", Called(e, T, C)>>, <<"pending work", Settled(e, T)>>, <<"left over", Gone(e, T)>> >>
Bad(w) == {w[k][1] : k \in {j \in DOMAIN w : ~w[j][2]}}
TraceInit == tab = <<>> /\ ext = <<>> /\ stk = <<>> /\ hid = <<>> /\ cbs = <<>> /\ l = 1 /\ TLCSet(1, 0)
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.f = "end" THEN UNCHANGED lvars
     ELSE LET T == NewTab(e)  b == Bad(TLCEval(Why(e, T))) IN
       /\ IF b = {} \/ TLCGet(1) > 0 THEN TRUE   \* only the first disagreement is meaningful
          ELSE PrintT(<<"REJECT", l, ToJson([why |-> b, ev |-> e])>>) /\ TLCSet(1, TLCGet(1) + 1)
       /\ tab' = T /\ ext' = NewExt(e) /\ stk' = NewStk(e) /\ hid' = NewHid(e, T)
       /\ cbs' = LET C == IF e.f = "cb" /\ e.ok = 1 THEN [g \in DOMAIN cbs \cup {e.p[1]} |-> IF g = e.p[1] THEN e.a[1] ELSE cbs[g]] ELSE cbs
                 IN [g \in {q \in DOMAIN C : C[q] \in DOMAIN T} |-> C[g]]
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
