----------------------------- MODULE TraceValues -----------------------------
(* Every pair of a list of values compared. *)
EXTENDS Values, TraceBase
AcceptValues(e) ==
  LET o == e.out v == e.vs ix == 1..Len(v)
      must == TLCEval([i \in ix |-> [j \in ix |-> MustEqual(e.ty, v[i], v[j])]])
      may == TLCEval([i \in ix |-> [j \in ix |-> MayEqual(e.ty, v[i], v[j])]])
  IN
  /\ o.k = "ok" /\ o.lists
  /\ \A i \in ix : /\ o.clone[i]
                   /\ \A j \in ix : /\ must[i][j] => o.eq[i][j]
                                    /\ o.eq[i][j] => may[i][j]
                                    /\ o.ne[i][j] = ~o.eq[i][j]
                                    /\ o.eq[i][j] = o.eq[j][i]
                                    /\ \A k \in ix : o.eq[i][j] /\ o.eq[j][k] => o.eq[i][k]
  /\ o.hash # <<>> => \A i \in ix : \A j \in ix : o.eq[i][j] => o.hash[i][j]
  /\ o.find # <<>> => \A i \in ix : o.eq[i][o.find[i]] /\ \A j \in ix : o.eq[i][j] => o.find[i] <= j
  /\ e.ty \in Ordered =>
       LET order == TLCEval([i \in ix |-> [j \in ix |-> Order(e.ty, v[i], v[j])]]) IN
       \A i \in ix : /\ \A j \in ix : o.cmp[i][j] = order[i][j] /\ o.pcmp[i][j] = order[i][j]
                     /\ o.least[i] = (\A j \in ix : order[i][j] <= 0)
DeviationValues(e) == ""
===============================================================================
