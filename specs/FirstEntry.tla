---- MODULE FirstEntry ----
(* A write-once dictionary. What its users may rely on, whoever else writes: an
   assignment starts, its value is written at most once, storage errors may happen
   to it, and it ends. Everything else (how often the storage is asked, and when)
   is left to the implementation: FirstEntryWriters refines this.              *)
EXTENDS Naturals, FiniteSets

CONSTANTS Keys, Values, Writers,
          P          \* 0: consistency checks never; 2: always; 1: sometimes
None == "none"
VARIABLES store, act

TypeOK == /\ store \in [Keys -> Values \cup {None}]
          /\ DOMAIN act = Writers

Idle == [k |-> None, v |-> None, faults |-> 0, late |-> FALSE, wrote |-> FALSE, raced |-> FALSE]
Init == store = [k \in Keys |-> None] /\ act = [w \in Writers |-> Idle]

Start(w, k, v) == /\ act[w] = Idle
                  /\ act' = [act EXCEPT ![w] = [Idle EXCEPT !.k = k, !.v = v]]
                  /\ UNCHANGED store
\* raced: another writer has written the key since the assignment started
Written(w) == [u \in Writers |-> IF u = w THEN [act[u] EXCEPT !.wrote = TRUE]
                                 ELSE IF act[u].k = act[w].k THEN [act[u] EXCEPT !.raced = TRUE]
                                 ELSE act[u]]
Write(w) == /\ act[w].k # None /\ store[act[w].k] = None
            /\ store' = [store EXCEPT ![act[w].k] = act[w].v]
            /\ act' = Written(w)
\* a storage error; `late` when it is not the first question or the first write of
\* the assignment that fails: only those are tried again
Fault(w, late) == /\ act[w].k # None
                  /\ act' = [act EXCEPT ![w].faults = @ + 1, ![w].late = @ \/ late]
                  /\ UNCHANGED store
\* an error reported for a write that took effect
WriteFault(w, late) == /\ act[w].k # None /\ store[act[w].k] = None
                       /\ store' = [store EXCEPT ![act[w].k] = act[w].v]
                       /\ act' = [Written(w) EXCEPT ![w].faults = @ + 1, ![w].late = @ \/ late]
\* another value than this assignment's was there before it could write its own
Due(a) == P > 0 /\ ~a.wrote
Finish(w, how) ==
  LET a == act[w] IN
  /\ a.k # None
  /\ how = "ok" => /\ store[a.k] # None
                   /\ P = 2 /\ ~a.wrote => store[a.k] = a.v
  /\ how = "error" => \/ a.faults > 1
                      \/ a.faults = 1 /\ (a.late \/ a.raced)   \* the second try lost a race
                      \/ Due(a) /\ store[a.k] \notin {None, a.v}
  /\ act' = [act EXCEPT ![w] = Idle]
  /\ UNCHANGED store
Read(k, v) == store[k] = v /\ UNCHANGED <<store, act>>

Next == \E w \in Writers :
          \/ \E k \in Keys, v \in Values : Start(w, k, v)
          \/ Write(w)
          \/ \E l \in BOOLEAN : Fault(w, l) \/ WriteFault(w, l)
          \/ \E h \in {"ok", "error"} : Finish(w, h)
Spec == Init /\ [][Next]_<<store, act>>

FirstStays == [][\A k \in Keys : store[k] # None => store'[k] = store[k]]_store
====
