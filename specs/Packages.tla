------------------------------ MODULE Packages ------------------------------
(***************************************************************************)
(* Installing and uninstalling packages from a program (C30). A package    *)
(* has versions 1..Latest on an index; version 0 stands for "not           *)
(* installed". Some versions cannot be imported. The installer can fail,   *)
(* and an uninstalled package can still be there (another copy of it).     *)
(* A request that returns has done what it was asked for; one that could   *)
(* not be done raises. The installer is run once, with what was asked.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Packages, Latest, Broken, MaxSteps
VARIABLES inst, copy, loaded, n, ev
vars == <<inst, copy, loaded, n>>
Versions == 1..Latest
St == [inst |-> inst, copy |-> copy, loaded |-> loaded, n |-> n]
View == vars
One(S) == {RandomElement(IF n < 0 THEN {} ELSE S)}
\* what an import in a new process gets: 0 is none
Seen(p) == IF inst'[p] # 0 THEN inst'[p] ELSE copy'[p]
Step(a, args, ran, raised) ==
  ev' = [a |-> a] @@ args @@ [o |-> [raised |-> raised, ran |-> ran, seen |-> [p \in Packages |-> Seen(p)]]]
More == n < MaxSteps /\ n' = n + 1
Bad(p, v) == <<p, v>> \in Broken

\* v = 0: no version is asked for; fails: the installer does, whatever it is asked for
Install(p, v, up, fails) ==
  LET refused == fails \/ v > Latest
      got == IF v # 0 THEN v ELSE IF inst[p] = 0 \/ up THEN Latest ELSE inst[p] IN
  /\ (~refused /\ Bad(p, got) => p \notin loaded)   \* an import that was made before says nothing
  /\ More /\ UNCHANGED copy
  /\ loaded' = IF refused \/ Bad(p, got) THEN loaded ELSE loaded \cup {p}
  /\ inst' = IF refused THEN inst ELSE [inst EXCEPT ![p] = got]
  /\ Step("Install", [p |-> p, v |-> v, up |-> up, fails |-> fails],
          [what |-> "install", p |-> p, v |-> v, up |-> up], refused \/ Bad(p, got))
Uninstall(p, fails) ==
  /\ More /\ UNCHANGED copy
  /\ loaded' = IF ~fails /\ copy[p] # 0 THEN loaded \cup {p} ELSE loaded
  /\ inst' = IF fails THEN inst ELSE [inst EXCEPT ![p] = 0]
  /\ Step("Uninstall", [p |-> p, fails |-> fails], [what |-> "uninstall", p |-> p, v |-> 0, up |-> FALSE],
          fails \/ copy[p] # 0)
\* another copy comes or goes, that the installer does not manage
Copy(p, v) ==
  /\ More /\ copy[p] # v /\ UNCHANGED <<inst, loaded>> /\ copy' = [copy EXCEPT ![p] = v]
  /\ Step("Copy", [p |-> p, v |-> v], [what |-> "nothing", p |-> p, v |-> 0, up |-> FALSE], FALSE)
\* the program looks for it itself
Look(p) ==
  /\ More /\ UNCHANGED <<inst, copy>>
  /\ loaded' = IF Seen(p) # 0 /\ ~(inst[p] # 0 /\ Bad(p, inst[p])) THEN loaded \cup {p} ELSE loaded
  /\ Step("Look", [p |-> p], [what |-> "nothing", p |-> p, v |-> 0, up |-> FALSE], FALSE)
\* another program, over the same packages
Restart == /\ More /\ UNCHANGED <<inst, copy>> /\ loaded' = {}
           /\ Step("Restart", <<>>, [what |-> "nothing", p |-> "", v |-> 0, up |-> FALSE], FALSE)

Init == /\ inst = [p \in Packages |-> 0] /\ copy = [p \in Packages |-> 0] /\ loaded = {} /\ n = 0
        /\ ev = [a |-> "Init"] /\ PrintT(ToJson([k |-> "I", t |-> St]))
Good(p, v) == v = 0 \/ ~Bad(p, v)
Next == \/ \E p \in Packages, v \in 0..Latest + 1, up \in BOOLEAN, f \in BOOLEAN : Install(p, v, up, f)
        \/ \E p \in Packages, f \in BOOLEAN : Uninstall(p, f)
        \/ \E p \in Packages, v \in 0..Latest : Good(p, v) /\ Copy(p, v)
        \/ \E p \in Packages : Look(p)
        \/ Restart
NextSome ==
  \E r \in One(1..14), p \in One(Packages), v \in One(0..Latest + 1), w \in One(0..Latest), up \in One(BOOLEAN) :
    CASE r \in 1..5 -> Install(p, IF r < 3 THEN 0 ELSE v, up, r = 5)
      [] r \in 6..8 -> Uninstall(p, FALSE)
      [] r = 9 -> Uninstall(p, TRUE)
      [] r = 10 /\ Good(p, w) /\ copy[p] # w -> Copy(p, w)
      [] r = 11 -> Restart
      [] r = 12 /\ copy[p] # 0 -> Copy(p, 0)
      [] OTHER -> Look(p)
Emit == PrintT(ToJson([k |-> "T", s |-> St, e |-> ev', t |-> St', l |-> TLCGet("level")]))
-----------------------------------------------------------------------------
TypeOK == inst \in [Packages -> 0..Latest] /\ copy \in [Packages -> 0..Latest] /\ loaded \subseteq Packages
(* A request that returns has been fulfilled.                              *)
Truth ==
  /\ ev.a = "Install" /\ ~ev.o.raised => /\ inst[ev.p] # 0 /\ (ev.v # 0 => inst[ev.p] = ev.v)
                                         /\ (ev.v = 0 /\ ev.up => inst[ev.p] = Latest)
                                         /\ ~Bad(ev.p, inst[ev.p])
  /\ ev.a = "Uninstall" /\ ~ev.o.raised => inst[ev.p] = 0 /\ copy[ev.p] = 0
(* Nothing is installed, upgraded or removed but what was asked for.       *)
Others == [][\A p \in Packages : inst'[p] # inst[p] =>
               ev'.a \in {"Install", "Uninstall"} /\ ev'.p = p /\ ~ev'.fails]_vars
=============================================================================
