---- MODULE OutputTee ----
(* Blocks that capture or suppress output, nested in any way.

   `now` says where standard output, standard error and the root log handlers lead;
   each block saves it when it is entered and gives it back when it is left.
   Targets: Base (where the stream led at the start), Null, Alt (a stream the body of
   a block put in place itself), Body (a log handler it added), or the depth of a
   capturing block.                                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDepth, Texts, Levels, Bodies

Base == 0
Null == 100
Alt == 200
Body == 300

VARIABLES blocks,     \* Seq of [kind, was]: what the block gives back when left
          now,        \* [out, err, log]; log is a set of handlers
          ready,      \* a capturing block constructed, not entered yet
          ev
vars == <<blocks, now, ready>>
View == vars
State == [blocks |-> blocks, now |-> now, ready |-> ready]

\* all the places where a text written to a target arrives
RECURSIVE Reach(_, _)
Reach(t, f) == IF t = Null THEN {}
               ELSE IF t \in {Base, Alt} THEN {<<t, f>>}
               ELSE {<<t, "capture">>} \cup Reach(blocks[t].was[f], f)
\* the base handler lets warnings and errors through only, the body's all
RECURSIVE ReachLog(_, _)
ReachLog(hs, level) ==
  UNION {IF h = Base THEN (IF level = "info" THEN {} ELSE {<<Base, "log">>})
         ELSE IF h = Body THEN {<<Body, "log">>}
         ELSE {<<h, "capture">>} \cup ReachLog(blocks[h].was.log, level) : h \in hs}

Same == UNCHANGED vars
Step(name, args, reached, extra) ==
  ev' = [a |-> name] @@ args @@
        [o |-> [reached_s |-> reached, now |-> [out |-> now'.out, err |-> now'.err,
                                                log_s |-> now'.log]] @@ extra]

Enter(kind, early) ==
  /\ Len(blocks) < MaxDepth
  /\ early => kind = "capture" /\ ready
  /\ LET d == Len(blocks) + 1 IN
       /\ blocks' = Append(blocks, [kind |-> kind, was |-> now])
       /\ now' = IF kind = "capture" THEN [out |-> d, err |-> d, log |-> {d}]
                 ELSE [now EXCEPT !.out = Null, !.err = Null]
  /\ ready' = (ready /\ ~early)
  /\ Step("Enter", [kind |-> kind, early |-> early], {}, <<>>)

Construct == /\ ~ready /\ ready' = TRUE /\ UNCHANGED <<blocks, now>>
             /\ Step("Construct", <<>>, {}, <<>>)

\* an exception that leaves a capturing block has its trace printed inside of it;
\* if standard error itself refuses the text then, at least this block captures it
Refused == {"error refused", "interrupt refused"}
Traced(how) == IF how \in Refused /\ <<Base, "err">> \in Reach(now.err, "err")
               THEN {<<now.err, "capture">>} ELSE Reach(now.err, "err")
Exit(how) ==
  /\ blocks # <<>>
  /\ LET b == blocks[Len(blocks)] IN
       /\ (how # "normal" => now.err # Alt)
       /\ blocks' = SubSeq(blocks, 1, Len(blocks) - 1)
       /\ now' = b.was
       /\ UNCHANGED ready
       /\ Step("Exit", [how |-> how],
               IF how # "normal" /\ b.kind = "capture" THEN Traced(how) ELSE {},
               [swallowed |-> FALSE])

Write(f, how, text) ==
  /\ Same
  /\ Step("Write", [f |-> f, how |-> how, text |-> text],
          IF how = "flush" THEN {} ELSE Reach(now[f], f), <<>>)

Log(level, child, text) ==
  /\ Same
  /\ Step("Log", [level |-> level, child |-> child, text |-> text], ReachLog(now.log, level), <<>>)

\* what the body of a block may do to the streams and handlers
BodyReplaces(f) ==
  /\ blocks # <<>> /\ now[f] # Alt
  /\ now' = [now EXCEPT ![f] = Alt]
  /\ UNCHANGED <<blocks, ready>>
  /\ Step("BodyReplaces", [f |-> f], {}, <<>>)
BodyAddsHandler ==
  /\ blocks # <<>> /\ Body \notin now.log
  /\ \A i \in 1..Len(blocks) : Body \notin blocks[i].was.log
  /\ now' = [now EXCEPT !.log = @ \cup {Body}]
  /\ blocks[Len(blocks)].kind = "capture"
  /\ UNCHANGED <<blocks, ready>>
  /\ Step("BodyAddsHandler", <<>>, {}, <<>>)

Init == /\ blocks = <<>> /\ ready = FALSE
        /\ now = [out |-> Base, err |-> Base, log |-> {Base}]
        /\ ev = [a |-> "Init"]
        /\ PrintT(ToJson([k |-> "I", t |-> State]))
Next == \/ \E k \in {"capture", "suppress"}, e \in BOOLEAN : Enter(k, e)
        \/ Construct
        \/ \E h \in {"normal", "error", "interrupt"} \cup Refused : Exit(h)
        \/ \E f \in {"out", "err"}, h \in {"print", "write", "writelines", "flush"}, t \in Texts : Write(f, h, t)
        \/ \E l \in Levels, c \in BOOLEAN, t \in Texts : Log(l, c, t)
        \/ Bodies /\ (\E f \in {"out", "err"} : BodyReplaces(f))
        \/ Bodies /\ BodyAddsHandler
Emit == PrintT(ToJson([k |-> "T", l |-> TLCGet("level"), s |-> State, e |-> ev', t |-> State']))

\* outside of every block everything is as it was at the start
Restored == blocks = <<>> => now = [out |-> Base, err |-> Base, log |-> {Base}]
\* what is captured at some depth is captured or suppressed, never lost, further out:
\* a text reaches the base unless some block between suppresses it or it was replaced
NoLoss == \A f \in {"out", "err"} :
            (\A i \in 1..Len(blocks) : blocks[i].kind = "capture" /\ blocks[i].was[f] # Alt)
              /\ now[f] # Alt
            => Reach(now[f], f) = {<<Base, f>>} \cup {<<i, "capture">> : i \in 1..Len(blocks)}
====
