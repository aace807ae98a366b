---- MODULE PortalStack ----
(* Portals, the stack of portals entered by nested "with" blocks, which portal
   is the current one, and which one an object gets that was not given any.

   `hist` is the definition: the enters that have not been exited, oldest first.
   `stack` is the representation the code keeps: consecutive enters of one portal
   share an entry and a counter. StackIsHist ties the two together.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Portals,     \* the portals that may be created
          Kind,        \* Kind[p]: how far down the class hierarchy p is, 1 = the base class
          MaxDepth,    \* bound on Len(hist)
          Objects      \* portal-aware objects ({} to leave them out)

VARIABLES created,     \* Seq of portals, oldest first
          hist, stack,
          bound,       \* bound[x]: "unborn", "none" or the portal x uses
          ev

vars == <<created, hist, stack, bound>>
State == [created |-> created, hist |-> hist, bound |-> bound]
View == vars

Range(s) == {s[i] : i \in 1..Len(s)}
Top(h) == IF h = <<>> THEN "none" ELSE h[Len(h)]
MostRecent(c) == IF c = <<>> THEN "none" ELSE c[Len(c)]
\* the portal used when none is named; "default" is the on-demand default portal
Best(h, c) == IF h # <<>> THEN Top(h) ELSE IF c # <<>> THEN MostRecent(c) ELSE "default"

\* what can be observed after a step
Obs(h, c) ==
  [ current    |-> Top(h),
    entered_s  |-> Range(h),
    noncurrent_s |-> Range(c) \ {Top(h)},
    newest     |-> MostRecent(c),
    \* asking class k for the current portal: an error if it is not of that class
    typed      |-> [k \in 1..3 |-> IF h = <<>> THEN "none"
                                   ELSE IF Kind[Top(h)] >= k THEN Top(h) ELSE "error"] ]

Push(s, p) == IF s # <<>> /\ s[Len(s)].p = p
              THEN [s EXCEPT ![Len(s)].n = @ + 1]
              ELSE Append(s, [p |-> p, n |-> 1])
Pop(s) == IF s[Len(s)].n = 1 THEN SubSeq(s, 1, Len(s) - 1)
          ELSE [s EXCEPT ![Len(s)].n = @ - 1]

Step(name, args, extra) ==
  ev' = [a |-> name] @@ args @@ [o |-> Obs(hist', created') @@ extra]

\* p may be "default", the default local portal: there is only one, and asking for
\* it again gives the same one
Create(p) ==
  /\ p \notin Range(created)
  /\ created' = Append(created, p)
  /\ UNCHANGED <<hist, stack, bound>>
  /\ Step("Create", [p |-> p], [raised |-> FALSE])

Enter(p) ==
  /\ p \in Range(created)
  /\ Len(hist) < MaxDepth
  /\ hist' = Append(hist, p)
  /\ stack' = Push(stack, p)
  /\ UNCHANGED <<created, bound>>
  /\ Step("Enter", [p |-> p], [raised |-> FALSE])

\* leaving a block normally, or because of an exception
Exit(p, how) ==
  /\ hist # <<>> /\ Top(hist) = p
  /\ hist' = SubSeq(hist, 1, Len(hist) - 1)
  /\ stack' = Pop(stack)
  /\ UNCHANGED <<created, bound>>
  /\ Step("Exit", [p |-> p, how |-> how], [raised |-> FALSE])

\* leaving a portal that is not the current one is refused, and changes nothing
BadExit(p) ==
  /\ hist # <<>> /\ p \in Range(created) /\ Top(hist) # p
  /\ UNCHANGED vars
  /\ Step("BadExit", [p |-> p], [raised |-> TRUE])

ExitAll ==
  /\ hist # <<>>
  /\ hist' = <<>> /\ stack' = <<>>
  /\ UNCHANGED <<created, bound>>
  /\ Step("ExitAll", <<>>, [raised |-> FALSE])

\* ------------------------------------------------------ portal-aware objects
CreateOnDemand(p) ==
  created' = IF p \notin Range(created) THEN Append(created, p) ELSE created

New(x, p) ==   \* p = "none": no portal named
  /\ bound[x] = "unborn"
  /\ p = "none" \/ p \in Range(created)
  /\ bound' = [bound EXCEPT ![x] = IF p = "none" THEN Best(hist, created) ELSE p]
  /\ CreateOnDemand(bound'[x])
  /\ UNCHANGED <<hist, stack>>
  /\ Step("New", [x |-> x, p |-> p], [uses |-> bound'[x]])

\* pickled and restored (or copied): the portal does not travel with the object,
\* which belongs to whatever portal is current where it is restored
Restore(x) ==
  /\ bound[x] # "unborn"
  /\ hist # <<>>
  /\ bound' = [bound EXCEPT ![x] = Top(hist)]
  /\ UNCHANGED <<created, hist, stack>>
  /\ Step("Restore", [x |-> x], [uses |-> bound'[x]])

\* restored outside of any block: it gets its portal when first used inside one
RestoreOutside(x) ==
  /\ bound[x] # "unborn" /\ hist = <<>>
  /\ bound' = [bound EXCEPT ![x] = "none"]
  /\ UNCHANGED <<created, hist, stack>>
  /\ Step("RestoreOutside", [x |-> x], [raised |-> FALSE])

Use(x) ==
  /\ bound[x] # "unborn"
  /\ bound' = [bound EXCEPT ![x] = IF @ = "none" THEN Top(hist) ELSE @]
  /\ UNCHANGED <<created, hist, stack>>
  /\ Step("Use", [x |-> x], [uses |-> bound'[x]])

\* "give me the best portal", with and without a suggestion
Ask(p) ==
  /\ p = "none" \/ p \in Range(created)
  /\ LET b == IF p = "none" THEN Best(hist, created) ELSE p IN
       /\ CreateOnDemand(b)
       /\ UNCHANGED <<hist, stack, bound>>
       /\ Step("Ask", [p |-> p], [best |-> b])

AskDefault ==
  /\ "default" \in Portals
  /\ CreateOnDemand("default")
  /\ UNCHANGED <<hist, stack, bound>>
  /\ Step("AskDefault", <<>>, [best |-> "default"])

\* everything is forgotten: objects made before are not used any more
ClearAll ==
  /\ created # <<>>
  /\ created' = <<>> /\ hist' = <<>> /\ stack' = <<>>
  /\ bound' = [x \in Objects |-> "unborn"]
  /\ Step("ClearAll", <<>>, [raised |-> FALSE])

PicklePortal(p) ==
  /\ p \in Range(created)
  /\ UNCHANGED vars
  /\ Step("PicklePortal", [p |-> p], [raised |-> TRUE])

Init ==
  /\ created = <<>> /\ hist = <<>> /\ stack = <<>>
  /\ bound = [x \in Objects |-> "unborn"]
  /\ ev = [a |-> "Init"]
  /\ PrintT(ToJson([k |-> "I", t |-> State]))

NextStack ==
  \/ \E p \in Portals : Create(p) \/ Enter(p) \/ BadExit(p)
  \/ \E p \in Portals, how \in {"normal", "exception"} : Exit(p, how)
  \/ ExitAll

NextAware ==
  \/ \E p \in Portals \ {"default"} : Create(p)
  \/ \E p \in Portals : Enter(p) \/ Exit(p, "normal")
  \/ AskDefault \/ ClearAll
  \/ \E x \in Objects, p \in Portals \cup {"none"} : New(x, p)
  \/ \E x \in Objects : Restore(x) \/ RestoreOutside(x) \/ Use(x)
  \/ \E p \in Portals \cup {"none"} : Ask(p)
  \/ \E p \in Portals : PicklePortal(p)

Next == NextStack
Emit == PrintT(ToJson([k |-> "T", l |-> TLCGet("level"), s |-> State, e |-> ev', t |-> State']))

\* ---------------------------------------------------------------- properties
RECURSIVE Expand(_)
Expand(s) == IF s = <<>> THEN <<>>
             ELSE [i \in 1..Head(s).n |-> Head(s).p] \o Expand(Tail(s))
StackIsHist == Expand(stack) = hist
Compact == \A i \in 1..Len(stack) : /\ stack[i].n >= 1
                                    /\ i > 1 => stack[i].p # stack[i-1].p
OnlyCreatedEntered == Range(hist) \subseteq Range(created)
\* a block that has been left gives back the portal that was current before it
LIFO == [][Len(hist') > Len(hist) => SubSeq(hist', 1, Len(hist)) = hist]_vars
\* an object keeps its portal unless it is restored from its pickled form
Sticky == [][\A x \in Objects : (bound[x] \notin {"unborn", "none"} /\ bound'[x] # bound[x])
              => ev'.a \in {"Restore", "RestoreOutside", "ClearAll"}]_<<vars, ev>>
====
