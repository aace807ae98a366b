----------------------------- MODULE NameScopes -----------------------------
(***************************************************************************)
(* Which names does a function need from outside? A behaviour writes a     *)
(* function "f", token by token: scopes are opened and closed, names are   *)
(* bound, used, declared. When f is closed, its verdict follows from       *)
(* Python's scoping rules and the rules of autonomy (C10):                 *)
(*   decoration: f is a generator, or uses variables of an outer function  *)
(*   use:        f needs a name from outside that it may not use           *)
(*   accepted:   otherwise                                                 *)
(* What form a token takes in the source (which of the statements that     *)
(* bind a name, say) is left to the driver: it must not matter.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,      \* all names used in programs
          Always,     \* built-ins, the library's name
          Island,     \* other functions of the island
          Outer,      \* variables of the function around f, if there is one
          MaxToks,    \* tokens that are not a closing one
          MaxScopes,
          Kinds,      \* of nested scopes
          DefNames,   \* names that nested functions and classes may have
          Tokens,     \* which kinds of tokens are used
          Params      \* how many parameters a scope may have at most

VARIABLES scopes,  \* all scopes so far: scopes[1] is f
          stack,   \* the open ones, innermost last
          toks,
          closure, \* is f defined inside another function that has variables Outer?
          yields,  \* does f itself yield?
          done

vars == <<scopes, stack, toks, closure, yields, done>>

Functions == {"def", "async", "lambda"}
Blocks == {"def", "async", "class"}

Scope(kind, parent, ps) ==
  [kind |-> kind, parent |-> parent, params |-> ps, binds |-> ps, uses |-> {},
   glob |-> {}, nonl |-> {}, fresh |-> TRUE]

Cur == stack[Len(stack)]
CurScope == scopes[Cur]
NTok == Len(SelectSeq(toks, LAMBDA t : t.t # "close"))

SmallSubsets(S, n) == {T \in SUBSET S : Cardinality(T) <= n}

Init ==
  /\ \E ps \in SmallSubsets(Names \ {"f"}, Params) :
       /\ scopes = <<Scope("def", 0, ps)>>
       /\ toks = <<[t |-> "open", n |-> "def", m |-> "f", ns |-> ps]>>
  /\ stack = <<1>>
  /\ closure \in (IF Outer = {} THEN {FALSE} ELSE BOOLEAN)
  /\ yields = FALSE
  /\ done = FALSE

Token(t, n) == toks' = Append(toks, [t |-> t, n |-> n, m |-> "", ns |-> {}])
Room == ~done /\ NTok < MaxToks

Bind(s, n) == [s EXCEPT !.binds = @ \cup {n}, !.fresh = FALSE]

Use(n) ==
  /\ Room
  /\ scopes' = [scopes EXCEPT ![Cur].uses = @ \cup {n}, ![Cur].fresh = FALSE]
  /\ Token("use", n)
  /\ UNCHANGED <<stack, closure, yields, done>>

Assign(n) ==
  /\ Room
  /\ CurScope.kind \in Blocks
  /\ scopes' = [scopes EXCEPT ![Cur] = Bind(@, n)]
  /\ Token("bind", n)
  /\ UNCHANGED <<stack, closure, yields, done>>

(* The name appears, but not as a name: an attribute, a keyword, a string.. *)
Mention(n) ==
  /\ Room
  /\ scopes' = [scopes EXCEPT ![Cur].fresh = FALSE]
  /\ Token("mention", n)
  /\ UNCHANGED <<stack, closure, yields, done>>

(* The nearest scope that is not a comprehension, and the comprehensions    *)
(* passed on the way.                                                       *)
RECURSIVE Holder(_)
Holder(i) == IF scopes[i].kind = "comp" THEN Holder(scopes[i].parent) ELSE i
RECURSIVE Targets(_)
Targets(i) == IF scopes[i].kind = "comp"
              THEN scopes[i].params \cup Targets(scopes[i].parent) ELSE {}

Walrus(n) ==
  /\ Room
  /\ LET h == Holder(Cur) IN
     /\ n \notin Targets(Cur)
     /\ h # Cur => scopes[h].kind # "class"
     /\ scopes' = [scopes EXCEPT ![h] = Bind(@, n), ![Cur].fresh = FALSE]
  /\ Token("walrus", n)
  /\ UNCHANGED <<stack, closure, yields, done>>

Declare(what, n) ==
  /\ Room
  /\ CurScope.kind \in Blocks
  /\ CurScope.fresh
  /\ n \notin CurScope.params \cup CurScope.glob \cup CurScope.nonl
  /\ scopes' = [scopes EXCEPT
        ![Cur].glob = IF what = "global" THEN @ \cup {n} ELSE @,
        ![Cur].nonl = IF what = "nonlocal" THEN @ \cup {n} ELSE @]
  /\ Token(what, n)
  /\ UNCHANGED <<stack, closure, yields, done>>

Yield ==
  /\ Room
  /\ CurScope.kind \in Functions
  /\ yields' = (yields \/ Cur = 1)
  /\ scopes' = [scopes EXCEPT ![Cur].fresh = FALSE]
  /\ Token("yield", "")
  /\ UNCHANGED <<stack, closure, done>>

Open(kind, n, ps) ==
  /\ Room
  /\ Len(scopes) < MaxScopes
  /\ kind \in Blocks => CurScope.kind \in Blocks
  /\ kind = "class" => ps = {}
  /\ kind = "comp" => ps # {}
  /\ kind \notin Blocks => n = CHOOSE m \in DefNames : TRUE    \* they have no name
  /\ LET opened == IF kind \in Blocks THEN [scopes EXCEPT ![Cur] = Bind(@, n)]
                   ELSE [scopes EXCEPT ![Cur].fresh = FALSE]
     IN scopes' = Append(opened, Scope(kind, Cur, ps))
  /\ stack' = Append(stack, Len(scopes) + 1)
  /\ toks' = Append(toks, [t |-> "open", n |-> kind, m |-> n, ns |-> ps])
  /\ UNCHANGED <<closure, yields, done>>

Close ==
  /\ ~done
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ done' = (Len(stack) = 1)
  /\ Token("close", "")
  /\ UNCHANGED <<scopes, closure, yields>>

Next ==
  \/ \E n \in Names : \/ "use" \in Tokens /\ Use(n)
                      \/ "bind" \in Tokens /\ Assign(n)
                      \/ "mention" \in Tokens /\ Mention(n)
                      \/ "walrus" \in Tokens /\ Walrus(n)
                      \/ "global" \in Tokens /\ Declare("global", n)
                      \/ "nonlocal" \in Tokens /\ Declare("nonlocal", n)
  \/ "yield" \in Tokens /\ Yield
  \/ \E k \in Kinds, n \in DefNames, ps \in SmallSubsets(Names, Params) : Open(k, n, ps)
  \/ Close

-----------------------------------------------------------------------------
(* Where scope i finds name n: "here" (a scope of f), "outer" (the function *)
(* around f), or "global".                                                  *)
RECURSIVE Above(_, _), Find(_, _)
Above(i, n) ==        \* n, free in a scope whose enclosing scope is i
  IF i = 0 THEN (IF closure /\ n \in Outer THEN "outer" ELSE "global")
  ELSE LET s == scopes[i] IN
       IF s.kind = "class" THEN Above(s.parent, n)
       ELSE Find(i, n)
Find(i, n) ==
  LET s == scopes[i] IN
  IF n \in s.glob THEN "global"
  ELSE IF n \in s.nonl THEN Above(s.parent, n)
  ELSE IF n \in s.binds THEN "here"
  ELSE Above(s.parent, n)

Refs(i) == scopes[i].uses \cup scopes[i].nonl
           \cup (scopes[i].binds \cap scopes[i].glob)

All == 1..Len(scopes)
FoundIn(where) == {n \in Names : \E i \in All : n \in Refs(i) /\ Find(i, n) = where}
Needed == FoundIn("global")
FromOuter == FoundIn("outer")

(* Programs Python itself rejects are not programs. A declaration of a      *)
(* global that the scope does nothing with is left out, too.                *)
Valid ==
  \A i \in All : LET s == scopes[i] IN
    /\ \A n \in s.nonl : Above(s.parent, n) # "global"
    /\ s.glob \subseteq s.uses \cup s.binds

Judge(strict, outerFound, island) ==
  IF yields \/ outerFound THEN "decoration"
  ELSE IF (Needed \cup FromOuter) \subseteq (Always \cup {"f"} \cup (IF strict THEN {} ELSE island))
  THEN "accepted" ELSE "use"

(* What the island has to provide: with all of it f is accepted, and there  *)
(* is nothing of it that could be missing.                                  *)
Provided == Needed \ (Always \cup {"f"})

(* From its text, f is seen without the function around it: what is left of *)
(* that function is what f declares as nonlocal.                            *)
TextOuter == \E i \in All : \E n \in scopes[i].nonl : Above(scopes[i].parent, n) = "outer"

Observed ==
  [strict |-> Judge(TRUE, FromOuter # {}, Island), loose |-> Judge(FALSE, FromOuter # {}, Island),
   text |-> Judge(FALSE, TextOuter, Island), needed |-> Needed, outer |-> FromOuter,
   provided |-> Provided, exact |-> Judge(FALSE, FromOuter # {}, Provided),
   lacking |-> {Judge(FALSE, FromOuter # {}, Provided \ {n}) : n \in Provided}]

Emit ==
  (done' /\ Valid') =>
     PrintT(ToJson([k |-> "T", s |-> 0, t |-> 0,
        e |-> [a |-> "Program", toks |-> toks', closure |-> closure, o |-> Observed']]))

(***************************************************************************)
(* Sanity of the rules, checked on every state: a name f needs is bound by *)
(* no enclosing scope that its user can see; what strict functions may use *)
(* loose ones may, too; a function that mentions no name is accepted.      *)
(***************************************************************************)
NeededIsNotBound ==
  \A n \in Needed : \E i \in All :
     n \in Refs(i) /\ (n \in scopes[i].binds => n \in scopes[i].glob \cup scopes[i].nonl)
ExactlyProvided ==
  /\ Observed.exact # "use"
  /\ "accepted" \notin Observed.lacking
StrictIsStricter == Observed.strict = "accepted" => Observed.loose = "accepted"
UnusedIsAccepted ==
  (\A i \in All : Refs(i) = {}) /\ ~yields => Observed.strict = "accepted"
BoundInFIsAccepted ==      \* with one scope: everything bound or allowed
  (Len(scopes) = 1 /\ ~yields /\ scopes[1].glob = {} /\ scopes[1].nonl = {}
     /\ scopes[1].uses \subseteq scopes[1].binds) => Observed.strict = "accepted"
=============================================================================
