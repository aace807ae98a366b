------------------------------ MODULE CodeEdits ------------------------------
(***************************************************************************)
(* A function and its edits (C08). A program is its statements in order,   *)
(* each with its depth; a simple statement reports something, so what a    *)
(* program does is the sequence of what it reports. An edit of the program *)
(* changes what it is; restyling it (comments, docstrings, formatting,     *)
(* indentation, annotations, decorator) changes its text only. Two         *)
(* versions have the same normalized source exactly if they are the same   *)
(* program, and the normalized source does what the program does.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Exprs,        \* simple statements: report the value of an expression,
          Defaults,     \* those of them that may be a default value
          Stmts,        \* do something else that reports a value
          Shapes,       \* forms of the parameter list
          Dims,         \* what a style may consist of
          MaxLen, MaxDepth, MaxVersions

VARIABLES now,       \* the program: shape, default, body
          versions,  \* all there were, oldest first: program, style, what is observed
          finished
vars == <<now, versions, finished>>

Simple == {"expr", "stmt", "return", "break"}
Blocks == {"if", "for", "while", "try", "with", "match", "def", "class"}
Variants(k) == CASE k = "expr" -> Exprs [] k = "stmt" -> Stmts
                 [] k \in {"return", "break", "while", "with", "class"} -> {0}
                 [] OTHER -> {0, 1}

(* What blocks statement i is in, the innermost first.                      *)
RECURSIVE Around(_, _, _)
Around(P, i, d) ==
  IF i = 0 \/ d = 1 THEN <<>>
  ELSE IF P[i].d = d - 1 THEN <<P[i].k>> \o Around(P, i - 1, d - 1)
  ELSE Around(P, i - 1, d)
In(P, i) == Around(P, i - 1, P[i].d)
RECURSIVE UpTo(_, _)
UpTo(A, K) == IF A = <<>> \/ Head(A) \in K THEN <<>> ELSE <<Head(A)>> \o UpTo(Tail(A), K)
Has(A, K) == \E i \in 1..Len(A) : A[i] \in K

WellFormed(P) ==
  /\ P # <<>> /\ P[1].d = 1 /\ Len(P) <= MaxLen
  /\ \A i \in 1..Len(P) :
       /\ P[i].d <= MaxDepth
       /\ (i > 1 /\ P[i - 1].k \notin Blocks) => P[i].d <= P[i - 1].d
       /\ P[i].k \in Blocks => (i < Len(P) /\ P[i + 1].d = P[i].d + 1)
       /\ P[i].k = "return" => ~Has(UpTo(In(P, i), {"def"}), {"class"})
       /\ P[i].k = "break" => Has(UpTo(In(P, i), {"def", "class"}), {"for", "while"})

-----------------------------------------------------------------------------
(* What a program reports, called with x, and how it ends: "go" on, "ret"   *)
(* or "brk".                                                                *)
Res(t, r) == [t |-> t, r |-> r]
RECURSIVE Exec(_, _), Then(_, _, _)
Then(a, P, x) == IF a.r # "go" THEN a
                 ELSE LET b == Exec(P, x) IN Res(a.t \o b.t, b.r)
Twice(b) == IF b.r = "brk" THEN Res(b.t, "go") ELSE IF b.r = "ret" THEN b ELSE Res(b.t \o b.t, "go")
Once(b) == IF b.r = "brk" THEN Res(b.t, "go") ELSE b
Effect(s, B, x) ==
  CASE s.k \in {"expr", "stmt"} -> Res(<<s.v>>, "go")
    [] s.k = "return" -> Res(<<>>, "ret")
    [] s.k = "break" -> Res(<<>>, "brk")
    [] s.k \in {"if", "match"} -> IF x = s.v THEN Exec(B, x) ELSE Res(<<>>, "go")
    [] s.k = "for" -> IF s.v = 0 THEN Twice(Exec(B, x)) ELSE Once(Exec(B, x))
    [] s.k = "while" -> Once(Exec(B, x))
    [] s.k = "try" -> LET b == Exec(B, x) IN Res(b.t \o <<-1 - s.v>>, b.r)     \* finally
    [] s.k \in {"with", "class"} -> Exec(B, x)
    [] s.k = "def" -> LET b == Exec(B, x)                                      \* called afterwards
                      IN Res(IF s.v = 0 THEN b.t ELSE b.t \o b.t, "go")
Exec(P, x) ==
  IF P = <<>> THEN Res(<<>>, "go")
  ELSE LET inside == {j \in 2..Len(P) : \A m \in 2..j : P[m].d > P[1].d}
           n == 1 + Cardinality(inside)
       IN Then(Effect(P[1], SubSeq(P, 2, n), x), SubSeq(P, n + 1, Len(P)), x)
Reports(p, x) == <<p.default>> \o Exec(p.body, x).t

-----------------------------------------------------------------------------
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Same(vs, p) == LET S == {i \in 1..Len(vs) : vs[i].p = p}
               IN IF S = {} THEN Len(vs) + 1 ELSE First(S)
Version(vs, p, style) ==
  Append(vs, [p |-> p, style |-> style, same |-> Same(vs, p),
              reports |-> <<Reports(p, 0), Reports(p, 1)>>])

Start == [shape |-> 0, default |-> CHOOSE v \in Defaults : TRUE,
          body |-> <<[k |-> "expr", v |-> CHOOSE v \in Exprs : TRUE, d |-> 1]>>]
Init == now = Start /\ versions = <<>> /\ finished = FALSE

Becomes(p) ==
  /\ ~finished /\ p # now /\ WellFormed(p.body)
  /\ now' = p /\ UNCHANGED <<versions, finished>>
Body(B) == Becomes([now EXCEPT !.body = B])

(* Edits. The variants of statements are many: a random one stands for all. *)
Some(S) == RandomElement(S)
Change == \E i \in 1..Len(now.body) :
            Body([now.body EXCEPT ![i].v = Some(Variants(now.body[i].k))])
Insert == \E i \in 0..Len(now.body), d \in 1..MaxDepth, k \in Simple :
            Body(SubSeq(now.body, 1, i) \o <<[k |-> k, v |-> Some(Variants(k)), d |-> d]>>
                 \o SubSeq(now.body, i + 1, Len(now.body)))
\* statements i..j, at one depth or inside, go into a block
Wrap == \E i \in 1..Len(now.body) : \E j \in i..Len(now.body) : \E k \in Blocks :
  LET d == now.body[i].d IN
  /\ \A m \in i..j : now.body[m].d >= d
  /\ (j < Len(now.body) => now.body[j + 1].d <= d)
  /\ Body(SubSeq(now.body, 1, i - 1) \o <<[k |-> k, v |-> Some(Variants(k)), d |-> d]>>
          \o [m \in 1..(j - i + 1) |-> [now.body[i + m - 1] EXCEPT !.d = @ + 1]]
          \o SubSeq(now.body, j + 1, Len(now.body)))
\* a block becomes another kind of block
Turn == \E i \in 1..Len(now.body), k \in Blocks :
  /\ now.body[i].k \in Blocks
  /\ Body([now.body EXCEPT ![i].k = k, ![i].v = Some(Variants(k))])
\* the last statement of a block goes behind the block, or the other way round
Shift == \E i \in 2..Len(now.body), by \in {-1, 1} :
  /\ now.body[i].k \in Simple /\ now.body[i].d + by >= 1
  /\ Body([now.body EXCEPT ![i].d = @ + by])
Delete == \E i \in 1..Len(now.body) :
  Body(SubSeq(now.body, 1, i - 1) \o SubSeq(now.body, i + 1, Len(now.body)))
Swap == \E i \in 1..Len(now.body) - 1 :
  /\ now.body[i].d = now.body[i + 1].d /\ {now.body[i].k, now.body[i + 1].k} \subseteq Simple
  /\ Body([now.body EXCEPT ![i] = now.body[i + 1], ![i + 1] = now.body[i]])
Signature == \/ Becomes([now EXCEPT !.shape = Some(Shapes)])
             \/ Becomes([now EXCEPT !.default = Some(Defaults)])
\* back to what it was
Revert == \E i \in 1..Len(versions) : Becomes(versions[i].p)

(* Write the program down, in a style.                                      *)
Write(style) ==
  /\ ~finished /\ Len(versions) < MaxVersions
  /\ versions' = Version(versions, now, style)
  /\ UNCHANGED <<now, finished>>
Finish == /\ ~finished /\ Len(versions) = MaxVersions
          /\ finished' = TRUE /\ UNCHANGED <<now, versions>>

Edit == Change \/ Insert \/ Wrap \/ Turn \/ Shift \/ Delete \/ Swap \/ Signature \/ Revert
\* a simulation writes down often enough what it edits
Next == IF finished THEN FALSE
        ELSE IF Len(versions) = MaxVersions THEN Finish
        ELSE IF RandomElement(1..100) <= 40 THEN Write(RandomElement(SUBSET Dims)) ELSE Edit
Spec == Init /\ [][Next]_vars
\* small programs, all of them
Early == TLCGet("level") <= 5
NextAll == (Len(versions) < 2 /\ Edit) \/ Write(Dims)

Emit == finished' =>
  PrintT(ToJson([k |-> "T", s |-> 0, t |-> 0, e |-> [a |-> "Versions", versions |-> versions]]))

TypeOK == WellFormed(now.body)
\* a program that reports something else is another program; with no "return" and
\* outside of blocks that may be left out, every statement shows
SameMeansSame == \A i, j \in 1..Len(versions) :
  versions[i].same = versions[j].same => versions[i].reports = versions[j].reports
Shows == \A i, j \in 1..Len(versions) :
  LET p == versions[i].p q == versions[j].p IN
  (p # q /\ p.shape = q.shape /\ \A s \in {p.body[m] : m \in 1..Len(p.body)}
                                   \cup {q.body[m] : m \in 1..Len(q.body)} : s.k \in {"expr", "stmt"})
  => versions[i].reports # versions[j].reports
=============================================================================
