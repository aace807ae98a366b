---- MODULE ValueTerms ----
(* Values, as terms. Sets and dicts are TLA+ sets, so two terms are the same term
   exactly if they denote equal values of the same types: the address of a value
   must be a one-to-one function of its term, whatever way it was built.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Leaves,      \* all leaves: name |-> [prefix, size, hashable]
          Inner,       \* leaves used inside of containers
          Keys,        \* leaves used as elements of sets and as keys
          Hows,        \* ways to build a value
          MaxStack, MaxItems, MaxWeight

VARIABLES term, stack, ev
View == <<term, stack>>

Leaf(n) == [leaf |-> n]
Kind(t) == CHOOSE k \in {"leaf", "list", "tuple", "set", "frozenset", "dict"} : k \in DOMAIN t
Items(t) == LET k == Kind(t) IN
            IF k \in {"list", "tuple"} THEN {t[k][i] : i \in 1..Len(t[k])}
            ELSE IF k \in {"set", "frozenset"} THEN t[k]
            ELSE IF k = "dict" THEN {x.v : x \in t[k]} ELSE {}
RECURSIVE Hashable(_)
Hashable(t) == LET k == Kind(t) IN
               \/ k = "leaf" /\ Leaves[t.leaf].hashable
               \/ k = "frozenset"
               \/ k = "tuple" /\ \A x \in Items(t) : Hashable(x)
\* Python's own equality is coarser than "equal values of one type": 1 == True == 1.0.
\* Elements of one set, and keys of one dict, differ in Python's sense.
RECURSIVE Coarse(_)
Coarse(t) == LET k == Kind(t) IN
  IF k = "leaf" THEN [leaf |-> Leaves[t.leaf].eq]
  ELSE IF k = "tuple" THEN [tuple |-> [i \in 1..Len(t.tuple) |-> Coarse(t.tuple[i])]]
  ELSE IF k = "frozenset" THEN [frozenset |-> {Coarse(x) : x \in t.frozenset}] ELSE t
Apart(S) == Cardinality({Coarse(x) : x \in S}) = Cardinality(S)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Weight(_)
RECURSIVE SetWeight(_)
SetWeight(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Weight(x) + SetWeight(S \ {x})
Weight(t) == LET k == Kind(t) IN
             IF k = "leaf" THEN 1
             ELSE IF k \in {"list", "tuple"} THEN 1 + Sum([i \in 1..Len(t[k]) |-> Weight(t[k][i])])
             ELSE IF k = "dict" THEN 1 + Cardinality(t.dict) + SetWeight({x.v : x \in t.dict})
             ELSE 1 + SetWeight(t[k])

\* what a human reads in an address
Prefix(t) == IF Kind(t) = "leaf" THEN Leaves[t.leaf].prefix ELSE Kind(t)
Descriptor(t) == LET k == Kind(t) IN
  IF k = "leaf" THEN Leaves[t.leaf].size
  ELSE "len_" \o ToString(IF k \in {"list", "tuple"} THEN Len(t[k]) ELSE Cardinality(t[k])) \o "_"

\* ------------------------------------------------ all small values
Seqs(S) == {<<>>} \cup {<<x>> : x \in S} \cup {<<x, y>> : x, y \in S}
I == {Leaf(n) : n \in Inner}
K == {Leaf(n) : n \in Keys}
SmallSets(S) == {X \in {{}} \cup {{x} : x \in S} \cup {{x, y} : x, y \in S} : Apart(X)}
Dicts == {{}} \cup {{[k |-> k, v |-> v]} : k \in K, v \in I}
         \cup {{[k |-> k, v |-> v], [k |-> l, v |-> w]} : k, l \in K, v, w \in I}
GoodDict(d) == Cardinality({x.k : x \in d}) = Cardinality(d) /\ Apart({x.k : x \in d})
Level1 == {[list |-> s] : s \in Seqs(I)} \cup {[tuple |-> s] : s \in Seqs(I)}
          \cup {[set |-> s] : s \in SmallSets(K)} \cup {[frozenset |-> s] : s \in SmallSets(K)}
          \cup {[dict |-> d] : d \in {d \in Dicts : GoodDict(d)}}
Level2 == {[list |-> <<t>>] : t \in Level1} \cup {[tuple |-> <<t>>] : t \in Level1}
          \cup {[tuple |-> <<t, t>>] : t \in {[list |-> s] : s \in Seqs(I)}}
          \cup {[dict |-> {[k |-> k, v |-> t]}] : k \in {CHOOSE k \in K : TRUE}, t \in Level1}
          \cup {[set |-> {t}] : t \in {u \in Level1 : Hashable(u)}}
          \cup {[frozenset |-> X] : X \in {Y \in {{t, u} : t, u \in {[frozenset |-> s] : s \in SmallSets(K)}} : Apart(Y)}}
Universe == {Leaf(n) : n \in DOMAIN Leaves} \cup Level1 \cup Level2

Event(t, how) == ev' = [a |-> "Address", how |-> how, t |-> t,
                        o |-> [prefix |-> Prefix(t), descriptor |-> Descriptor(t)]]

InitSmall == /\ term \in Universe
             /\ stack = <<>> /\ ev = [a |-> "Init"]
NextSmall == /\ UNCHANGED <<term, stack>>
             /\ \E how \in Hows : Event(term, how)
Emit == PrintT(ToJson([k |-> "E", e |-> ev']))

\* ------------------------------------------------ deep values, bottom up
TopN(n) == SubSeq(stack, Len(stack) - n + 1, Len(stack))
Below(n) == SubSeq(stack, 1, Len(stack) - n)
Ran(s) == {s[i] : i \in 1..Len(s)}
Push(t) == /\ Weight(t) <= MaxWeight
           /\ term' = t
Make(n, t) == /\ Push(t) /\ stack' = Append(Below(n), t)
NextDeep ==
  /\ \/ \E n \in Inner \cup Keys : /\ Len(stack) < MaxStack
                                  /\ Push(Leaf(n)) /\ stack' = Append(stack, Leaf(n))
     \/ \E n \in 0..MaxItems : /\ n <= Len(stack)
                              /\ \/ Make(n, [list |-> TopN(n)])
                                 \/ Make(n, [tuple |-> TopN(n)])
     \/ \E n \in 1..MaxItems : /\ n <= Len(stack)
                              /\ \A x \in Ran(TopN(n)) : Hashable(x)
                              /\ Apart(Ran(TopN(n)))
                              /\ \/ Make(n, [set |-> Ran(TopN(n))])
                                 \/ Make(n, [frozenset |-> Ran(TopN(n))])
     \/ \E n \in 1..MaxItems : /\ 2 * n <= Len(stack)
                              /\ LET s == TopN(2 * n)
                                     d == {[k |-> s[2*i-1], v |-> s[2*i]] : i \in 1..n} IN
                                   /\ \A x \in d : Hashable(x.k)
                                   /\ GoodDict(d)
                                   /\ Make(2 * n, [dict |-> d])
  /\ \E how \in Hows : Event(term', how)
InitDeep == term = Leaf("None") /\ stack = <<>> /\ ev = [a |-> "Init"]

====
