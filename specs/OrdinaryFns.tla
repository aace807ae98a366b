----------------------------- MODULE OrdinaryFns -----------------------------
(***************************************************************************)
(* What may be wrapped, and what calling a wrapper does (C09). A function  *)
(* has a signature and a body; a call gives some keywords. The outcome of  *)
(* a call of the wrapper is the one of the function: what is bound to each *)
(* parameter, or a TypeError; then what the body makes of it.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots,      \* parameters are numbered; the driver names them
          Extras,     \* other keywords
          Kinds,      \* things offered for wrapping
          Bodies, MaxCalls, MaxWraps

VARIABLES kind, sig, kw, body, chain, form, calls, finished
vars == <<kind, sig, kw, body, chain, form, calls, finished>>

(* Kinds are functions or something else. Those of the first group are      *)
(* ordinary, the others are not.                                            *)
Plain == {"plain", "nested", "text", "text decorated", "decorated", "unused async inside",
          "annotated with names that do not exist", "in a loop", "function with attributes",
          "indented text", "renamed"}
Other == {"lambda", "named lambda", "bound method", "class method", "built-in", "type", "class",
          "callable object", "partial", "closure", "async", "async generator", "varargs",
          "text varargs", "text async", "text lambda", "text class", "text two", "text import",
          "text expression", "empty text", "broken text", "number", "none", "bytes", "list of text",
          "foreign decorator", "foreign decorator with call", "two decorators",
          "foreign above", "text foreign", "text two decorators", "same decorator twice",
          "lru_cache", "wraps", "static method", "method of a built-in", "coroutine", "module",
          "bare varargs", "foreign attribute"}
ASSUME Kinds \subseteq Plain \cup Other
Ordinary(k) == k \in Plain

Apis == {"ordinary", "safe", "autonomous", "strictly_autonomous", "pure"}
Free == {"ordinary", "safe"}
\* a generator is ordinary, but not autonomous
\* a nested function that calls itself is a closure
Accepted(k, b, api) == Ordinary(k) /\ ~(k = "nested" /\ b \in {"recurse", "recurse and raise"}) /\ (b = "generator" => api \in Free)

\* a signature: for every parameter how it can be given and whether it has a default
Param == [s : Slots, how : {"position", "both", "keyword"}, default : BOOLEAN]
Rank(h) == CASE h = "position" -> 1 [] h = "both" -> 2 [] OTHER -> 3
WellFormed(S) ==
  /\ \A i, j \in 1..Len(S) : i # j => S[i].s # S[j].s
  /\ \A i \in 1..Len(S) - 1 :
       /\ Rank(S[i].how) <= Rank(S[i + 1].how)
       /\ (S[i].default /\ S[i + 1].how # "keyword") => S[i + 1].default

Range(f) == {f[i] : i \in DOMAIN f}
Names(S) == {p.s : p \in Range(S)}
Nameable(S) == {p.s : p \in {q \in Range(S) : q.how # "position"}}

(* Binding of the given keywords.                                           *)
Missing(S, given) == {p.s : p \in {q \in Range(S) : ~q.default /\ (q.how = "position" \/ q.s \notin given)}}
Unexpected(S, k, given) == IF k THEN {} ELSE given \ Nameable(S)
Binds(S, k, given) == Missing(S, given) = {} /\ Unexpected(S, k, given) = {}
Bound(S, given) == [i \in 1..Len(S) |->
  [s |-> S[i].s, from |-> IF S[i].how # "position" /\ S[i].s \in given THEN "call" ELSE "default"]]
Rest(S, k, given) == IF k THEN given \ Nameable(S) ELSE {}

(* The outcome of a call. A recursive function calls itself some times.     *)
Times(given) == IF Cardinality(given) > 3 THEN 3 ELSE Cardinality(given)
Outcome(S, k, b, given, positional) ==
  IF positional # 0 THEN [o |-> "refused"]
  ELSE IF ~Binds(S, k, given) THEN [o |-> "TypeError"]
  ELSE [o |-> IF b \in {"raise", "raise base", "raise own"} THEN b
              ELSE IF b = "recurse and raise" THEN "raise" ELSE "returns",
        bound |-> Bound(S, given), rest |-> Rest(S, k, given),
        depth |-> IF b \in {"recurse", "recurse and raise"} THEN Times(given) ELSE 0]

-----------------------------------------------------------------------------
Init == /\ kind = "" /\ sig = <<>> /\ kw = FALSE /\ body = "" /\ chain = <<>> /\ form = ""
        /\ calls = <<>> /\ finished = FALSE

Choose == /\ kind = ""
          /\ kind' = RandomElement(IF RandomElement(1..3) = 1 THEN Kinds \ Plain ELSE Kinds \cap Plain)
          /\ body' = RandomElement(Bodies)
          /\ kw' = (RandomElement(1..2) = 1)
          /\ UNCHANGED <<sig, chain, form, calls, finished>>
ChooseAll == /\ kind = ""
             /\ kind' = "plain" /\ body' \in Bodies /\ kw' \in BOOLEAN
             /\ UNCHANGED <<sig, chain, form, calls, finished>>
AddParam(p) == /\ kind # "" /\ chain = <<>> /\ WellFormed(Append(sig, p))
                    /\ sig' = Append(sig, p)
               /\ UNCHANGED <<kind, kw, body, chain, form, calls, finished>>
(* Wrapping, and wrapping again what came out. Only one kind of autonomous  *)
(* function can be made of a name.                                          *)
Wrap(api) == /\ kind # "" /\ calls = <<>> /\ Len(chain) < MaxWraps
             /\ chain # <<>> => Accepted(kind, body, chain[Len(chain)])
             /\ \A i \in 1..Len(chain) : chain[i] \in Free \/ api = chain[i]
             /\ chain' = Append(chain, api)
             /\ UNCHANGED <<kind, sig, kw, body, form, calls, finished>>
Top == chain[Len(chain)]
Works == chain # <<>> /\ Accepted(kind, body, Top)
(* A call, through one of the ways to call a wrapper.                       *)
Ways(api) == {"call", "execute"} \cup (IF api = "pure" THEN {"address", "run"} ELSE {})
Call(way, given, positional) ==
  /\ Works /\ Len(calls) < MaxCalls /\ way \in Ways(Top)
  /\ calls' = Append(calls, [way |-> way, given |-> given, positional |-> positional,
                             outcome |-> Outcome(sig, kw, body, given, positional)])
  /\ UNCHANGED <<kind, sig, kw, body, chain, form, finished>>
Finish == /\ chain # <<>> /\ ~finished
          /\ (Works => Len(calls) = MaxCalls)
          /\ finished' = TRUE /\ UNCHANGED <<kind, sig, kw, body, chain, form, calls>>

Good(S) == {given \in SUBSET (Names(S) \cup Extras) : Binds(S, kw, given)}
SomeGiven == LET all == SUBSET (Names(sig) \cup Extras)
             IN RandomElement(IF Good(sig) # {} /\ RandomElement(1..4) > 1 THEN Good(sig) ELSE all)
Next == IF finished THEN FALSE
        ELSE IF kind = "" THEN Choose
        ELSE IF chain = <<>> /\ Len(sig) < Cardinality(Slots) /\ RandomElement(1..4) > 1
             THEN LET ps == {p \in Param : WellFormed(Append(sig, p))}
                  IN IF ps # {} THEN AddParam(RandomElement(ps))
                     ELSE Wrap(RandomElement(Apis))
        ELSE IF chain = <<>> THEN Wrap(RandomElement(Apis))
        ELSE IF calls = <<>> /\ Len(chain) < MaxWraps /\ Works /\ RandomElement(1..3) = 1
             THEN Wrap(RandomElement(IF Top \in Free THEN Apis ELSE {Top}))
        ELSE IF Works /\ Len(calls) < MaxCalls
             THEN Call(RandomElement(Ways(Top)), SomeGiven,
                       IF RandomElement(1..6) = 1 THEN RandomElement(1..2) ELSE 0)
        ELSE Finish
NextAll == \/ ChooseAll
           \/ \E p \in Param : AddParam(p)
           \/ Len(sig) <= 2 /\ Wrap("ordinary") /\ chain = <<>>
           \/ Len(calls) < 1 /\ \E g \in SUBSET (Names(sig) \cup Extras) : Call("call", g, 0)
Spec == Init /\ [][Next]_vars

Emit == finished' =>
  PrintT(ToJson([k |-> "T", s |-> 0, t |-> 0,
    e |-> [a |-> "Wrap", kind |-> kind, sig |-> sig, kw |-> kw, body |-> body, chain |-> chain, calls |-> calls,
           o |-> [accepted |-> [i \in 1..Len(chain) |-> Accepted(kind, body, chain[i])],
                  outcomes |-> [i \in 1..Len(calls) |-> calls[i].outcome]]]]))

TypeOK == /\ WellFormed(sig) /\ \A i \in 1..Len(calls) : calls[i].outcome.o \in
                {"refused", "TypeError", "returns", "raise", "raise base", "raise own"}
\* what is given arrives exactly once: at a parameter or in the rest, or nothing is called
Arrives == \A i \in 1..Len(calls) :
  LET c == calls[i] IN
  c.outcome.o \notin {"refused", "TypeError"} =>
    /\ {b.s : b \in {x \in Range(c.outcome.bound) : x.from = "call"}} \cup c.outcome.rest = c.given
    /\ \A b \in Range(c.outcome.bound) : b.from = "call" => b.s \notin c.outcome.rest
    /\ \A j \in 1..Len(sig) : c.outcome.bound[j].from = "default" => sig[j].default
=============================================================================
