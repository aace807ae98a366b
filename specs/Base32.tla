---- MODULE Base32 ----
(* Numbers as texts: hexadecimal digits typed one after the other, and the same
   number in base 32, kept up to date by long multiplication. BitsAgree says what it
   means: both are the same bits, taken four and five at a time.

   And signatures drawn at random: a draw gives a signature never drawn before, in
   whatever process, and whatever seeds have been set there.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Digits,      \* hexadecimal digits that may be typed
          Given,       \* whole hexadecimal texts to start from, as digit sequences
          MaxLen, Cases

VARIABLES hex, b32, ev
vars == <<hex, b32>>
View == vars

Alphabet == "0123456789abcdefghijklmnopqrstuv"

RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ Head(s) = 0 THEN Strip(Tail(s)) ELSE s

\* 16 * s + d in base 32, s without leading zeros
RECURSIVE MulAdd(_, _)
MulAdd(s, d) == IF s = <<>> THEN (IF d = 0 THEN <<>> ELSE IF d < 32 THEN <<d>> ELSE <<d \div 32, d % 32>>)
                ELSE LET x == 16 * s[Len(s)] + d IN
                     Append(MulAdd(SubSeq(s, 1, Len(s) - 1), x \div 32), x % 32)
RECURSIVE FromHex(_)
FromHex(h) == IF h = <<>> THEN <<>>
              ELSE MulAdd(FromHex(SubSeq(h, 1, Len(h) - 1)), h[Len(h)])

Bit(d, i) == (d \div (2 ^ i)) % 2
Bits(s, w) == Strip([i \in 1..(Len(s) * w) |-> Bit(s[(i - 1) \div w + 1], w - 1 - ((i - 1) % w))])

\* the texts one may write the number as: letter case and leading zeros do not matter
Obs(b) == [digits |-> b, zero |-> b = <<>>]
Event(c, z) == ev' = [a |-> "Convert", hex |-> hex', case |-> c, zeros |-> z, o |-> Obs(b32')]

Type(d) == /\ Len(hex) < MaxLen
           /\ hex' = Append(hex, d) /\ b32' = MulAdd(b32, d)
           /\ \E c \in Cases, z \in {0, 1, 7} : Event(c, z)
Init == /\ hex \in {<<>>} /\ b32 = FromHex(hex) /\ ev = [a |-> "Init"]
Next == \E d \in Digits : Type(d)

InitGiven == hex \in Given /\ b32 = FromHex(hex) /\ ev = [a |-> "Init"]
NextGiven == UNCHANGED vars /\ \E c \in Cases, z \in {0, 3} : Event(c, z)
Emit == PrintT(ToJson([k |-> "E", e |-> ev']))

BitsAgree == Bits(hex, 4) = Bits(b32, 5)
NoLeadingZero == b32 # <<>> => b32[1] # 0
Exact == FromHex(hex) = b32
====
