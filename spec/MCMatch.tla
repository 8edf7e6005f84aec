-------------------------------- MODULE MCMatch --------------------------------
(***************************************************************************)
(* What the matching of TufRules.tla means (C13, C28).                      *)
(* Patterns: every sequence of up to MaxLen pieces, a piece being what a    *)
(* pattern is made of; the strings it stands for are given piece by piece   *)
(* (Lang) and compared with GlobMatch on the pattern as it is written.      *)
(* Bins: for every bit length, the names of the bins are distinct, IsBin    *)
(* accepts exactly them, and every hash is in exactly one bin, that of its  *)
(* leading bits.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, MaxStr, BitLengths
INSTANCE TufRules WITH Doc <- LAMBDA id : [typ |-> "none"], PathInfo <- LAMBDA p : [segs |-> <<>>, hash |-> <<>>, b64 |-> <<>>, h4 |-> <<0, 0, 0, 0>>]

\* the characters strings are made of: a b c * ] - \ and one beyond ASCII
Chars == {97, 98, 99, 42, 93, 45, 92, 252}
\* a piece: how it is written, and whether it stands for any string or for one of a set of characters
P(w, cs) == [w |-> w, star |-> FALSE, cs |-> cs]
Star == [w |-> <<42>>, star |-> TRUE, cs |-> {}]
Pieces == { Star, P(<<97>>, {97}), P(<<252>>, {252}), P(<<45>>, {45}), P(<<93>>, {93}), P(<<63>>, Chars),
            P(<<92, 42>>, {42}), P(<<92, 92>>, {92}), P(<<92, 97>>, {97}),
            P(<<91, 97, 93>>, {97}),                                \* [a]
            P(<<91, 94, 97, 93>>, Chars \ {97}),                    \* [^a]
            P(<<91, 97, 45, 99, 93>>, {97, 98, 99}),                \* [a-c]
            P(<<91, 99, 45, 97, 93>>, {}),                          \* [c-a]
            P(<<91, 94, 97, 45, 98, 99, 93>>, Chars \ {97, 98, 99}),  \* [^a-bc]
            P(<<91, 92, 93, 92, 45, 93>>, {93, 45}),                \* [\]\-]
            P(<<91, 98, 42, 93>>, {98, 42}),                        \* [b*]
            P(<<91, 97, 45, 252, 93>>, {97, 98, 99, 252}) }         \* [a-...]
\* what no pattern of this form may be: it stands for nothing
Broken == { <<91>>, <<91, 97>>, <<91, 93>>, <<91, 94, 93>>, <<91, 97, 45, 93>>, <<91, 45, 97, 93>>, <<92>>, <<91, 97, 45>>, <<91, 92>> }

RECURSIVE Strings(_), Cat(_), Stands(_, _)
Strings(n) == IF n = 0 THEN {<<>>} ELSE LET s == Strings(n - 1) IN s \cup {Append(x, c) : x \in {x \in s : Len(x) = n - 1}, c \in Chars}
AllStrings == Strings(MaxStr)
Cat(p) == IF p = <<>> THEN <<>> ELSE Head(p).w \o Cat(Tail(p))
\* the string is a concatenation of what the pieces stand for
Stands(p, s) ==
    IF p = <<>> THEN s = <<>>
    ELSE IF Head(p).star THEN \E k \in 0..Len(s) : Stands(Tail(p), SubSeq(s, k + 1, Len(s)))
    ELSE s # <<>> /\ Head(s) \in Head(p).cs /\ Stands(Tail(p), Tail(s))

VARIABLES pat, tail, bl
vars == <<pat, tail, bl>>
Init == pat = <<>> /\ tail = <<>> /\ bl \in BitLengths \cup {0}
Grow == /\ bl = 0 /\ tail = <<>> /\ Len(pat) < MaxLen /\ \E p \in Pieces : pat' = Append(pat, p)
        /\ UNCHANGED <<tail, bl>>
Break == bl = 0 /\ tail = <<>> /\ tail' \in Broken /\ UNCHANGED <<pat, bl>>
Next == Grow \/ Break
Spec == Init /\ [][Next]_vars

Glob == (bl = 0 /\ tail = <<>>) => \A s \in AllStrings : GlobMatch(Cat(pat), s) = Stands(pat, s)
\* with something broken at its end no string is matched that goes on after the pieces before
\* (but "[a" after a star may stay unread when nothing gets there)
BrokenNever == (bl = 0 /\ tail # <<>>) => \A s \in AllStrings : ~GlobMatch(Cat(pat) \o tail, s)
\* a "/" is never matched by anything but itself
Segments == (bl = 0 /\ tail = <<>>) => \A s, t \in Strings(1) :
                /\ PatternMatches(<<Cat(pat), <<97>>>>, <<s, t>>) = (Stands(pat, s) /\ t = <<97>>)
                /\ ~PatternMatches(<<Cat(pat)>>, <<s, t>>) /\ ~PatternMatches(<<Cat(pat), <<42>>>>, <<s>>)

\* --- bins
Numbers == 0..(Pow2(bl) - 1)
Names == {BinName("p", bl, n) : n \in Numbers}
Sym == {"0", "1", "2", "3", "4", "7", "8", "9", "a", "f", "F", "g", "-", "+", " "}
RECURSIVE Tails(_)
Tails(n) == IF n = 0 THEN {""} ELSE LET s == Tails(n - 1) IN s \cup {x \o c : x \in s, c \in Sym}
Distinct == bl # 0 => Cardinality(Names) = Pow2(bl)
Members == bl # 0 => /\ \A n \in Names : IsBin("p", bl, n)
                     /\ \A t \in Tails(3) : IsBin("p", bl, "p-" \o t) = ("p-" \o t \in Names)
                     /\ \A t \in Tails(2) : ~IsBin("p", bl, "q-" \o t) /\ ~IsBin("p", bl, "p" \o t \o "-") /\ ~IsBin("pp", bl, "p-" \o t)
\* the leading bits of the hash
Lead(h4) == ((h4[1] * 256 + h4[2]) * 256 + h4[3]) \div Pow2(24 - bl)
H4 == {<<a, b, c, 255>> : a \in {0, 1, 2, 3, 127, 128, 129, 85, 170, 254, 255}, b \in {0, 1, 15, 16, 127, 128, 240, 255}, c \in {0, 1, 128, 255}}
Partition == (bl # 0 /\ bl <= 24) => \A h \in H4 : BinNameOf("p", bl, h) = BinName("p", bl, Lead(h))
=============================================================================
