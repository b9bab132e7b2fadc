-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text as the library sees it: a Go string, i.e. a sequence of bytes that *)
(* is read as UTF-8.  The abstract value is the sequence of decoded        *)
(* characters: a number >= 0 is a code point, a number -b < 0 is a byte b  *)
(* that is not part of valid UTF-8 (Go decodes it to U+FFFD, one byte).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

MaxCP  == 1114111
Space  == 32
NewLn  == 10

(* The code point a character decodes to. *)
CP(c) == IF c < 0 THEN 65533 ELSE c

(* Bytes a character occupies in the string. *)
CharBytes(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
ByteLen(t)   == FoldLeft(LAMBDA a, c : a + CharBytes(c), 0, t)

Rep(c, n)  == [k \in 1..n |-> c]
Spaces(n)  == Rep(Space, n)

RECURSIVE Cat(_, _, _)
Cat(ss, a, b) == IF a > b THEN <<>>
                 ELSE IF a = b THEN ss[a]
                 ELSE LET m == (a + b) \div 2 IN Cat(ss, a, m) \o Cat(ss, m + 1, b)
(* Concatenation of a sequence of sequences. *)
Flat(ss) == Cat(ss, 1, Len(ss))

(* strings.Join *)
Join(ss, sep) == Flat([i \in 1..(IF ss = <<>> THEN 0 ELSE 2*Len(ss) - 1) |->
                        IF i % 2 = 1 THEN ss[(i + 1) \div 2] ELSE sep])

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
SumSeq(s)   == FoldLeft(LAMBDA a, x : a + x, 0, s)
MaxSeq(s)   == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, 0, s)

(* Split into lines; every line must be ended by a newline (else the rest  *)
(* is reported as an extra, unterminated last element in `rest`).          *)
NLPos(t) == FoldLeftDomain(LAMBDA a, i : IF t[i] = NewLn THEN Append(a, i) ELSE a, <<>>, t)
Lines(t) == LET p == NLPos(t)
                n == Len(p)
            IN [lines |-> [i \in 1..n |-> SubSeq(t, (IF i = 1 THEN 0 ELSE p[i-1]) + 1, p[i] - 1)],
                rest  |-> SubSeq(t, (IF n = 0 THEN 0 ELSE p[n]) + 1, Len(t))]
=============================================================================
