------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* Documents as sequences of Unicode code points, and the coordinate       *)
(* system every other module is written in: a position is a zero-based     *)
(* <<line, offset>> pair, lines are separated by line feeds (a CRLF pair   *)
(* being a single, indivisible line break), and offsets count extended     *)
(* grapheme clusters (UAX #29).                                            *)
(*                                                                         *)
(* Everything here is a function of the content alone. That is itself one  *)
(* of the properties checked against the implementation (T02): where       *)
(* earlier edits left the gap must not matter.                             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

LF == 10
CR == 13

---------------------------------------------------------------------------
(* UTF-8 *)

Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2
            ELSE IF c < 65536 THEN 3 ELSE 4

Least(x, y) == IF x < y THEN x ELSE y

ByteLen(t) == FoldLeft(LAMBDA n, c : n + Width(c), 0, t)

---------------------------------------------------------------------------
(* Grapheme cluster segmentation. The classification covers the repertoire *)
(* used by the drivers and is cross-checked against the implementation's   *)
(* Unicode library (see Segments).                                         *)

Class(c) ==
    IF c < 127 THEN (IF c >= 32 THEN "XX" ELSE IF c = LF THEN "LF"
                     ELSE IF c = CR THEN "CR" ELSE "CN")
    ELSE IF c < 768 THEN (IF c < 160 \/ c = 173 THEN "CN"
                          ELSE IF c = 169 \/ c = 174 THEN "EP" ELSE "XX")
    ELSE IF c < 880 THEN "EX"
    ELSE IF c < 4352 THEN
        (IF c \in 1536..1541 THEN "PP"
         ELSE IF c = 2364 \/ c = 2381 \/ c = 3633 THEN "EX"
         ELSE IF c = 2307 \/ c \in 2366..2368 \/ c = 3635 THEN "SM"
         ELSE "XX")
    ELSE IF c < 8192 THEN
        (IF c \in 4352..4447 THEN "L"
         ELSE IF c \in 4448..4519 THEN "V"
         ELSE IF c \in 4520..4607 THEN "T"
         ELSE "XX")
    ELSE IF c < 44032 THEN
        (IF c = 8205 THEN "ZW"
         ELSE IF c = 8204 \/ c = 8419 \/ c = 12441 THEN "EX"
         ELSE IF c \in {8203, 8206, 8207, 8232, 8233} \/ c \in 8234..8238 \/ c \in 8288..8303 THEN "CN"
         ELSE IF c = 8482 \/ c = 10084 THEN "EP"
         ELSE "XX")
    ELSE IF c < 65536 THEN
        (IF c \in 44032..55203 THEN (IF (c - 44032) % 28 = 0 THEN "LV" ELSE "LVT")
         ELSE IF c \in 65024..65039 \/ c \in {65438, 65439} THEN "EX"
         ELSE IF c = 65279 \/ c \in 65520..65531 THEN "CN"
         ELSE "XX")
    ELSE IF c \in 127462..127487 THEN "RI"
    ELSE IF c \in 127995..127999 \/ c \in 917536..917631 \/ c \in 917760..917999 THEN "EX"
    ELSE IF c = 127988 \/ c \in 128102..128105 \/ c \in 128512..128591 \/ c \in 128640..128709 THEN "EP"
    ELSE "XX"

IndicConsonant(c) == c \in 2325..2361
IndicLinker(c) == c = 2381
IndicExtend(c) == Class(c) \in {"EX", "ZW"} /\ c # 8204

RECURSIVE RIsEndingAt(_, _), PictoEndsAt(_, _), ConjunctEndsAt(_, _, _)
(* Number of consecutive regional indicators ending at i. *)
RIsEndingAt(t, i) == IF i = 0 \/ Class(t[i]) # "RI" THEN 0 ELSE 1 + RIsEndingAt(t, i - 1)
(* Whether an ExtPict Extend* sequence ends at i. *)
PictoEndsAt(t, i) == IF i = 0 THEN FALSE
                     ELSE IF Class(t[i]) = "EP" THEN TRUE
                     ELSE IF Class(t[i]) = "EX" THEN PictoEndsAt(t, i - 1)
                     ELSE FALSE
(* Whether a Consonant [Extend|Linker]* sequence with a linker ends at i. *)
ConjunctEndsAt(t, i, linked) ==
    IF i = 0 THEN FALSE
    ELSE IF IndicConsonant(t[i]) THEN linked
    ELSE IF IndicLinker(t[i]) THEN ConjunctEndsAt(t, i - 1, TRUE)
    ELSE IF IndicExtend(t[i]) THEN ConjunctEndsAt(t, i - 1, linked)
    ELSE FALSE

(* Whether a cluster boundary separates t[i] and t[i+1]. *)
Breaks(t, i) ==
    IF t[i] \in 32..126 /\ t[i + 1] \in 32..126 THEN TRUE ELSE
    LET a == Class(t[i]) b == Class(t[i + 1]) IN
    IF a = "CR" /\ b = "LF" THEN FALSE
    ELSE IF a \in {"CR", "LF", "CN"} \/ b \in {"CR", "LF", "CN"} THEN TRUE
    ELSE IF a = "L" /\ b \in {"L", "V", "LV", "LVT"} THEN FALSE
    ELSE IF a \in {"LV", "V"} /\ b \in {"V", "T"} THEN FALSE
    ELSE IF a \in {"LVT", "T"} /\ b = "T" THEN FALSE
    ELSE IF b \in {"EX", "ZW", "SM"} THEN FALSE
    ELSE IF a = "PP" THEN FALSE
    ELSE IF IndicConsonant(t[i + 1]) /\ ConjunctEndsAt(t, i, FALSE) THEN FALSE
    ELSE IF a = "ZW" /\ b = "EP" /\ PictoEndsAt(t, i - 1) THEN FALSE
    ELSE IF a = "RI" /\ b = "RI" /\ RIsEndingAt(t, i) % 2 = 1 THEN FALSE
    ELSE TRUE

IsStart(t, i) == i = 1 \/ Breaks(t, i - 1)

(* Indices at which the clusters of t[s..e-1] start, in order. *)
StartsIn(t, s, e) ==
    SelectSeq([k \in 1..(e - s) |-> s + k - 1], LAMBDA i : IsStart(t, i))

Starts(t) == StartsIn(t, 1, Len(t) + 1)
ClusterCount(t) == Len(Starts(t))

---------------------------------------------------------------------------
(* Lines *)

(* Indices of line feeds, in order. *)
Feeds(t) == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = LF)

LineCount(t) == Len(Feeds(t)) + 1

(* The index span <<s, e>> (e exclusive, terminator included) of line l.   *)
SpanIn(t, fs, l) ==
    << IF l = 0 THEN 1 ELSE fs[l] + 1,
       IF l = Len(fs) THEN Len(t) + 1 ELSE fs[l + 1] + 1 >>

(* The number of lines iterated by conventional line splitting, where a    *)
(* final line is only counted if it isn't empty.                           *)
SplitLineCount(t) ==
    IF t = <<>> THEN 0
    ELSE IF t[Len(t)] = LF THEN LineCount(t) - 1 ELSE LineCount(t)

---------------------------------------------------------------------------
(* Positions *)

Origin == <<0, 0>>

Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
MinPos(p, q) == IF Before(q, p) THEN q ELSE p
MaxPos(p, q) == IF Before(q, p) THEN p ELSE q

(* The index addressed by a position; Len(t)+1 is the end of the document, *)
(* and 0 means that the position doesn't exist.                            *)
Idx(t, p) ==
    LET fs == Feeds(t) IN
    IF p[1] > Len(fs) THEN 0
    ELSE LET sp == SpanIn(t, fs, p[1]) IN
         IF p[2] > sp[2] - sp[1] THEN 0
         ELSE LET st == StartsIn(t, sp[1], sp[2]) IN
              IF p[2] < Len(st) THEN st[p[2] + 1]
              ELSE IF p[1] = Len(fs) /\ p[2] = Len(st) THEN Len(t) + 1
              ELSE 0

InBounds(t, p) == Idx(t, p) # 0

(* The position of the cluster containing (or starting at) index i. *)
PosOf(t, i) ==
    LET fs == Feeds(t)
        l == Cardinality({k \in 1..Len(fs) : fs[k] < i})
        s == IF l = 0 THEN 1 ELSE fs[l] + 1
    IN IF i > Len(t) THEN <<l, Len(StartsIn(t, s, i))>>
       ELSE <<l, Len(StartsIn(t, s, i + 1)) - 1>>

(* The last offset of line l. *)
LastOffset(t, l) ==
    LET fs == Feeds(t) sp == SpanIn(t, fs, l) n == Len(StartsIn(t, sp[1], sp[2]))
    IN IF l = Len(fs) THEN n ELSE n - 1

(* All positions that exist, in document order. *)
AllPositions(t) ==
    UNION {{<<l, o>> : o \in 0..LastOffset(t, l)} : l \in 0..(LineCount(t) - 1)}

---------------------------------------------------------------------------
(* Editing, as done by an ideal document *)

Splice(t, i, removed, s) == SubSeq(t, 1, i - 1) \o s \o SubSeq(t, i + removed, Len(t))

(* Insertion at a position that doesn't exist changes nothing. *)
InsertText(t, p, s) == LET i == Idx(t, p) IN IF i = 0 THEN t ELSE Splice(t, i, 0, s)

(* Index at which a deletion ends: where its end position is, if it        *)
(* exists; failing that, the start of the line below it, and, failing      *)
(* that too, the end of the document.                                      *)
DeletionEnd(t, q) ==
    LET j == Idx(t, q) IN
    IF j # 0 THEN j
    ELSE LET k == Idx(t, <<q[1] + 1, 0>>) IN IF k # 0 THEN k ELSE Len(t) + 1

(* Deletion of a range, given in either order. *)
DeleteRange(t, a, b) ==
    LET p == MinPos(a, b) q == MaxPos(a, b) i == Idx(t, p) IN
    IF i = 0 THEN t ELSE Splice(t, i, DeletionEnd(t, q) - i, <<>>)

(* The text between two positions; <<>> (as opposed to <<text>>) if either *)
(* doesn't exist.                                                          *)
ReadRange(t, a, b) ==
    LET i == Idx(t, MinPos(a, b)) j == Idx(t, MaxPos(a, b)) IN
    IF i = 0 \/ j = 0 THEN <<>> ELSE <<SubSeq(t, i, j - 1)>>

---------------------------------------------------------------------------
(* Searching: every position from which the rest of its line starts with   *)
(* the needle. Needles never match across lines, and (like the positions   *)
(* used to report them) matches start on cluster boundaries. A position at *)
(* the end of a line is not a match, not even for an empty needle.         *)

HasPrefixAt(s, i, n) == Len(s) - i + 1 >= Len(n) /\ \A k \in 1..Len(n) : s[i + k - 1] = n[k]

(* Content of line l given the document's line feeds. *)
ContentIn(t, fs, l) ==
    LET sp == SpanIn(t, fs, l)
        e == IF l = Len(fs) THEN sp[2] - 1
             ELSE IF sp[2] - 2 >= sp[1] /\ t[sp[2] - 2] = CR THEN sp[2] - 3 ELSE sp[2] - 2
    IN SubSeq(t, sp[1], e)

LineHits(c, l, needle) ==
    LET st == Starts(c)
        hits == SelectSeq([k \in 1..Len(st) |-> k], LAMBDA k : HasPrefixAt(c, st[k], needle))
    IN [k \in 1..Len(hits) |-> <<l, hits[k] - 1>>]

(* A sequence's elements mapped to sequences and concatenated, a few        *)
(* hundred at a time.                                                      *)
Concat(Op(_), n) ==
    LET Some(m) == FoldLeft(LAMBDA all, i : all \o Op(256 * m + i), <<>>,
                            [i \in 1..Least(256, n - 256 * m) |-> i])
    IN FoldLeft(LAMBDA all, m : all \o Some(m), <<>>, [m \in 1..((n + 255) \div 256) |-> m - 1])

Search(t, needle) ==
    LET fs == Feeds(t) IN
    Concat(LAMBDA l : LineHits(ContentIn(t, fs, l - 1), l - 1, needle), SplitLineCount(t))

---------------------------------------------------------------------------
(* Distances: the displacement covered by a text. *)

Distance(s) ==
    LET fs == Feeds(s) k == Len(fs) sp == SpanIn(s, fs, k)
    IN <<k, Len(Starts(SubSeq(s, sp[1], sp[2] - 1)))>>

AddDistance(p, d) == IF d[1] > 0 THEN <<p[1] + d[1], d[2]>> ELSE <<p[1], p[2] + d[2]>>

=============================================================================
