------------------------------- MODULE Chars -------------------------------
(* Code points, the Toaq letter and tone tables, and UTF-8 widths.          *)
(* Texts are sequences of code points (naturals); byte offsets are derived. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoTone == 0
(* A tone is named by the code point of its ASCII mark. *)
TMacron == 45   \* -
TAcute  == 47   \* /
TCaron  == 86   \* V
THook   == 63   \* ?
TCirc   == 94   \* ^
TGrave  == 92   \* \
TTilde  == 126  \* ~
Tones     == <<TMacron, TAcute, TCaron, THook, TCirc, TGrave, TTilde>>
WordTones == <<TAcute, TCaron, THook, TCirc, TGrave, TTilde>>
ToneSet   == {Tones[i] : i \in 1..7}

(* Vowels as lower case ASCII code points. *)
cA == 97  cB == 98  cC == 99  cD == 100 cE == 101 cF == 102 cG == 103
cH == 104 cI == 105 cJ == 106 cK == 107 cL == 108 cM == 109 cN == 110
cO == 111 cP == 112 cQ == 113 cR == 114 cS == 115 cT == 116 cU == 117
cV == 118
Dotless == 305
Vowels == <<cA, cU, cI, cO, cE>>
VowelSet == {cA, cU, cI, cO, cE}

(* Precomposed letters: for each tone, rows <<vowel, lower, upper>>; the     *)
(* caron row is followed by the breve row, which is read but never written. *)
Precomposed ==
  [ t \in ToneSet |->
    CASE t = TMacron -> << <<cA,257,256>>, <<cU,363,362>>, <<cI,299,298>>, <<cO,333,332>>, <<cE,275,274>> >>
      [] t = TAcute  -> << <<cA,225,193>>, <<cU,250,218>>, <<cI,237,205>>, <<cO,243,211>>, <<cE,233,201>> >>
      [] t = TCaron  -> << <<cA,462,461>>, <<cU,468,467>>, <<cI,464,463>>, <<cO,466,465>>, <<cE,283,282>> >>
      [] t = THook   -> << <<cA,7843,7842>>, <<cU,7911,7910>>, <<cI,7881,7880>>, <<cO,7887,7886>>, <<cE,7867,7866>> >>
      [] t = TCirc   -> << <<cA,226,194>>, <<cU,251,219>>, <<cI,238,206>>, <<cO,244,212>>, <<cE,234,202>> >>
      [] t = TGrave  -> << <<cA,224,192>>, <<cU,249,217>>, <<cI,236,204>>, <<cO,242,210>>, <<cE,232,200>> >>
      [] t = TTilde  -> << <<cA,227,195>>, <<cU,361,360>>, <<cI,297,296>>, <<cO,245,213>>, <<cE,7869,7868>> >> ]
Breve == << <<cA,259,258>>, <<cU,365,364>>, <<cI,301,300>>, <<cO,335,334>>, <<cE,277,276>> >>

(* Combining marks and the ASCII marks and digits of each tone. *)
Combiners == [ t \in ToneSet |->
    CASE t = TMacron -> {772} [] t = TAcute -> {769} [] t = TCaron -> {780, 774}
      [] t = THook -> {777} [] t = TCirc -> {770} [] t = TGrave -> {768} [] t = TTilde -> {771} ]
ToneDigit == [ t \in ToneSet |->
    CASE t = TMacron -> 49 [] t = TAcute -> 50 [] t = TCaron -> 51
      [] t = THook -> 52 [] t = TCirc -> 53 [] t = TGrave -> 54 [] t = TTilde -> 55 ]
Marks == [ t \in ToneSet |-> {t, ToneDigit[t]} ]

VIdx(v) == CASE v = cA -> 1 [] v = cU -> 2 [] v = cI -> 3 [] v = cO -> 4 [] v = cE -> 5
Toned(t, v, upper) == Precomposed[t][VIdx(v)][IF upper THEN 3 ELSE 2]

(* Attributes of a code point.  k: "con" consonant that can start a syllable, *)
(* "q", "vow", "mark" (ASCII tone mark or digit), "comb", "space" (space or    *)
(* punctuation), "other".                                                      *)
Attr0 == [k |-> "other", t |-> NoTone, b |-> 0, up |-> FALSE]
AllPre == UNION { { <<t, Precomposed[t][i][1], Precomposed[t][i][2], Precomposed[t][i][3]>> : i \in 1..5 } : t \in ToneSet }
          \cup { <<TCaron, Breve[i][1], Breve[i][2], Breve[i][3]>> : i \in 1..5 }
SpaceLike ==
  {9, 10, 13, 32, 46, 44, 58, 33,              \* tab nl cr space . , : !
   34, 35, 37, 38, 39, 40, 41, 42, 59, 64, 91, 93, 95, 123, 125,   \* " # % & ' ( ) * ; @ [ ] _ { }
   161, 167, 171, 182, 183, 187, 191,          \* inverted marks, section, guillemets, pilcrow, middle dot
   8208, 8211, 8212, 8216, 8217, 8220, 8221, 8226, 8230, 8242,  \* dashes, quotes, bullet, ellipsis, prime
   12289, 12290, 65281, 65292}                 \* CJK comma, full stop, full-width ! ,
ConsLower == {cB, cC, cD, cF, cG, cH, cJ, cK, cL, cM, cN, cP, cR, cS, cT}

MkAttr ==
  LET pre == { <<r[3], [k |-> "vow", t |-> r[1], b |-> r[2], up |-> FALSE]>> : r \in AllPre }
             \cup { <<r[4], [k |-> "vow", t |-> r[1], b |-> r[2], up |-> TRUE]>> : r \in AllPre }
      vow == { <<v, [k |-> "vow", t |-> NoTone, b |-> v, up |-> FALSE]>> : v \in VowelSet }
             \cup { <<v - 32, [k |-> "vow", t |-> NoTone, b |-> v, up |-> TRUE]>> : v \in VowelSet }
             \cup { <<Dotless, [k |-> "vow", t |-> NoTone, b |-> cI, up |-> FALSE]>> }
      con == { <<c, [k |-> "con", t |-> NoTone, b |-> c, up |-> FALSE]>> : c \in ConsLower }
             \cup { <<c - 32, [k |-> "con", t |-> NoTone, b |-> c, up |-> TRUE]>> : c \in ConsLower }
      qs  == { <<cQ, [k |-> "q", t |-> NoTone, b |-> cQ, up |-> FALSE]>>,
               <<cQ - 32, [k |-> "q", t |-> NoTone, b |-> cQ, up |-> TRUE]>> }
      mk  == UNION { { <<c, [k |-> "mark", t |-> t, b |-> 0, up |-> FALSE]>> : c \in Marks[t] } : t \in ToneSet }
      cmb == UNION { { <<c, [k |-> "comb", t |-> t, b |-> 0, up |-> FALSE]>> : c \in Combiners[t] } : t \in ToneSet }
      sp  == { <<c, [k |-> "space", t |-> NoTone, b |-> 0, up |-> FALSE]>> : c \in SpaceLike }
      all == pre \cup vow \cup con \cup qs \cup mk \cup cmb \cup sp
  IN  [ c \in {x[1] : x \in all} |-> (CHOOSE x \in all : x[1] = c)[2] ]
AttrTab == MkAttr
(* Flat table for the low code points, so that lookups are cheap in TLC. *)
AttrLow == [ c \in 1..800 |-> IF c \in DOMAIN AttrTab THEN AttrTab[c] ELSE Attr0 ]
Attr(c) == IF c \in 1..800 THEN AttrLow[c] ELSE IF c \in DOMAIN AttrTab THEN AttrTab[c] ELSE Attr0

Width(c) == IF c < 128 \/ c >= 1114112 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

(* ASCII letters as one-letter strings, for readable word bases. *)
Letter == [ c \in 97..122 |->
   << "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z" >>[c - 96] ]

(* Byte offset of each position of a text: Offs(s)[p] is the offset of s[p], *)
(* Offs(s)[Len(s)+1] the length in bytes.                                    *)
RECURSIVE OffsR(_, _, _)
OffsR(s, p, acc) == IF p > Len(s) THEN acc ELSE OffsR(s, p + 1, Append(acc, acc[p] + Width(s[p])))
Offs(s) == OffsR(s, 1, <<0>>)

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Last(s) == s[Len(s)]
(* White space as Unicode has it. *)
WhiteSet == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ Head(s) \in WhiteSet THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ Last(s) \in WhiteSet THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
=============================================================================
