--------------------------------- MODULE Texts ---------------------------------
(* Printed forms of matrices, vectors, level sets and schedules, as text.  Values are quarters (integers: 4 x value).      *)
EXTENDS Integers, Sequences, SequencesExt, TLC
NL == "\n"
Join(s)      == FoldLeft(LAMBDA acc, w : acc \o w, "", s)
Each(S, F(_)) == Join([k \in DOMAIN S |-> F(S[k])])
Abs(q)       == IF q < 0 THEN -q ELSE q
Zeros(k)     == Join([j \in 1 .. k |-> "0"])
Frac(q)      == <<"00", "25", "50", "75">>[(Abs(q) % 4) + 1]
Fixed(q, d)  == (IF q < 0 THEN "-" ELSE "") \o ToString(Abs(q) \div 4) \o "." \o Frac(q) \o Zeros(d - 2)
Short(q)     == (IF q < 0 THEN "-" ELSE "") \o ToString(Abs(q) \div 4) \o <<"", ".25", ".5", ".75">>[(Abs(q) % 4) + 1]
(* compressed columns (or rows, when byrow) p, i with values x or none, one entry a line, 1-based; no newline after the last *)
Compressed(h, n, p, i, x, byrow) ==
  LET nz == p[n+1]
      col(k) == CHOOSE j \in 1 .. n : p[j] < k /\ k <= p[j+1]
      line(k) == (IF byrow THEN ToString(col(k)) \o " " \o ToString(i[k] + 1) ELSE ToString(i[k] + 1) \o " " \o ToString(col(k)))
                 \o " " \o Fixed(IF x = <<>> THEN 0 ELSE x[k], 12) \o (IF k = nz THEN "" ELSE NL)
  IN  h \o NL \o ToString(n) \o " " \o ToString(n) \o " " \o ToString(nz) \o NL \o Join([k \in 1 .. nz |-> line(k)])
DenseText(m, n, x) == Join([r \in 1 .. m |-> Join([c \in 1 .. n |-> Fixed(x[r + (c - 1) * m], 6) \o " "]) \o NL])
Listed(s)          == Each(s, LAMBDA v : ToString(v) \o ",")
Slice(s, b, e)     == SubSeq(s, b + 1, e)
LevelsText(h, n, lp, s) == h \o Join([l \in 1 .. n |-> Listed(Slice(s, lp[l], lp[l+1])) \o NL])
HLevelsText(h, n, lp, pp, s) == h \o Join([l \in 1 .. n |-> Join([k \in 1 .. (lp[l+1] - lp[l]) |-> Listed(Slice(s, pp[lp[l] + k], pp[lp[l] + k + 1])) \o "; " \o NL]) \o NL \o NL])
VecText(h, b, e, x, F(_)) == h \o Each(Slice(x, b, e), LAMBDA v : F(v) \o ", ") \o NL
SavedText(x)       == Each(x, LAMBDA v : Fixed(v, 6) \o NL)
Names              == "REAL,INT,COMPLEX,PATTERN,UNKNOWN;COORDINATE,ARRAY,UNKNOWN;-1,1,0,"
================================================================================
