----------------------------- MODULE MatrixMarket -----------------------------
(* The Matrix Market text form: which banners, sizes and entries a reader must accept, refuse, and how.  A text is given  *)
(* by the kinds of its five banner words (0 right, 1 capitals, 2 wrong, 3 very long, 4 missing from here on), the words    *)
(* meant, the comment and blank lines, whether the size line is text, and how many of its numbers are present.             *)
EXTENDS Integers, Sequences, FiniteSets
Formats == <<"coordinate", "array", "elemental">>
Fields  == <<"real", "complex", "pattern", "integer">>
Symms   == <<"general", "symmetric", "hermitian", "skew-symmetric">>
Letters(ty) == "M" \o <<"C", "A", "?">>[ty[1]+1] \o <<"R", "C", "P", "I">>[ty[2]+1] \o <<"G", "S", "H", "K">>[ty[3]+1]
Words(ty)   == "matrix " \o Formats[ty[1]+1] \o " " \o Fields[ty[2]+1] \o " " \o Symms[ty[3]+1]
OK == 0   NoFile == 11   Short == 12   NoHeader == 14   Unsupported == 15   NotWritten == 17
Missing(bn) == \E k \in 1 .. 5 : bn[k] = 4
(* the object, format, field and symmetry words are read in any case; the first word is not *)
Banner(bn, ty, empty) ==
  IF empty \/ Missing(bn) THEN Short
  ELSE IF bn[1] # 0 THEN NoHeader
  ELSE IF (\E k \in 2 .. 5 : bn[k] > 1) \/ ty[1] = 2 THEN Unsupported ELSE OK
(* combinations the format allows *)
Valid(ty) == ~(ty[1] = 1 /\ ty[2] = 2) /\ ~(ty[2] = 0 /\ ty[3] = 2) /\ ~(ty[2] = 2 /\ ty[3] \in {2, 3})
PerEntry(ty) == CASE ty[2] = 2 -> 2 [] ty[2] = 1 -> 4 [] OTHER -> 3
===============================================================================
