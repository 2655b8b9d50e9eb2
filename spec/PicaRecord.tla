----------------------------- MODULE PicaRecord -----------------------------
(***************************************************************************)
(* The PICA+ record grammar: which lines are records, what they mean, and  *)
(* what is written back.                                                   *)
(*                                                                         *)
(*   record   = field+ NL            field = tag [ '/' occ ] SP sub* RS    *)
(*   tag      = [012] [0-9] [0-9] [A-Z@]     occ = 2*3 DIGIT               *)
(*   sub      = US code value        code = [0-9A-Za-z]                    *)
(*   value    = any bytes except US and RS                                 *)
(***************************************************************************)
EXTENDS Bytes

IsTag(t) == /\ Len(t) = 4
            /\ t[1] \in {48, 49, 50} /\ IsDigit(t[2]) /\ IsDigit(t[3])
            /\ (IsUpperA(t[4]) \/ t[4] = 64)
IsOcc(o) == Len(o) \in {2, 3} /\ \A i \in 1..Len(o) : IsDigit(o[i])

\* a field header is tag, optional occurrence, one blank
IsHeader(h) ==
  \/ Len(h) = 5 /\ IsTag(SubSeq(h, 1, 4)) /\ h[5] = SP
  \/ /\ Len(h) \in {8, 9} /\ IsTag(SubSeq(h, 1, 4)) /\ h[5] = 47 /\ h[Len(h)] = SP
     /\ IsOcc(SubSeq(h, 6, Len(h) - 1))
IsSubfield(s) == Len(s) >= 1 /\ IsAlnum(s[1])
IsFieldBody(f) == LET p == Split(f, US)
                  IN IsHeader(p[1]) /\ \A i \in 2..Len(p) : IsSubfield(p[i])
FieldOf(f) ==
  LET p == Split(f, US)
      h == p[1]
  IN [tag |-> SubSeq(h, 1, 4),
      occ |-> IF Len(h) = 5 THEN <<>> ELSE SubSeq(h, 6, Len(h) - 1),
      sub |-> TLCEval([i \in 1..(Len(p) - 1) |->
                 [c |-> p[i + 1][1], v |-> SubSeq(p[i + 1], 2, Len(p[i + 1]))]])]

\* the fields of a line, or FALSE
Decode(line) ==
  LET n == Len(line)
  IN IF n < 2 \/ line[n] # NL \/ line[n - 1] # RS THEN [ok |-> FALSE]
     ELSE LET body == SubSeq(line, 1, n - 2)
              fs == Split(body, RS)
          IN IF \A i \in 1..Len(fs) : IsFieldBody(fs[i])
             THEN [ok |-> TRUE, rec |-> TLCEval([i \in 1..Len(fs) |-> FieldOf(fs[i])])]
             ELSE [ok |-> FALSE]

EncField(f) ==
  f.tag \o (IF f.occ = <<>> THEN <<>> ELSE <<47>> \o f.occ) \o <<SP>>
  \o FlatMap(f.sub, LAMBDA s : <<US, s.c>> \o s.v) \o <<RS>>
\* a record without fields is not written at all
Encode(rec) == IF rec = <<>> THEN <<>> ELSE FlatMap(rec, EncField) \o <<NL>>

WellFormed(rec) ==
  /\ rec # <<>>
  /\ \A i \in 1..Len(rec) :
       /\ IsTag(rec[i].tag)
       /\ rec[i].occ = <<>> \/ IsOcc(rec[i].occ)
       /\ \A j \in 1..Len(rec[i].sub) :
            /\ IsAlnum(rec[i].sub[j].c)
            /\ \A k \in 1..Len(rec[i].sub[j].v) : rec[i].sub[j].v[k] \notin {US, RS}
IsUtf8Rec(rec) == \A i \in 1..Len(rec) : \A j \in 1..Len(rec[i].sub) : IsUtf8(rec[i].sub[j].v)
=============================================================================
