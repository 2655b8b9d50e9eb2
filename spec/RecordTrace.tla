---------------------------- MODULE RecordTrace -----------------------------
(* Recorded library histories on records, their parts and the reader.      *)
EXTENDS Records, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES id, done
C == Cases[id]
O == C.obs
\* a history: what is seen of each record left, and of each pair
OfRecs ==
  LET z == RunRecs(C.prog)
      n == Len(z.st)
      I == 1..n
      seen == TLCEval([i \in I |-> RecSeen(z.st[i].rec)])
  IN CASE ~z.ok -> IF O.acc THEN "bad:accepted" ELSE "no"
       [] ~O.acc -> "bad:rejected"
       [] [i \in I |-> O.recs[i].seen] # seen -> "bad:seen"
       [] \E i \in I : O.recs[i].sha # O.recs[i].shaof -> "bad:sha"
       [] \E i, j \in I : O.eq[i][j] # (z.st[i].rec = z.st[j].rec) -> "bad:equal"
       [] \E i, j \in I : O.own[i][j] # (z.st[i].rec = z.st[j].rec) -> "bad:equal"
       [] \E i, j \in I : z.st[i].rec = z.st[j].rec /\ O.recs[i].hash # O.recs[j].hash -> "bad:hash"
       [] OTHER -> "ok"
\* a part: each constructor that takes it agrees, and it is shown as given
OfPart ==
  LET w == IsPart(C.kind, C.text)
  IN CASE \E i \in 1..Len(O.acc) : O.acc[i] # w -> IF w THEN "bad:rejected" ELSE "bad:accepted"
       [] \E i \in 1..Len(O.shown) : O.shown[i] # C.text -> "bad:shown"
       [] \E i \in 1..Len(O.same) : ~O.same[i] -> "bad:same"
       [] OTHER -> IF w THEN "ok" ELSE "no"
\* two texts of the same kind: equality, and the order of their bytes
OfPair == IF /\ \A i \in 1..Len(O.eq) : O.eq[i] = (C.a = C.b)
             /\ \A i \in 1..Len(O.ord) : O.ord[i] = Cmp(C.a, C.b)
          THEN "ok" ELSE "bad:pair"
OfReader ==
  LET lines == LinesOf(C.data)
      want(k) == AnswerTo(C.calls[k], k, lines, C.limit)
      got(k) == O.answers[k]
      right(k) == /\ got(k).k = want(k).k
                  /\ want(k).k = "rec" => got(k).text = want(k).text
                  /\ want(k).k \in {"parse", "utf8"} =>
                       IsSub(<<108, 105, 110, 101, 32>> \o Dec(k) \o (IF want(k).k = "utf8" \/ C.src = <<>> THEN <<46>> ELSE <<32, 40>> \o C.src \o <<41>>), got(k).msg)
      upto == IF \E k \in 1..Len(C.calls) : want(k).k = "io"
              THEN CHOOSE k \in 1..Len(C.calls) : want(k).k = "io" /\ \A j \in 1..(k - 1) : want(j).k # "io"
              ELSE Len(C.calls)
  IN IF Len(O.answers) >= upto /\ \A k \in 1..upto : right(k) THEN "ok" ELSE "bad:reader"
\* writing into a sink with limited room: a call that reports success has
\* written; what the sink holds is a beginning of what was to be written
OfSink ==
  LET all == Flat(C.texts)
      writer == C.who \in {"plain", "gzip"}
      calls == Len(C.texts) + IF writer THEN 1 ELSE 0
      n == Len(O.oks)
      allok == \A i \in 1..n : O.oks[i]
      fits == C.room < 0 \/ C.need <= C.room
      begins == Len(O.plain) <= Len(all) /\ Take(all, Len(O.plain)) = O.plain
  IN CASE ~begins -> "bad:sunk"
       [] fits /\ (C.flushes \/ ~writer) -> IF allok /\ n = calls /\ O.plain = all /\ O.held = Len(O.got) THEN "ok" ELSE "bad:fits"
       [] allok -> "bad:swallowed"
       \* without a buffer in between the failing call is known
       [] ~writer -> LET k == CHOOSE k \in 1..Len(C.texts) : Len(Flat(Take(C.texts, k))) > C.room
                                /\ Len(Flat(Take(C.texts, k - 1))) <= C.room
                     IN IF n = k /\ O.plain = Take(all, C.room) THEN "full" ELSE "bad:place"
       [] C.who = "plain" -> IF fits \/ O.plain = Take(all, C.room) THEN "full" ELSE "bad:place"
       [] OTHER -> "full"
Verdict == CASE "panic" \in DOMAIN O -> "bad:panic"
             [] C.t = "recs" -> OfRecs
             [] C.t = "part" -> OfPart
             [] C.t = "pair" -> OfPair
             [] C.t = "reader" -> OfReader
             [] C.t = "sink" -> OfSink
RecordInit == id \in 1..Len(Cases) /\ done = FALSE
RecordNext == ~done /\ done' = TRUE /\ id' = id /\ PrintT(<<"V", id, Verdict>>)
RecordSpec == RecordInit /\ [][RecordNext]_<<id, done>>
=============================================================================
