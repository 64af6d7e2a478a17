------------------------------- MODULE MCDmsp -------------------------------
(***************************************************************************)
(* A fetch that may fail at any point, followed by the formatting of what  *)
(* was fetched, step by step: the streams of the caller are taken over     *)
(* during the download, files appear in the directory and are removed.     *)
(***************************************************************************)
EXTENDS Dmsp, TLC, Json

CONSTANTS MaxMembers, EmitMod

D1 == DayOf(2010, 12, 31)
F(sat, day, rows) == [sat |-> sat, day |-> day, bad |-> FALSE, rows |-> rows]
Row(h) == [hemi |-> h]
Universe == { F(16, D1, << Row(1), Row(-1), Row(1) >>), F(17, D1, << Row(-1) >>),
              F(16, D1 + 1, << Row(1) >>), F(18, D1 + 1, << >>),
              [F(18, D1 - 1, << Row(1) >>) EXCEPT !.bad = TRUE] }
Name(f) == << "csv", f.sat, f.day >>

Queries ==
    { [sats |-> s, start |-> a, end |-> b, today |-> 9500, rm |-> r] :
      s \in { << >>, << << >> >>, << << 16 >> >>, << << 17, 18 >> >>, << << 15 >> >> },
      a \in { << >>, << D1, 0 >>, << D1, 1 >> }, b \in { << >>, << D1 + 1, 0 >>, << D1 + 1, 1 >> },
      r \in BOOLEAN }

VARIABLES archive, q, outcome, both, pc, streams, dir, got, outs, at, err
vars == << archive, q, outcome, both, pc, streams, dir, got, outs, at, err >>
Fixed == UNCHANGED << archive, q, outcome, both >>

Before == { << "old" >> }
Init == /\ archive \in UNION { [1 .. n -> Universe] : n \in 0 .. MaxMembers }
        /\ \A i, j \in 1 .. Len(archive) : i < j => archive[i] # archive[j]
        /\ q \in Queries /\ outcome \in Outcomes /\ both \in BOOLEAN
        /\ pc = "check" /\ streams = "own" /\ dir = Before /\ got = << >>
        /\ outs = [h \in Hemis |-> << >>] /\ at = << 1, 1 >> /\ err = ""

Check == /\ pc = "check"
         /\ IF KnownSats(q) THEN pc' = "take" /\ err' = "" ELSE pc' = "failed" /\ err' = "value"
         /\ Fixed /\ UNCHANGED << streams, dir, got, outs, at >>
Take == /\ pc = "take" /\ streams' = "caught" /\ pc' = "download"
        /\ Fixed /\ UNCHANGED << dir, got, outs, at, err >>
Download ==
    /\ pc = "download" /\ pc' = "return" /\ Fixed
    /\ dir' = dir \cup (IF outcome = "raise" THEN {} ELSE { << "md5" >> })
                  \cup (IF outcome \in { "raise", "noarchive" } THEN {} ELSE { << "zip" >> })
    /\ UNCHANGED << streams, got, outs, at, err >>
GiveBack == /\ pc = "return" /\ streams' = "own"
            /\ IF outcome = "raise" THEN pc' = "failed" /\ err' = "passed on"
               ELSE IF outcome = "badsum" THEN pc' = "failed" /\ err' = "io"
               ELSE pc' = "verify" /\ err' = ""
            /\ Fixed /\ UNCHANGED << dir, got, outs, at >>
Verify == /\ pc = "verify" /\ dir' = dir \ { << "md5" >> }
          /\ IF outcome \in Succeeds THEN pc' = "extract" /\ err' = "" ELSE pc' = "failed" /\ err' = "io"
          /\ Fixed /\ UNCHANGED << streams, got, outs, at >>
Extract == /\ pc = "extract"
           /\ \/ /\ at[1] <= Len(archive) /\ at' = << at[1] + 1, 1 >> /\ UNCHANGED << pc, outs, err >>
                 /\ IF Wanted(archive[at[1]], q)
                    THEN got' = Append(got, archive[at[1]]) /\ dir' = dir \cup { Name(archive[at[1]]) }
                    ELSE UNCHANGED << got, dir >>
              \/ /\ at[1] > Len(archive) /\ at' = << 1, 1 >>
                 /\ dir' = IF q.rm THEN dir \ { << "zip" >> } ELSE dir
                 /\ IF ~both THEN pc' = "done" /\ err' = ""
                    ELSE IF got = << >> THEN pc' = "failed" /\ err' = "value"
                    ELSE pc' = "format" /\ err' = ""
                 /\ UNCHANGED << got, outs >>
           /\ Fixed /\ UNCHANGED streams
Format == /\ pc = "format" /\ Fixed /\ UNCHANGED << streams, got, err >>
          /\ IF at[1] > Len(got)
             THEN /\ pc' = "done" /\ UNCHANGED << outs, at >>
                  /\ dir' = (IF q.rm THEN dir \ { Name(got[i]) : i \in 1 .. Len(got) } ELSE dir)
                            \cup { << "out", h, b >> : h \in Hemis, b \in Bounds }
             ELSE IF got[at[1]].bad \/ at[2] > Len(got[at[1]].rows)
             THEN at' = << at[1] + 1, 1 >> /\ UNCHANGED << pc, dir, outs >>
             ELSE /\ outs' = [outs EXCEPT ![got[at[1]].rows[at[2]].hemi] = Append(@, at)]
                  /\ at' = << at[1], at[2] + 1 >> /\ UNCHANGED << pc, dir >>
Next == Check \/ Take \/ Download \/ GiveBack \/ Verify \/ Extract \/ Format
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == pc \in { "done", "failed" }
Terminates == <>Ended
StreamsBack == Ended => streams = "own"
EndsAsSpecified ==
    /\ pc = "done" => FetchEnds(q, TRUE, outcome) = ""
    /\ pc = "failed" => err = (IF FetchEnds(q, TRUE, outcome) # "" THEN FetchEnds(q, TRUE, outcome)
                               ELSE "value")
GotPicked == Ended /\ FetchEnds(q, TRUE, outcome) = "" => got = Picked(archive, q)
FailureExtractsNothing == FetchEnds(q, TRUE, outcome) # "" => got = << >>
OldKept == Before \subseteq dir
NoListing == pc = "done" => << "md5" >> \notin dir
ArchiveKept == pc = "done" => ((<< "zip" >> \in dir) <=> ~q.rm)
LinesAsSpecified == pc = "done" /\ both =>
    \A h \in Hemis : outs[h] = BoundaryLines(got, h)
(* No pass is lost or written twice                                        *)
EveryPass == pc = "done" /\ both =>
    Len(outs[1]) + Len(outs[-1]) =
        Cardinality({ << i, j >> \in (1 .. Len(got)) \X (1 .. 3) :
                      ~got[i].bad /\ j <= Len(got[i].rows) })
(* Narrowing the period never adds files                                   *)
Narrow == \A i \in 1 .. Len(archive) :
    Wanted(archive[i], q) => Wanted(archive[i], [q EXCEPT !.start = << >>])

Code == Len(archive) * 5 + Len(q.sats) * 7 + Len(q.start) * 11 + Len(q.end) * 13
        + (IF q.rm THEN 17 ELSE 0) + (IF both THEN 19 ELSE 0)
        + (IF Len(archive) > 0 THEN archive[1].day + archive[1].sat ELSE 0)
        + (IF Len(archive) > 1 THEN archive[2].day * 3 + archive[2].sat * 2 ELSE 0)
        + (CASE outcome = "ok" -> 1 [] outcome = "again" -> 2 [] outcome = "badsum" -> 3 [] outcome = "raise" -> 4
             [] outcome = "nolink" -> 5 [] outcome = "nozip" -> 6 [] outcome = "noarchive" -> 8)
Emit == (pc = "check" /\ Code % EmitMod = 0) =>
    PrintT("@@" \o ToJson([members |-> archive, q |-> q, outcome |-> outcome, both |-> both]))
=============================================================================
