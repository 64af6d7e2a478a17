----------------------------- MODULE TraceDmsp -----------------------------
(***************************************************************************)
(* Judge of fetching and formatting DMSP SSJ files.                        *)
(***************************************************************************)
EXTENDS Dmsp, TraceBase

NoState == 0
Clause(name, ok) == IF ok THEN {} ELSE { name }
SetOf(s) == { s[i] : i \in 1 .. Len(s) }

CentreR(x, y) == RHypot(x, y)
CentrePhi(x, y) == RMod(RAdd(Rad2Deg(RAtan2(y, x)), 90), 360)

Tol == RFrac(2, 1000)
Close(a, b) == RClose(a, b, Tol)

-----------------------------------------------------------------------------
Kind(exc) == CASE exc = "" -> ""
               [] exc = "ValueError" -> "value"
               [] exc = "OSError" -> "io"
               [] exc = "Interruption" -> "passed on"
               [] OTHER -> exc
Ends(e) == LET f == FetchEnds(e.q, e.isdir, e.outcome)
           IN  IF f = "" /\ e.k = "both" /\ Picked(e.members, e.q) = << >> THEN "value" ELSE f
NamesOf(fs) == [i \in 1 .. Len(fs) |-> fs[i].name]

(* The file names that must be there in the end                            *)
After(e) ==
    LET p == SetOf(NamesOf(Picked(e.members, e.q)))
        zip == IF e.q.rm THEN {} ELSE { e.zip }
    IN  CASE e.k = "fetch" -> SetOf(e.before) \cup p \cup zip
          [] e.k = "both" -> SetOf(e.before) \cup zip \cup SetOf(e.files) \cup (IF e.q.rm THEN {} ELSE p)
(* An archive that was there already is removed as well                    *)
Fetched(e) ==
    LET ends == Ends(e)
    IN  Clause("FetchEnds", Kind(e.exc) = ends)
        \cup Clause("StreamsRestored", e.own)
        \cup Clause("DownloadOnce", e.downloads = (IF KnownSats(e.q) /\ e.isdir THEN 1 ELSE 0))
        \cup Clause("FilesKept", e.kept)
        \cup (IF e.exc # "" \/ ends # "" THEN
                 Clause("NothingExtracted",
                        FetchEnds(e.q, e.isdir, e.outcome) # "" =>
                            SetOf(e.after) \ SetOf(e.before) \subseteq { e.zip, "md5sums.txt" })
              ELSE Clause("Directory", SetOf(e.after) = After(e) \ (IF e.q.rm THEN { e.zip } ELSE {}))
                   \cup (IF e.k = "fetch"
                         THEN Clause("FilesWanted", e.files = NamesOf(Picked(e.members, e.q)) /\ e.indir)
                         ELSE {}))

-----------------------------------------------------------------------------
(* The written boundary files: of each hemisphere and boundary             *)
Pass(row, b) == IF b = "ocb" THEN row.po ELSE row.eq
LineOk(f, row, b, ln) ==
    /\ ln.sc = f.sat
    /\ ln.t = PassTime(f, Pass(row, b))
    /\ Len(ln.v) = 8
    /\ \A i \in 1 .. 8 : Close(ln.v[i], PassValues(row, Pass(row, b))[i])
Want == << << 1, "ocb" >>, << 1, "eab" >>, << -1, "ocb" >>, << -1, "eab" >> >>
Written(e, files) ==
    IF Len(e.outs) # 4 THEN { "FourFiles" }
    ELSE UNION { LET o == e.outs[i]
                     h == Want[i][1]
                     b == Want[i][2]
                     lines == BoundaryLines(files, h)
                 IN  Clause("FileName", /\ o.hemi = h /\ o.bound = b /\ o.indir
                                        /\ o.sday = files[1].day /\ o.eday = files[Len(files)].day)
                     \cup Clause("Header", o.header)
                     \cup Clause("PassesKept", Len(o.lines) = Len(lines))
                     \cup Clause("PassValues", \A k \in 1 .. Len(lines) : k <= Len(o.lines) =>
                            LineOk(files[lines[k][1]], files[lines[k][1]].rows[lines[k][2]], b, o.lines[k]))
                     \cup Clause("LoadsAgain",
                            /\ Len(o.loaded) = Len(o.lines)
                            /\ \A k \in 1 .. Len(o.loaded) :
                                 /\ o.loaded[k].t = o.lines[k].t
                                 /\ Close(o.loaded[k].r, o.lines[k].v[1])
                                 /\ Close(o.loaded[k].fom, o.lines[k].v[4])
                                 /\ Close(o.loaded[k].r_cent, CentreR(o.lines[k].v[2], o.lines[k].v[3]))
                                 /\ RLt(o.loaded[k].r_cent, RFrac(1, 10))
                                    \/ RCycClose(o.loaded[k].phi_cent,
                                                 CentrePhi(o.lines[k].v[2], o.lines[k].v[3]), 360, RFrac(1, 10)))
                 : i \in 1 .. 4 }

There(files) == SelectSeq(files, LAMBDA f : ~f.missing)
JudgeDmsp(s, e) ==
    [st |-> s, bad |->
        CASE e.k = "fetch" -> Fetched(e)
          [] e.k = "both" -> Fetched(e) \cup (IF e.exc = "" /\ Ends(e) = "" THEN Written(e, Picked(e.members, e.q)) ELSE {})
          [] e.k = "format" ->
                IF There(e.members) = << >> THEN Clause("NothingToFormat", e.exc = "ValueError")
                ELSE IF e.exc # "" THEN { "FormattingRaises" }
                ELSE Written(e, There(e.members)) \cup Clause("FilesKept", e.kept)]
=============================================================================
