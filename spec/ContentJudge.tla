--------------------------- MODULE ContentJudge ----------------------------
(* Judges searches that show content attributes. *)
EXTENDS Content, Json, IOUtils
CRecs == ndJsonDeserialize(IOEnv.RECS)
Show(n) == ToString(n)
\* the test: [a: attribute or "", op, v: a value]; what the entry has is given by Value
Fulfils(files, f, s) ==
    LET t == s.sel
        real == IF s.follow /\ f.t = "link" /\ f.to # 0 THEN files[f.to] ELSE f
        own == Packages(s, f.p)
    IN IF t.a = "pacman.installed" THEN (IF (own # {}) = t.v THEN "yes" ELSE "no")
       ELSE IF t.a = "pacman.pkgname" THEN (IF t.v \notin own THEN "no" ELSE IF own = {t.v} THEN "yes" ELSE "any")
       ELSE IF real.t # "file" THEN "no"
       ELSE IF ~real.read THEN (IF real.b = << >> THEN "any" ELSE "no")
       ELSE IF {f.n, real.n} \cap SetOf(s.faulty) # {} THEN "any"
       ELSE CASE t.a = "grep.text" -> IF WellFormed(real.b) = t.v THEN "yes" ELSE "no"
              [] t.a = "grep.linecount" -> IF WellFormed(real.b) /\ Len(LinesOf(Decoded(real.b))) = t.v THEN "yes" ELSE "no"
              [] t.a = "grep.lines" -> IF WellFormed(real.b) /\ t.v \in SetOf(LinesOf(Decoded(real.b))) THEN "yes" ELSE "no"
              [] t.a = "shebang.shebang" -> LET h == ShebangOf(real.b) IN IF IsSome(h) /\ The(h) = t.v THEN "yes" ELSE "no"
              [] t.a = "py.imports" ->
                   IF ~IsPython(f, real) \/ real.py.st = "bad" THEN "no" ELSE IF real.py.st = "any" THEN "any"
                   ELSE IF \E i \in DOMAIN real.py.imports : real.py.imports[i].level = 0 /\ real.py.imports[i].m = t.v THEN "yes"
                   ELSE IF \E i \in DOMAIN real.py.imports : real.py.imports[i].level > 0 THEN "any" ELSE "no"
              [] t.a = "tar.members" ->
                   IF ~IsTar(f) \/ real.tar.st = "bad" THEN "no" ELSE IF real.tar.st # "ok" THEN "any"
                   ELSE IF t.v \in SetOf(real.tar.members) THEN "yes" ELSE "no"
              [] OTHER -> IF t.a \in DOMAIN real.facts /\ real.facts[t.a].v = t.v THEN "yes" ELSE "no"
Search(files, s, j) ==
    LET W == " in search " \o Show(j)
        sel(f) == IF s.sel.a = "" THEN "yes" ELSE Fulfils(files, f, s)
        At(p) == {i \in DOMAIN files : files[i].p = p}
        rows == s.rows
        Row(r) == LET I == At(r.p) IN
            IF I = {} THEN {"a result that is none" \o W}
            ELSE LET i == CHOOSE i \in I : TRUE
                     f == files[i]
                 IN (IF sel(f) = "no" THEN {"file " \o Show(i) \o " does not fulfil the test" \o W} ELSE {})
                    \cup {a \o " of file " \o Show(i) \o W : a \in {a \in DOMAIN r.a : ~Shown(files, f, s, a, r.a[a])}}
    IN (IF s.broken
        THEN (IF s.status \in {4, 10} THEN {} ELSE {"exit status " \o Show(s.status) \o W})
        ELSE (IF s.ok /\ s.status = 0 THEN {} ELSE {"exit status " \o Show(s.status) \o " or output" \o W})
             \cup {"missing file " \o Show(i) \o W : i \in {i \in DOMAIN files : sel(files[i]) = "yes" /\ ~(s.follow /\ files[i].t = "link" /\ files[i].to = 0) /\ ~\E k \in DOMAIN rows : rows[k].p = files[i].p}})
       \cup (IF \E k \in DOMAIN rows : \E l \in 1..(k - 1) : rows[k].p = rows[l].p THEN {"a result twice" \o W} ELSE {})
       \cup UNION {Row(rows[k]) : k \in DOMAIN rows}
       \cup {"file " \o Show(i) \o " was passed to a plugin that does not handle it" \o W : i \in {i \in DOMAIN s.calls : ~\E k \in DOMAIN files : files[k].p = s.calls[i].p /\ s.calls[i].a \in DOMAIN (IF s.follow /\ files[k].to # 0 THEN files[files[k].to] ELSE files[k]).facts}}
VARIABLE k
Verdict == LET r == CRecs[k]
               bad == TLCEval(UNION {Search(r.files, r.searches[j], j) : j \in DOMAIN r.searches})
           IN bad = {} \/ PrintT("BAD " \o ToString(r.id) \o " " \o ToString(bad))
JInit == k \in DOMAIN CRecs
JNext == FALSE /\ UNCHANGED k
JSpec == JInit /\ [][JNext]_k
=============================================================================
