------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* A search: which entries are examined, which are results, in which order *)
(* and how they are reported.                                              *)
(***************************************************************************)
EXTENDS Args

(* ---- compiled options ---- *)
FileAttrOrder == <<"path", "root", "relpath", "dir", "name", "ext", "pathx", "namex", "mode", "type", "device", "inode",
  "samedev", "depth", "exec", "size", "mtime", "ctime", "atime", "time", "perm", "links", "uid", "gid", "user", "group",
  "hide", "hidden", "empty", "link", "target", "broken", "mount", "mpath", "devname", "fstype", "pseudofs">>
FileFields(suffix) == Tup([i \in DOMAIN FileAttrOrder |-> T(FileAttrOrder[i]) \o suffix])
ExpandFile(out) ==
    LET P == {i \in DOMAIN out : out[i] = T("file")}
    IN IF P = {} THEN out
       ELSE LET p == Min(P) IN Take(out, p - 1) \o FileFields(<<COLON, mN>>) \o Drop(out, p)
ParseFields(L) == Tup([i \in DOMAIN L |-> ParseField(L[i])])
OptFields(o) == IF o = None THEN << >> ELSE ParseFields(o[1])
OptTemplate(o) == IF o = None THEN << >> ELSE Template(o[1])
ParseExclude(W, O, tok) ==
    IF tok \in Opening \cup Closing \/ Keyword(tok) # << >> THEN TestErr(EX_USAGE) ELSE ParseTest(W, O, tok)
\* errs: the set of acceptable error statuses, empty if the search is well-formed
Compile(W, O) ==
    LET ex == Tup([i \in DOMAIN O.exclude |-> ParseExclude(W, O, O.exclude[i])])
        mx == ParseExpr(W, O, O.tests)
        out == ParseFields(ExpandFile(O.output))
        sort == OptFields(O.sort)
        count == OptFields(O.count)
        exec == OptTemplate(O.exec)
        batch == OptTemplate(O.batch)
        baddir == \E i \in DOMAIN O.dirs : FindNode(W, O.dirs[i], TRUE) = 0
        ats == Tup([i \in DOMAIN out |-> out[i].at.p]) \o Tup([i \in DOMAIN sort |-> sort[i].at.p]) \o Tup([i \in DOMAIN count |-> count[i].at.p])
               \o Tup([i \in DOMAIN ex |-> ex[i].at.p]) \o (LET P == PlacesOf(exec) \o PlacesOf(batch) IN Tup([i \in DOMAIN P |-> P[i].at.p]))
    IN [errs |-> UNION {ex[i].errs : i \in DOMAIN ex} \cup mx.errs \cup FieldErrs(out) \cup FieldErrs(sort)
                 \cup CountErrs(count) \cup TemplateErrs(exec, FALSE) \cup TemplateErrs(batch, O.batch # None)
                 \cup (IF baddir THEN {EX_USAGE} ELSE {}),
        ex |-> ex, match |-> mx.n, out |-> out, sort |-> sort, count |-> count, exec |-> exec, batch |-> batch,
        needig |-> O.ignore \/ (\E i \in DOMAIN ats : ats[i] = "ignore") \/ (mx.errs = {} /\ UsesIgnore(mx.n))]

(* ---- the walk ---- *)
DepthOf(e) == Cardinality(Positions(e.rel, SLASH))
InRange(d, r) == d >= r[1] /\ (r[2] = None \/ d <= r[2][1])
TooDeep(O, d) == /\ O.depth # None
                 /\ \A i \in DOMAIN O.depth[1] : O.depth[1][i][2] # None /\ d > O.depth[1][i][2][1]
Excluded(W, O, X, e) ==
    \/ O.hide /\ BaseName(e.path)[1] = DOT
    \/ TooDeep(O, DepthOf(e))
    \/ O.onefs /\ W.nodes[e.s].dv # W.nodes[e.start].dv
    \/ \E i \in DOMAIN X.ex : TestHolds(W, e, X.ex[i])
    \/ O.ignore /\ IsIgnored(W, e)
Matches(W, O, X, e) ==
    /\ O.depth # None => \E i \in DOMAIN O.depth[1] : InRange(DepthOf(e), O.depth[1][i])
    /\ Eval(W, e, X.match)
RECURSIVE WalkDir(_, _, _, _, _, _, _)
\* the entries that are examined and not excluded, below directory d
WalkDir(W, O, X, c, d, rel, ig) ==
    IF ~CanScan(W, d, Join(c.absroot, rel)) THEN << >>
    ELSE LET own == IF X.needig THEN ig \o RulesOfDir(W, d, Join(c.absroot, rel), O.igfiles) ELSE << >>
             one(j) == LET e == MkEntry(W, c.root, c.absroot, c.start, Join(rel, W.nodes[j].n), j, O.follow, own) IN
                       \* an entry that cannot be examined is missing, together with everything below
                       IF e.s = 0 \/ ~MayAccess(W, d, 1) \/ Fails(W, "stat", e.abs) THEN << >>
                       ELSE IF Excluded(W, O, X, e) THEN << >>
                       ELSE <<e>> \o (IF IsDirEntry(W, e) THEN WalkDir(W, O, X, c, e.s, e.rel, own) ELSE << >>)
         IN FilterMap(W.nodes[d].k, one)
WalkFrom(W, O, X, dir) ==
    LET absroot == AbsPath(W.cwd, dir)
        d == FindNode(W, dir, TRUE)
        c == [root |-> IF O.abs THEN absroot ELSE dir, absroot |-> absroot, start |-> d]
    IN IF W.nodes[d].ty # "directory" THEN << >>
       ELSE WalkDir(W, O, X, c, d, << >>, IF X.needig /\ ~O.noparent THEN ParentRules(W, absroot, O.igfiles) ELSE << >>)
Examined(W, O, X) == FlattenSeq(Tup([i \in DOMAIN O.dirs |-> WalkFrom(W, O, X, O.dirs[i])]))
Results(W, O, X) == SelectSeq(Examined(W, O, X), LAMBDA e : Matches(W, O, X, e))
\* the directories whose contents may be read: the start directories and the directories that are not excluded
MayRead(W, O, X) ==
    {AbsPath(W.cwd, O.dirs[i]) : i \in DOMAIN O.dirs}
    \cup LET E == Examined(W, O, X) IN {E[i].abs : i \in {j \in DOMAIN E : IsDirEntry(W, E[j])}}

(* ---- order and slices: groups of entries with equal keys ---- *)
Ordered(W, O, X, es) ==
    IF O.sort = None THEN <<es>>
    ELSE LET K == TLCEval(Tup([i \in DOMAIN es |-> [e |-> es[i], k |-> Tup([j \in DOMAIN X.sort |-> SortKey(W, X.sort[j], es[i])])]]))
             sgn == IF O.reverse THEN -1 ELSE 1
             S == TLCEval(SortSeq(K, LAMBDA a, b : sgn * CmpKeys(X.sort, a.k, b.k, 1) < 0))
             starts == {i \in DOMAIN S : i = 1 \/ CmpKeys(X.sort, S[i - 1].k, S[i].k, 1) # 0}
             P == SetToSortSeq(starts, <)
         IN Tup([g \in DOMAIN P |-> LET last == IF g = Len(P) THEN Len(S) ELSE P[g + 1] - 1
                                IN Tup([i \in 1..(last - P[g] + 1) |-> S[P[g] + i - 1].e])])
Clamp(x, n) == IF x < 0 THEN 0 ELSE IF x > n THEN n ELSE x
Bound(x, n) == Clamp(IF x < 0 THEN n + x ELSE x, n)
\* <<first, last>> of the slice, positions from 1
SliceOf(O, n) ==
    IF O.limit = None THEN <<1, n>>
    ELSE LET r == O.limit[1] IN <<Bound(r[1], n) + 1, IF r[2] = None THEN n ELSE Bound(r[2][1], n)>>
\* [l: entries, take: how many of them]
Sliced(O, groups) ==
    LET n == FoldLeft(LAMBDA a, g : a + Len(g), 0, groups)
        s == SliceOf(O, n)
        off(i) == FoldLeft(LAMBDA a, g : a + Len(g), 0, Take(groups, i - 1))
        take(i) == LET a == off(i) + 1 b == off(i) + Len(groups[i])
                       x == IF a > s[1] THEN a ELSE s[1] y == IF b < s[2] THEN b ELSE s[2]
                   IN IF y >= x THEN y - x + 1 ELSE 0
    IN SelectSeq(Tup([i \in DOMAIN groups |-> [l |-> groups[i], take |-> take(i)]]), LAMBDA g : g.take > 0)
Full(g) == g.take = Len(g.l)

(* ---- comparing observed with expected ---- *)
\* groups of [l: expected items, take], items observed in this order
RECURSIVE Consume(_, _, _)
Consume(groups, obs, i) ==      \* from group i
    IF i > Len(groups) THEN obs = << >>
    ELSE LET g == groups[i] n == g.take IN
         /\ Len(obs) >= n
         /\ IF Full(g) THEN SameBag(Take(obs, n), g.l) ELSE WithinBag(Take(obs, n), g.l)
         /\ Consume(groups, Drop(obs, n), i + 1)
\* render the items of groups, None drops an item; only full groups may drop items
Render(groups, R(_)) ==
    Tup([i \in DOMAIN groups |->
       LET items == FilterMap(groups[i].l, R)
       IN [l |-> items, take |-> IF Full(groups[i]) THEN Len(items) ELSE groups[i].take]])
Clear(groups, R(_)) ==          \* no partial group drops items
    \A i \in DOMAIN groups : Full(groups[i]) \/ Len(FilterMap(groups[i].l, R)) = Len(groups[i].l)
\* lines that contain the line end themselves appear as several pieces
Pieces(groups, nl) ==
    Tup([i \in DOMAIN groups |->
       IF Full(groups[i])
       THEN LET P == FlattenSeq(Tup([j \in DOMAIN groups[i].l |-> SplitOn(groups[i].l[j], nl)])) IN [l |-> P, take |-> Len(P)]
       ELSE groups[i]])
NoNewlines(groups, nl) == \A i \in DOMAIN groups : Full(groups[i]) \/ \A j \in DOMAIN groups[i].l : ~Has(groups[i].l[j], nl)
AllItems(groups) == FlattenSeq(Tup([i \in DOMAIN groups |-> groups[i].l]))
Taken(groups) == FoldLeft(LAMBDA a, g : a + g.take, 0, groups)
\* in any order
AnyOrder(groups, obs) ==
    LET full == AllItems(SelectSeq(groups, LAMBDA g : Full(g)))
    IN /\ Len(obs) = Taken(groups)
       /\ WithinBag(obs, AllItems(groups))
       /\ \A i \in DOMAIN full : CountIn(obs, full[i]) >= CountIn(full, full[i])
MarkFail == T("fail")
CmdFails(argv) == \E i \in DOMAIN argv : ContainsText(argv[i], MarkFail)
=============================================================================
