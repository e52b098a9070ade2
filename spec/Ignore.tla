------------------------------- MODULE Ignore -------------------------------
(***************************************************************************)
(* Ignore files: the last matching rule wins.                              *)
(***************************************************************************)
EXTENDS Fs, Glob

\* the rules of an ignore file (a sequence of lines)
Rules(lines) ==
    LET L == SelectSeq(Tup([i \in DOMAIN lines |-> Strip(lines[i])]), LAMBDA l : l # << >> /\ l[1] # HASH)
    IN SelectSeq(Tup([i \in DOMAIN L |-> ParseGlob(L[i], TRUE)]), LAMBDA g : ValidGlob(g))
\* The rules of the ignore files in directory node d (following links):
\* sequence of [dir |-> absolute path, file |-> path of the ignore file, rules]
RulesOfDir(W, d, abs, names) ==
    FilterMap(W.nodes[d].k, LAMBDA j :
        LET file == Join(abs, W.nodes[j].n)
            f == IF W.nodes[j].n \in names /\ ~Fails(W, "open", file) /\ ~Fails(W, "stat", file) THEN FollowNode(W, j) ELSE 0
        IN IF f = 0 THEN None
           ELSE IF W.nodes[f].tx = None \/ ~MayAccess(W, f, 4) THEN None
           ELSE Some([dir |-> abs, file |-> file, rules |-> Rules(W.nodes[f].tx[1])]))
\* Textual ancestors of the start directory, outermost first, with their ignore files
ParentRules(W, absstart, names) ==
    LET C == Components(absstart)
    IN FlattenSeq(Tup([k \in 1..Len(C) |->
          LET abs == AbsText(Take(C, k - 1)) d == FindNode(W, abs, TRUE)
          IN IF d = 0 THEN << >> ELSE RulesOfDir(W, d, abs, names)]))
RelTo(abs, dir) == LStripChar(Drop(abs, Len(dir)), SLASH)
LastHit(rs, e, name, isdir) ==      \* index of the last matching rule, 0 if there is none
    LET H == {k \in DOMAIN rs.rules : GlobHit(rs.rules[k], RelTo(e.abs, rs.dir), name, isdir)}
    IN IF H = {} THEN 0 ELSE Max(H)
\* e.ig: the rules of the parents of the start directory and of all directories from the start
\* directory to the entry's own directory, outermost first
\* what the last matching rule says, and where it is from
Decision(W, e) ==
    LET R == e.ig
        isdir == IsDirEntry(W, e)
        name == BaseName(e.path)
        hits == Tup([k \in DOMAIN R |-> LastHit(R[k], e, name, isdir)])
        H == {k \in DOMAIN R : hits[k] > 0}
    IN IF H = {} THEN [include |-> FALSE, file |-> << >>]
       ELSE [include |-> R[Max(H)].rules[hits[Max(H)]].include, file |-> R[Max(H)].file]
IsIgnored(W, e) == Decision(W, e).include
\* the ignore file that is responsible
IgnoredBy(W, e) == LET d == Decision(W, e) IN IF d.include THEN d.file ELSE << >>
=============================================================================
