--------------------------------- MODULE Fs ---------------------------------
(***************************************************************************)
(* A snapshot of a file system below a base directory, and path lookup.    *)
(* A world W has                                                           *)
(*   base   absolute path of node 1                                        *)
(*   nodes  sequence of nodes, parents before children; node:              *)
(*     n name   u parent (0 for node 1)   k children                       *)
(*     ty type  md mode   sz mt ct at ln ui gi dv in numbers               *)
(*     us gr user and group names   lk link text (optional)                *)
(*     sc whether the directory can be read                                *)
(*     dn ft mp device name, file system type and mount point              *)
(*     tx optional content of an ignore file (lines)                       *)
(*     xs values of the test plugins                                       *)
(*   cwd    the current directory (absolute)                               *)
(*   uid, gid   the user who searches (<< >>: the superuser, no limits)    *)
(*   flt    operations that fail: [c call, p absolute path as used, w      *)
(*          warning: "yes", "no" or "any"]; calls:     "scan" a directory, *)
(*          "stat" an entry, "open" a file, "next": reading on in a        *)
(*          directory (what is missing is not determined)                  *)
(***************************************************************************)
EXTENDS Num, Paths

Node(W, i) == W.nodes[i]
ChildNamed(W, i, name) ==
    LET P == {j \in DOMAIN W.nodes[i].k : W.nodes[W.nodes[i].k[j]].n = name}
    IN IF P = {} THEN 0 ELSE W.nodes[i].k[Min(P)]
RECURSIVE NodePath(_, _)
NodePath(W, i) == IF i = 1 THEN W.base ELSE Join(NodePath(W, W.nodes[i].u), W.nodes[i].n)

\* whether the user has the permission b (4 read, 2 write, 1 search) for node i
MayAccess(W, i, b) ==
    \/ W.uid = << >>
    \/ LET n == W.nodes[i]
           rights == IF n.ui = W.uid THEN (n.md \div 64) % 8 ELSE IF n.gi = W.gid THEN (n.md \div 8) % 8 ELSE n.md % 8
       IN (rights \div b) % 2 = 1
Fails(W, call, path) == \E k \in DOMAIN W.flt : W.flt[k].c = call /\ W.flt[k].p = path
\* directory node i can be listed under this path
CanScan(W, i, path) == W.nodes[i].sc /\ MayAccess(W, i, 4) /\ ~Fails(W, "scan", path)

\* Follow components from directory i; 0 if there is no such file.
RECURSIVE Lookup(_, _, _, _, _)
Lookup(W, i, comps, last, fuel) ==
    IF i = 0 \/ fuel = 0 THEN 0
    ELSE IF comps = << >> THEN i
    ELSE IF W.nodes[i].ty # "directory" \/ ~MayAccess(W, i, 1) THEN 0
    ELSE LET c == comps[1] rest == Drop(comps, 1) IN
         IF c = Dots THEN Lookup(W, i, rest, last, fuel)
         ELSE IF c = DotDot THEN (IF i = 1 THEN 0 ELSE Lookup(W, W.nodes[i].u, rest, last, fuel))
         ELSE LET j == ChildNamed(W, i, c) IN
              IF j = 0 THEN 0
              ELSE IF W.nodes[j].ty = "symlink" /\ (rest # << >> \/ last)
              THEN LET lk == W.nodes[j].lk[1] IN
                   IF IsAbs(lk)
                   THEN IF Below(lk, W.base) THEN Lookup(W, 1, Drop(Components(lk), Len(Components(W.base))) \o rest, last, fuel - 1)
                        ELSE 0
                   ELSE Lookup(W, i, Components(lk) \o rest, last, fuel - 1)
              ELSE Lookup(W, j, rest, last, fuel)
\* path text relative to the current directory
FindNode(W, path, follow) ==
    LET b == Components(W.base)
        all == IF IsAbs(path) THEN Components(path) ELSE Components(W.cwd) \o Components(path)
    IN IF path = << >> THEN 0
       ELSE IF Len(all) < Len(b) \/ Take(all, Len(b)) # b THEN 0
       ELSE Lookup(W, 1, Drop(all, Len(b)), follow \/ all[Len(all)] = Dots \/ path[Len(path)] = SLASH, 40)
\* What stat() says about node i: the node itself or the target of a symbolic link (0 if broken).
FollowNode(W, i) ==
    IF W.nodes[i].ty # "symlink" THEN i
    ELSE Lookup(W, W.nodes[i].u, <<W.nodes[i].n>>, TRUE, 40)
\* canonical path of an existing file
RealPath(W, i) == NodePath(W, i)

(* Entries: i the directory entry, s the node describing it (0: cannot be described),
   root and rel as given, path, abs, start (node of the start directory) *)
MkEntry(W, root, absroot, start, rel, i, follow, ig) ==
    [i |-> i, s |-> IF follow THEN FollowNode(W, i) ELSE i, root |-> root, rel |-> rel,
     path |-> IF root = Dots THEN rel ELSE Join(root, rel), abs |-> Join(absroot, rel), start |-> start, ig |-> ig]
IsDirEntry(W, e) == W.nodes[e.s].ty = "directory"

PseudoFs == {T("binfmt_misc"), T("bpf"), T("cgroup2"), T("configfs"), T("debugfs"), T("devpts"), T("devtmpfs"),
             T("efivarfs"), T("hugetlbfs"), T("mqueue"), T("proc"), T("pstore"), T("securityfs"), T("sysfs"),
             T("tmpfs"), T("tracefs")}

\* canonical target of a symbolic link, also if it does not exist
RECURSIVE RealText(_, _, _, _)
RealText(W, acc, comps, fuel) ==        \* acc: canonical components so far
    IF comps = << >> THEN AbsText(acc)
    ELSE LET c == comps[1] rest == Drop(comps, 1) IN
         IF c = Dots THEN RealText(W, acc, rest, fuel)
         ELSE IF c = DotDot THEN RealText(W, IF acc = << >> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1), rest, fuel)
         ELSE LET i == FindNode(W, AbsText(Append(acc, c)), FALSE) IN
              IF i # 0 /\ fuel > 0 /\ W.nodes[i].ty = "symlink"
              THEN LET lk == W.nodes[i].lk[1] IN
                   RealText(W, IF IsAbs(lk) THEN << >> ELSE acc, Components(lk) \o rest, fuel - 1)
              ELSE RealText(W, Append(acc, c), rest, fuel)

HiddenPath(p) == LET C == SplitOn(p, SLASH)
                 IN \E k \in DOMAIN C : C[k] # << >> /\ C[k][1] = DOT /\ C[k] \notin {Dots, DotDot}
ExecBits(md) == (md % 2) + ((md \div 8) % 2) + ((md \div 64) % 2)

(* The attributes of the file plugin: an optional value. *)
FileAttr(W, e, a) ==
    LET n == W.nodes[e.s] IN
    CASE a = "path" -> Some(e.path)
      [] a = "root" -> Some(e.root)
      [] a = "relpath" -> Some(e.rel)
      [] a = "dir" -> Some(DirName(e.path))
      [] a = "name" -> Some(BaseName(e.path))
      [] a = "ext" -> Some(Ext(e.path))
      [] a = "pathx" -> Some(PathX(e.path))
      [] a = "namex" -> Some(BaseName(PathX(e.path)))
      [] a = "mode" -> Some(n.md)
      [] a = "type" -> Some(T(n.ty))
      [] a = "device" -> Some(NumOf(n.dv))
      [] a = "inode" -> Some(NumOf(n.in))
      [] a = "samedev" -> Some(n.dv = W.nodes[e.start].dv)
      [] a = "depth" -> Some(FromInt(Cardinality(Positions(e.rel, SLASH))))
      [] a = "exec" -> Some(n.ty \notin {"directory", "symlink"} /\ ExecBits(n.md) > 0)
      [] a = "size" -> Some(IF n.ty = "file" THEN NumOf(n.sz) ELSE Zero)
      [] a \in {"mtime", "time"} -> Some(NumOf(n.mt))
      [] a = "ctime" -> Some(NumOf(n.ct))
      [] a = "atime" -> Some(NumOf(n.at))
      [] a = "perm" -> Some(n.md % 4096)
      [] a = "links" -> Some(NumOf(n.ln))
      [] a = "uid" -> Some(NumOf(n.ui))
      [] a = "gid" -> Some(NumOf(n.gi))
      [] a = "user" -> Some(n.us)
      [] a = "group" -> Some(n.gr)
      [] a = "hide" -> Some(BaseName(e.path) # << >> /\ BaseName(e.path)[1] = DOT)
      [] a = "hidden" -> Some(HiddenPath(e.path))
      [] a = "empty" -> Some(IF n.ty = "directory" THEN CanScan(W, e.s, e.abs) /\ n.k = << >>
                             ELSE n.ty = "file" /\ NumOf(n.sz) = Zero)
      [] a = "link" -> IF n.ty = "symlink" THEN n.lk ELSE None
      [] a = "target" -> IF n.ty = "symlink"
                         THEN Some(RealText(W, << >>, Components(IF IsAbs(n.lk[1]) THEN n.lk[1] ELSE
                                   AbsPath(W.cwd, DirName(e.path)) \o <<SLASH>> \o n.lk[1]), 40))
                         ELSE None
      [] a = "broken" -> Some(n.ty = "symlink" /\ FollowNode(W, e.s) = 0 /\ ~n.ex)
      [] a = "mount" -> Some(n.mo)
      [] a = "mpath" -> Some(n.mp)
      [] a = "devname" -> Some(n.dn)
      [] a = "fstype" -> Some(n.ft)
      [] a = "pseudofs" -> Some(n.ft \in PseudoFs)
=============================================================================
