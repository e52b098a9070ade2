-------------------------------- MODULE Attrs --------------------------------
(***************************************************************************)
(* The attributes that exist, their types, and the value of an attribute   *)
(* for an entry.                                                           *)
(***************************************************************************)
EXTENDS Fs, Literal, Ignore

FileTypes == [path |-> "Path", root |-> "Path", relpath |-> "Path", dir |-> "Path", name |-> "String", ext |-> "String",
  pathx |-> "Path", namex |-> "Path", mode |-> "Mode", type |-> "FileType", device |-> "Number", inode |-> "Number",
  samedev |-> "Boolean", depth |-> "Number", exec |-> "Boolean", size |-> "Size", mtime |-> "Time", ctime |-> "Time",
  atime |-> "Time", time |-> "Time", perm |-> "Mode", links |-> "Number", uid |-> "Number", gid |-> "Number",
  user |-> "String", group |-> "String", hide |-> "Boolean", hidden |-> "Boolean", empty |-> "Boolean", link |-> "Path",
  target |-> "Path", broken |-> "Boolean", mount |-> "Boolean", mpath |-> "String", devname |-> "String",
  fstype |-> "String", pseudofs |-> "Boolean"]
\* the test plugins (harness/plugins/vt.py), three speeds
TestTypes == [xstr |-> "String", xpath |-> "Path", xnum |-> "Number", xsize |-> "Size", xdur |-> "Duration",
  xtime |-> "Time", xmode |-> "Mode", xbool |-> "Boolean", xftype |-> "FileType", xlist |-> "List"]
PluginAttrs ==
  [file |-> FileTypes,
   grep |-> [text |-> "Boolean", linecount |-> "Number", lines |-> "List"],
   ignore |-> [ignored |-> "Boolean", path |-> "String"],
   medium |-> [duration |-> "Duration", artist |-> "String", album |-> "String", title |-> "String", genre |-> "String",
               date |-> "String", format |-> "String", width |-> "Number", height |-> "Number"],
   mime |-> [mime |-> "String", type |-> "String", subtype |-> "String", encoding |-> "String", name |-> "String"],
   fs |-> [type |-> "String", remote |-> "Boolean"],
   git |-> [tracked |-> "Boolean", dirty |-> "Boolean", repo_dir |-> "String", repo |-> "Boolean"],
   elf |-> [sonames |-> "List"], shebang |-> [shebang |-> "String"], py |-> [imports |-> "List"],
   pacman |-> [installed |-> "Boolean", pkgname |-> "String"],
   tar |-> [members |-> "List"], xattr |-> [xattrs |-> "List"],
   vfast |-> TestTypes @@ [uniq |-> "String"],
   vnorm |-> TestTypes @@ [unum |-> "Number"],
   vslow |-> TestTypes @@ [ulist |-> "List"],
   vcache |-> [cval |-> "String", cnum |-> "Number"]]
PluginNames == DOMAIN PluginAttrs
PluginTab == TLCEval([t \in {T(p) : p \in PluginNames} |-> CHOOSE p \in PluginNames : T(p) = t])
AllAttrNames == UNION {DOMAIN PluginAttrs[p] : p \in PluginNames}
AttrTab == TLCEval([t \in {T(a) : a \in AllAttrNames} |-> CHOOSE a \in AllAttrNames : T(a) = t])

\* Resolve the text of an attribute name: [ok, p, a, ty, full]; not ok: the attribute is unknown or ambiguous.
BadAttr == [ok |-> FALSE, p |-> "", a |-> "", ty |-> "", txt |-> << >>]
ResolveAttr(t) ==
    LET dot == FirstPos(t, DOT)
        p == Take(t, dot - 1)
        a == Drop(t, dot)
    IN IF dot > 0
       THEN IF p \in DOMAIN PluginTab /\ a \in DOMAIN AttrTab /\ AttrTab[a] \in DOMAIN PluginAttrs[PluginTab[p]]
            THEN [ok |-> TRUE, p |-> PluginTab[p], a |-> AttrTab[a], ty |-> PluginAttrs[PluginTab[p]][AttrTab[a]], txt |-> t]
            ELSE BadAttr
       ELSE IF a \notin DOMAIN AttrTab THEN BadAttr
       ELSE LET an == AttrTab[a]
                owners == {q \in PluginNames : an \in DOMAIN PluginAttrs[q]}
            IN IF an \in DOMAIN FileTypes THEN [ok |-> TRUE, p |-> "file", a |-> an, ty |-> FileTypes[an], txt |-> t]
               ELSE IF Cardinality(owners) = 1
               THEN LET q == CHOOSE q \in owners : TRUE IN [ok |-> TRUE, p |-> q, a |-> an, ty |-> PluginAttrs[q][an], txt |-> t]
               ELSE BadAttr
FullName(at) == T(at.p) \o <<DOT>> \o T(at.a)

\* values of test plugins come with the node, in JSON form
FromJson(ty, v) == CASE ty \in {"Number", "Size", "Time", "Duration"} -> NumOf(v) [] OTHER -> v
NodeValue(W, e, full, ty) ==
    LET xs == W.nodes[e.s].xs
        P == {k \in DOMAIN xs : xs[k].a = full}
    IN IF P = {} THEN None ELSE Some(FromJson(ty, xs[Min(P)].v))

AttrValue(W, e, at) ==
    CASE at.p = "file" -> FileAttr(W, e, at.a)
      [] at.p = "ignore" /\ at.a = "ignored" -> Some(IsIgnored(W, e))
      [] at.p = "ignore" /\ at.a = "path" -> Some(IgnoredBy(W, e))
      [] OTHER -> NodeValue(W, e, at.p \o "." \o at.a, at.ty)
=============================================================================
