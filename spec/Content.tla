------------------------------ MODULE Content ------------------------------
(***************************************************************************)
(* What the content attributes of a file are, computed from its bytes.     *)
(* A file: [p: path, t: "file"|"dir"|"link"|"fifo", to: number of the file *)
(* a link leads to or 0, b: bytes, read: can be read, depth: number of     *)
(* components below the start directory, py, tar: what the bytes were made *)
(* from, facts: digests and what libmagic, statfs etc. tell].              *)
(***************************************************************************)
EXTENDS Paths
CR == 13

\* ---- UTF-8
IsCont(c) == c \in 128..191
Span(c) == IF c < 128 THEN 1 ELSE IF c \in 194..223 THEN 2 ELSE IF c \in 224..239 THEN 3 ELSE IF c \in 240..244 THEN 4 ELSE 0
\* the second byte: no overlong forms, no surrogates, nothing beyond 10FFFF
Second(l) == CASE l = 224 -> 160..191 [] l = 237 -> 128..159 [] l = 240 -> 144..191 [] l = 244 -> 128..143 [] OTHER -> 128..191
WellFormed(b) ==
    \A i \in DOMAIN b :
        IF IsCont(b[i]) THEN \E j \in {i - 1, i - 2, i - 3} : j >= 1 /\ Span(b[j]) > i - j
        ELSE LET n == Span(b[i]) IN
             /\ n > 0
             /\ i + n - 1 <= Len(b)
             /\ \A k \in 1..(n - 1) : IsCont(b[i + k])
             /\ n > 1 => b[i + 1] \in Second(b[i])
CharAt(b, i) ==
    LET n == Span(b[i]) IN
    CASE n = 1 -> b[i]
      [] n = 2 -> (b[i] - 192) * 64 + (b[i + 1] - 128)
      [] n = 3 -> (b[i] - 224) * 4096 + (b[i + 1] - 128) * 64 + (b[i + 2] - 128)
      [] OTHER -> (b[i] - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + (b[i + 3] - 128)
Decoded(b) ==
    IF \A i \in DOMAIN b : b[i] < 128 THEN b
    ELSE LET L == SelectSeq(Tup([i \in DOMAIN b |-> i]), LAMBDA i : ~IsCont(b[i])) IN Tup([k \in DOMAIN L |-> CharAt(b, L[k])])

\* ---- lines: ended by \n, \r\n or \r; what follows the last end is a line if there is something
Ends(t) == SetToSortSeq({i \in DOMAIN t : t[i] = NL \/ (t[i] = CR /\ (i = Len(t) \/ t[i + 1] # NL))}, <)
LinesOf(t) ==
    LET E == Ends(t)
        n == Len(E)
        From(k) == IF k = 1 THEN 1 ELSE E[k - 1] + 1
        Line(k) == LET e == E[k] IN SubSeq(t, From(k), IF t[e] = NL /\ e > From(k) /\ t[e - 1] = CR THEN e - 2 ELSE e - 1)
        all == Tup([k \in 1..n |-> Line(k)])
    IN IF From(n + 1) > Len(t) THEN all ELSE Append(all, SubSeq(t, From(n + 1), Len(t)))

\* ---- the first line, if it starts with #!
IsBlank(c) == c \in 9..13 \/ c \in 28..32
ShebangOf(b) ==
    LET e == FirstPos(b, NL)
        line == IF e = 0 THEN b ELSE Take(b, e - 1)
        rest == Drop(line, 2)
    IN IF StartsWith(line, <<HASH, BANG>>) /\ \A i \in DOMAIN rest : rest[i] < 128 THEN Some(StripEnd(rest, IsBlank)) ELSE None

\* ---- Python
\* the statements: [m: module, level: number of leading dots]; names that may be shown for one
RECURSIVE Up(_, _)
Up(p, n) == IF n = 0 THEN p ELSE Up(DirName(p), n - 1)
Names(f, s) ==
    IF s.level = 0 THEN {s.m}
    ELSE {BaseName(Up(DirName(f.p), s.level - 1)) \o <<DOT>> \o s.m}
         \* above the start directory there may be no name
         \cup (IF s.level >= f.depth THEN {<<DOT>> \o s.m} ELSE {})
\* "from . import a" names no module
Bare(s) == s.m = << >>
IsPython(f, real) == Lower(Ext(f.p)) = T("py") \/ LET s == ShebangOf(real.b) IN IsSome(s) /\ ContainsText(The(s), T("python"))

\* ---- values as they are shown: [k: kind, v]
Null(x) == x.k = "null"
SetOf(s) == {s[i] : i \in DOMAIN s}
IsStr(x, t) == x.k = "str" /\ x.v = t
IsListOf(x, l) == x.k = "list" /\ x.v = l
IsSetOf(x, S) == x.k = "list" /\ SetOf(x.v) = S
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n = 0 THEN << >> ELSE Append(DigitsOf(n \div 10), n % 10)
IsNum(x, n) == x.k = "num" /\ x.v = DigitsOf(n)

Grep == {"grep.text", "grep.linecount", "grep.lines"}
TarExts == {T(x) : x \in {".tar", ".tar.gz", ".taz", ".tgz", ".tpz", ".tar.bz2", ".tb2", ".tbz", ".tbz2", ".tz2", ".tar.lz", ".tar.lzma", ".tlz", ".tar.xz", ".txz"}}
IsTar(f) == \E e \in TarExts : EndsWith(f.p, e)

\* the value of a content attribute of a file whose content (real) can be read
Value(f, real, a, x) ==
    CASE a \in Grep ->
           LET ok == WellFormed(real.b) IN
           IF a = "grep.text" THEN x.k = "bool" /\ x.v = ok
           ELSE IF ~ok THEN Null(x)
           ELSE LET l == LinesOf(Decoded(real.b)) IN IF a = "grep.lines" THEN IsListOf(x, l) ELSE IsNum(x, Len(l))
      [] a = "shebang.shebang" -> LET s == ShebangOf(real.b) IN IF IsSome(s) THEN IsStr(x, The(s)) ELSE Null(x)
      [] a = "py.imports" ->
           IF ~IsPython(f, real) \/ real.py.st = "bad" THEN Null(x)
           ELSE IF real.py.st = "any" THEN Null(x) \/ x.k = "list"
           ELSE /\ x.k = "list"
                /\ \A i \in DOMAIN real.py.imports : LET s == real.py.imports[i] IN ~Bare(s) => Names(f, s) \cap SetOf(x.v) # {}
                /\ \A n \in SetOf(x.v) : \E i \in DOMAIN real.py.imports :
                       LET s == real.py.imports[i] IN IF Bare(s) THEN StartsWith(n, BaseName(Up(DirName(f.p), s.level - 1))) ELSE n \in Names(f, s)
      [] a = "tar.members" ->
           IF ~IsTar(f) \/ real.tar.st = "bad" THEN Null(x)
           ELSE IF real.tar.st = "ok" THEN IsSetOf(x, SetOf(real.tar.members))
           ELSE IF real.tar.st = "cut" THEN Null(x) \/ (x.k = "list" /\ SetOf(x.v) \subseteq SetOf(real.tar.members))
           ELSE Null(x) \/ x.k = "list"
      [] OTHER -> IF a \in DOMAIN real.facts THEN x = real.facts[a] ELSE Null(x)

\* facts that do not depend on the content: xattrs (a set), the file system, the values of the test plugins
Plain == {"fs.type", "fs.remote", "vfast.uniq", "vnorm.unum", "vslow.ulist"}
\* what a package manager has installed: lines with the name of a package and a path, that of a directory ends with a slash
Packages(s, p) == {s.pkgs[i].g : i \in {i \in DOMAIN s.pkgs : s.pkgs[i].p \in {p, Append(p, SLASH)}}}
Shown(files, f, s, a, x) ==
    LET real == IF s.follow /\ f.t = "link" /\ f.to # 0 THEN files[f.to] ELSE f
    IN CASE a = "path" -> IsStr(x, f.p)
         [] a = "pacman.installed" -> x.k = "bool" /\ x.v = (Packages(s, f.p) # {})
         [] a = "pacman.pkgname" -> IF Packages(s, f.p) = {} THEN Null(x) ELSE x.k = "str" /\ x.v \in Packages(s, f.p)
         [] a \in Plain -> IF a \in DOMAIN real.facts THEN x = real.facts[a] ELSE Null(x)
         [] a = "xattr.xattrs" -> IF real.t \notin {"file", "dir"} THEN Null(x) ELSE IsSetOf(x, SetOf(real.xattrs)) \/ (~real.read /\ (Null(x) \/ (x.k = "list" /\ SetOf(x.v) \subseteq SetOf(real.xattrs))))
         [] real.t # "file" -> Null(x)
         \* (that a file is empty can be told without reading it)
         [] ~real.read -> Null(x) \/ (real.b = << >> /\ Value(f, real, a, x))
         [] f.n \in SetOf(s.faulty) \/ real.n \in SetOf(s.faulty) -> Null(x) \/ Value(f, real, a, x)
         [] OTHER -> Value(f, real, a, x)
=============================================================================
