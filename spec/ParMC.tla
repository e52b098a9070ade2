------------------------------- MODULE ParMC -------------------------------
EXTENDS Par
\* trees (directory -> sub-directories)
T1 == "r" :> <<"a", "b">> @@ "a" :> <<"c">> @@ "b" :> <<>> @@ "c" :> <<>>
T2 == "r" :> <<"a", "b", "c">> @@ "a" :> <<>> @@ "b" :> <<"d">> @@ "c" :> <<>> @@ "d" :> <<>>
T3 == "r" :> <<"a">> @@ "a" :> <<"b">> @@ "b" :> <<>>
T4 == "r" :> <<"a", "b">> @@ "a" :> <<"c", "d">> @@ "b" :> <<"e">> @@ "c" :> <<>> @@ "d" :> <<"f">> @@ "e" :> <<>> @@ "f" :> <<>>
T0 == "r" :> <<>>
D1 == DOMAIN T1
D2 == DOMAIN T2
D3 == DOMAIN T3
D4 == DOMAIN T4
D0 == DOMAIN T0
=============================================================================
