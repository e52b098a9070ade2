------------------------------ MODULE CacheMC ------------------------------
EXTENDS Cache, TLC
MCKinds == "pa" :> [tag |-> "mtime", kinds |-> <<"f">>] @@ "pb" :> [tag |-> "size", kinds |-> <<"f">>]
=============================================================================
