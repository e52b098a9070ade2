------------------------------ MODULE ParTree ------------------------------
(* ParSim for a tree that is read from a file (the real tree of a world). *)
EXTENDS ParSim, IOUtils
JTree == TLCEval(JsonDeserialize(IOEnv.TREE))
JDirs == DOMAIN JTree
=============================================================================
