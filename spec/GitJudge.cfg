SPECIFICATION JSpec
INVARIANT Verdict
