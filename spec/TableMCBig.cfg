SPECIFICATION Spec
CONSTANTS Kind = "cat" Texts = {"a", "b", "NA"} MaxObj = 3 MaxCopies = 3 MaxLen = 2 MaxImpute = 1 Variant = "ok"
VIEW View
INVARIANTS AllCoded NeverDenied
PROPERTIES Framed Copied SetRight Encoded Shuffled
CHECK_DEADLOCK FALSE
