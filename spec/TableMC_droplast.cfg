SPECIFICATION Spec
CONSTANTS Kind = "cat" Texts = {"a", "b", "c", "NA"} MaxObj = 4 MaxCopies = 1 MaxLen = 3 MaxImpute = 0 Variant = "droplast"
VIEW View
INVARIANTS AllCoded NeverDenied
PROPERTIES Framed Copied SetRight Encoded Shuffled
CHECK_DEADLOCK FALSE
CONSTRAINT Few
