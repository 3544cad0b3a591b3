SPECIFICATION Spec
CONSTANTS Kind = "cat" Texts = {"a", "b", "NA"} MaxObj = 2 MaxCopies = 2 MaxLen = 2 MaxImpute = 1 Variant = "encodeshares"
VIEW View
INVARIANTS AllCoded NeverDenied
PROPERTIES Framed Copied SetRight Encoded Shuffled
CHECK_DEADLOCK FALSE
