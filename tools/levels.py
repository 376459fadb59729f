NA = {}
P = "contract-based deductive verification (symbolic execution of the current source against contracts, obligations discharged by z3)"
B = "bounded cross-check of the real code against an independent oracle"
PROVED = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24")
LEVEL = {"C%02d" % i: (("proof", P, "Every function listed in the evidence is discharged against its contract for all inputs; the rest is cross-checked, labelled bounded.")
         if "C%02d" % i in PROVED else ("other", P + "; " + B, "The text every function of the serializer prints is discharged against its contract for all trees; that this text parses back to the tree is decided by the bounded cross-check only.")) for i in range(1, 25)}
