BASE = ("Every obligation is discharged for all array sizes and values, over real arithmetic. "
        "Trusted: the verifier in vc/ (own code), the assumed contracts of numpy/scipy/torch, z3.")
BND = "Contracts labelled bounded are decided at run time on the real functions over drawn inputs and are never counted as proved."
CLAIMS = {k: ("proof", BASE) for k in
          "C01 C02 C03 C05 C06 C08 C09 C10 C11 C12 C13 C15 C16 C17 C18 C20 C21 C22".split()}


def residual(pid, what):
    CLAIMS[pid] = ("proof", BASE + " Residual bounded contracts: " + what + " " + BND)


residual("C06", "get_dof_indexes by symbol and mixture.")
residual("C08", "models: interpolations; structures: equivalent atoms.")
residual("C15", "the contracts that touch a real file system (writers are proved over a ghost file system).")
residual("C16", "vasprun.xml readers, value-level damage to real files (line readers are proved for any file content).")
residual("C18", "edges of periodic structures; large batches.")
residual("C20", "edge polarizabilities are defined for every direction.")
residual("C21", "datasets read from real files.")
CLAIMS["C04"] = ("other", "Predicates proved; the search over space-group operations is a bounded check over a crystal "
                 "catalogue with an independent oracle (contract per crystal and displacement). " + BND)
residual("C19", "whole networks at run time (forward is unrolled for up to three message passes; the layers enter by row-wise contracts).")
for k in "C07 C14".split():
    CLAIMS[k] = ("other", "Decided by contracts checked at run time. " + BND)
TECH = {}
NA = {}
