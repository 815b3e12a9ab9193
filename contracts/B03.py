"""select: position of the k-th one."""
from contracts.rankselect import *
from contracts.rankselect import lemmas
REPLAY = "B03.cpp"
LEVEL = "proof"
NOTE = "The constructor is proved to establish the block and tip invariants and select to return the unique position with exactly k ones before it, terminating and in bounds, for every vector below 2^40 bits; in-word select and popcount come from B04's contracts, std::vector is trusted."
ASSUMPTIONS = ["lengths below 2^40 bits", "counting functions W (per word) and R (per bit) are defined by their recursion; their monotonicity is a lemma with a discharged induction step"]
def units():
    S = [ctor("w_ctorT", True, "SuccinctBitVector<true>(BitVector&&)", "move"), ctor("w_ctorT_copy", True, "SuccinctBitVector<true>(const BitVector&)", "copy"), select_spec(), get_spec("w_getT", True)]
    return [dict(tu="succinct.cpp", keep=KEEP, specs=S, models=VecLib(name=name_of).models() + MODELS)]
