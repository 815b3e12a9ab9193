"""rank: number of ones (zeros) before a position."""
from contracts.rankselect import *
from contracts.rankselect import lemmas
REPLAY = "B02.cpp"
LEVEL = "proof"
NOTE = "The constructors are proved to establish the block-count invariant (including the loop over all words, any length below 2^40) and rank/rank_1/rank_0 to return the exact count from it, with all reads in bounds; word counts come from B04's contracts, std::vector is trusted."
ASSUMPTIONS = ["lengths below 2^40 bits", "counting functions W (per word) and R (per bit) are defined by their recursion; their monotonicity is a lemma with a discharged induction step"]
def units():
    S = [ctor("w_ctorT", True, "SuccinctBitVector<true>(BitVector&&)", "move"), ctor("w_ctorF", False, "SuccinctBitVector<false>(BitVector&&)", "move"), ctor("w_ctorT_copy", True, "SuccinctBitVector<true>(const BitVector&)", "copy"),
         ctor("w_ctorT_default", True, "SuccinctBitVector<true>()", "default"), ctor("w_ctorF_default", False, "SuccinctBitVector<false>()", "default")]
    for T, t in ((True, "T"), (False, "F")):
        S += [rank_spec(f"w_rank1{t}", T, False, "rank_1"), rank_spec(f"w_rank{t}", T, False, "rank"), rank_spec(f"w_rank0{t}", T, True, "rank_0"), get_spec(f"w_get{t}", T)]
    return [dict(tu="succinct.cpp", keep=KEEP, specs=S, models=VecLib(name=name_of).models() + MODELS)]
