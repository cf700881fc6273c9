"""C17: the Legendre expansions are the truncated expansions of the closed forms."""
from .dist import *

LEMMAS = ["legendre"]


def units(tier):
    return [expansion_unit(x, k) for kind in ("V", "SRF") for x in configs(kind, tier) for k in (("sym",) if tier == "quick" else ("sym", "num"))]
