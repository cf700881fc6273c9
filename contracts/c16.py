"""C16: the BRDFs have their published form and norm."""
from .dist import *

LEMMAS = ["legendre"]


def units(tier):
    return [form_unit(x, "C16") for x in configs("SRF", tier)]
