"""C15: the volume phase functions have their published form and norm."""
from .dist import *

LEMMAS = ["legendre"]


def units(tier):
    return [form_unit(x, "C15") for x in configs("V", tier)]
