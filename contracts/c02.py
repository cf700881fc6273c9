from .c01 import grid


def units(tier):
    return grid("C02", "volume", "volume", tier)
