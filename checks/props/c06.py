"""C06: a witness for a missing key proves the absence."""
from props import c05


def main(c):
    return c05.main(c, frozenset(["awit"]), "C06")
