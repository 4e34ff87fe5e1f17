"""Compile-fail witnesses with compiling twins: witness/lifetimes.wit."""
from rules import wit


def check(c):
    wit.check(c, "lifetimes.wit", 78)
