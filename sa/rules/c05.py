"""Compile-fail witnesses with compiling twins: witness/threads.wit."""
from rules import wit


def check(c):
    wit.check(c, "threads.wit", 96)
