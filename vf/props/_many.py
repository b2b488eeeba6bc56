"""Sizes beyond what can be symbolic throughout: most values are fixed (but all different), the rest is symbolic."""
import zlib


def fixed(name, lo, hi):
    """a number of the name's own, a multiple of 1/64 of the range"""
    return lo + (hi - lo) * (zlib.crc32(name.encode()) % 8191) / 8192


def some(env, sym, name, lo, hi):
    return env.real(name, lo, hi) if sym else fixed(name, lo, hi)
