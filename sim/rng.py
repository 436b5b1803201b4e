"""All randomness of a simulation comes from here; one integer decides it."""
import hashlib
import random


def derive(*parts) -> int:
    """A 64-bit integer that is a pure function of the given parts."""
    h = hashlib.sha256('\x1f'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def rng(*parts) -> random.Random:
    return random.Random(derive(*parts))
