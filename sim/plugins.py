"""Filter plugins the simulated configurations name."""
import hashlib


class Scramble:
    """Replaces every value by a token that depends on it."""

    def __init__(self, prefix="p"):
        self.prefix = prefix

    def __call__(self, values):
        return [None if v is None else token(self.prefix, v) for v in values]


class Fixed:
    def __init__(self, value="fixed"):
        self.value = value

    def __call__(self, values):
        return (self.value for _ in values)


def token(prefix, value):
    return prefix + "-" + hashlib.sha256(str(value).encode()).hexdigest()[:12]
