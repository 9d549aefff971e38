"""Process bootstrap: puts every ambient source of nondeterminism behind the simulator.

Must be imported before SQLAlchemy, Faker or subsetter.  After `boot()`:

* random.Random() without a seed, random.SystemRandom, os.urandom, uuid4 and the module
  level functions of `random` draw from the stream of the current simulated run;
* SQLAlchemy schema objects hash by a seeded counter instead of by address, so that the
  iteration order of sets of them is a function of the seed;
* the garbage collector runs only between runs;
* subsetter is imported from /repo (or $VERIF_REPO) with a private bytecode cache.
"""
import gc
import os
import random as _random
import sys

RealRandom = _random.Random
_real_urandom = os.urandom

REPO = os.environ.get("VERIF_REPO", "/repo")


class Entropy:
    """Ambient randomness of the process under simulation."""

    def __init__(self):
        self.rng = RealRandom(12345)
        self.hash_rng = RealRandom(54321)

    def reseed(self, seed):
        self.rng = RealRandom(f"entropy:{seed}")
        self.hash_rng = RealRandom(f"hash:{seed}")
        _random.seed(self.rng.getrandbits(64))
        mod = sys.modules.get("faker.generator")
        if mod is not None:
            mod.random.seed(self.rng.getrandbits(64))


ENTROPY = Entropy()


class SimRandom(RealRandom):
    def __new__(cls, *args, **kwargs):
        return super().__new__(cls)

    def __init__(self, x=None):
        super().__init__(ENTROPY.rng.getrandbits(64) if x is None else x)

    def seed(self, a=None, version=2):
        if a is None:
            a = ENTROPY.rng.getrandbits(64)
        super().seed(a, version)


def _urandom(n):
    return ENTROPY.rng.randbytes(n)


def _seeded_hash(self):
    h = self.__dict__.get("_sim_hash")
    if h is None:
        h = ENTROPY.hash_rng.getrandbits(60)
        self.__dict__["_sim_hash"] = h
    return h


_booted = False


def boot():
    global _booted
    if _booted:
        return
    _booted = True
    sys.dont_write_bytecode = True
    os.environ["TQDM_DISABLE"] = "1"
    for k in list(os.environ):
        if k.startswith("SUBSET_"):
            del os.environ[k]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    _random.Random = SimRandom
    os.urandom = _urandom
    _random._urandom = _urandom
    import warnings

    warnings.simplefilter("ignore")
    import sqlalchemy as sa
    from sqlalchemy.sql import schema as sas

    for cls in (sas.Table, sas.Constraint, sas.Index, sas.Column, sas.ForeignKey):
        cls.__hash__ = _seeded_hash
    for name in (
        "ColumnCollectionConstraint",
        "ForeignKeyConstraint",
        "PrimaryKeyConstraint",
        "UniqueConstraint",
        "CheckConstraint",
    ):
        cls = getattr(sas, name)
        if cls.__hash__ is not _seeded_hash:
            cls.__hash__ = _seeded_hash
    import faker  # noqa: F401
    import subsetter

    path = os.path.dirname(os.path.abspath(subsetter.__file__))
    if os.path.realpath(path) != os.path.realpath(os.path.join(REPO, "subsetter")):
        raise RuntimeError(f"subsetter imported from {path}, not {REPO}")
    import logging

    logging.getLogger().addHandler(logging.NullHandler())
    logging.disable(logging.CRITICAL)
    from . import dialects, seam  # noqa: F401

    dialects.register()
    seam.install()
    gc.disable()
