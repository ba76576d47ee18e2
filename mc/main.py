"""Entry point: python3 -m mc.main C01   (tier from VERIF_TIER)"""
import importlib
import os
import sys


def load(prop):
    from . import impl  # noqa: F401  (sets sys.path)
    mod = importlib.import_module("mc.checks." + prop.lower())
    return mod.CHECK


def main(argv):
    if argv[0] == "--selftest":
        from .selftest import main as selftest
        return selftest()
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(argv) > 1:
        tier = argv[1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    from . import core
    return core.run(load(prop), tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
