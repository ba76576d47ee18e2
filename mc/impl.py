"""The code under test: the fluent packages, imported from /repo's working tree.

VERIF_REPO overrides the location (used only while developing, to run a check
against a scratch copy); the registered commands always use /repo.
"""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
for _p in ("fluent.docs", "fluent.pygments", "fluent.runtime", "fluent.syntax"):
    sys.path.insert(0, os.path.join(REPO, _p))


def assert_origin(*modules):
    for m in modules:
        f = os.path.realpath(m.__file__)
        if not f.startswith(os.path.realpath(REPO) + os.sep):
            raise SystemExit("harness error: %s imported from %s, not from %s"
                             % (m.__name__, f, REPO))
