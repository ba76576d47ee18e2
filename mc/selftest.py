"""setup_cmd: the interpreter, the code under test and every check import."""
import importlib
import pkgutil

from . import core, impl


def main():
    import fluent.pygments.lexer
    import fluent.runtime
    import fluent.syntax
    impl.assert_origin(fluent.syntax, fluent.runtime, fluent.pygments.lexer)
    from . import checks
    names = sorted(m.name for m in pkgutil.iter_modules(checks.__path__) if "_" not in m.name)
    for n in names:
        c = importlib.import_module("mc.checks." + n).CHECK
        assert c.id.lower() == n, (c.id, n)
        c.scopes("quick")
    print("ok: %d checks import" % len(names))
    return 0
