"""Code that runs in the explored threads, with schedule points of its own."""
import os
import tempfile


def show(x):
    text = "<"
    text += str(x)
    text += ">"
    return text


def make_loader(base, parse, plan, fail):
    class Loader(base):
        def __init__(self):
            self.log = []
            self.fail = dict(fail or {})

        def resources(self, locale, resource_ids):
            for n, text in enumerate(plan[locale]):
                if self.fail.get((locale, n)):
                    self.fail[locale, n] -= 1
                    raise OSError("load failed")
                self.log.append((locale, n))
                res = parse(text)
                yield [res]
    return Loader()


_dir = None


def scratch():
    """Files shared by all runs of this process (never changed)."""
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix="verif-c28-")
        for path, text in {"en/x.ftl": "a = en a\n", "fr/x.ftl": "b = fr b\n", "fr/y.ftl": "c = fr c\n"}.items():
            p = os.path.join(_dir, path)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as fh:
                fh.write(text)
    return _dir
