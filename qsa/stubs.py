"""Standard-library modules given to the analysis as source."""
import ast

SRC = {"pathlib": '''
import os

class PurePath:
    def __init__(self, *parts):
        self._p = os.path.join(*[os.fspath(x) for x in parts]) if parts else "."

    def __fspath__(self):
        return self._p

    def __str__(self):
        return self._p

    def __truediv__(self, o):
        return Path(self._p, o)

    def __rtruediv__(self, o):
        return Path(o, self._p)

    def joinpath(self, *o):
        return Path(self._p, *o)

    def as_posix(self):
        return self._p

    @property
    def parent(self):
        return Path(os.path.dirname(self._p))

    @property
    def name(self):
        return os.path.basename(self._p)

    @property
    def suffix(self):
        return os.path.splitext(self._p)[1]

    def with_suffix(self, s):
        return Path(os.path.splitext(self._p)[0] + s)

    def with_name(self, s):
        return Path(os.path.dirname(self._p), s)


class Path(PurePath):
    def mkdir(self, mode=511, parents=False, exist_ok=False):
        if exist_ok and os.path.isdir(self._p):
            return None
        if parents:
            os.makedirs(self._p, exist_ok=exist_ok)
        else:
            os.mkdir(self._p)

    def exists(self):
        return os.path.exists(self._p)

    def is_file(self):
        return os.path.isfile(self._p)

    def is_dir(self):
        return os.path.isdir(self._p)

    def open(self, mode="r"):
        return open(self._p, mode)

    def unlink(self, missing_ok=False):
        if missing_ok and not os.path.exists(self._p):
            return None
        os.remove(self._p)

    def rename(self, t):
        os.rename(self._p, t)
        return Path(t)

    def replace(self, t):
        os.replace(self._p, t)
        return Path(t)

    def expanduser(self):
        return self

    def resolve(self):
        return self

    def absolute(self):
        return self
'''}


def install(mods):
    for k, s in SRC.items():
        mods[k] = (f"<stub {k}>", ast.parse(s), False)
