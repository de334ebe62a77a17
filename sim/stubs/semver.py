import re


class VersionInfo:
    _re = re.compile(r"^(\d+)\.(\d+)\.(\d+)(?:-([0-9A-Za-z.-]+))?(?:\+([0-9A-Za-z.-]+))?$")

    def __init__(self, major, minor=0, patch=0, prerelease=None, build=None):
        self.major, self.minor, self.patch = int(major), int(minor), int(patch)
        self.prerelease, self.build = prerelease, build

    @classmethod
    def parse(cls, s):
        m = cls._re.match(s)
        if not m:
            raise ValueError(f"{s} is not valid SemVer string")
        return cls(*m.groups())

    def __str__(self):
        v = f"{self.major}.{self.minor}.{self.patch}"
        if self.prerelease:
            v += f"-{self.prerelease}"
        if self.build:
            v += f"+{self.build}"
        return v

    def _key(self):
        return (self.major, self.minor, self.patch)

    def compare(self, other):
        if isinstance(other, str):
            other = self.parse(other)
        a, b = self._key(), other._key()
        if a != b:
            return -1 if a < b else 1
        if self.prerelease == other.prerelease:
            return 0
        if not self.prerelease:
            return 1
        if not other.prerelease:
            return -1
        conv = lambda p: [(0, int(x), "") if x.isdigit() else (1, 0, x) for x in p.split(".")]
        return -1 if conv(self.prerelease) < conv(other.prerelease) else 1

    def __eq__(self, o):
        return self.compare(o) == 0

    def __lt__(self, o):
        return self.compare(o) < 0

    def __gt__(self, o):
        return self.compare(o) > 0


Version = VersionInfo


def compare(a, b):
    return VersionInfo.parse(a).compare(b)
