import logging


class Ogler:
    def __init__(self, name="main", prefix="hio", level=logging.CRITICAL, **kwa):
        self.name = name
        self.prefix = prefix
        self.level = level
        self.path = None
        self.opened = False

    def reopen(self, **kwa):
        self.opened = True

    def close(self, clear=False):
        self.opened = False

    def resetLevel(self, name=__name__, level=None, globally=False):
        if level is not None:
            self.level = level

    def resetLevels(self, name=__name__, level=None, globally=False):
        self.resetLevel(level=level)

    def getLogger(self, name=__name__, level=None):
        logger = logging.getLogger(name)
        logger.propagate = False
        if not logger.handlers:
            logger.addHandler(logging.NullHandler())
        logger.setLevel(self.level if level is None else level)
        return logger


def initOgler(level=logging.CRITICAL, **kwa):
    return Ogler(level=level, **{k: v for k, v in kwa.items() if k in ("name", "prefix")})


ogler = None
