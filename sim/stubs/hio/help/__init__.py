from . import decking, hicting, ogling, timing
from .decking import Deck
from .hicting import Hict, Mict
from .timing import Timer, MonoTimer
ogler = ogling.initOgler(prefix="hio", syslogged=False)
