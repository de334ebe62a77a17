from . import tyming, doing, filing
from .tyming import Tymist, Tymee, Tymer
from .doing import Doist, Doer, DoDoer
from .filing import Filer, openFiler
