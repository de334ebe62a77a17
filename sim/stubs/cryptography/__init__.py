__version__ = "50.0.0"
from . import exceptions
