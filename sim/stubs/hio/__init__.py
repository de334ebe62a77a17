"""Simulation stand-in for hio 0.7.x: cooperative scheduler (virtual time),
filing (contained under a scratch root), decks, loggers and a simulated
in-process network in place of sockets.  Only what keri uses."""
__version__ = "0.7.19"
from . import base, help, core
