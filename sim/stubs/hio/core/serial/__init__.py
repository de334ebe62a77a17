from . import serialing
