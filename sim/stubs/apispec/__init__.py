from . import yaml_utils, core
from .core import APISpec
