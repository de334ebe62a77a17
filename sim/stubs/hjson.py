"""HJSON stand-in: JSON is a subset of HJSON, and keri only reads back what it wrote."""
import json
import re


def dumps(obj, **kwa):
    return json.dumps(obj, indent=2)


def loads(s, **kwa):
    if isinstance(s, (bytes, bytearray)):
        s = bytes(s).decode("utf-8")
    return json.loads(s)
