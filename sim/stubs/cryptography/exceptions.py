class InvalidSignature(Exception):
    pass
