import enum


class Encoding(enum.Enum):
    PEM = "PEM"
    DER = "DER"
    OpenSSH = "OpenSSH"
    Raw = "Raw"
    X962 = "ANSI X9.62"


class PublicFormat(enum.Enum):
    OpenSSH = "OpenSSH"
    Raw = "Raw"
    CompressedPoint = "X9.62 Compressed Point"
    UncompressedPoint = "X9.62 Uncompressed Point"


class PrivateFormat(enum.Enum):
    OpenSSH = "OpenSSH"
    PKCS8 = "PKCS8"
    Raw = "Raw"


class NoEncryption:
    pass
