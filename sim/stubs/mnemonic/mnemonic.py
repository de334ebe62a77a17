import hashlib
import pysodium


class Mnemonic:
    def __init__(self, language="english"):
        pass

    def generate(self, strength=128):
        raw = pysodium.randombytes(strength // 8)
        return " ".join(hashlib.sha256(raw + bytes([i])).hexdigest()[:6] for i in range(strength * 12 // 128))
