class Ed25519PrivateKey:
    @classmethod
    def from_private_bytes(cls, raw):
        raise NotImplementedError("simulation stub")


class Ed25519PublicKey(Ed25519PrivateKey):
    pass
