from . import mnemonic
