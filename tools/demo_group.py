"""Wallets with group support, as an agent wires them."""
import hashlib
import pysodium
from types import SimpleNamespace
with contextlib.redirect_stdout(io.StringIO()):
    from keri.app import habbing, grouping, notifying, signaling
    from keri.peer import exchanging
pysodium.crypto_pwhash = lambda outlen, passwd, salt, opslimit, memlimit, alg=2: hashlib.shake_256(bytes(salt) + (passwd.encode() if hasattr(passwd, "encode") else bytes(passwd))).digest(outlen)


def wallets(n):
    hs = []
    for i in range(n):
        h = SimpleNamespace()
        d = os.path.join(ROOT, f"m{i}")
        h.hby = habbing.Habery(name=f"m{i}", base="", temp=False, headDirPath=d, salt=signing.Salter(raw=b"0123456789abcd%02d" % i).qb64, tier="low", clear=False)
        noter = notifying.Noter(name=f"m{i}", headDirPath=d, reopen=True, temp=False)
        h.mux = grouping.Multiplexor(h.hby, notifying.Notifier(h.hby, signaler=signaling.Signaler(), noter=noter))
        h.exc = exchanging.Exchanger(hby=h.hby, handlers=[])
        grouping.loadHandlers(h.exc, h.mux)
        h.kvy = eventing.Kevery(db=h.hby.db, lax=True, local=False)
        h.psr = parsing.Parser(framed=True, kvy=h.kvy, exc=h.exc, version=V1)
        h.hab = h.hby.makeHab(name="me", icount=1, isith="1", ncount=1, nsith="1", version=V1, kind="JSON")
        hs.append(h)
    for h in hs:
        for o in hs:
            if o is not h:
                take(h, bytes(o.hab.msgOwnEvent(sn=0, framed=True, gvrsn=V1)))
    return hs


def take(h, raw, local=False):
    h.psr.parse(ims=bytearray(raw), local=local) if local else h.psr.parse(ims=bytearray(raw))


def group(hs):
    return SimpleNamespace(mids=[h.hab.pre for h in hs], pre=None, n=len(hs))


def join(h, g):
    gh = h.hby.makeGroupHab(group="team", mhab=h.hab, smids=list(g.mids), rmids=list(g.mids), isith=f"{g.n:x}", nsith=f"{g.n:x}", toad=0, wits=[], version=V1, kind="JSON")
    g.pre = gh.pre
    h.ghab = gh
    return gh


def exn(h, g):
    evt = h.ghab.msgOwnEvent(sn=0, allowPartiallySigned=True, framed=True, gvrsn=V1)
    x, ims = grouping.multisigInceptExn(h.hab, smids=list(g.mids), rmids=list(g.mids), icp=evt, version=V1, gvrsn=V1, kind="JSON")
    return bytes(x.raw) + bytes(ims)
