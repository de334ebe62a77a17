"""An issuer's wallet with the classes the vc commands use."""
import hashlib
import pysodium
from collections import deque
from types import SimpleNamespace
with contextlib.redirect_stdout(io.StringIO()):
    from keri.app import habbing
    from keri.core import scheming
    from keri.vdr import eventing as vdr, verifying, credentialing
pysodium.crypto_pwhash = lambda outlen, passwd, salt, opslimit, memlimit, alg=2: hashlib.shake_256(bytes(salt) + (passwd.encode() if hasattr(passwd, "encode") else bytes(passwd))).digest(outlen)
_sch = {"$id": "", "$schema": "http://json-schema.org/draft-07/schema#", "title": "t", "type": "object", "properties": {"a": {"type": "object"}}}
_, _sch = coring.Saider.saidify(sad=_sch, label="$id")
SCHEMA = scheming.Schemer(sed=_sch)


def issuer(wits=0):
    h = SimpleNamespace()
    h.hby = habbing.Habery(name="me", base="", temp=False, headDirPath=ROOT, salt=signing.Salter(raw=b"0123456789abcdef").qb64, tier="low", clear=False)
    h.hab = h.hby.habByName("me") or h.hby.makeHab(name="me", icount=1, isith="1", ncount=1, nsith="1", wits=[wpre(wid(i)) for i in range(wits)], toad=wits, version=V1)
    h.reger = vdr.Reger(name="me", base="", temp=False, headDirPath=ROOT, reopen=True, db=h.hby.db)
    h.rgy = credentialing.Regery(hby=h.hby, name="me", reger=h.reger)
    h.vry = verifying.Verifier(hby=h.hby, reger=h.reger)
    h.rgr = credentialing.Registrar(hby=h.hby, rgy=h.rgy, counselor=SimpleNamespace(complete=lambda *a, **k: False))
    h.rgr.receiptor = SimpleNamespace(msgs=deque(), cues=deque())
    h.crd = credentialing.Credentialer(hby=h.hby, rgy=h.rgy, registrar=h.rgr, verifier=h.vry)
    h.hby.db.schema.pin(SCHEMA.said, SCHEMA)
    return h


def anchor(h, serder):
    with contextlib.redirect_stdout(io.StringIO()):
        return serdering.SerderKERI(raw=bytes(h.hab.interact(data=[dict(i=serder.pre, s=serder.snh, d=serder.said)], framed=True)))


def registry(h, name="r"):
    with contextlib.redirect_stdout(io.StringIO()):
        r = h.rgy.makeRegistry(name=name, prefix=h.hab.pre, noBackers=True, version=V1, kind="JSON")
        h.rgr.incept(iserder=r.vcp, anc=anchor(h, r.vcp))
    turn(h)
    return r


def credential(h, name="r", source=None, n=0):
    with contextlib.redirect_stdout(io.StringIO()):
        return h.crd.create(regname=name, recp=None, schema=SCHEMA.said, source=source, rules=None, data=dict(n=n, dt="2026-01-01T00:00:00.000000+00:00"))


def issue(h, r, c):
    with contextlib.redirect_stdout(io.StringIO()):
        s = r.issue(said=c.said, dt="2026-01-02T00:00:00.000000+00:00")
        a = anchor(h, s)
        h.crd.issue(c, s)
        h.rgr.issue(c, s, a)
    return s


def turn(h, n=3):
    with contextlib.redirect_stdout(io.StringIO()):
        for _ in range(n):
            h.hby.kvy.processEscrows()
            h.rgy.processEscrows()
            h.vry.processEscrows()
            registrar(h)
            h.crd.processEscrows()


def registrar(h):
    with contextlib.redirect_stdout(io.StringIO()):
        h.rgr.processEscrows()
        while h.rgr.receiptor.msgs:
            h.rgr.receiptor.cues.append(h.rgr.receiptor.msgs.popleft())
        while h.rgr.witPub.msgs:
            h.rgr.witPub.cues.append(h.rgr.witPub.msgs.popleft())
