import contextlib, io, os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ["VERIF_REPO"] = os.getcwd()
sys.path.insert(0, os.path.join(HERE, "sim"))
os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
import kelworld as kw
with contextlib.redirect_stdout(io.StringIO()):
    kw.setup()
from kelworld import signer, wid, wpre
eventing, parsing, kering, lmdb, filing, CLOCK, coring, basing = (kw.eventing, kw.parsing, kw.kering, kw.lmdb, kw.filing, kw.CLOCK, kw.coring, kw.basing)
from keri.core import routing, serdering, structing, indexing, signing
ROOT = tempfile.mkdtemp(prefix="demo-")
filing.SIM_ROOT = ROOT
lmdb.SIM.reset()
CLOCK.reset()
V1, V2 = kering.Vrsn_1_0, kering.Vrsn_2_0


def done(ok, what):
    lmdb.SIM.reset()
    shutil.rmtree(ROOT, ignore_errors=True)
    print("ok" if ok else "BROKEN: " + what)
    sys.exit(0 if ok else 1)


def baser(name="n"):
    return basing.Baser(name=name, temp=False, headDirPath=os.path.join(ROOT, name), reopen=True)


def keys(*kids):
    return [signer(k).verfer.qb64 for k in kids]


def digs(*kids):
    return [kw.kdig(k) for k in kids]


def sigs(serder, *kids):
    return [signer(k).sign(serder.raw, index=i) for i, k in enumerate(kids)]


def wigs(serder, wits):
    return [signer(wid(w), False).sign(serder.raw, index=i) for i, w in wits]


def msg(serder, sigers, **kwa):
    return bytes(eventing.messagize(serder, sigers=sigers, framed=True, gvrsn=V1, **kwa))


def node(db, local=False, lax=True):
    rtr = routing.Router()
    rvy = routing.Revery(db=db, rtr=rtr, lax=lax, local=local)
    kvy = eventing.Kevery(db=db, lax=lax, local=False, rvy=rvy)
    kvy.registerReplyRoutes(router=rtr)
    return kvy, rvy, parsing.Parser(framed=True, kvy=kvy, rvy=rvy, local=local, version=V1)


def feed(psr, raw):
    psr.parse(ims=bytearray(raw))


def crash(fn, kind, nth):
    """Run fn, the process dies at the nth database step of that kind; only durable state remains."""
    n = [nth]
    def hook(k, env):
        if k == kind:
            n[0] -= 1
            if n[0] == 0:
                raise lmdb.SimCrash(k)
    lmdb.SIM.hook = hook
    try:
        fn()
        return False
    except lmdb.SimCrash:
        return True
    finally:
        lmdb.SIM.hook = None
        lmdb.SIM.crash()
