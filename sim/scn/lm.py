"""Layer D: the LMDB database layer (keri.db.dbing.LMDBer) on simulated LMDB."""
import os
import shutil
import sys

from core import Scenario
from refdb import Bad, FAMILY, ITERS, KEYSETS, NOSEP, RefDb, WRITES, dec, enc, gen_args, norm, realargs
from refdup import DUPFAM, DUPITERS, DUPNOSEP, DUPWRITES, RefDup, gen_dup_args

ALLFAM = dict(FAMILY, **DUPFAM)
ALLITERS = ITERS | DUPITERS
ALLWRITES = WRITES | DUPWRITES
ALLNOSEP = NOSEP | DUPNOSEP
DUPS = set(DUPFAM)
SETS = ["val", "on", "ioset", "onioset"]

PROFILE = dict(
    D01=dict(kinds=SETS, emph="crud"),
    D02=dict(kinds=sorted(DUPS), emph="crud"),
    D03=dict(kinds=SETS + sorted(DUPS), emph="crash"),
    D04=dict(kinds=SETS + sorted(DUPS), emph="iter"),
    D05=dict(kinds=SETS + sorted(DUPS), emph="meta"),
)
KEYWORDS_ONLY = ()


def scratch_root():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    return os.path.join(base, f"verif-sim-{os.getpid()}")


class St:
    def __init__(self, name, kind, sep):
        self.name, self.kind, self.sep = name, kind, sep
        self.ref = RefDup(kind, sep=sep) if kind in DUPS else RefDb(sep=sep)
        self.sub = None


class Lm(Scenario):
    name = "LMDBer on simulated LMDB"
    components_real = ("keri.db.dbing.LMDBer and keri.help.filing/keri.db path handling (shipped source from /repo/src)",)
    components_stub = ("lmdb (ordered map with snapshot read transactions and atomic durable write transactions)",
                       "crypto and scheduler libraries imported by keri (not exercised)")
    assumptions = (
        "an LMDB write transaction is atomic and durable once its commit returned; read transactions see one snapshot",
        "keys are non-empty byte strings that do not themselves end in separator+32 hex digits",
        "values of duplicate-key families are non-empty (LMDB sorts them as keys)",
    )
    rule = ("each run draws store families, key sets, an operation history, and where the process dies or a transaction "
            "fails, from the seed; non-trivial = a crash or failed transaction happened inside an operation while "
            "entries were present, or an iterator was stepped across a change")
    probes = ("probe:crash_inside_op", "probe:failed_txn", "probe:iter_across_change", "probe:recovered_nonempty",
              "probe:op_applied_despite_crash")

    def setup(self):
        global LMDBer, lmdb, filing
        import boot
        boot.install()
        import logging
        logging.disable(logging.CRITICAL)
        import lmdb
        from hio.base import filing
        from keri.db.dbing import LMDBer

    def plan(self, rng, tier):
        prof = PROFILE[self.prop]
        emph, kinds = prof["emph"], prof["kinds"]
        nst = rng.choice([1, 1, 2, 3])
        skinds = [rng.choice(kinds) for _ in range(nst)]
        keys = KEYSETS[rng.randrange(len(KEYSETS))]
        if rng.random() < 0.3:
            keys = keys[:2]
        inter = any(len(k) > 30 for k in keys)  # entries of such keys interleave, which sets without ordinals do not support
        if inter and ("ioset" in skinds or "onioset" in skinds):
            inter, keys = False, KEYSETS[0]
        sibs = any(a != b and b.startswith(a + x) for a in keys for b in keys for x in (b".", b"|", b"/"))
        vals = [bytes([97 + i]) * (i % 3 + 1) for i in range(rng.choice([3, 5, 8]))] + [b"\x00\xff{\"}"]
        w = dict(call=10.0, crash=0.3, err=0.3, reopen=0.2, ver=0.1, iter=0.1, next=0.3)
        if emph == "crash":
            w.update(crash=2.0, err=1.0)
        elif emph == "iter":
            w.update(iter=1.0, next=6.0)
        elif emph == "meta":
            w.update(reopen=1.5, ver=1.5, crash=1.5)
        for f in ("crash", "err", "reopen"):
            if rng.random() < 0.2:
                w[f] = 0.0
        names = sorted(w)
        cum = [w[n] for n in names]
        ops = []
        for _ in range(rng.choice([8, 16, 30, 50, 80]) if tier == "quick" else rng.choice([8, 20, 50, 100, 200])):
            kind = rng.choices(names, cum)[0]
            s = rng.randrange(nst)
            if kind in ("call", "iter"):
                fam = ALLFAM[skinds[s]]
                if kind == "iter":
                    fam = [m for m in fam if m in ALLITERS]
                elif emph == "crash":
                    fam = [m for m in fam if m in ALLWRITES] + fam[:2]
                m = rng.choice(fam)
                if m == "remTop" and rng.random() < 0.6:
                    m = fam[0]
                if skinds[s] in DUPS:
                    a = gen_dup_args(rng, m, keys, vals)
                else:
                    a = gen_args(rng, m, keys, vals, maxon_ok=not sibs and rng.random() < 0.3,
                                 empty_ok=not (inter and "Last" in m))
                ops.append([kind, s, m, a])
            elif kind == "next":
                ops.append(["next", rng.randrange(4)])
            elif kind == "crash":
                ops.append(["crash", rng.choice(["begin", "write", "write", "commit", "committed"]), rng.randrange(1, 6)])
            elif kind == "err":
                ops.append(["err", rng.choice(["begin", "write", "commit", "commit"]), rng.randrange(1, 5),
                            rng.choice(["MapFullError", "DiskError"])])
            elif kind == "reopen":
                ops.append(["reopen", rng.randrange(2)])
            elif kind == "ver":
                ops.append(["ver", rng.choice(["1.0.0", "2.1.3", "0.0.1"])])
        boot = [rng.choice(["begin", "write", "commit", "committed"]), 1] if emph == "meta" and rng.random() < 0.4 else None
        return dict(boot=boot, head=int(rng.random() < 0.5), kinds=skinds, seps=[rng.choice([".", ".", ".", "|", "/"]) for _ in skinds], ops=ops)

    def execute(self, plan, ctx):
        root = scratch_root()
        os.makedirs(root, exist_ok=True)
        filing.SIM_ROOT = root
        lmdb.SIM.reset()
        try:
            _Run(self, plan, ctx, root).go()
        finally:
            lmdb.SIM.crash()
            lmdb.SIM.reset()
            shutil.rmtree(root, ignore_errors=True)


class _Run:
    def __init__(self, scn, plan, ctx, root):
        self.scn, self.plan, self.ctx, self.root = scn, plan, ctx, root
        self.sts = [St(f"s{i}.", k, x.encode()) for i, (k, x) in enumerate(zip(plan["kinds"], plan["seps"]))]
        self.head = os.path.join(root, "custom") if plan["head"] else None
        self.db = None
        self.iters = []
        self.ver = None
        self.armed = None

    # -- faults
    def hook(self, kind, env):
        a = self.armed
        if a is None or a["kind"] != kind:
            return
        a["n"] -= 1
        if a["n"] > 0:
            return
        self.armed = None
        a["fired"] = True
        if a["what"] == "crash":
            raise lmdb.SimCrash(kind)
        raise getattr(lmdb, a["err"])("simulated")

    def open(self):
        self.db = LMDBer(name="sim", base="", temp=False, headDirPath=self.head, reopen=True)
        self.subs()

    def subs(self):
        for st in self.sts:
            st.sub = self.db.env.open_db(key=st.name.encode(), dupsort=st.kind in DUPS)

    def dump(self, st):
        a, self.armed = self.armed, None       # observation is not subject to faults
        out = [(bytes(k), bytes(v)) for k, v in self.db.getTopItemIter(st.sub, b"")]
        self.armed = a
        return out

    def die(self):
        """The process is gone; only committed transactions remain.  Open again."""
        self.iters = []
        lmdb.SIM.crash()
        if self.db is not None:
            self.db.env = None
        self.db = None
        a, self.armed = self.armed, None
        self.open()
        self.armed = a

    def resync(self, st):
        got = self.dump(st)
        if st.kind in DUPS:
            e = {}
            for k, v in got:
                on = ion = None
                if st.kind == "oniodup":
                    k, x = k.rsplit(st.sep, 1)
                    on = int(x, 16)
                if st.kind != "dup":
                    ion, v = int(v[:32], 16), v[33:]
                e.setdefault((k, on), []).append((ion, v))
            st.ref = RefDup(st.kind, e, st.sep)
            return
        e = {}
        for k, v in got:
            on = ion = None
            if st.kind in ("ioset", "onioset"):
                k, x = k.rsplit(st.sep, 1)
                ion = int(x, 16)
            if st.kind in ("on", "onioset"):
                k, x = k.rsplit(st.sep, 1)
                on = int(x, 16)
            e[(k, on, ion)] = v
        st.ref = RefDb(e, st.sep)

    def do_call(self, st, m, a):
        ctx = self.ctx
        args = realargs(a)
        if not args.get("key", b"x") and m in ("putVal", "setVal", "getVal", "remVal", "delVal"):
            return        # KeyError either way; which calls raise it is not part of the property
        if m == "getOnItem" and st.ref.getOnVal(**args) == b"":
            return
        if m == "delVal" and not hasattr(self.db, m):
            m = "remVal"
        kw = {} if st.sep == b"." or m in ALLNOSEP else dict(sep=st.sep)
        before = st.ref.copy()
        try:
            want, bad = norm(getattr(st.ref, m)(**args)), None
        except Bad as b:
            want, bad = None, b.types
        a_ = self.armed
        try:
            got, err = norm(getattr(self.db, m)(st.sub, **args, **kw)), None
        except lmdb.SimCrash as ex:
            got, err = None, ex
        except Exception as ex:
            got, err = None, ex
        fired = a_ is not None and a_.get("fired")
        ctx.hit("op:" + m)
        ctx.ev("call", st.name, m, a, got, type(err).__name__ if err else None)
        write = m in ALLWRITES
        if fired:
            ctx.hit(f"fault:{a_['what']}_{a_['kind']}")
            if before.dump():
                ctx.hit("nontrivial")
        if fired and a_["what"] == "crash":
            ctx.hit("probe:crash_inside_op")
            self.die()
            self.after_fault(st, m, a, before, must=a_["kind"] == "committed" and write)
            return
        if fired:
            ctx.hit("probe:failed_txn")
            ctx.check(err is not None, "atomic", f"{m}:error-swallowed",
                      lambda: f"{m}({a}) returned {got!r} although its {a_['kind']} failed with {a_['err']}")
            self.after_fault(st, m, a, before, must=False)
            return
        if bad is not None:
            ctx.check(isinstance(err, bad), "model", f"{m}:no-error",
                      lambda: f"{m}({a}) should raise {bad}, returned {got!r} / raised {err!r}")
        elif err is not None:
            ctx.fail("model", f"{m}:{type(err).__name__}", f"{m}({a}) sep={st.sep} raised {type(err).__name__}: {err}; model says {want!r}")
        else:
            ctx.check(got == want, "model", f"{m}:result", lambda: f"{m}({a}) sep={st.sep} returned {got!r}, model says {want!r}; "
                      f"content {before.dump()!r}")
        if write:
            now = self.dump(st)
            if not ctx.check(now == st.ref.dump(), "model", f"{m}:content",
                             lambda: f"after {m}({a}) store holds {now!r}, model {st.ref.dump()!r}"):
                self.resync(st)
            self.others(st, m)

    def others(self, st, m):
        for s2 in self.sts:
            if s2 is not st:
                now = self.dump(s2)
                self.ctx.check(now == s2.ref.dump(), "isolation", f"{m}:leak",
                               lambda: f"{m} on {st.name} changed {s2.name}: {now!r} was {s2.ref.dump()!r}")

    def after_fault(self, st, m, a, before, must):
        """An interrupted operation happened entirely or not at all; the others' content is intact."""
        ctx = self.ctx
        now = self.dump(st)
        new, old = st.ref.dump(), before.dump()
        if now:
            ctx.hit("probe:recovered_nonempty")
        if now == new and new != old:
            ctx.hit("probe:op_applied_despite_crash")
        if must:
            ctx.check(now == new, "durable", f"{m}:committed-lost",
                      lambda: f"{m}({a}) committed before the crash, store holds {now!r}, expected {new!r}")
        ctx.check(now in (new, old), "atomic", f"{m}:partial",
                  lambda: f"interrupted {m}({a}) left {now!r}; before {old!r}, after {new!r}")
        if now != new:
            if now == old:
                st.ref = before
            else:
                self.resync(st)
        self.others(st, m)

    # -- iterators
    def do_next(self, i):
        if not self.iters:
            return
        it = self.iters[i % len(self.iters)]
        if it["want"] is None:
            it["want"] = norm(getattr(it["st"].ref, it["m"])(**it["args"]))
            it["at"] = it["st"].ref.dump()
        m = it["m"]
        try:
            x = norm(next(it["gen"]))
        except StopIteration:
            self.iters.remove(it)
            if it["st"].ref.dump() != it["at"]:
                self.ctx.hit("probe:iter_across_change")
                self.ctx.hit("nontrivial")
            self.ctx.ev("end", m, len(it["out"]))
            self.ctx.check(it["out"] == it["want"], "iter", f"{m}:snapshot",
                           lambda: f"{m}({it['a']}) yielded {it['out']!r}, content when it began gives {it['want']!r}")
            return
        except Exception as ex:
            self.iters.remove(it)
            self.ctx.fail("iter", f"{m}:{type(ex).__name__}", f"{m}({it['a']}) raised {type(ex).__name__}: {ex}")
            return
        it["out"].append(x)
        self.ctx.ev("next", m, x)
        self.ctx.check(len(it["out"]) <= len(it["want"]) and x == it["want"][len(it["out"]) - 1], "iter", f"{m}:snapshot",
                       lambda: f"{m}({it['a']}) yielded {it['out']!r}, content when it began gives {it['want']!r}")

    def go(self):
        ctx = self.ctx
        import keri
        lmdb.SIM.hook = self.hook
        c = self.plan["boot"]
        if c:
            self.armed = dict(what="crash", kind=c[0], n=c[1])
            try:
                self.open()
                self.armed = None
            except lmdb.SimCrash:
                ctx.hit("fault:crash_in_first_open")
                self.die()
        else:
            self.open()
        ctx.check(self.db.version == keri.__version__, "meta", "version-initial",
                  lambda: f"fresh database has version {self.db.version!r}")
        self.ver = self.db.version
        for op in self.plan["ops"]:
            k = op[0]
            if k == "call":
                st = self.sts[op[1] % len(self.sts)]
                if op[2] in ALLFAM[st.kind]:
                    self.do_call(st, op[2], op[3])
            elif k == "crash":
                self.armed = dict(what="crash", kind=op[1], n=op[2])
            elif k == "err":
                self.armed = dict(what="err", kind=op[1], n=op[2], err=op[3])
            elif k == "iter":
                st = self.sts[op[1] % len(self.sts)]
                if op[2] in ALLFAM[st.kind]:
                    args = realargs(op[3])
                    if not args.get("key", b"x") and st.kind != "on" and op[2] in ("getOnIoSetItemIter",):
                        continue
                    if len(self.iters) >= 4:
                        self.iters.pop(0)
                    kw = {} if st.sep == b"." or op[2] in ALLNOSEP else dict(sep=st.sep)
                    self.iters.append(dict(st=st, m=op[2], a=op[3], args=args, out=[], want=None, at=None,
                                           gen=iter(getattr(self.db, op[2])(st.sub, **args, **kw))))
            elif k == "next":
                a, self.armed = self.armed, None      # faults aim at calls
                self.do_next(op[1])
                self.armed = a
            elif k == "reopen":
                self.iters = []
                if self.armed is None or self.armed["what"] != "crash":
                    self.armed = None
                if self.armed is not None:
                    try:
                        self.db.close()
                        self.open()
                    except lmdb.SimCrash:
                        ctx.hit("fault:crash_in_open")
                        self.die()
                elif op[1]:
                    self.db.close()
                    self.open()
                else:
                    self.db.reopen()
                    self.subs()
                ctx.hit("op:reopen")
                self.meta()
                for st in self.sts:
                    now = self.dump(st)
                    ctx.check(now == st.ref.dump(), "durable", "reopen:lost",
                              lambda: f"after reopen {st.name} holds {now!r}, expected {st.ref.dump()!r}")
                    if now:
                        ctx.hit("probe:recovered_nonempty")
            elif k == "ver":
                self.set_version(op[1])
        self.armed = None
        for _ in range(4000):
            if not self.iters:
                break
            self.do_next(0)
        else:
            ctx.fail("iter", f"{self.iters[0]['m']}:endless", "an iterator did not end")
        self.die()
        self.meta()
        for st in self.sts:
            now = self.dump(st)
            ctx.check(now == st.ref.dump(), "durable", "crash:lost",
                      lambda: f"after the final crash {st.name} holds {now!r}, expected {st.ref.dump()!r}")
        ctx.state(tuple(tuple(st.ref.dump()) for st in self.sts))

    def set_version(self, v):
        ctx = self.ctx
        a = self.armed
        err = None
        try:
            self.db.version = v
        except lmdb.SimCrash as ex:
            err = ex
        except lmdb.Error as ex:
            err = ex
        ctx.ev("ver", v, type(err).__name__ if err else None)
        self.armed, a2 = None, self.armed
        if err is None:
            self.ver = v
            ctx.check(self.db.version == v and self.db.getVer() == v, "meta", "version-readback",
                      lambda: f"version reads {self.db.version!r}/{self.db.getVer()!r} after setting {v!r}")
        else:
            ctx.hit(f"fault:{a['what']}_{a['kind']}")
            if isinstance(err, lmdb.SimCrash):
                self.die()
            got = self.db.getVer()
            ctx.check(got in (self.ver, v), "meta", "version-torn", lambda: f"version {got!r}, was {self.ver!r}, being set {v!r}")
            self.ver = got
            self.db._version = None
        for st in self.sts:
            now = self.dump(st)
            ctx.check(now == st.ref.dump(), "isolation", "version-leak", "setting the version changed a store")
        self.armed = a2

    def meta(self):
        a, self.armed = self.armed, None
        try:
            self._meta()
        finally:
            self.armed = a

    def _meta(self):
        got = (self.db.version, self.db.getVer())
        self.ctx.check(got == (self.ver, self.ver), "meta", "version-lost", lambda: f"version {got!r}, last set {self.ver!r}")


FACETS = dict(
    D01=("model", "isolation", "durable", "exception", "hang"),
    D02=("model", "isolation", "durable", "exception", "hang"),
    D03=("atomic", "durable", "isolation", "exception", "hang"),
    D04=("iter", "exception", "hang"),
    D05=("meta", "isolation", "durable", "exception", "hang"),
)


def make(prop):
    return Lm(prop, FACETS[prop])
