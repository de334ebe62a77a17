"""Layer A: the browser database (keri.db.webdbing) on simulated asynchronous storage."""
import sys

import refdb
from core import Abandon, Scenario, Violation
from refdb import Bad, FAMILY, ITERS, KEYSETS, NOSEP, RefDb, WRITES, dec, enc, gen_args, norm, realargs
from webstore import Disk, Tasks

# properties -> (store families, facets, workload emphasis)
PROFILE = dict(
    W01=dict(kinds=["val", "on", "ioset", "onioset"], emph="flush"),
    W02=dict(kinds=["val", "on", "ioset", "onioset"], emph="crash"),
    W03=dict(kinds=["val", "on", "ioset", "onioset"], emph="conc"),
    W04=dict(kinds=["val"], emph="crud"),
    W05=dict(kinds=["on"], emph="crud"),
    W06=dict(kinds=["ioset"], emph="crud"),
    W07=dict(kinds=["onioset"], emph="crud"),
    W08=dict(kinds=["val", "ioset"], emph="meta"),
    W09=dict(kinds=["val", "on", "ioset", "onioset"], emph="iso"),
    W10=dict(kinds=["val", "on", "ioset", "onioset"], emph="iter"),
)


class Dber:
    """Model of one open WebDBer."""

    def __init__(self, name, stores):
        self.name = name
        self.stores = stores          # store name -> St (shared with the durable model)
        self.obj = None
        self.flushes = []


class St:
    """History of one persisted store: states[v] is the content after v mutations."""

    def __init__(self, kind, sep=b"."):
        self.kind = kind
        self.sep = sep
        self.ref = RefDb(sep=sep)
        self.states = [[]]
        self.base = 0               # versions >= base are allowed after a crash
        self.flag = None            # dupsort latched and acknowledged
        self.memflag = None         # latched in this session
        self.sub = None
        self.maybe = False          # an interrupted clear may have emptied it
        self.ver_lo = None

    @property
    def v(self):
        return len(self.states) - 1


class Web(Scenario):
    name = "webdber on simulated async storage"
    components_real = ("keri.db.webdbing.WebDBer/WebEnv/SubDb (shipped source from /repo/src)", "asyncio tasks and futures",
                       "ordered_set, sortedcontainers")
    components_stub = ("pyscript.storage handle (simulated write queue + durable map)", "event-loop wake-ups (seeded)")
    assumptions = (
        "storage applies queued writes of one namespace in order; one assignment is durable or not as a whole",
        "one live database handle per namespace; the process dies as a whole",
        "keys are non-empty byte strings that do not themselves end in separator+32 hex digits",
    )
    rule = ("each run draws store families, key sets, an operation history and a schedule of sync completions, sync "
            "failures, crashes and reopens from the seed; non-trivial = at least one flush and one crash/reopen or "
            "failed/overlapping flush happened while entries were present")
    probes = ("probe:write_during_flush", "probe:overlapping_flush", "probe:recovered_nonempty", "probe:failed_sync",
              "probe:crash_midflush", "probe:unflushed_lost", "probe:iter_mutated")

    def setup(self):
        global webdbing
        import boot
        sys.path.insert(0, boot.STUBS)
        if boot.VT not in sys.path:
            sys.path.append(boot.VT)
        import importlib.util
        import os
        spec = importlib.util.spec_from_file_location("webdbing", os.path.join(boot.SRC, "keri", "db", "webdbing.py"))
        webdbing = importlib.util.module_from_spec(spec)
        sys.modules["webdbing"] = webdbing
        spec.loader.exec_module(webdbing)

    # ------------------------------------------------------------------ plan
    def plan(self, rng, tier):
        prof = PROFILE[self.prop]
        emph = prof["emph"]
        kinds = prof["kinds"]
        nst = rng.choice([1, 1, 2, 3]) if emph != "iso" else rng.choice([2, 3, 4])
        stores = [f"s{i}." if rng.random() < 0.5 else f"st{i}" for i in range(nst)]
        skinds = [rng.choice(kinds) for _ in stores]
        dbers = ["w"] if emph not in ("iso", "conc") else rng.choice([["w"], ["w", "wx"], ["w", "v"]])
        keyset = rng.randrange(len(KEYSETS))
        if any(k in ("ioset", "onioset") for k in skinds) and any(len(k) > 30 for k in KEYSETS[keyset]):
            keyset = 0   # ordered sets at keys that end in ordinals interleave, which they do not support
        nops = rng.choice([8, 16, 30, 50, 80]) if tier == "quick" else rng.choice([8, 20, 50, 100, 200])
        vals = [enc(bytes([97 + i]) * (i % 3 + 1)) for i in range(rng.choice([3, 5, 8]))] + [enc(b"\x00\xff{\"}")]
        if rng.random() < 0.3:
            vals.append("")
        w = dict(call=10.0, flush=1.0, step=2.0, fail=0.3, crash=0.25, reopen=0.2, opendb=0.2, ver=0.1, iter=0.0,
                 next=0.0, clear=0.02, autoflush=0.3)
        if emph == "flush":
            w.update(flush=2.0, step=4.0, autoflush=1.5, crash=0.8)
        elif emph == "crash":
            w.update(flush=2.0, step=3.0, crash=1.5, fail=0.8)
        elif emph == "conc":
            w.update(flush=2.5, step=3.0, fail=1.0, crash=0.5)
        elif emph == "meta":
            w.update(call=4.0, opendb=2.0, ver=1.5, reopen=1.0, clear=0.3, flush=1.5, step=3.0, crash=0.8)
        elif emph == "iso":
            w.update(reopen=0.5, clear=0.25)
        elif emph == "iter":
            w.update(iter=1.0, next=6.0, flush=0.2, step=0.4, crash=0.05, fail=0.05)
        # swarm: switch fault kinds off per run
        for f in ("fail", "crash", "reopen", "clear"):
            if rng.random() < 0.25:
                w[f] = 0.0
        if rng.random() < 0.15:
            for f in ("fail", "crash"):
                w[f] = 0.0
        names = sorted(w)
        cum = [w[n] for n in names]
        keys = KEYSETS[keyset]
        if rng.random() < 0.3:
            keys = keys[:2]
        sibs = any(a != b and b.startswith(a + x) for a in keys for b in keys for x in (b".", b"|", b"/", b"-", b":", b"_"))
        ops = []
        live = 0
        for _ in range(nops):
            kind = rng.choices(names, cum)[0]
            d = rng.randrange(len(dbers))
            s = rng.randrange(nst)
            if kind == "call":
                m = rng.choice(FAMILY[skinds[s]])
                if m == "remTop" and rng.random() < 0.7:
                    m = FAMILY[skinds[s]][0]
                a = gen_args(rng, m, keys, [dec(v) for v in vals], maxon_ok=not sibs and rng.random() < 0.3,
                             empty_ok=True)
                ops.append(["call", d, s, m, a])
            elif kind == "flush":
                ops.append(["flush", d])
            elif kind == "autoflush":
                ops.append(["autoflush", d])
            elif kind == "step":
                ops.append(["step", rng.randrange(8)])
            elif kind == "fail":
                ops.append(["fail", rng.randrange(8), rng.randrange(3)])
            elif kind == "crash":
                ops.append(["crash", [rng.randrange(4) for _ in range(6)]])
            elif kind == "reopen":
                ops.append(["reopen", d, int(rng.random() < 0.1)])
            elif kind == "clear":
                if rng.random() < 0.5:
                    ops.append(["reopen", d, 1])
                else:
                    ops.append(["cutclear", d, rng.randrange(6), [rng.randrange(3) for _ in range(8)]])
            elif kind == "opendb":
                ops.append(["opendb", d, s, int(rng.random() < 0.5), int(rng.random() < 0.5)])
            elif kind == "ver":
                ops.append(["ver", d, rng.choice(["1.0.0", "2.1.3", "0.0.1"]), int(rng.random() < 0.2)])
            elif kind == "iter":
                its = [m for m in FAMILY[skinds[s]] if m in ITERS]
                m = rng.choice(its)
                ops.append(["iter", d, s, m, gen_args(rng, m, keys, [dec(v) for v in vals], maxon_ok=False,
                                                      empty_ok=False)])
            elif kind == "next":
                ops.append(["next", rng.randrange(4)])
            if emph == "crud" and rng.random() < 0.02:
                ops.append(["keys", enc(rng.choice(KEYSETS[keyset])), rng.choice([0, 1, 9, 10, 255, 1 << 40]),
                            rng.choice([".", "|", "-"]), rng.randrange(3), rng.randrange(2)])
        return dict(stores=stores, kinds=skinds, dbers=dbers, ops=ops, dup=[int(rng.random() < 0.4) for _ in stores],
                    seps=[rng.choice([".", ".", ".", ".", "|", "/", "-", ":", "_"]) for _ in stores],
                    payload=rng.choice(["str", "str", "bytes", "dict", "view"]),
                    undeclared=int(rng.random() < 0.3), openwait=int(rng.random() < 0.3),
                    final=rng.choice(["flushcrash", "crash", "flush"]))

    # --------------------------------------------------------------- execute
    def execute(self, plan, ctx):
        try:
            _Run(self, plan, ctx).go()
        finally:
            pass


class _Run:
    def __init__(self, scn, plan, ctx):
        self.scn, self.plan, self.ctx = scn, plan, ctx
        self.disk = Disk()
        self.tasks = Tasks()
        self.disk.loop = self.tasks.loop
        self.disk.payload = plan["payload"]
        self.disk.open_waits = bool(plan["openwait"])
        self.ds = [Dber(n, {s: St(k, x.encode()) for s, k, x in zip(plan["stores"], plan["kinds"], plan["seps"])}) for n in plan["dbers"]]
        self.vers = [dict(mem=None, allowed={None}) for _ in self.ds]
        self.iters = []

    # ---- helpers
    def kw(self, st, m):
        return {} if st.sep == b"." or m in NOSEP else dict(sep=st.sep)

    def dump(self, d, st):
        return [(bytes(k), bytes(v)) for k, v in d.obj.getTopItemIter(st.sub, b"")]

    def open(self, d, clear=False):
        plan, ctx = self.plan, self.ctx
        WebDBer = webdbing.WebDBer
        try:
            d.obj = self.tasks.finish(WebDBer.open(name=d.name, stores=list(plan["stores"]), clear=clear,
                                                   storageOpener=self.disk.opener), self.disk)
        except (RuntimeError, Violation):
            raise
        except Exception as ex:
            ctx.fail("recover", f"open:{type(ex).__name__}",
                     f"database {d.name} cannot be opened after this history: {type(ex).__name__}: {ex}")
            raise
        self.reap()
        for i, (s, st) in enumerate(d.stores.items()):
            if clear:
                st.ref, st.states, st.base, st.flag, st.memflag = RefDb(sep=st.sep), [[]], 0, None, None
            want = bool(plan["dup"][i])
            st.sub = d.obj.env.open_db(s.encode() if i % 2 else s, dupsort=want)
            got = self.dump(d, st)
            # find which historic state we recovered
            ok = None
            for v in range(st.v, st.base - 1, -1):
                if st.states[v] == got:
                    ok = v
                    break
            facet = "durable"
            if ok is None:
                older = any(x == got for x in st.states[:st.base])
                ctx.fail("durable" if older else "atomic",
                         "lost-acknowledged" if older else "mixed-state",
                         lambda: f"store {d.name}:{s} recovered {len(got)} entries {got[:4]} which is "
                                 + ("older than the last acknowledged flush" if older else "no state it ever had")
                                 + f"; acknowledged state {st.states[st.base][:4]}, latest {st.states[st.v][:4]}")
                # facet not enabled for this property: resynchronise
                st.states = [got]
                ok = 0
                st.ref = self.reparse(st, got)
            else:
                ctx.evals += 1
                if got:
                    ctx.hit("probe:recovered_nonempty")
                if ok < st.v:
                    ctx.hit("probe:unflushed_lost")
            st.states = [st.states[ok]]
            st.base = 0
            st.ref = self.reparse(st, got)
            fl = st.sub.flags().get("dupsort")
            if st.maybe and not got:
                ctx.check(fl in (want, st.flag, st.memflag), "meta", "dupsort-after-clear",
                          lambda: f"store {d.name}:{s} dupsort {fl} after interrupted clear")
                st.flag = None
            elif st.flag is not None:
                ctx.check(fl == st.flag, "meta", "dupsort-forgotten",
                          lambda: f"store {d.name}:{s} dupsort {fl} after reopen, latched {st.flag}")
            elif got and st.memflag is not None:
                ctx.check(fl == st.memflag, "meta", "dupsort-forgotten",
                          lambda: f"store {d.name}:{s} has records but dupsort {fl}, latched {st.memflag}")
            elif st.memflag is None:
                ctx.check(fl == want, "meta", "dupsort-initial", lambda: f"fresh store opened with {fl} wanted {want}")
            st.memflag = fl
            st.maybe = False
            ctx.ev("open", d.name, s, got, fl)
        # version
        vs = self.vers[self.ds.index(d)]
        if clear:
            vs.update(mem=None, allowed={None})
        ver = d.obj.version
        ctx.check(ver in vs["allowed"], "meta", "version-lost",
                  lambda: f"version {ver!r} after reopen, acceptable {vs['allowed']}")
        vs.update(mem=ver, allowed={ver})

    def reparse(self, st, got):
        e = {}
        kind, sep = st.kind, st.sep
        try:
            for k, v in got:
                on = ion = None
                if kind in ("ioset", "onioset"):
                    k, x = k.rsplit(sep, 1)
                    ion = int(x, 16)
                if kind in ("on", "onioset"):
                    k, x = k.rsplit(sep, 1)
                    on = int(x, 16)
                e[(k, on, ion)] = v
        except ValueError as ex:
            raise Abandon(f"store content {got[:3]} has keys no operation of its family makes: {ex}") from ex
        return RefDb(e, sep)

    def record(self, d, st, model_ok=True):
        """After a mutating call append the observed content as the next state."""
        got = self.dump(d, st)
        if got != st.states[-1]:
            st.states.append(got)
            if d.flushes:
                self.ctx.hit("probe:write_during_flush")
        return got

    # ---- op handlers
    def do_call(self, d, st, m, a):
        ctx = self.ctx
        args = realargs(a)
        key = args.get("key", b"x")
        if not key and m == "putOnVal":
            return                      # WebDBer takes an empty key here, LMDBer does not: not part of the property
        try:
            if not key and m in ("putVal", "setVal", "getVal"):
                raise Bad(KeyError)
            want = norm(getattr(st.ref, m)(**args))
            bad = None
        except Bad as b:
            want, bad = None, b.types
        try:
            got = norm(getattr(d.obj, m)(st.sub, **args, **self.kw(st, m)))
            err = None
        except Exception as ex:
            got, err = None, ex
        ctx.hit("op:" + m)
        ctx.ev("call", d.name, m, a, got, type(err).__name__ if err else None)
        if bad is not None:
            ctx.check(err is not None and isinstance(err, bad), "model", f"{m}:no-error",
                      lambda: f"{m}({a}) should raise {bad}, returned {got!r} / raised {err!r}")
        elif err is not None:
            ctx.fail("model", f"{m}:{type(err).__name__}", f"{m}({a}) raised {type(err).__name__}: {err}; model says {want!r}")
        else:
            ctx.check(got == want, "model", f"{m}:result", lambda: f"{m}({a}) returned {got!r}, model says {want!r}")
        if m in WRITES:
            dump = self.record(d, st)
            ctx.check(dump == st.ref.dump(), "model", f"{m}:content",
                      lambda: f"after {m}({a}) store holds {dump!r}, model {st.ref.dump()!r}")
            if dump != st.ref.dump():
                st.ref = self.reparse(st, dump)
            # isolation: no other store, nor other database, changed
            for d2 in self.ds:
                for s2, st2 in d2.stores.items():
                    if st2 is not st:
                        now = self.dump(d2, st2)
                        ctx.check(now == st2.states[-1], "isolation", f"{m}:leak",
                                  lambda: f"{m} on another store changed {d2.name}:{s2}: {now!r} was {st2.states[-1]!r}")
            self.watch(st, m)

    def start_flush(self, d):
        fl = dict(v={s: st.v for s, st in d.stores.items()}, ver=self.vers[self.ds.index(d)]["mem"], d=d,
                  flags={s: st.memflag for s, st in d.stores.items()}, nsync0=self.disk.nsync)
        if d.flushes:
            self.ctx.hit("probe:overlapping_flush")
            self.ctx.hit("nontrivial")
        d.flushes.append(fl)
        fl["task"] = self.tasks.start(d.obj.flush())
        self.ctx.ev("flush", d.name, len(self.disk.waiting))
        self.reap()

    def reap(self):
        """Collect flushes that returned (acknowledged) or failed."""
        for d in self.ds:
            for fl in list(d.flushes):
                t = fl["task"]
                if not t.done():
                    continue
                d.flushes.remove(fl)
                ex = t.exception()
                if ex is not None:
                    self.ctx.ev("flush-failed", d.name, type(ex).__name__)
                    if not isinstance(ex, OSError):
                        self.ctx.fail("flush", f"flush:{type(ex).__name__}", f"flush raised {type(ex).__name__}: {ex}")
                    continue
                n = t.result()
                self.ctx.ev("flush-ack", d.name, n)
                self.ctx.hit("op:flush_ack")
                self.ctx.check(isinstance(n, int) and 0 <= n <= len(d.stores) + 1, "flush", "flush-count",
                               lambda: f"flush returned {n!r} with {len(d.stores) + 1} stores")
                for s, st in d.stores.items():
                    st.base = max(st.base, fl["v"][s])
                    if fl["flags"][s] is not None:
                        st.flag = fl["flags"][s]
                vs = self.vers[self.ds.index(d)]
                # everything at or after the version seen when the flush was called is acceptable
                hist = fl.setdefault("later", set())
                vs["allowed"] = {fl["ver"], vs["mem"]} | hist

    def do_step(self, i, fail=None):
        w = self.disk.waiting
        if not w:
            return
        fut, h, upto = w.pop(i % len(w))
        if h is not None:
            # order of completion per namespace follows the queue
            if fail is None:
                h.apply(min(upto, len(h.queue)) if upto else 0)
                for k, (f2, h2, u2) in enumerate(w):
                    if h2 is h:
                        w[k] = (f2, h2, max(0, u2 - upto))
            else:
                n = min(fail, len(h.queue))
                h.apply(n)
                dropped = len(h.queue)
                h.queue = []
                for k, (f2, h2, u2) in enumerate(w):
                    if h2 is h:
                        w[k] = (f2, h2, 0)
                # writes of an overlapping flush that were queued behind are lost as well: fail it too
                doomed = [x for x in w if x[1] is h]
                w[:] = [x for x in w if x[1] is not h]
                self.ctx.hit("fault:sync_error")
                self.ctx.hit("probe:failed_sync")
                self.ctx.hit("nontrivial")
                for f2, h2, u2 in doomed:
                    if not f2.done():
                        f2.set_exception(OSError("simulated storage failure"))
        if not fut.done():
            if fail is None:
                fut.set_result(None)
            else:
                fut.set_exception(OSError("simulated storage failure"))
        self.ctx.ev("step", i, fail)
        self.tasks.spin()
        self.reap()

    def do_crash(self, picks):
        if any(d.flushes for d in self.ds):
            self.ctx.hit("probe:crash_midflush")
        self.ctx.hit("fault:crash")
        picks = list(picks)

        def choose(n):
            x = picks.pop(0) if picks else 0
            return min(x, n)
        for d in self.ds:
            for fl in d.flushes:
                pass
            d.flushes = []
        self.disk.die(choose)
        for k, v in self.disk.counts.items():
            self.ctx.hit(k, v)
        self.disk.counts = {}
        self.tasks.abandon()
        self.iters = []
        if any(st.states[-1] for d in self.ds for st in d.stores.values()):
            self.ctx.hit("nontrivial")
        for d in self.ds:
            d.obj = None
        for d in self.ds:
            self.open(d)

    def do_reopen(self, d, clear):
        # orderly shutdown: pending flushes of this database finish first
        while d.flushes and self.disk.waiting:
            self.do_step(0)
        d.obj.close()
        self.iters = [it for it in self.iters if it["d"] is not d]
        if clear:
            self.ctx.hit("op:clear")
        self.open(d, clear=bool(clear))

    def do_cutclear(self, d, steps, picks):
        """open(clear=True) is cut by a crash: each store is as it was or empty, and opens again."""
        while d.flushes and self.disk.waiting:
            self.do_step(0)
        d.obj.close()
        self.iters = [it for it in self.iters if it["d"] is not d]
        names = list(d.stores)
        t = self.tasks.start(webdbing.WebDBer.open(name=d.name, stores=names, clear=True,
                                                   storageOpener=self.disk.opener))
        for _ in range(steps):
            if not t.done():
                self.do_step(0)
        self.ctx.hit("fault:crash_in_clear")
        for st in d.stores.values():
            st.states = [x for x in st.states[st.base:] if x] + [[]]
            st.base = 0
            st.maybe = True
        self.vers[self.ds.index(d)]["allowed"].add(None)
        self.do_crash(picks)

    # ---- key making and splitting, in every argument form the module accepts
    def do_keys(self, k, n, sep, form, sepform):
        if not all(ord(c) < 128 for c in k):
            return
        key = k.encode()
        arg = (key, k, memoryview(key))[form]
        sp = sep if sepform else sep.encode()
        W = webdbing
        full = key + sep.encode() + b"%032x" % n
        as_arg = (full, full.decode(), memoryview(full))[form]
        chk = self.ctx.check
        calls = [("suffix", lambda: W.suffix(arg, n, sep=sp), full),
                 ("unsuffix", lambda: W.unsuffix(as_arg, sep=sp), (key, n)),
                 ("splitKey", lambda: W.splitKey(as_arg, sep=sp),
                  (k, "%032x" % n) if form == 1 else (key, b"%032x" % n)),
                 ("splitOnKey", lambda: W.splitOnKey(as_arg, sep=sp), (k, n) if form == 1 else (key, n)),
                 ("onKey", lambda: W.onKey(arg if form < 2 else key, n, sep=sep.encode()), full)]
        for name, fn, want in calls:
            try:
                got = fn()
            except Exception as ex:
                got = ex
            chk(got == want, "model", f"{name}:helper",
                lambda: f"{name} of {as_arg!r}/{arg!r}, {n}, sep {sp!r} gave {got!r}, expected {want!r}")
        try:
            got = W.splitKey(b"nosuchseparator", sep=b"|")
        except ValueError:
            got = None
        chk(got is None, "model", "splitKey:unsplittable", lambda: f"splitKey without a separator gave {got!r}")

    # ---- iterators under mutation
    def begin_iter(self, d, st, m, a):
        if len(self.iters) >= 4:
            self.iters.pop(0)
        args = realargs(a)
        it = dict(d=d, st=st, m=m, a=a, gen=getattr(d.obj, m)(st.sub, **args, **self.kw(st, m)), out=[], started=False, args=args,
                  back="Back" in m, muts=0)
        self.iters.append(it)

    def do_next(self, i):
        if not self.iters:
            return
        it = self.iters[i % len(self.iters)]
        st, m = it["st"], it["m"]
        if not it["started"]:
            it["started"] = True
            want = norm(getattr(st.ref, m)(**it["args"]))
            it["always"] = list(want)          # results present ever since
            it["ever"] = list(want)
        try:
            x = norm(next(it["gen"]))
        except StopIteration:
            self.end_iter(it)
            return
        except Exception as ex:
            if it["muts"]:
                self.ctx.fail("iter", f"{m}:{type(ex).__name__}",
                              f"{m}({it['a']}) raised {type(ex).__name__}: {ex} after the store was changed mid-iteration")
            else:
                self.ctx.fail("model", f"{m}:{type(ex).__name__}", f"{m}({it['a']}) raised {ex!r}")
            self.iters.remove(it)
            return
        it["out"].append(x)
        self.ctx.ev("next", m, x)
        self.ctx.check(x in it["ever"], "iter", f"{m}:phantom",
                       lambda: f"{m}({it['a']}) yielded {x!r} which was never in range during the iteration {it['ever']!r}")

    def watch(self, st, m):
        for it in self.iters:
            if it["st"] is st and it["started"]:
                now = norm(getattr(st.ref, it["m"])(**it["args"]))
                if now != it["ever"]:
                    it["muts"] += 1
                it["always"] = [x for x in it["always"] if x in now]
                it["ever"] += [x for x in now if x not in it["ever"]]

    def end_iter(self, it):
        self.iters.remove(it)
        m, out = it["m"], it["out"]
        if it["muts"]:
            self.ctx.hit("probe:iter_mutated")
            self.ctx.hit("nontrivial")
        if "Last" in m and it["muts"]:
            return      # 'last of each set' results change meaning when sets change
        missing = [x for x in it["always"] if x not in out]
        self.ctx.check(not missing, "iter", f"{m}:skipped",
                       lambda: f"{m}({it['a']}) never yielded {missing[:3]!r} although present throughout; got {out!r}")
        if "Last" not in m and m not in ("getTopIoSetItemIter", "getOnTopIoSetItemIter"):
            dup = [x for x in it["always"] if out.count(x) > 1]
            self.ctx.check(not dup, "iter", f"{m}:twice", lambda: f"{m} yielded {dup[:2]!r} more than once")
        stable = [x for x in out if x in it["always"]]
        want = [x for x in it["always"] if x in out]
        self.ctx.check(stable == want or len(set(map(repr, stable))) != len(stable), "iter", f"{m}:order",
                       lambda: f"{m} yielded {stable!r}, store order {want!r}")

    # ---- run
    def go(self):
        plan, ctx = self.plan, self.ctx
        if plan["undeclared"]:
            # a store persisted earlier but not declared this time must survive untouched
            self.disk.ns["w:other"] = {"__records__": '{"61": "62"}', "__meta__": '{"dupsort": false}'}
        for d in self.ds:
            self.open(d)
        for op in plan["ops"]:
            k = op[0]
            if k == "call":
                d = self.ds[op[1] % len(self.ds)]
                st = list(d.stores.values())[op[2] % len(d.stores)]
                if op[3] in FAMILY[st.kind]:
                    self.do_call(d, st, op[3], op[4])
            elif k == "flush":
                d = self.ds[op[1] % len(self.ds)]
                if len(d.flushes) < 3:
                    self.start_flush(d)
            elif k == "autoflush":
                d = self.ds[op[1] % len(self.ds)]
                self.start_flush(d)
                while d.flushes and self.disk.waiting:
                    self.do_step(0)
                if d.flushes and not self.disk.waiting:
                    ctx.fail("flush", "flush:stuck", "flush never returns although every storage await completed")
                    d.flushes = []
                ctx.hit("nontrivial", 0)
            elif k == "step":
                self.do_step(op[1])
            elif k == "fail":
                self.do_step(op[1], fail=op[2])
            elif k == "crash":
                self.do_crash(op[1])
            elif k == "reopen":
                self.do_reopen(self.ds[op[1] % len(self.ds)], op[2])
                ctx.hit("nontrivial")
            elif k == "cutclear":
                self.do_cutclear(self.ds[op[1] % len(self.ds)], op[2], op[3])
            elif k == "opendb":
                d = self.ds[op[1] % len(self.ds)]
                s = plan["stores"][op[2] % len(plan["stores"])]
                st = d.stores[s]
                sub = d.obj.env.open_db(s if op[4] else s.encode(), dupsort=bool(op[3]))
                ctx.check(sub.flags().get("dupsort") == st.memflag, "meta", "dupsort-changed",
                          lambda: f"open_db again changed dupsort to {sub.flags()} from {st.memflag}")
                # both handles are the same store
                a = [(bytes(x), bytes(y)) for x, y in d.obj.getTopItemIter(sub, b"")]
                ctx.check(a == st.states[-1], "meta", "handle-differs", "second open_db handle shows other content")
                try:
                    d.obj.env.open_db("nosuch", dupsort=False)
                    ctx.fail("meta", "undeclared-open", "open_db of an undeclared store did not raise KeyError")
                except KeyError:
                    pass
            elif k == "ver":
                i = op[1] % len(self.ds)
                d = self.ds[i]
                d.obj.version = op[2].encode() if len(op) > 3 and op[3] else op[2]
                vs = self.vers[i]
                vs["mem"] = op[2]
                vs["allowed"].add(op[2])
                for fl in d.flushes:
                    fl.setdefault("later", set()).add(op[2])
                ctx.check(d.obj.version == op[2] and d.obj.getVer() == op[2], "meta", "version-readback",
                          lambda: f"version reads {d.obj.version!r}/{d.obj.getVer()!r} after setting {op[2]!r}")
                for s, st in d.stores.items():
                    now = self.dump(d, st)
                    ctx.check(now == st.states[-1], "isolation", "version-leak", "setting version changed a store")
            elif k == "iter":
                d = self.ds[op[1] % len(self.ds)]
                st = list(d.stores.values())[op[2] % len(d.stores)]
                if op[3] in FAMILY[st.kind]:
                    self.begin_iter(d, st, op[3], op[4])
            elif k == "next":
                self.do_next(op[1])
            elif k == "keys":
                self.do_keys(*op[1:])
        for it in list(self.iters):
            for _ in range(2000):
                if it not in self.iters:
                    break
                self.do_next(self.iters.index(it))
            else:
                ctx.fail("iter", "endless", f"{it['m']} did not end after 2000 steps")
        # faults stop: every pending await completes, then a flush must be acknowledged
        n = 0
        while self.disk.waiting and n < 1000:
            self.do_step(0)
            n += 1
        stuck = [d.name for d in self.ds if d.flushes]
        ctx.check(not stuck, "flush", "flush:stuck", lambda: f"flush never returned on {stuck} after faults stopped")
        for d in self.ds:
            d.flushes = []
        if plan["final"] != "crash":
            for d in self.ds:
                self.start_flush(d)
                while d.flushes and self.disk.waiting:
                    self.do_step(0)
        if plan["final"] != "flush":
            self.do_crash([0] * 6)
        else:
            for d in self.ds:
                self.do_reopen(d, 0)
        if plan["undeclared"]:
            ns = self.disk.ns.get("w:other")
            ctx.check(ns == {"__records__": '{"61": "62"}', "__meta__": '{"dupsort": false}'}, "isolation",
                      "undeclared-touched", lambda: f"a store not declared at open was changed: {ns}")
        ctx.state(tuple(tuple(st.states[-1]) for d in self.ds for st in d.stores.values()))


ALL = ("model", "durable", "atomic", "recover", "flush", "meta", "isolation", "iter", "exception", "hang")
FACETS = dict(
    W01=("durable", "recover", "flush", "exception", "hang"),
    W02=("atomic", "recover", "exception", "hang"),
    W03=("durable", "atomic", "recover", "flush", "exception", "hang"),
    W04=("model", "durable", "atomic", "recover", "exception", "hang"),
    W05=("model", "durable", "atomic", "recover", "exception", "hang"),
    W06=("model", "durable", "atomic", "recover", "exception", "hang"),
    W07=("model", "durable", "atomic", "recover", "exception", "hang"),
    W08=("meta", "durable", "recover", "exception", "hang"),
    W09=("isolation", "durable", "atomic", "recover", "exception", "hang"),
    W10=("iter", "exception", "hang"),
)


def make(prop):
    return Web(prop, FACETS[prop])
