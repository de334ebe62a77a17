"""Layer P: message streams.  The real Parser (and the real message makers and primitives) is fed byte streams composed by an
independent encoder, cut into arbitrary chunks, corrupted inside or outside counted groups, while the processors it calls fail
at random; what reaches the processors is compared with what was composed."""
import base64
import datetime
import hashlib

from core import Scenario, rng_for
import kelworld as kw
from kelworld import kdig, signer

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
CODES = {  # what a group of each kind is called under each major version (written down from the CESR code tables)
    1: dict(generic="-T", bwa="-U", atts="-V", nonnative="-W", sigers="-A", wigers="-B", cigars="-C", rsgs="-D", frcs="-E", tsgs="-F",
            sscs="-G", lsgs="-H", ssts="-I", ptds="-L", essrs="-Z"),
    2: dict(generic="-A", bwa="-B", atts="-C", nonnative="-H", sigers="-K", wigers="-L", cigars="-M", rsgs="-N", frcs="-O", ptds="-P",
            sscs="-S", ssts="-T", tdcs="-W", tsgs="-X", lsgs="-Y", essrs="-Z", bsqs="-a", bsss="-b", tmqs="-c"),
}
COUNTED1 = {"sigers", "wigers", "cigars", "frcs", "tsgs", "sscs", "lsgs", "ssts", "essrs"}     # v1 counts elements, not quadlets
LISTS = ("sigers", "wigers", "cigars", "rsgs", "tsgs", "lsgs", "frcs", "sscs", "ssts", "tdcs", "bsqs", "bsss", "tmqs", "essrs", "ptds")
EXCS = ("ValidationError", "KeyError", "RuntimeError", "AttributeError", "OutOfOrderError", "TypeError", "QueryNotFoundError", "OSError",
        "ShortageError", "SizedGroupError")


def b64(n, l):
    out = ""
    for _ in range(l):
        out, n = B64[n & 63] + out, n >> 6
    return out


def counter(code, count, big=False):
    if big or count >= 64 * 64:
        return ("-" + code + b64(count, 5)).encode()
    return (code + b64(count, 2)).encode()


def genus(v):
    return ("-_AAA" + b64(v, 1) + b64(0, 2)).encode()


def binary(t):
    return base64.urlsafe_b64decode(bytes(t))


class Item:
    """One message as composed: its bytes and what a processor has to be given."""
    __slots__ = ("i", "raw", "said", "ilk", "pv", "serder", "exp", "nests", "local")


FACETS = dict(
    P01=("stream", "genuine", "alive"),
    P02=("stream", "genuine", "alive"),
    P03=("stream", "genuine", "alive"),
)


class Parse(Scenario):
    name = "message streams"
    components_real = ("keri.core parsing (Parser), counting, coring, indexing, serdering, structing, eventing message makers (shipped source)",)
    components_stub = ("the processors behind the parser (recorders that raise at random)", "pysodium, blake3, cbor2, msgpack re-implementations",
                       "the byte transport")
    assumptions = ("digests do not collide (stand-in primitives keep this)",)
    rule = ("each run composes messages of every kind in every framing (counted groups, text or binary, both versions, nested), cuts the "
            "stream at random places, corrupts some of it and makes processors fail; non-trivial = a message was reassembled from several "
            "chunks or followed corrupted data")
    probes = ("probe:cut_inside_message", "probe:binary", "probe:version_switch", "probe:nested", "probe:generic_group", "probe:after_corruption",
              "probe:processor_raised")

    def setup(self):
        global kering, parsing, eventing, coring, indexing, serdering, vdr, proving
        kw.setup()
        kering, parsing, eventing, coring, indexing, serdering = kw.kering, kw.parsing, kw.eventing, kw.coring, kw.indexing, kw.serdering
        from keri.vdr import eventing as vdr
        try:
            from keri.vc import proving
        except ImportError:
            proving = None

    # ------------------------------------------------------------------ plan
    def plan(self, rng, tier):
        ops = []
        mode = dict(P01=rng.choice(["stream", "stream", "stream", "frames", "whole"]), P02=rng.choice(["stream", "stream", "whole", "frames"]),
                    P03="frames")[self.prop]
        pbad = dict(P01=0.0, P02=0.35, P03=0.4)[self.prop]
        for _ in range(rng.choice([3, 5, 8, 14]) if tier == "quick" else rng.choice([5, 10, 20])):
            bad = None
            if rng.random() < pbad:
                bad = rng.choice(["flip", "flip", "fill", "cut", "junk", "ctr", "genus", "nestatt"] if self.prop == "P02" else
                                 ["flip", "flip", "fill", "cut", "junk", "ctr", "genus", "genus", "nestatt", "garbage", "trunc", "splice", "ver"])
            ops.append(["msg", rng.randrange(1 << 30), rng.choice(["whole", "few", "few", "bytes", "edges"]), int(rng.random() < 0.35), bad])
        return dict(mode=mode, ver=rng.choice([1, 2, 2]), local=int(rng.random() < 0.5), pexc=rng.choice([0, 0, 0.15, 0.4]), r=rng.randrange(1 << 30), ops=ops)

    def shrinks(self, plan):
        if plan["pexc"]:
            yield dict(plan, pexc=0)
        for i, op in enumerate(plan["ops"]):
            if op[2] != "whole":
                yield dict(plan, ops=plan["ops"][:i] + [op[:2] + ["whole"] + op[3:]] + plan["ops"][i + 1:])
            if op[3]:
                yield dict(plan, ops=plan["ops"][:i] + [op[:3] + [0] + op[4:]] + plan["ops"][i + 1:])

    # ------------------------------------------------------------------ messages
    def prim(self, rng):
        n = rng.randrange(40)
        return n

    def body(self, rng, maxv):
        """(serder, ilk, pv): a genuine message that fits a stream of major version maxv; unique to this run."""
        self.n += 1
        n = self.n
        pv = rng.choice([1, 2, 2]) if maxv == 2 else 1
        kinds = ["JSON", "JSON", "CBOR", "MGPK"] + (["CESR", "CESR"] if pv == 2 else [])
        kind = rng.choice(kinds)
        v = kering.Vrsn_1_0 if pv == 1 else kering.Vrsn_2_0
        vk = dict(version=v, kind=kind)
        stamp = f"2026-01-01T00:00:{n % 60:02d}.{n:06d}+00:00"
        pre = signer(f"p{n % 7}").verfer.qb64
        dig = coring.Diger(ser=f"dig{n}".encode()).qb64
        ilk = rng.choice(["icp", "icp", "rot", "ixn", "ixn", "rct", "rpy", "qry", "exn", "iss", "vcp", "rev"] + (["xip", "pro", "bar"] if pv == 2 else []))
        if ilk in ("iss", "vcp", "rev"):
            v1 = dict(version=kering.Vrsn_1_0, kind=rng.choice(["JSON", "CBOR", "MGPK"])) if True else {}
            pv = 1
            if ilk == "vcp":
                s = vdr.incept(pre, nonce=kw.core.Salter(raw=hashlib.blake2b(str(n).encode(), digest_size=16).digest()).qb64, **v1)
            elif ilk == "iss":
                s = vdr.issue(vcdig=dig, regk=coring.Diger(ser=b"regk%d" % n).qb64, dt=stamp, **v1)
            else:
                s = vdr.revoke(vcdig=dig, regk=coring.Diger(ser=b"regk%d" % n).qb64, dig=dig, dt=stamp, **v1)
        elif ilk == "icp":
            s = eventing.incept(keys=[signer(f"k{n}").verfer.qb64], ndigs=[kdig(f"n{n}")], code=coring.MtrDex.Blake3_256, **vk)
        elif ilk == "rot":
            s = eventing.rotate(pre=pre, keys=[signer(f"k{n}").verfer.qb64], dig=dig, sn=1 + n, ndigs=[kdig(f"n{n}")], **vk)
        elif ilk == "ixn":
            s = eventing.interact(pre=pre, dig=dig, sn=1 + n, data=[dict(d=dig)] * rng.choice([0, 1, 3]), **vk)
        elif ilk == "rct":
            s = eventing.receipt(pre=pre, sn=n, said=dig, **vk)
        elif ilk == "rpy":
            s = eventing.reply(pre=pre, route="/a/b", data=dict(cid=pre, n=str(n)), stamp=stamp, **vk)
        elif ilk == "qry":
            s = eventing.query(pre=pre, route=rng.choice(["logs", "ksn", "mbx", "tels", "tsn"]), query=dict(i=pre, src=pre), stamp=stamp, **vk)
        elif ilk == "exn":
            if pv == 1:
                from keri.peer import exchanging
                s = exchanging.exchangeOld(route="/a/b", attributes=dict(n=n, pad="x" * rng.choice([0, 5, 200])), sender=pre, stamp=stamp, kind=kind, version=v)
                s = s[0] if isinstance(s, tuple) else s
            else:
                s = eventing.exchange(sender=pre, receiver=pre, xid=dig, prior=dig, route="/a/b", attributes=dict(n=n, pad="x" * rng.choice([0, 5, 200])), stamp=stamp, **vk)
        elif ilk == "xip":
            s = eventing.exchept(sender=pre, receiver=pre, route="/a", attributes=dict(n=n), stamp=stamp, **vk)
        elif ilk == "pro":
            s = eventing.prod(pre=pre, route="/a", query=dict(n=n), stamp=stamp, **vk)
        else:
            s = eventing.bare(pre=pre, route="/a", data=dict(n=n), stamp=stamp, **vk)
        it = Item()
        it.raw, it.said, it.ilk, it.pv, it.serder, it.nests, it.exp = bytes(s.raw), s.said, s.ilk, pv, s, [], {}
        self.items.append(it)
        return it

    def dig(self, rng):
        return coring.Diger(ser=b"d%d" % rng.randrange(50))

    def siger(self, rng):
        return signer(f"s{rng.randrange(9)}").sign(b"m%d" % rng.randrange(99), index=rng.choice([0, 1, 2, 63, 64, 900]))

    def num(self, rng, v):
        n = rng.choice([0, 1, 7, 300, 70000, 1 << 40])
        return (coring.Seqner(sn=n) if v == 1 else coring.Number(num=n)).qb64b, n

    def group(self, rng, name, v):
        """(contents in text, element count, what the parser has to hand over) of one attachment group."""
        out, exp = bytearray(), []
        k = rng.choice([1, 1, 2, 3])
        dater = lambda: coring.Dater(dts=f"2026-02-03T04:05:06.{rng.randrange(10**6):06d}+00:00")
        for _ in range(k):
            if name in ("sigers", "wigers"):
                s = self.siger(rng)
                out += s.qb64b
                exp.append(s.qb64)
            elif name == "cigars":
                sg = signer(f"w{rng.randrange(9)}", False)
                c = sg.sign(b"c%d" % rng.randrange(99))
                out += sg.verfer.qb64b + c.qb64b
                exp.append([sg.verfer.qb64, c.qb64])
            elif name in ("rsgs", "tsgs", "lsgs"):
                p = signer(f"p{rng.randrange(7)}").verfer.qb64
                row, q = [p], bytearray(p.encode())
                if name != "lsgs":
                    nb, n = self.num(rng, v)
                    d = self.dig(rng).qb64
                    q += nb + d.encode()
                    row += [n, d]
                sg = [self.siger(rng) for _ in range(rng.choice([1, 2]))]
                inner = b"".join(s.qb64b for s in sg)
                q += counter(CODES[v]["sigers"], len(sg) if v == 1 else len(inner) // 4)
                q += inner
                row.append([s.qb64 for s in sg])
                out += q
                exp.append(row)
            elif name == "frcs":
                nb, n = self.num(rng, v)
                d = dater()
                out += nb + d.qb64b
                exp.append([n, d.qb64])
            elif name == "sscs":
                nb, n = self.num(rng, v)
                d = self.dig(rng).qb64
                out += nb + d.encode()
                exp.append([n, d])
            elif name == "ssts":
                p = signer(f"p{rng.randrange(7)}").verfer.qb64
                nb, n = self.num(rng, v)
                d = self.dig(rng).qb64
                out += p.encode() + nb + d.encode()
                exp.append([p, n, d])
            elif name == "tdcs":
                vs = coring.Verser(proto="KERI", pvrsn=kering.Vrsn_2_0).qb64
                d = self.dig(rng).qb64
                out += vs.encode() + d.encode()
                exp.append([vs, d])
            elif name in ("bsqs", "bsss"):
                d, u, a = self.dig(rng).qb64, self.dig(rng).qb64, rng.choice([coring.Noncer(nonce="").qb64, self.dig(rng).qb64])
                l = coring.Labeler(text=rng.choice(["issued", "", "revoked"])).qb64
                row = [d, u, a, l]
                out += "".join(row).encode()
                if name == "bsss":
                    nb, n = self.num(rng, 2)
                    e = self.dig(rng).qb64
                    out += nb + e.encode()
                    row += [n, e]
                exp.append(row)
            elif name == "tmqs":
                row = [self.dig(rng).qb64, self.dig(rng).qb64, coring.Labeler(text="text/plain").qb64, coring.Texter(text="hello " * rng.randrange(4)).qb64]
                out += "".join(row).encode()
                exp.append(row)
            elif name == "essrs":
                t = coring.Texter(raw=hashlib.blake2b(b"%d" % rng.randrange(99)).digest()[:rng.randrange(1, 60)]).qb64
                out += t.encode()
                exp.append(t)
            elif name == "ptds":
                t = coring.Texter(text="/a/b").qb64.encode() + self.dig(rng).qb64b
                out += t
                exp.append(bytes(t))
                break
        return bytes(out), k, exp

    def needs(self, it):
        """attachment groups that let the message through to its processor"""
        if it.pv == 2 and it.ilk in ("qry", "rpy", "exn", "xip", "pro", "bar"):
            return []
        return dict(icp=["sigers"], rot=["sigers"], ixn=["sigers"], rct=["cigars", "wigers", "rsgs", "tsgs"], rpy=["cigars", "tsgs"],
                    qry=["lsgs", "cigars"], exn=["cigars", "tsgs"]).get(it.ilk, [])

    def atts(self, rng, it, v, cold, nest=0, bare=False):
        """Attachment groups of a message in text or binary; fills in what is expected."""
        names = [n for n in LISTS if n in CODES[v]]
        pick = []
        need = self.needs(it)
        if need and rng.random() < 0.93:
            pick.append(rng.choice(need))
        for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
            pick.append(rng.choice(names))
        if not pick:
            pick = [rng.choice(names)]
        rng.shuffle(pick)
        out = bytearray()
        segs = []
        for j, name in enumerate(pick):
            body, k, exp = self.group(rng, name, v)
            big = name not in ("essrs",) and v == 2 and rng.random() < 0.06
            g = counter(CODES[v][name], k if v == 1 and name in COUNTED1 else len(body) // 4, big) + body
            if name == "ptds":
                exp = [binary(exp[0]) if cold else exp[0]]
            it.exp.setdefault(name, []).extend(exp)
            segs.append(g)
            if nest and not bare and rng.random() < 0.3:
                sub, item = self.message(rng, v, nest - 1, inside=True)
                if sub is not None:
                    it.nests.append(item)
                    segs.append(sub)
                    self.ctx.hit("probe:nested")
        return b"".join(segs)

    def message(self, rng, v, nest, inside=False, bare=False, form=None):
        """Compose one message in a stream (or group) of version v -> (text-domain or mixed bytes, Item).  Inside an enclosing counted
        group everything is text; the encloser converts."""
        it = self.body(rng, v)
        native = it.raw[:1] == b"-"
        if form is None:
            form = rng.choice(["bwa", "atts"]) if inside else rng.choice(["bwa", "atts", "atts", "bare"] if bare else ["bwa", "atts", "atts"])
        self.form = form
        gv = ""
        if form == "bwa":
            iv = v
            if rng.random() < 0.2:
                iv = rng.choice([x for x in (1, 2) if x >= it.pv] if not native else [2])
                gv = genus(iv)
                self.ctx.hit("probe:version_switch", int(iv != v))
            inner = bytearray(gv or b"")
            if native:
                inner += it.raw
            else:
                t = coring.Texter(raw=it.raw).qb64b
                inner += counter(CODES[iv]["nonnative"], len(t) // 4) + t
            a = self.atts(rng, it, iv, self.cold, nest if iv == 2 else 0)
            if rng.random() < 0.4:
                a = counter(CODES[iv]["atts"], len(a) // 4) + a
            inner += a
            return counter(CODES[v]["bwa"], len(inner) // 4, rng.random() < 0.05) + bytes(inner), it
        if form == "bare":
            a = self.atts(rng, it, v, self.cold, 0, bare=True)
            return (None, a), it
        av, gv = v, b""
        if rng.random() < 0.2:
            av = rng.choice([1, 2])
            gv = genus(av)
            self.ctx.hit("probe:version_switch", int(av != v))
        a = gv + self.atts(rng, it, av, self.cold, nest if av == 2 else 0)
        a = counter(CODES[v]["atts"], len(a) // 4, rng.random() < 0.05) + a
        if inside:
            if native:
                return it.raw + a, it
            t = coring.Texter(raw=it.raw).qb64b
            return counter(CODES[v]["nonnative"], len(t) // 4) + t + a, it
        return (None, a), it

    def top(self, rng, v, force=False):
        """One top-level element of a stream: list of (bytes, sized) segments and its items.  `sized` marks bytes inside a counted group."""
        self.cold = int(rng.random() < 0.25)
        self.ctx.hit("probe:binary", self.cold)
        nv = v
        pre = b""
        if rng.random() < 0.25 or force:
            nv = rng.choice([1, 2])
            pre = genus(nv)
            self.ctx.hit("probe:version_switch", int(nv != v))
        enc = binary if self.cold else bytes
        form = rng.choice(["generic", "msg", "msg", "msg"])
        if force:
            form = "msg"
        if form == "generic":
            # a genus-version code ahead of the group is part of the message that follows it, so the group keeps the current version
            nv, pre = v, b""
            gv, iv = b"", nv
            if rng.random() < 0.5:
                iv = rng.choice([1, 2])
                gv = genus(iv)
                self.ctx.hit("probe:version_switch", int(iv != nv))
            body, items = bytearray(gv), []
            for j in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < 0.2:
                    sub, its = bytearray(), []
                    for _ in range(rng.choice([1, 2])):
                        m, it = self.message(rng, iv, 1 if iv == 2 else 0, inside=True)
                        sub += m
                        its.append(it)
                    body += counter(CODES[iv]["generic"], len(sub) // 4) + sub
                    items += its
                else:
                    m, it = self.message(rng, iv, 1 if iv == 2 else 0, inside=True)
                    body += m
                    items.append(it)
            self.ctx.hit("probe:generic_group")
            return nv, enc(counter(CODES[nv]["generic"], len(body) // 4)), enc(body), items
        m, it = self.message(rng, nv, 1 if nv == 2 else 0, bare=self.bare)
        pre = enc(pre)
        if isinstance(m, tuple):
            native = it.raw[:1] == b"-"
            if native:
                body = enc(it.raw)
            elif rng.random() < 0.2:
                t = coring.Texter(raw=it.raw).qb64b
                body = enc(counter(CODES[nv]["nonnative"], len(t) // 4) + t)
            else:
                body = it.raw
            a = m[1]
            if self.form == "bare":
                return nv, pre + body + enc(a), b"", [it]
            cl = 8 if a[:2] == b"--" else 4
            return nv, pre + body + enc(a[:cl]), enc(a[cl:]), [it]
        cl = 8 if m[:2] == b"--" else 4
        return nv, pre + enc(m[:cl]), enc(m[cl:]), [it]

    def corrupt(self, rng, how, data, cold):
        """Damage the inside of a counted group, keeping its size a whole number of quadlets (triplets)."""
        d = bytearray(data)
        u = 3 if cold else 4
        if not d:
            return d
        if how == "flip":
            for _ in range(rng.choice([1, 1, 2, 5])):
                i = rng.randrange(len(d))
                d[i] = rng.randrange(256) if rng.random() < 0.4 else ord(rng.choice(B64))
        elif how == "fill":
            i = rng.randrange(len(d))
            for j in range(i, min(len(d), i + rng.choice([4, 20, 400]))):
                d[j] = rng.randrange(256)
        elif how == "cut":
            n = len(d) // u
            i = rng.randrange(n)
            k = rng.randrange(1, 1 + min(n - i, 12)) if n > i else 1
            # content lost, the sender's encoder still counted what is left
            d = d[:i * u] + d[(i + k) * u:]
        elif how == "junk":
            i = rng.randrange(len(d) // u + 1) * u
            d[i:i] = bytes(rng.randrange(256) for _ in range(u * rng.choice([1, 2, 9])))
        elif how == "ctr":
            c = counter("-" + rng.choice(B64[:52]), rng.randrange(4096) if rng.random() < 0.3 else rng.randrange(6))
            d[0:0] = binary(c) if cold else c
        elif how == "genus":
            c = ("-_" + rng.choice(["AAA", "AAA", "BBB"]) + rng.choice(B64) + rng.choice(["AA", "AB", "__"])).encode()
            d[0:0] = binary(c) if cold else c
        elif how == "nestatt":
            c = counter(rng.choice(["-V", "-C"]), rng.choice([0, 1, 3, 4000])) + b"AAAA" * rng.choice([0, 1, 3])
            d[0:0] = binary(c) if cold else c
        return d

    # ------------------------------------------------------------------ run
    def execute(self, plan, ctx):
        self.ctx, self.n, self.items = ctx, 0, []
        import pysodium
        pysodium.reseed(plan["r"])
        mode = plan["mode"]
        self.bare = mode != "stream"
        cur = plan["ver"]
        default = cur
        self.rec, self.fails = [], []
        self.prng = rng_for("fail", plan["r"])
        self.pexc = plan["pexc"]
        vers = {1: kering.Vrsn_1_0, 2: kering.Vrsn_2_0}
        sink = self.sinks()
        ims = bytearray()
        p = parsing.Parser(ims=ims, framed=mode != "stream", version=vers[default], local=bool(plan["local"]), **sink)
        gen = p.parsator(local=bool(plan["local"]))
        self.seen_said = {}
        expect, bad = [], []        # entries: Item, in stream order; items of damaged elements
        genuine = {}
        after_bad = unsure = False
        total_bytes = 0
        for n, op in enumerate(plan["ops"]):
            _, r, cut, join, how = op
            rng = rng_for("op", r)
            crng = rng_for("cut", r)
            # a version code, once read, counts for the rest of the stream, and a damaged frame may have held one
            nv, head, body, items = self.top(rng, cur, force=unsure)
            for it in items:
                it.i = n
            # a group that is not enclosed in a counted attachment group can not be told from the next message's if a stream stays open
            if how and not body and self.prop == "P02":
                how = None
            frame = head + body
            if how:
                brng = rng_for("bad", r)
                if how in ("garbage",):
                    frame = bytes(brng.randrange(256) for _ in range(brng.choice([1, 4, 60, 500])))
                    nv = cur
                elif how == "trunc":
                    frame = frame[:brng.randrange(len(frame))]
                elif how == "splice":
                    k = brng.randrange(len(frame))
                    frame = frame[:k] + frame[brng.randrange(len(frame)):]
                elif how == "ver":
                    frame = genus(brng.choice([1, 2, 3])) + frame
                elif self.prop == "P03" and brng.random() < 0.5:
                    frame = bytes(self.corrupt(brng, how, frame, 0))
                elif body:
                    b2 = bytes(self.corrupt(brng, how, body, self.cold))
                    frame = self.recount(head, b2)
                else:
                    frame = bytes(self.corrupt(brng, how, frame, 0))
                ctx.hit(f"fault:corrupt:{how}")
                bad += items
                if mode == "frames":
                    join = 0
            else:
                expect += items
                if after_bad:
                    ctx.hit("probe:after_corruption")
            after_bad = after_bad or bool(how)
            for it in self.items:
                genuine[it.raw] = it
            total_bytes += len(frame)
            ctx.ev("op", n, how, len(frame), hashlib.blake2b(bytes(frame), digest_size=6).hexdigest())
            if mode == "stream":
                cur = nv
                pts = self.cuts(crng, cut, len(frame))
                ctx.hit("fault:cut", len(pts))
                if pts:
                    ctx.hit("probe:cut_inside_message")
                last = 0
                for c in pts + [len(frame)]:
                    ims.extend(frame[last:c])
                    last = c
                    if c == len(frame) and join and n + 1 < len(plan["ops"]):
                        continue
                    for _ in range(crng.choice([1, 1, 2])):
                        self.turn(gen, ctx)
            elif mode == "whole":
                cur = nv
                ims.extend(frame)
            else:
                # frames: each is complete when the parser gets to it; some arrive before the one ahead was parsed
                ims.extend(frame)
                cur = nv
                if join and n + 1 < len(plan["ops"]) and not plan["ops"][n + 1][4]:
                    continue
                self.drain(gen, ims, ctx)
                unsure = bool(how)
        self.drain(gen, ims, ctx)
        ctx.simtime += total_bytes / 1e4
        self.judge(plan, ctx, expect, bad, genuine)
        ctx.state((len(self.rec), mode, tuple(op[4] for op in plan["ops"])))

    def recount(self, head, body):
        """Put the right count in the counter that ends head, so that damage stays inside its group."""
        cold = self.cold
        u = 3 if cold else 4
        n = len(body) // u
        h = bytearray(head)
        # the counter is the last 4 (8) text bytes of head, or 3 (6) binary ones
        for width in ((6, 3) if cold else (8, 4)):
            tail = bytes(h[-width:])
            t = base64.urlsafe_b64encode(tail) if cold else tail
            if width in (6, 8) and t[:2] == b"--" and len(t) == 8:
                nt = t[:3] + b64(n, 5).encode()
                break
            if width in (3, 4) and t[:1] == b"-":
                nt = t[:2] + b64(n, 2).encode()
                break
        else:
            return bytes(head) + bytes(body)
        h[-width:] = binary(nt) if cold else nt
        return bytes(h) + bytes(body)

    def cuts(self, rng, how, n):
        if how == "whole" or n < 2:
            return []
        if how == "bytes":
            k = min(n - 1, 160)
            a = rng.randrange(0, n - k)
            return list(range(a + 1, a + k + 1))
        if how == "edges":
            return sorted({x for x in (1, 3, n - 1, n - 4, n // 2) if 0 < x < n})
        return sorted(rng.sample(range(1, n), min(n - 1, rng.choice([1, 2, 4]))))

    def turn(self, gen, ctx):
        try:
            next(gen)
        except StopIteration:
            ctx.fail("alive", "alive:returned", "the parser's generator returned: nothing that arrives later will be parsed")
            raise
        except Exception as ex:
            ctx.fail("alive", "alive:raised", f"the parser's generator died of {type(ex).__name__}: {ex}")
            raise

    def drain(self, gen, ims, ctx):
        last = -1
        for i in range(60):
            self.turn(gen, ctx)
            if not ims and i:
                break
        else:
            if self.framed_left(ims):
                ctx.fail("alive", "alive:stuck", f"{len(ims)} bytes stay unparsed: {bytes(ims[:60])!r}")

    def framed_left(self, ims):
        return bool(ims)

    # ------------------------------------------------------------------ processors
    def sinks(self):
        me = self

        class Sink:
            def __init__(s, name):
                s.name = name

            def processEvent(s, **kw):
                me.got(s.name + ".event", kw)

            def processReceipt(s, **kw):
                me.got(s.name + ".receipt", kw)

            def processAttachedReceiptCouples(s, **kw):
                me.got(s.name + ".couples", kw)

            def processAttachedReceiptSigGroups(s, **kw):
                me.got(s.name + ".groups", kw)

            def processReply(s, **kw):
                me.got(s.name + ".reply", kw)

            def processQuery(s, **kw):
                me.got(s.name + ".query", kw)

            def processMsg(s, kwa):
                me.got(s.name + ".msg", kwa)

            def processACDC(s, **kw):
                me.got(s.name + ".acdc", kw)

        return dict(kvy=Sink("kvy"), tvy=Sink("tvy"), rvy=Sink("rvy"), exc=Sink("exc"), vry=Sink("vry"))

    def got(self, where, kw):
        s = kw["serder"]
        ex = None
        if self.pexc and where not in ("kvy.couples", "kvy.groups") and self.prng.random() < self.pexc:
            ex = self.prng.choice(EXCS)
        self.rec.append([where, bytes(s.raw), flat(kw, where), ex, bool(kw["local"]), {k: kw.get(k) for k in ("source",)}])
        self.ctx.ev("got", where, s.said, ex)
        if ex:
            self.ctx.hit("probe:processor_raised")
            self.ctx.hit(f"fault:raise:{ex}")
            cls = getattr(kering, ex, None) or getattr(__import__("builtins"), ex)
            raise cls("injected")

    def route(self, it):
        """which processor calls a message leads to: list of names (the first may fail)"""
        have = {k for k, v in it.exp.items() if v}
        if it.pv == 2 and it.ilk in ("qry", "rpy", "exn", "xip", "pro", "bar"):
            return ["kvy.msg"]
        need = self.needs(it)
        if need and not have & set(need):
            return []
        if it.ilk in ("icp", "rot", "ixn", "dip", "drt"):
            return ["kvy.event"] + ["kvy.couples"] * ("cigars" in have) + ["kvy.groups"] * ("rsgs" in have)
        if it.ilk == "rct":
            return ["kvy.receipt"]
        if it.ilk == "rpy":
            return ["rvy.reply"]
        if it.ilk == "qry":
            return ["kvy.query" if it.serder.ked["r"] in ("logs", "ksn", "mbx") else "tvy.query"]
        if it.ilk == "exn":
            return ["exc.event"]
        return ["tvy.event"]

    def want(self, it, top=True):
        out = {k: v for k, v in it.exp.items() if v}
        if it.nests:
            out["nests"] = [[x.raw, self.want(x, False)] for x in it.nests]
        if top and it.ilk == "qry" and it.pv == 1:
            out.pop("sigers", None)
            if out.get("lsgs"):
                out["sigers"] = out["lsgs"][-1][1]
        return out

    def judge(self, plan, ctx, expect, bad, genuine):
        badraw = set()
        stack = list(bad)
        while stack:
            it = stack.pop()
            badraw.add(it.raw)
            stack += it.nests
        seq = []
        tainted = bool(bad)
        for rec in self.rec:
            where, raw, fl, ex, loc, extra = rec
            g = genuine.get(raw)
            if g is None:
                if tainted and self.isrct(raw):
                    continue
                ctx.fail("genuine", "genuine", f"{where} was given a message that nobody composed: {raw[:120]!r}")
                continue
            ctx.check(True, "genuine", "", "")
            if raw in badraw:
                continue
            seq.append(rec)
        want = []
        for it in expect:
            want.append((it, self.route(it)))
        j = 0
        for it, names in want:
            for k, nm in enumerate(names):
                if j >= len(seq) or seq[j][1] != it.raw or seq[j][0] != nm:
                    nxt = f"{seq[j][0]} {self.descr(genuine[seq[j][1]])}" if j < len(seq) else "nothing"
                    ctx.fail("stream", "stream:lost", f"message {it.i} ({self.descr(it)}) never reached {nm}; next processed: {nxt}")
                    return
                where, raw, fl, ex, loc, extra = seq[j]
                w = self.want(it)
                ctx.check(fl == w, "stream", "stream:attachments", lambda: f"message {it.i} ({self.descr(it)}) reached {nm} with attachments {diff(fl, w)}")
                ctx.check(loc == bool(plan["local"]), "stream", "stream:local", f"message {it.i} was processed with local={loc}")
                if nm.endswith(".query") and it.pv == 1 and it.exp.get("lsgs"):
                    src = extra.get("source")
                    ctx.check(src is not None and src.qb64 == it.exp["lsgs"][-1][0], "stream", "stream:source", f"query {it.i} was processed with source {src}")
                j += 1
                if ex:
                    break
        ctx.check(j == len(seq), "stream", "stream:extra", lambda: f"{seq[j][0]} was given {self.descr(genuine[seq[j][1]])} more than once or out of order")

    def descr(self, it):
        return f"{it.ilk} v{it.pv} {it.said[:8]} #{getattr(it, 'i', '?')}"

    def isrct(self, raw):
        return b'"rct"' in raw or b"Xrct" in raw or b"crct" in raw or b"\xa3rct" in raw


def flat(kw, where):
    out = {}
    for k in LISTS:
        v = kw.get(k)
        if v:
            out[k] = [flat1(x, k) for x in v]
    if kw.get("nests"):
        out["nests"] = [[bytes(x["serder"].raw), flat(x, "")] for x in kw["nests"]]
    return out


def flat1(x, k):
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if k == "cigars":
        return [x.verfer.qb64, x.qb64]
    if isinstance(x, (tuple, list)):
        return [flat1(y, "") for y in x]
    if isinstance(x, coring.Number):
        return x.num
    if isinstance(x, coring.Seqner):
        return x.sn
    return x.qb64


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return f"{k}={str(a.get(k))[:160]} instead of {str(b.get(k))[:160]}"
    return "?"


def make(prop):
    p = Parse(prop, FACETS[prop])
    drop = {"P01": "probe:after_corruption", "P03": "probe:cut_inside_message"}.get(prop)
    p.probes = tuple(x for x in p.probes if x != drop)
    return p
