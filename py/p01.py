"""The ICON block verifier in Python against an independent source chain."""
import base64 as b64
import iconservice as ice
from iconservice import Address, IconScoreDatabase, IconScoreException, Msg, Tx
from ref import Acc, Trie, rlp, sha
from pyscore.bmv.icon.icon import BTPMessageVerifier

NET, HOME = "0x1.icon", "0x2.icon"


def run(m):
    m.run("blocks", m.n(64, 2000), lambda k: history(k, 20))
    m.run("many", m.n(2, 60), lambda k: history(k, 120))
    m.run("large", m.n(4, 100), lambda k: history(k, 5, 300))


class Block:
    pass


class Source:
    def __init__(self, k, offset):
        self.k, self.acc, self.blocks, self.tx = k, Acc(offset), [], 0
        self.bmc, self.here = addr(k, True), addr(k, True)
        self.prev, self.cur = "btp://%s/%s" % (NET, self.bmc), "btp://%s/%s" % (HOME, self.here)
        self.others = [addr(k, True), addr(k, False)]
        self.keys = self.new_keys()
        self.other_seq = 0

    def new_keys(self):
        return [self.k.bytes(16) for _ in range(self.k.of(1, 1, 2, 3, 4, 5, 6, 7, 9))]

    def event(self, ours):
        k = self.k
        if ours:
            self.tx += 1
            msg = k.bytes(k.of(0, 1, 10, 60, 150))
            e = [self.bmc.to_bytes(), [b"Message(str,int,bytes)", self.cur.encode(), rint(self.tx)], [msg]]
            return rlp(e), (self.tx, msg)
        x = k.pick(7)
        if x == 0:
            self.other_seq += k.of(0, 1, 5)
            e = [self.bmc.to_bytes(), [b"Message(str,int,bytes)", b"btp://0x3.icon/cx" + b"0" * 40, rint(self.other_seq)], [b"other"]]
        elif x == 1:
            e = [k.any(self.others).to_bytes(), [b"Message(str,int,bytes)", self.cur.encode(), rint(self.tx + k.pick(3))], [b"false"]]
        elif x == 2:
            e = [self.bmc.to_bytes(), [b"Transfer(Address,Address,int)", k.any(self.others).to_bytes(), k.any(self.others).to_bytes()], [rint(k.pick(10 ** 9))]]
        elif x == 3:
            e = [k.any(self.others).to_bytes(), [b"Done()"], []]
        elif x == 4:
            a = k.any(self.others + [self.bmc]).to_bytes()
            e = [a, [b"Moved(Address,int,bytes,str)", a, rint(k.pick(300)), k.bytes(3), b"here"][:2 + k.pick(4)], []]
            e[2] = [a, rint(5), b"", "x"][len(e[1]) - 1:]
        elif x == 5:
            e = [k.any(self.others).to_bytes(), [b"Named(str,bool)", b"x"], [k.of(b"\x00", b"\x01", None)]]
        else:
            e = [self.bmc.to_bytes(), [b"Messages(str,int,bytes)", self.cur.encode(), rint(self.tx + 1)], [b"like"]]
        return rlp(e), None

    def block(self, many=0):
        k, b = self.k, Block()
        b.height, b.keys = self.acc.height + 1, self.keys
        b.receipts, b.msgs = [], []
        n = many or k.of(0, 0, 1, 1, 2, 4, 10)
        items = []
        for i in range(n):
            r = Block()
            events = k.of(20, 140) if not many and k.chance(2) else k.of(0, 1, 1, 2, 5)
            r.events = [self.event(k.chance(5 if many else 50)) for _ in range(events)]
            r.items = [(rlp(j), e) for j, (e, _) in enumerate(r.events)]
            r.trie = Trie(r.items)
            r.body = rlp([k.pick(2), addr(k, True).to_bytes(), rint(k.pick(10 ** 9)), rint(k.pick(10 ** 6)), rint(125 * 10 ** 8), k.bytes(4), k.of(None, []), None, r.trie.root])
            b.receipts.append(r)
            items.append((rlp(i), r.body))
        b.items, b.trie = items, Trie(items)
        b.next = self.keys if k.chance(75) else self.new_keys()
        res = k.of(None, b"") if not n and k.chance(50) else rlp([k.bytes(32), None, b.trie.root])
        b.fields = [2, b.height, k.pick(10 ** 12), addr(k, False).to_bytes(), k.bytes(32), k.bytes(32), sha(vbytes(b.next)), None, k.bytes(32), k.bytes(k.of(0, 5)), res]
        b.header = rlp(b.fields)
        b.round, b.part = k.of(0, 1, 300), [k.of(1, 2, 200), k.bytes(32)]
        self.acc.leaves.append(sha(b.header))
        self.blocks.append(b)
        self.keys = b.next
        return b

    # -- parts of relay messages

    def votes(self, b, keys=None, typ=1, height=None, h=None, rnd=None, part=None, shift=0):
        k, items = self.k, []
        if keys is None:
            keys = list(b.keys)
            k.r.shuffle(keys)
            keys = keys[:k.r.randrange(len(keys) * 2 // 3 + 1, len(keys) + 1)]
        for s in keys:
            ts = 1600000000000000 + k.pick(10 ** 6)
            m = rlp([b.height if height is None else height, b.round if rnd is None else rnd, typ, sha(b.header) if h is None else h, b.part if part is None else part, ts + shift])
            items.append([ts, ice.sign(s, sha(m))])
        return items

    def update(self, b, items=None, nxt=0):
        if items is None:
            items = self.votes(b)
        if nxt == 0:
            nxt = vbytes(b.next) if b.next != b.keys or self.k.chance(20) else None
        return rlp([b.header, rlp([b.round, b.part, items]), nxt])

    def block_proof(self, b, at=None, w=None):
        return rlp([b.header, [self.acc.height if at is None else at, self.witness(b, at) if w is None else w]])

    def witness(self, b, at=None):
        return self.acc.witness(b.height, at)

    def receipt(self, b, i, events):
        r = b.receipts[i]
        return rlp([i, rlp(b.trie.proof(rlp(i))), [[j, rlp(r.trie.proof(rlp(j)))] for j in events]])


def rint(n):
    from ref import ib
    return ib(n)


def addr(k, contract):
    return Address(contract, k.bytes(20))


def vbytes(keys):
    return rlp([ice.create_address_with_key(ice.public(s)).to_bytes() for s in keys])


class Verifier:
    def __init__(self, k, src):
        self.db = IconScoreDatabase()
        v = vbytes(src.keys)
        s = b64.urlsafe_b64encode(v).decode()
        if k.chance(50):
            s = ",".join(str(ice.create_address_with_key(ice.public(x))) for x in src.keys)
        self.new().on_install(src.here, NET, s, src.acc.offset)

    def new(self, sender=None):
        c = BTPMessageVerifier(self.db)
        c.msg, c.tx = Msg(sender), Tx(sender)
        return c

    def call(self, sender, method, *a):
        """The result and no code, or nothing and the code."""
        before = dict(self.db.store)
        try:
            return getattr(self.new(sender), method)(*a), None
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            self.db.store.clear()
            self.db.store.update(before)
            return None, e.code if isinstance(e, IconScoreException) else -1


def history(k, n, many=0):
    src = Source(k, k.of(0, 0, 1, 7, 1000, 2 ** 31, 2 ** 40))
    src.tx = start = k.of(0, 0, 126, 2 ** 31)
    v = Verifier(k, src)
    st = dict(height=src.acc.offset, last=src.acc.offset, keys=src.keys, seq=start)
    full, src.acc = src.acc, Acc(src.acc.offset)  # the source builds ahead in full; acc is what the verifier has
    pend = []  # blocks that are accepted, with messages left
    made = []

    def make():
        acc, src.acc = src.acc, full
        b = src.block(many)
        src.acc = acc
        made.append(b)
        b.todo = [(i, j, e[1]) for i, r in enumerate(b.receipts) for j, e in enumerate(r.events)]
        return b

    def sent(b):
        return [x for x in b.todo if x[2] is not None]

    def show(what):
        s, _ = v.call(src.bmc, "getStatus")
        k.check(s == {"height": st["height"], "offset": src.acc.offset, "last_height": st["last"]}, "status", "%s instead of %s after %s" % (s, st, what))
        d, _ = v.call(src.bmc, "validators")
        want = [ice.create_address_with_key(ice.public(x)) for x in st["keys"]]
        k.check(d is not None and d["addresses"] == want and d["hash"] == sha(vbytes(st["keys"])).hex(), "validators", "%s instead of %s after %s" % (d, want, what))
        a, _ = v.call(src.bmc, "mta")
        want = rlp([src.acc.height, src.acc.roots(), src.acc.offset, 0, 0, [], False])
        got = b64.urlsafe_b64decode(a or "")
        k.check(got == want, "accumulator", "%s instead of %s after %s" % (got.hex(), want.hex(), what))

    def send(what, msg, want, code=None, sender=None, bmc=None, prev=None, flip=None, seq=None):
        s = b64.urlsafe_b64encode(msg).decode()
        if k.chance(30):
            s = s.rstrip("=")
        k.add(" " + what)
        got, c = v.call(sender or src.here, "handleRelayMessage", bmc or src.cur, prev or src.prev, st["seq"] if seq is None else seq, s)
        k.count(what.split("/")[0] if want is None else "accepted")
        if flip is not None:
            k.check(c is not None or got == flip, "flip", "%s: returned %s instead of %s, in%s" % (what, got, flip, k.input))
            k.count("flip refused" if c is not None else "flip without effect")
            return c is None
        if want is None:
            k.check(c is not None, "accepted", "%s returned %s, in%s" % (what, got, k.input))
            k.check(code is None or c == code, "code", "%s refused with %s instead of %s, in%s" % (what, c, code, k.input))
        else:
            k.check(c is None, "refused", "%s refused with %s, in%s" % (what, c, k.input))
            k.check(got == want, "messages", "%s returned %s instead of %s, in%s" % (what, got, want, k.input))
            k.count("messages", len(want))
        k.seen(what, msg)
        show(what)
        return True

    def receipts(b, upto=None):
        """Proofs of a first part of what is left of the block, and its messages."""
        todo = b.todo if upto is None else b.todo[:upto]
        # some others of the receipts are shown as well
        by = {}
        for i, j, m in todo:
            if m is not None or k.chance(30):
                by.setdefault(i, []).append(j)
        return [src.receipt(b, i, js) for i, js in sorted(by.items())], [m[1] for _, _, m in todo if m is not None]

    def take(b, upto=None):
        n = len(b.todo) if upto is None else upto
        got = [m for _, _, m in b.todo[:n] if m is not None]
        b.todo = b.todo[n:]
        if got:
            st["seq"], st["last"] = got[-1][0], b.height

    def oldest():
        return next((b for b in pend if sent(b)), None)

    for _ in range(n):
        # genuine updates
        bs = [make() for _ in range(k.of(1, 1, 2, 3))]
        last, ups = bs[-1], [src.update(b) for b in bs]
        carry = not oldest() and not any(sent(b) for b in bs[:-1])
        upto = k.pick(len(last.todo) + 1) if last.todo and k.chance(30) else None
        rs, ms = receipts(last, upto) if carry else ([], [])
        good = rlp([ups, None, rs])
        # what has to be refused, before and after
        for _ in range(k.of(0, 1, 2, 3)):
            forge(k, src, st, bs, ups, rs, good, send, last, made, receipts)
        if k.chance(25):
            i = k.pick(len(good))
            bad = bytearray(good)
            bad[i] ^= 1 << k.pick(8)
            if send("flipped update", bytes(bad), None, flip=ms):
                pass
            after, _ = v.call(src.bmc, "getStatus")
            if after and after["height"] != st["height"]:
                # nothing was altered by the flip: it took the place of the genuine one
                good = None
        seq = st["seq"]
        for b in bs:
            src.acc.leaves.append(sha(b.header))
        st["height"], st["keys"] = last.height, last.next
        if carry:
            take(last, upto)
        pend.extend(bs)
        if good is None:
            show("flipped update")
        elif not carry and oldest() and k.chance(40):
            b = oldest()
            upto = 1 + k.pick(len(b.todo)) if k.chance(30) else None
            rs, ms = receipts(b, upto)
            take(b, upto)
            send("updates and proof", rlp([ups, src.block_proof(b), rs]), ms, seq=seq)
            k.count("updates with a proof")
        else:
            send("update", good, ms, seq=seq)
        # what is left of blocks before
        while oldest() and k.chance(70):
            b = oldest()
            upto = 1 + k.pick(len(b.todo)) if k.chance(30) else None
            rs, ms = receipts(b, upto)
            good = rlp([[], src.block_proof(b), rs])
            for _ in range(k.of(0, 1, 2)):
                forge_proof(k, src, st, b, rs, ms, good, send, made, pend, receipts)
            seq = st["seq"]
            take(b, upto)
            send("proof", good, ms, seq=seq)
        pend[:] = [b for b in pend if sent(b)]


def forge(k, src, st, bs, ups, rs, good, send, last, made, receipts):
    b, i = k.any(bs), None
    i = bs.index(b)
    keys, n = list(b.keys), len(b.keys)

    def put(u):
        return rlp([ups[:i] + [u] + ups[i + 1:], None, rs])

    x = k.pick(22)
    if x == 0:
        send("too few votes", put(src.update(b, src.votes(b, keys[:n * 2 // 3]))), None, 27)
    elif x == 1:
        few = keys[:n * 2 // 3] or keys
        send("votes twice", put(src.update(b, src.votes(b, few + few))), None, 27)
    elif x == 2:
        send("votes of strangers", put(src.update(b, src.votes(b, keys[:-1] + [k.bytes(16)]))), None, 27)
    elif x == 3:
        send("votes for another/type", put(src.update(b, src.votes(b, keys, typ=k.of(0, 2)))), None, 27)
    elif x == 4:
        send("votes for another/height", put(src.update(b, src.votes(b, keys, height=b.height + k.of(-1, 1)))), None, 27)
    elif x == 5:
        send("votes for another/round", put(src.update(b, src.votes(b, keys, rnd=b.round + 1))), None, 27)
    elif x == 6:
        send("votes for another/part", put(src.update(b, src.votes(b, keys, part=k.of([b.part[0] + 1, b.part[1]], [b.part[0], k.bytes(32)])))), None, 27)
    elif x == 7:
        send("votes for another/time", put(src.update(b, src.votes(b, keys, shift=1))), None, 27)
    elif x == 8:
        send("votes for another/block", put(src.update(b, src.votes(b, keys, h=k.bytes(32)))), None, 27)
    elif x == 9:
        f = list(b.fields)
        j = k.pick(len(f))
        if j == 1 or f[j] is None:
            return
        f[j] = f[j] + 1 if isinstance(f[j], int) else f[j] + b"\x00" if j != 10 or not f[j] else rlp([k.bytes(32), None, k.bytes(32)])
        c = fake(b, header=rlp(f))
        send("altered header", put(src.update(c, src.votes(b, keys))), None)
    elif x == 10 and b.next != b.keys:
        send("no next validators", put(src.update(b, nxt=None)), None)
    elif x == 11:
        if b.next != b.keys:
            send("other next validators", put(src.update(b, nxt=vbytes(k.of(b.keys, src.new_keys(), b.next[1:] + [k.bytes(16)])))), None, 29)
    elif x == 12:
        # a stranger set of validators that signs its own blocks
        own = src.new_keys()
        send("votes of strangers", put(src.update(b, src.votes(b, own), vbytes(own))), None, 27)
    elif x == 13:
        old = [p for p in made[:-len(bs)] if p.keys != b.keys]
        if old:
            p = k.any(old)
            if not set(p.keys) & set(b.keys):
                send("votes of before", put(src.update(b, src.votes(b, p.keys))), None, 27)
    elif x == 14:
        if len(bs) > 1 and i < len(bs) - 1:
            send("gap in updates", rlp([ups[:i] + ups[i + 1:], None, rs]), None, 33)
    elif x == 15:
        if len(made) > len(bs):
            p = k.any(made[:-len(bs)][-5:])
            send("update of before", rlp([[src.update(p)] + ups, None, rs]), None, 34)
    elif x == 16:
        if len(bs) > 1:
            send("update twice", rlp([[ups[0]] + ups, None, rs]), None, 34)
    elif x == 17:
        send("update of a stranger", good, None, sender=k.of(src.bmc, src.others[0]))
    elif x == 18:
        send("for another", good, None, bmc="btp://%s/%s" % (HOME, k.of(src.bmc, src.others[0])))
    elif x == 19:
        send("of another network", good, None, prev="btp://0x3.icon/" + str(src.bmc))
    elif x == 20:
        send("proof to come", rlp([[], rlp([b.header, [b.height, []]]), []]), None, 35)
    elif x == 21:
        send("nothing", rlp([[], None, rs]), None)


def fake(b, **kw):
    c = Block()
    c.__dict__.update(b.__dict__)
    c.__dict__.update(kw)
    return c


def forge_proof(k, src, st, b, rs, ms, good, send, made, pend, receipts):
    at, w = src.acc.height, src.witness(b)
    bp = src.block_proof(b)
    x = k.pick(16)
    if x == 0 and at > b.height:
        send("old witness", rlp([[], src.block_proof(b, at - 1 - k.pick(at - b.height)), rs]), None, 36)
    elif x == 1:
        send("newer witness", rlp([[], src.block_proof(b, at + 1, w), rs]), None)
    elif x == 2 and w:
        j = k.pick(len(w))
        send("wrong witness", rlp([[], src.block_proof(b, w=w[:j] + [k.bytes(32)] + w[j + 1:]), rs]), None, 31)
    elif x == 3 and w:
        send("short witness", rlp([[], src.block_proof(b, w=w[:-1]), rs]), None, 31)
    elif x == 4:
        send("long witness", rlp([[], src.block_proof(b, w=w + [k.bytes(32)]), rs]), None, 31)
    elif x == 5:
        f = list(b.fields)
        f[10] = rlp([k.bytes(32), None, k.bytes(32)])
        send("altered block", rlp([[], rlp([rlp(f), [at, w]]), rs]), None, 31)
    elif x == 6:
        f = list(b.fields)
        f[1] = k.of(at, max(1, b.height - 1), b.height + 1)
        if f[1] != b.height and src.acc.offset < f[1] <= at:
            send("altered block", rlp([[], rlp([rlp(f), [at, w]]), rs]), None)
    elif x == 7 and ms:
        # without its first message
        r2 = drop(src, b, 0)
        if r2:
            send("gap", rlp([[], bp, r2]), None, 32)
    elif x == 8 and ms:
        send("gap", good, None, 32, seq=st["seq"] - 1)
    elif x == 9 and ms:
        send("message of before", good, None, 28, seq=st["seq"] + 1)
    elif x == 10 and ms:
        i, j, _ = next(t for t in b.todo if t[2] is not None)
        send("receipt under another number", rlp([[], bp, [other_index(src, b, i, j, k)]]), None)
    elif x == 11 and ms:
        i, j, _ = next(t for t in b.todo if t[2] is not None)
        r = b.receipts[i]
        j2 = k.of(j + 1, len(r.events), j + 128)
        send("event under another number", rlp([[], bp, [rlp([i, rlp(b.trie.proof(rlp(i))), [[j2, rlp(r.trie.proof(rlp(j)))]]])]]), None)
    elif x == 12 and ms:
        i, j, m = next(t for t in b.todo if t[2] is not None)
        r = b.receipts[i]
        e = rlp([src.bmc.to_bytes(), [b"Message(str,int,bytes)", src.cur.encode(), rint(m[0])], [m[1] + b"!"]])
        its = [(a, e if a == rlp(j) else v) for a, v in r.items]
        t = Trie(its)
        send("forged event", rlp([[], bp, [rlp([i, rlp(b.trie.proof(rlp(i))), [[j, rlp(t.proof(rlp(j)))]]])]]), None, 26)
        body = rlp([1, None, rint(1), rint(1), rint(1), b"", [], None, t.root])
        its2 = [(a, body if a == rlp(i) else v) for a, v in b.items]
        t2 = Trie(its2)
        send("forged receipt", rlp([[], bp, [rlp([i, rlp(t2.proof(rlp(i))), [[j, rlp(t.proof(rlp(j)))]]])]]), None, 26)
    elif x == 13 and ms:
        o = [p for p in made if p.receipts and p is not b and p.height <= at]
        if o:
            send("another block", rlp([[], src.block_proof(k.any(o)), rs]), None)
    elif x == 14 and ms:
        i, j, _ = next(t for t in b.todo if t[2] is not None)
        r = b.receipts[i]
        p = b.trie.proof(rlp(i))
        q = r.trie.proof(rlp(j))
        which = k.of(0, 1)
        l = [p, q][which]
        y = k.pick(len(l))
        l2 = k.of(l[:y] + l[y + 1:], l[:y] + [l[y][:-1] + bytes([l[y][-1] ^ 1])] + l[y + 1:])
        if which:
            q = l2
        else:
            p = l2
        send("damaged proof", rlp([[], bp, [rlp([i, rlp(p), [[j, rlp(q)]]])]]), None)
    elif x == 15:
        i = k.pick(len(good))
        bad = bytearray(good)
        bad[i] ^= 1 << k.pick(8)
        bad = bytes(bad)
        if ms:
            # judged by refusal only: what is accepted has to be what is proven
            send("flipped proof", bad, None, flip=ms, seq=st["seq"] + 10 ** 6)


def drop(src, b, n):
    by, seen = {}, 0
    for i, j, m in b.todo:
        if m is not None:
            seen += 1
            if seen == n + 1:
                continue
            by.setdefault(i, []).append(j)
    return [src.receipt(b, i, js) for i, js in sorted(by.items())] if seen > 1 else None


def other_index(src, b, i, j, k):
    r = b.receipts[i]
    return rlp([i + k.of(1, 16, 128, 300), rlp(b.trie.proof(rlp(i))), [[j, rlp(r.trie.proof(rlp(j)))]]])
