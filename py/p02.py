"""RLP, base64, accumulator, trie and addresses of the Python contracts against independent implementations."""
import base64 as b64
from ref import Acc, Trie, ib, rlp, sha
from pyscore.lib import BTPAddress
from pyscore.lib.icon import base64, rlp as real
from pyscore.lib.icon.mpt import MerklePatriciaTree
from pyscore.lib.icon.mta import InvalidWitnessOldException, MerkleTreeAccumulator


def run(m):
    m.run("rlp", m.n(12000, 200000), values)
    m.run("hostile", m.n(12000, 200000), hostile)
    m.run("base64", m.n(600, 10000), text)
    m.run("accumulator", m.n(300, 6000), lambda k: accumulator(k, k.of(0, 1, 2, 5, 17, 40)))
    m.run("long accumulator", m.n(8, 100), lambda k: accumulator(k, k.of(130, 300)))
    m.run("trie", m.n(160, 3000), trie)
    m.run("address", m.n(4000, 60000), address)


def cut(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def attempt(f, *a):
    try:
        return f(*a), None
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        return None, e


def size(k):
    return k.of(0, 1, 1, 2, 3, 20, 54, 55, 56, 57, 200, 255, 256, 257, 1000) if k.chance(97) else k.of(65535, 65536, 70000)


def number(k):
    n = k.of(0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 128, 255, 256, 447, 448)
    return (k.of(1, -1) << n) + k.of(-1, 0, 1, k.pick(1000))


def value(k, depth=0):
    """A value, its types to decode with."""
    x = k.pick(8 if depth < 4 else 4)
    if x == 0:
        return k.bytes(size(k)), bytes
    if x == 1:
        return number(k), int
    if x == 2:
        return "".join(k.any("aZ09.:/é漢\x00") for _ in range(min(size(k), 300))), str
    if x == 3:
        return None, k.of(bytes, int, str, bool)
    if x == 4:
        return k.of(True, False), bool
    if x == 5:
        t, n = k.of(bytes, int, str), k.of(0, 1, 2, 5, 40)
        l = [k.bytes(k.of(0, 1, 32)) if t is bytes else number(k) if t is int else "x" * k.pick(60) for _ in range(n)]
        return [v if k.chance(90) else None for v in l], {list: t}
    l = [value(k, depth + 1) for _ in range(k.of(0, 1, 2, 3, 6))]
    return [a for a, _ in l], [t for _, t in l]


def values(k):
    v, t = value(k)
    k.input = repr(v)[:500]
    enc = rlp(v)
    got, e = attempt(real.rlp_encode, v)
    k.check(e is None and got == enc, "encode", "%s encodes to %s (%r) instead of %s" % (cut(v), got and got.hex()[:400], e, enc.hex()[:400]))
    back, e = attempt(real.rlp_decode, enc, copy(t))
    k.check(e is None and same(back, v), "decode", "%s decodes to %s (%r) instead of %s" % (enc.hex()[:400], cut(back), e, cut(v)))
    raw, e = attempt(real.rlp_decode_part, enc + b"rest")
    k.check(e is None and raw[1] == b"rest", "rest", "what follows %s is %s (%r)" % (enc.hex()[:400], cut(raw), e))
    k.count("bytes", len(enc))
    k.seen(enc)
    if k.chance(10):
        odd = k.of(b"", b"\x00\x01", bytes([k.r.randrange(2, 256)]))
        got, e = attempt(real.rlp_decode, rlp(odd), bool)
        k.check(e is not None, "odd boolean", "%s is read as %r" % (odd.hex(), got))
    for bad in (enc[:-1], enc + k.bytes(1), enc[:k.pick(len(enc))]):
        got, e = attempt(real.rlp_decode, bad, copy(t))
        k.check(e is not None, "damaged", "%s of %s decodes to %s" % (bad.hex()[:400], enc.hex()[:400], cut(got)))
        k.count("damaged refused")


def copy(t):
    return {a: copy(b) for a, b in t.items()} if isinstance(t, dict) else [copy(x) for x in t] if isinstance(t, list) else t


def same(a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def items(b):
    """What an RLP string says, loosely: (list?, content, rest) or None."""
    if not b:
        return None
    x = b[0]
    if x < 0x80:
        return False, b[:1], b[1:]
    base = 0xc0 if x >= 0xc0 else 0x80
    n = x - base
    if n < 56:
        h = 1
    else:
        h = n - 55 + 1
        if len(b) < h:
            return None
        n = int.from_bytes(b[1:h], "big")
    if len(b) < h + n:
        return None
    if x == 0xf8 and n == 0:
        return None.__class__, None, b[h:]
    return base == 0xc0, b[h:h + n], b[h + n:]


def hostile(k):
    """Any bytes are either refused or decoded as they say."""
    b = bytearray(rlp(value(k)[0]) if k.chance(70) else k.bytes(k.of(0, 1, 2, 5, 12)))
    b = b[:3000]
    for _ in range(k.of(0, 1, 1, 2)):
        if b:
            b[k.pick(min(len(b), k.of(1, 4, 4000)))] = k.of(0, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xbf, 0xc0, 0xc1, 0xf7, 0xf8, 0xf9, 0xff, k.pick(256))
    b = bytes(b)
    k.input = b.hex()
    got, e = attempt(real.rlp_decode_part, b)
    want = items(b)
    if want is not None and want[0] is True:
        l, c = [], want[1]
        while c:
            i = items(c)
            if i is None:
                want = None
                break
            l.append(c[:len(c) - len(i[2])])
            c = i[2]
        else:
            want = (True, l, want[2])
    if want is None:
        k.check(e is not None, "hostile", "%s decodes to %r" % (b.hex(), got))
        k.count("refused")
    else:
        k.check(e is None and got == (want[1], want[2]), "hostile", "%s decodes to %r (%r) instead of %r" % (b.hex(), got, e, want[1:]))
        k.count("taken")
    k.seen(b)


def text(k):
    v = k.bytes(k.of(0, 1, 2, 3, 4, 5, 31, 32, 33, 100))
    k.input = v.hex()
    want = b64.urlsafe_b64encode(v).decode()
    got, e = attempt(base64.urlsafe_b64encode, v)
    k.check(got == want, "base64", "%s is written %r (%r) instead of %s" % (v.hex(), got, e, want))
    got, e = attempt(base64.encode, v)
    k.check(got == b64.b64encode(v), "base64", "%s is written %r (%r) instead of %s" % (v.hex(), got, e, b64.b64encode(v)))
    for s in (want, want.rstrip("=")):
        got, e = attempt(base64.urlsafe_b64decode, s)
        k.check(got == v, "base64 read", "%s is read as %r (%r) instead of %s" % (s, got, e, v.hex()))
    got, e = attempt(base64.decode, b64.b64encode(v).decode())
    k.check(got == v, "base64 read", "%s is read as %r (%r)" % (b64.b64encode(v), got, e))
    k.seen(v)
    if v:
        short = want[:len(v) // 3 * 4] + "A"
        got, e = attempt(base64.urlsafe_b64decode, short)
        k.check(e is not None, "base64 cut", "%r is read as %r" % (short, got))
        i = k.pick(len(want.rstrip("=")))
        bad = want[:i] + k.of("+", "/", " ", "!", "\n", "é", "\x00") + want[i + 1:]
        got, e = attempt(base64.urlsafe_b64decode, bad)
        k.check(e is not None, "base64 wrong", "%r is read as %r" % (bad, got))
        k.count("refused")


def accumulator(k, n):
    off = k.of(0, 0, 1, 5, 1000, 2 ** 31)
    keep, newer = k.of(0, 0, 1, 3, 50), k.chance(40)
    a, m = Acc(off), MerkleTreeAccumulator()
    m.offset = off
    m.set_cache_size(keep)
    m.set_allow_newer_witness(newer)
    k.input = "offset=%d n=%d kept=%d newer=%s" % (off, n, keep, newer)
    olds = []

    def same_state(when):
        want = rlp([a.height, a.roots(), off, 0, keep, a.leaves[-keep:] if keep else [], newer])
        got = bytes(m)
        k.check(got == want, "state", "%s instead of %s %s" % (got.hex(), want.hex(), when))
        k.check((m.height, m.offset, m.get_status()) == (a.height, off, {"height": a.height, "offset": off}), "state", "height %s, offset %s %s" % (m.height, m.offset, when))

    for i in range(n + 1):
        same_state("with %d" % i)
        if k.chance(30):
            m = MerkleTreeAccumulator(bytes(m))
            same_state("after it was read back")
        for _ in range(k.of(0, 1, 2)):
            if a.leaves:
                probe(k, a, m, olds, keep, newer)
        if k.chance(30):
            olds.append(m.to_bytes())
        h = k.bytes(32)
        a.leaves.append(h)
        m.add(h)
    k.count("leaves", n)
    k.seen(off, n, keep, newer, sha(bytes(m)))
    # one of before takes newer witnesses only if it is told to, and only for what it has
    for o in olds[-3:]:
        old = MerkleTreeAccumulator(o)
        if old.height == off:
            continue
        h = off + 1 + k.pick(old.height - off)
        leaf, w = a.leaves[h - 1 - off], a.witness(h)
        _, e = attempt(old.verify, w, leaf, h, a.height)
        if old.height == a.height:
            k.check(e is None, "witness", "refused: %r" % e)
        elif newer:
            k.check(e is None, "newer witness", "witness of %d at %d was refused at %d: %r, %s" % (h, a.height, old.height, e, k.input))
            _, e = attempt(old.verify, w, k.bytes(32), h, a.height)
            k.check(e is not None, "newer witness", "another leaf was accepted")
            _, e = attempt(old.verify, a.witness(a.height), a.leaves[-1], a.height, a.height)
            k.check(e is not None, "newer witness", "a leaf to come was accepted")
            k.count("newer witnesses")
        else:
            k.check(e is not None, "newer witness", "a newer witness was accepted")
            k.count("newer refused")


def probe(k, a, m, olds, keep, newer):
    off = a.offset
    h = off + 1 + k.pick(len(a.leaves))
    leaf, w = a.leaves[h - 1 - off], a.witness(h)
    _, e = attempt(m.verify, w, leaf, h, a.height)
    k.check(e is None, "witness", "witness of %d at %d was refused: %r, %s" % (h, a.height, e, k.input))
    k.count("witnesses")
    x = k.pick(6)
    if x == 0:
        _, e = attempt(m.verify, w, k.bytes(32), h, a.height)
        k.check(e is not None, "another leaf", "accepted at %d of %d" % (h, a.height))
    elif x == 1 and w:
        i = k.pick(len(w))
        _, e = attempt(m.verify, w[:i] + [k.bytes(32)] + w[i + 1:], leaf, h, a.height)
        k.check(e is not None, "wrong witness", "accepted at %d of %d" % (h, a.height))
    elif x == 2:
        _, e = attempt(m.verify, k.of(w + [k.bytes(32)], w[:-1] if w else [k.bytes(32)]), leaf, h, a.height)
        k.check(e is not None, "witness of another length", "accepted at %d of %d" % (h, a.height))
    elif x == 3 and w:
        _, e = attempt(m.verify, w, leaf, h + (1 if (h - 1 - off) % 2 == 0 else -1), a.height)
        k.check(e is not None, "another place", "accepted at %d of %d" % (h, a.height))
    elif x == 4 and h < a.height:
        at = h + k.pick(a.height - h)
        _, e = attempt(m.verify, a.witness(h, at), leaf, h, at)
        if h > a.height - keep:
            k.check(e is None, "old witness", "of %d at %d was refused at %d: %r, %s" % (h, at, a.height, e, k.input))
            k.count("old witnesses taken")
            _, e = attempt(m.verify, a.witness(h, at), k.bytes(32), h, at)
            k.check(e is not None, "old witness", "of another leaf was accepted")
        else:
            k.check(e is not None, "old witness", "of %d at %d was accepted at %d, %s" % (h, at, a.height, k.input))
            k.check(h == a.height - keep or isinstance(e, InvalidWitnessOldException), "old witness", "of %d at %d was refused at %d with %r" % (h, at, a.height, e))
            k.count("old witnesses refused")


def trie(k):
    n = k.of(1, 2, 3, 16, 17, 40, 128, 129, 140, 300)
    short = k.chance(40)
    items = [(rlp(i), k.bytes(k.of(33, 60, 200) if not short or k.chance(50) else k.of(2, 2, 6, 10, 25))) for i in range(n)]
    t = Trie(items)
    k.input = "n=%d short=%s" % (n, short)
    k.seen(t.root)
    for _ in range(12):
        i = k.pick(n)
        key, v = items[i]
        p = t.proof(key)
        got, e = attempt(MerklePatriciaTree.prove, t.root, key, list(p))
        k.check(e is None and got == v, "proof", "of %d gives %r (%r) instead of %s, %s" % (i, got, e, v.hex(), k.input))
        k.count("proofs")
        y = k.pick(len(p))
        for what, r, kk, q in (("another root", k.bytes(32), key, p), ("root altered", flip(k, t.root), key, p), ("dropped", t.root, key, p[:y] + p[y + 1:]),
                               ("altered", t.root, key, p[:y] + [flip(k, p[y])] + p[y + 1:]), ("another key", t.root, rlp(n + k.pick(300)), p)):
            got, e = attempt(MerklePatriciaTree.prove, r, kk, list(q))
            k.check(e is not None, "proof " + what, "of %d gives %r, %s" % (i, got, k.input))
            k.count("proofs refused")
        if len(key) > 1:
            kk = flip(k, key)
            got, e = attempt(MerklePatriciaTree.prove, t.root, kk, list(p))
            k.check(e is not None or got == dict(items).get(kk), "proof of an altered key", "%s gives %r with the proof of %s, %s" % (kk.hex(), got, key.hex(), k.input))
        j = k.pick(n)
        got, e = attempt(MerklePatriciaTree.prove, t.root, items[j][0], list(p))
        k.check(e is not None or got == items[j][1], "proof of another", "%d with the proof of %d gives %r, %s" % (j, i, got, k.input))


def flip(k, b):
    i = k.pick(len(b))
    return b[:i] + bytes([b[i] ^ (1 << k.pick(8))]) + b[i + 1:]


def address(k):
    part = lambda l: "".join(k.any("ab0x1_- é") for _ in range(k.of(*l)))
    nid, chain, con = part((0, 1, 3)), part((1, 4)), part((0, 1, 42))
    if k.chance(20):
        nid = nid + "." + part((0, 2)) if nid else nid
    net = nid + "." + chain if nid else chain
    s = "btp://%s/%s" % (net, con)
    k.input = s
    a, e = attempt(BTPAddress.from_string, s)
    k.check(e is None and (str(a), a.net, a.contract, a.protocol, a.chain, a.nid) == (s, net, con, "btp", chain, nid), "address", "%s is read as %r (%r)" % (s, a, e))
    k.check(a.is_valid() == (con != ""), "address valid", s)
    b = BTPAddress("btp", net, con)
    k.check(a == b and hash(a) == hash(b) and not a != b and BTPAddress.from_bytes(bytes(a)) == a, "address same", s)
    c = a.replace_contract("other")
    k.check(str(c) == "btp://%s/other" % net and (c == a) == (con == "other"), "address replaced", "%s %s" % (s, c))
    _, e = attempt(BTPAddress.from_string_with_validation, s)
    k.check((e is None) == (con != ""), "address valid", "%s %r" % (s, e))
    bad = k.of("", "btp", "btp:/%s/x" % net.replace(".", ""), "://%s/x" % net, "btp:///x", "btp://" + net)
    _, e = attempt(BTPAddress.from_string_with_validation, bad)
    k.check(e is not None, "address invalid", bad)
    k.seen(s)
