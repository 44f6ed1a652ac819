"""Independent implementations: RLP, accumulator with witnesses, trie with proofs."""
import hashlib


def sha(b):
    return hashlib.sha3_256(b).digest()


def ib(n):
    """Shortest two's complement."""
    k = 1
    while not -(1 << (8 * k - 1)) <= n < 1 << (8 * k - 1):
        k += 1
    return n.to_bytes(k, "big", signed=True)


def _head(base, n):
    if n < 56:
        return bytes([base + n])
    l = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([base + 55 + len(l)]) + l


def rlp(v):
    if v is None:
        return b"\xf8\x00"
    if isinstance(v, Raw):
        return v.b
    if isinstance(v, str):
        v = v.encode()
    if isinstance(v, int):
        v = ib(int(v))
    if isinstance(v, (bytes, bytearray)):
        return bytes(v) if len(v) == 1 and v[0] < 128 else _head(128, len(v)) + bytes(v)
    body = b"".join(rlp(x) for x in v)
    return _head(192, len(body)) + body


class Raw:
    def __init__(self, b):
        self.b = b


class Acc:
    """All leaves are kept; root i stands for 2^i leaves, the highest ones first."""

    def __init__(self, offset=0):
        self.offset, self.leaves, self.cache = offset, [], {}

    @property
    def height(self):
        return self.offset + len(self.leaves)

    def _hash(self, lo, size):
        if size == 1:
            return self.leaves[lo]
        if (lo, size) not in self.cache:
            self.cache[lo, size] = sha(self._hash(lo, size // 2) + self._hash(lo + size // 2, size // 2))
        return self.cache[lo, size]

    def roots(self):
        n, out, lo = len(self.leaves), [], 0
        for i in reversed(range(n.bit_length())):
            if n >> i & 1:
                out.insert(0, self._hash(lo, 1 << i))
                lo += 1 << i
            else:
                out.insert(0, None)
        return out

    def witness(self, height, at=None):
        n, idx, lo = len(self.leaves) if at is None else at - self.offset, height - 1 - self.offset, 0
        for i in reversed(range(n.bit_length())):
            if n >> i & 1:
                if idx < lo + (1 << i):
                    break
                lo += 1 << i
        w, size = [], 1
        while size < 1 << i:
            b = (idx - lo) // size
            w.append(self._hash(lo + (b ^ 1) * size, size))
            size *= 2
        return w


def nibbles(b):
    return [x for y in b for x in (y >> 4, y & 15)]


def _pack(nib, leaf):
    f = (2 if leaf else 0) + len(nib) % 2
    l = ([f] if len(nib) % 2 else [f, 0]) + nib
    return bytes(l[i] << 4 | l[i + 1] for i in range(0, len(l), 2))


class Trie:
    def __init__(self, items):
        self.top = self._node([(nibbles(k), v) for k, v in items]) if items else None
        self.root = sha(self.top[0]) if items else None

    @staticmethod
    def _ref(node):
        return Raw(node[0]) if len(node[0]) < 32 else sha(node[0])

    def _node(self, items):
        """What is stored, how many nibbles are passed, what is below."""
        if len(items) == 1:
            return rlp([_pack(items[0][0], True), items[0][1]]), 0, None
        n = 0
        while len({tuple(k[:n + 1]) for k, _ in items}) == 1:
            n += 1
        if n:
            kid = self._node([(k[n:], v) for k, v in items])
            return rlp([_pack(items[0][0][:n], False), self._ref(kid)]), n, kid
        kids = []
        for x in range(16):
            sub = [(k[1:], v) for k, v in items if k[0] == x]
            kids.append(self._node(sub) if sub else None)
        return rlp([self._ref(c) if c else b"" for c in kids] + [b""]), 1, kids

    def proof(self, key):
        """The nodes on the way to the key, from the root."""
        out, node, nib = [], self.top, nibbles(key)
        while node:
            if len(node[0]) >= 32 or not out:
                out.append(node[0])
            kid, nib0, nib = node[2], nib[0] if nib else None, nib[node[1]:]
            node = kid[nib0] if isinstance(kid, list) else kid
        return out
