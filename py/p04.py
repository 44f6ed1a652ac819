"""The message centre in Python against a model of it: who may do what, where each message goes, and with which number."""
import base64

import ref
from iconservice import Address, IconScoreDatabase, Msg, Tx
from pyscore.bmc.bmc import BTPMessageCenter
from pyscore.bmc.message import BTPMessage, ErrorMessage, EventMessage
from pyscore.lib import BTPAddress, BTPException

OWN = "0x1.icon"
NETS = ["0x2.icon", "0x3.icon", "0x4.bsc", "0x5.eth"]
FAR = ["0x7.far", "0x8.far"]
SVCS = ["token", "coin", "x1"]
APIS = ["addPermission", "removePermission", "addService", "removeService", "addVerifier", "removeVerifier", "addLink", "removeLink", "setLink", "addRoute",
        "removeRoute", "sendMessage", "nextRelays"]


def run(m):
    m.run("centre", m.n(3000, 40000), lambda k: World(k).play())
    m.run("guarded", m.n(1500, 20000), lambda k: World(k, guarded=True).play())
    m.run("rotation", m.n(1500, 20000), rotation)


def addr(n, contract=False):
    return Address(contract, bytes([n]) * 20)


def where(net):
    return "btp://%s/%s" % (net, addr(60 + (NETS + FAR).index(net), True))


class Verifier:
    """What a verifier answers is up to the case."""

    def __init__(self):
        self.height, self.last, self.out, self.calls = 10, 10, [], []

    def getStatus(self):
        return {"height": self.height, "offset": 0, "last_height": self.last}

    def handleRelayMessage(self, bmc, prev, seq, msg):
        self.calls.append((bmc, prev, seq, msg))
        if self.out is None:
            raise BTPException("no proof", 25)
        self.height, self.last = self.next
        return list(self.out)


class Service:
    def __init__(self):
        self.calls, self.fail = [], None

    def handleBTPMessage(self, _from, _svc, _sn, _msg):
        if self.fail:
            raise BTPException(self.fail[1], self.fail[0])
        self.calls.append(("msg", _from, _svc, _sn, _msg))

    def handleBTPError(self, _src, _svc, _sn, _code, _msg):
        if self.fail:
            raise BTPException(self.fail[1], self.fail[0])
        self.calls.append(("error", _src, _svc, _sn, _code, _msg))


class World:
    def __init__(self, k, guarded=False):
        self.k, self.guarded, self.db = k, guarded, IconScoreDatabase()
        self.owner, self.users = addr(1), [addr(n) for n in range(1, 6)]
        self.bmvs = {addr(20 + i, True): Verifier() for i in range(len(NETS) + 1)}
        self.bshs = {addr(40 + i, True): Service() for i in range(3)}
        self.height, self.address = 100, addr(99, True)
        self.own = "btp://%s/%s" % (OWN, self.address)
        self.services, self.verifiers, self.links, self.routes, self.relayers, self.perms, self.control = {}, {}, {}, {}, {}, {}, False
        self.call(self.owner, "on_install", OWN)

    # one transaction
    def call(self, who, name, *a, origin=None):
        c = BTPMessageCenter.__new__(BTPMessageCenter)
        c.address, c.owner, c.block_height, self.events = self.address, self.owner, self.height, []
        c.msg, c.tx = Msg(who), Tx(origin or who)
        c.emit = lambda n, v: self.events.append((n,) + tuple(v))
        c.create_interface_score = lambda at, i: self.bmvs.get(at) or self.bshs[at]
        saved = dict(self.db.store)
        try:
            BTPMessageCenter.__init__(c, self.db)
            return getattr(c, name)(*a), None
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            self.db.store.clear()
            self.db.store.update(saved)
            self.events = []
            return None, e

    def bad(self, ok, sig, detail):
        self.k.check(ok, sig, "%s after%s" % (detail, self.k.input[-1500:]))

    def may(self, who, api, origin=None):
        if not self.control:
            return True
        holder = who if str(who) in self.perms else origin or who
        return api in self.perms.get(str(holder), ())

    def admin(self, allowed, ok, name, *a, who=None, code=None):
        """A request of the operator: done if it is allowed and makes sense, refused otherwise."""
        who = who or self.k.any(self.users)
        self.k.add(" %s:%s%s" % (str(who)[-2:], name, tuple(str(x)[-12:] for x in a)))
        may = allowed(who)
        if may is None:  # depends
            _, e = self.call(who, name, *a)
            return e is None
        _, e = self.call(who, name, *a)
        self.bad((e is None) == (may and ok), "admin", "%s%s of %s: %r though allowed is %s and sensible is %s" % (name, a, who, e, may, ok))
        if e is not None and may and code is not None:
            self.bad(getattr(e, "code", None) == code, "code", "%s%s: %r with code %s instead of %s" % (name, a, e, getattr(e, "code", None), code))
        if e is not None and not may:
            self.bad(getattr(e, "code", None) == 11, "code", "%s%s: %r with code %s for who is not allowed" % (name, a, e, getattr(e, "code", None)))
        return e is None

    def sent(self, to, data=None):
        """The model's side of a message to a link."""
        self.links[to]["tx"] += 1
        self.expect.append(("Message", to, self.links[to]["tx"], data))

    def settle(self, what):
        """The messages that were sent, against the expected."""
        got = [e for e in self.events if e[0] == "Message"]
        want = self.expect
        same = len(got) == len(want)
        for g, w in zip(got, want):
            same = same and g[:3] == w[:3] and (w[3] is None or (w[3](g[3]) if callable(w[3]) else g[3] == w[3]))
        self.bad(same, "sent", "%s sent %s instead of %s" % (what, got, want))
        self.k.count("messages", len(got))

    def allow(self, *apis):
        return lambda who: all(self.may(who, a) for a in apis)

    def linked(self, who):
        return True

    def play(self):
        k = self.k
        if k.chance(85):
            self.prepare()
        if self.guarded:
            for u in self.users[:2]:
                self.grant(u, k.r.sample(APIS, k.of(3, 7, 11, len(APIS))), self.owner)
            _, e = self.call(self.users[3], "setAccessControl", True)
            self.bad(e is not None, "control", "somebody turned access control on")
            _, e = self.call(self.owner, "setAccessControl", True)
            self.bad(e is None, "control", "%r" % e)
            self.control = True
        for _ in range(k.of(6, 20, 50)):
            self.expect = []
            x = k.pick(100)
            if x < 8:
                self.service()
            elif x < 18:
                self.verifier()
            elif x < 32:
                self.link()
            elif x < 40:
                self.route()
            elif x < 55:
                self.relay()
            elif x < 60:
                self.permission()
            elif x < 70:
                self.send()
            else:
                self.receive()
            self.height += k.of(0, 1, 5)
            if k.chance(30):
                self.look()
        self.look()
        k.seen(k.input)

    def prepare(self):
        """A network that is set up already."""
        k = self.k
        for i, net in enumerate(NETS):
            if k.chance(75):
                a, l = list(self.bmvs)[i], where(net)
                for name, args in (("addVerifier", (net, a)), ("addLink", (l,))):
                    _, e = self.call(self.owner, name, *args)
                    self.bad(e is None, "setup", "%s: %r" % (name, e))
                self.verifiers[net], self.links[l] = a, {"rx": 0, "tx": 0, "relays": {}, "reach": []}
                for o in self.links:
                    self.links[o]["tx"] += 1
                for u in self.users:
                    if k.chance(40):
                        if str(u) not in self.relayers:
                            _, e = self.call(u, "addRelayer", u, "d")
                            self.bad(e is None, "setup", "addRelayer: %r" % e)
                            self.relayers[str(u)] = {}
                        r = k.any(self.users)
                        if str(r) not in self.links[l]["relays"]:
                            _, e = self.call(u, "addRelay", l, r)
                            self.bad(e is None, "setup", "addRelay: %r" % e)
                            self.relayers[str(u)][l] = r
                            self.links[l]["relays"][str(r)] = [0, 0]
        for svc in SVCS:
            if k.chance(75):
                a = k.any(list(self.bshs))
                _, e = self.call(self.owner, "addService", svc, a)
                self.bad(e is None, "setup", "addService: %r" % e)
                self.services[svc], self.perms[str(a)] = a, ["sendMessage"]
        k.add(" %d links %d services;" % (len(self.links), len(self.services)))

    # the operator
    def grant(self, who, apis, by):
        sensible = all(a in APIS or a in ("addRelayer", "removeRelay") for a in apis) and len(apis) > 0
        if self.admin(self.allow("addPermission"), sensible, "addPermission", who, ",".join(apis), who=by):
            self.perms.setdefault(str(who), [])
            self.perms[str(who)] += [a for a in apis if a not in self.perms[str(who)]]

    def permission(self):
        k = self.k
        who, apis = k.any(self.users), k.r.sample(APIS, k.of(1, 1, 3))
        if k.chance(10):
            apis = k.of([], apis) + [k.of("everything", "")]
        if k.chance(50):
            self.grant(who, apis, k.any(self.users))
        else:
            sensible = str(who) in self.perms and all(a in APIS for a in apis)
            if self.admin(self.allow("removePermission"), sensible, "removePermission", who, ",".join(apis)):
                self.perms[str(who)] = [a for a in self.perms[str(who)] if a not in apis]

    def service(self):
        k = self.k
        svc, a = k.any(SVCS), k.any(list(self.bshs))
        if k.chance(60):
            if k.chance(10):
                svc = k.of("a b", "", "_event", "x,y")
            ok = svc in SVCS and svc not in self.services
            if self.admin(self.depends("addService", "addPermission"), ok, "addService", svc, a, code=15 if svc in self.services else None):
                self.bad(ok, "admin", "service %s was added" % svc)
                self.services[svc] = a
                self.perms.setdefault(str(a), [])
                if "sendMessage" not in self.perms[str(a)]:
                    self.perms[str(a)].append("sendMessage")
        else:
            ok = svc in self.services
            if self.admin(self.depends("removeService", "removePermission"), ok, "removeService", svc, code=None if ok else 16):
                self.bad(ok, "admin", "service %s was removed" % svc)
                a = self.services.pop(svc)
                if a not in self.services.values():
                    self.perms[str(a)] = [x for x in self.perms[str(a)] if x != "sendMessage"]

    def depends(self, first, second):
        def f(who):
            if not self.may(who, first):
                return False
            return True if self.may(who, second) else None
        return f

    def verifier(self):
        k = self.k
        net = k.any(NETS)
        if k.chance(75):
            if k.chance(5):
                net = OWN
            a = list(self.bmvs)[(NETS + [OWN]).index(net)]
            if self.admin(self.allow("addVerifier"), net != OWN and net not in self.verifiers, "addVerifier", net, a, code=13 if net in self.verifiers else None):
                self.verifiers[net] = a
        else:
            ok = net in self.verifiers and where(net) not in self.links
            if self.admin(self.allow("removeVerifier"), ok, "removeVerifier", net, code=None if net in self.verifiers else 14):
                del self.verifiers[net]

    def event(self, kind, target):
        def f(data):
            m = BTPMessage.from_bytes(data)
            e = EventMessage.from_bytes(m.payload)
            return (str(m.src), m.svc, m.sn, e.evt, e.values) == (self.own, "_event", 0, kind, [self.own, target])
        return f

    def link(self):
        k = self.k
        net = k.any(NETS)
        l = where(net)
        if k.chance(80):
            ok = net in self.verifiers and l not in self.links
            code = 14 if net not in self.verifiers else 17 if l in self.links else None
            if self.admin(self.allow("addLink"), ok, "addLink", l, code=code):
                self.links[l] = {"rx": 0, "tx": 0, "relays": {}, "reach": []}
                for o in self.links:
                    self.sent(o, self.event("Link", l))
                self.settle("addLink")
        else:
            if self.admin(self.allow("removeLink"), l in self.links, "removeLink", l, code=None if l in self.links else 18):
                for o in self.links:
                    self.sent(o, self.event("Unlink", l))
                self.settle("removeLink")
                del self.links[l]
                for r in self.relayers.values():
                    r.pop(l, None)

    def route(self):
        k = self.k
        dst, l = where(k.any(FAR + NETS[:1])), where(k.any(NETS))
        if k.chance(70):
            if self.admin(self.allow("addRoute"), dst not in self.routes, "addRoute", dst, l):
                self.routes[dst] = l
        else:
            if self.admin(self.allow("removeRoute"), dst in self.routes, "removeRoute", dst):
                del self.routes[dst]

    def relay(self):
        k = self.k
        who, l, a = k.any(self.users), where(k.any(NETS)), k.any(self.users)
        x = k.pick(10)
        if x < 2:
            if str(who) not in self.relayers:
                self.admin(self.linked, True, "addRelayer", who, "d", who=self.owner)
                self.relayers[str(who)] = {}
        elif x == 2:
            if not self.relayers.get(str(who)):
                if self.admin(self.linked, str(who) in self.relayers, "removeRelayer", who, who=self.owner):
                    del self.relayers[str(who)]
        elif x < 8:
            mine = self.relayers.get(str(who))
            ok = mine is not None and l not in mine and l in self.links and str(a) not in self.links[l]["relays"]
            if self.admin(self.linked, ok, "addRelay", l, a, who=who):
                mine[l] = a
                self.links[l]["relays"][str(a)] = [0, 0]
        else:
            mine = self.relayers.get(str(who))
            if mine and k.chance(80):
                l = k.any(list(mine))
                a = mine[l] if k.chance(80) else a
            ok = mine is not None and mine.get(l) == a
            if self.admin(self.linked, ok, "removeRelay", l, a, who=who):
                del mine[l]
                del self.links[l]["relays"][str(a)]

    # messages
    def resolve(self, net):
        """The next link and the destination for a network, or why not."""
        for dst, l in self.routes.items():
            if BTPAddress.from_string(dst).net == net:
                return (l, dst) if l in self.links else (None, 18)
        for l in self.links:
            if BTPAddress.from_string(l).net == net:
                return l, l
        for l, v in self.links.items():
            for r in v["reach"]:
                if BTPAddress.from_string(r).net == net:
                    return l, r
        return None, 19

    def send(self):
        k = self.k
        net, svc, sn, data = k.any(NETS + FAR), k.any(SVCS), k.of(0, 1, 5, 2 ** 40, -1), k.bytes(k.of(0, 1, 40, 300))
        who = k.any(list(self.bshs) + self.users)
        k.add(" %s sends to %s" % (str(who)[-2:], net))
        l, dst = self.resolve(net)
        may = self.may(who, "sendMessage", self.users[4])
        _, e = self.call(who, "sendMessage", net, svc, sn, data, origin=self.users[4])
        self.bad((e is None) == (may and sn >= 0 and l is not None), "send", "to %s: %r though allowed is %s, number %d, next %s" % (net, e, may, sn, l))
        if e is None:
            want = ref_message(self.own, dst, svc, sn, data)
            self.sent(l, want)
        elif may and sn >= 0:
            self.bad(getattr(e, "code", None) == dst, "code", "sending to %s: %r with code %s instead of %s" % (net, e, getattr(e, "code", None), dst))
        self.settle("sendMessage")

    def receive(self):
        k = self.k
        if not self.links:
            return
        l = k.any(list(self.links))
        link, net = self.links[l], BTPAddress.from_string(l).net
        v = self.bmvs[self.verifiers[net]]
        who = k.any(self.users)
        if link["relays"] and k.chance(80):
            who = Address.from_string(k.any(list(link["relays"])))
        v.calls, before = [], (v.height, v.last)
        v.next = (v.height + k.of(0, 1, 7), v.last + k.of(0, 1, 5))
        for s in self.bshs.values():
            s.calls, s.fail = [], (k.of(40, 41, 45), k.of("no", "")) if k.chance(15) else None
        v.out = None if k.chance(5) else []
        handled, todo = {a: [] for a in self.bshs}, []
        for _ in range(k.of(0, 1, 1, 3, 8) if v.out is not None else 0):
            src = where(k.any(NETS + FAR))
            svc, sn, data = k.any(SVCS + ["none"]), k.of(0, 1, 7, 2 ** 40), k.bytes(k.of(0, 3, 50))
            x = k.pick(20)
            if x < 3:
                evt, t = k.of("Link", "Link", "Unlink"), where(k.any(FAR + NETS))
                v.out.append(ref_message(l, self.own, "_event", 0, ref.rlp([evt.encode(), [l.encode(), t.encode()]])))
                todo.append(("event", evt, t))
            elif x == 3:
                v.out.append(b"\xc1\x80")
                todo.append(("nothing",))
            elif x < 7:
                dst = where(k.any(NETS + FAR))
                neg = k.chance(30)
                if neg:
                    data = ref.rlp([ref.ib(k.of(1, 19)), b"failed"])
                m = ref_message(src, dst, svc, -sn if neg else sn, data, k.chance(30))
                v.out.append(m)
                todo.append(("on", src, dst, svc, -sn if neg else sn, m))
            elif x < 11:
                code, text = k.of(1, 19, 40), k.of("failed", "")
                sn = sn or 3
                v.out.append(ref_message(src, self.own, svc, -sn, ref.rlp([ref.ib(code), text.encode()])))
                todo.append(("error", src, svc, sn, code, text))
            else:
                v.out.append(ref_message(src, self.own, svc, sn, data))
                todo.append(("msg", src, svc, sn, data))
        k.add(" %s relays %s from %s" % (str(who)[-2:], "nothing valid" if v.out is None else [t[0] for t in todo], net))
        ok = v.out is not None and str(who) in link["relays"]
        text = base64.urlsafe_b64encode(k.bytes(5)).decode()
        saved = {a: (b["tx"], list(b["reach"])) for a, b in self.links.items()}
        if ok:
            failed = []
            for t in todo:
                if t[0] == "event":
                    if t[1] == "Link" and t[2] not in link["reach"]:
                        link["reach"].append(t[2])
                    elif t[1] == "Unlink" and t[2] in link["reach"]:
                        i = link["reach"].index(t[2])
                        last = link["reach"].pop()
                        if i < len(link["reach"]):
                            link["reach"][i] = last
                elif t[0] == "on":
                    n, dst = self.resolve(BTPAddress.from_string(t[2]).net)
                    if n is not None:
                        self.sent(n, t[5])
                    elif t[4] > 0:
                        self.sent(l, self.error(t[1], t[3], t[4], dst))
                elif t[0] == "msg":
                    s = self.services.get(t[2])
                    b = self.bshs.get(s)
                    if b is None or b.fail:
                        if t[3] > 0:
                            self.sent(l, self.error(t[1], t[2], t[3], b.fail[0] if b else 16))
                    else:
                        handled[s].append(("msg", BTPAddress.from_string(t[1]).net) + t[2:])
                elif t[0] == "error":
                    s = self.services.get(t[2])
                    b = self.bshs.get(s)
                    if b is None or b.fail:
                        failed.append(("ErrorOnBTPError", t[2], t[3], t[4], t[5], b.fail[0] if b else 16))
                    else:
                        handled[s].append(t)
        _, e = self.call(who, "handleRelayMessage", l, text)
        self.bad((e is None) == ok, "relay", "%r though the relay is %sregistered and the proof is %s" % (e, "" if str(who) in link["relays"] else "not ", "valid" if v.out is not None else "not"))
        if not ok:
            v.height, v.last = before
            return
        self.bad(v.calls == [(self.own, l, link["rx"], text)], "verified", "the verifier was asked %s" % (v.calls,))
        self.settle("handleRelayMessage")
        for a, s in self.bshs.items():
            self.bad(s.calls == handled[a], "dispatch", "service %s got %s instead of %s" % (a, s.calls, handled[a]))
            k.count("handled", len(s.calls))
        got = [x[:6] for x in self.events if x[0] == "ErrorOnBTPError"]
        self.bad(got == failed, "dispatch", "failures of errors %s instead of %s" % (got, failed))
        link["rx"] += len(todo)
        r = link["relays"][str(who)]
        r[0] += v.height - before[0]
        r[1] += len(todo)

    def error(self, to, svc, sn, code):
        def f(data):
            m = BTPMessage.from_bytes(data)
            e = ErrorMessage.from_bytes(m.payload)
            return (str(m.src), str(m.dst), m.svc, m.sn, e.code) == (self.own, to, svc, -sn, code)
        return f

    def look(self):
        """Everything that can be asked."""
        def ask(name, *a):
            got, e = self.call(addr(9), name, *a)
            self.bad(e is None, "ask", "%s%s: %r" % (name, a, e))
            return got
        self.bad(ask("btpAddress") == self.own, "ask", "the own address")
        self.bad(ask("getServices") == self.services, "ask", "services instead of %s" % self.services)
        self.bad(ask("getVerifiers") == self.verifiers, "ask", "verifiers instead of %s" % self.verifiers)
        self.bad(list(ask("getLinks")) == list(self.links), "ask", "links instead of %s" % list(self.links))
        self.bad({a: str(b) for a, b in ask("getRoutes").items()} == self.routes, "ask", "routes instead of %s" % self.routes)
        self.bad({a: {str(l): r for l, r in b["relays"].items()} for a, b in ask("getRelayers").items()} == {a: dict(b) for a, b in self.relayers.items()}, "ask", "relayers instead of %s" % self.relayers)
        self.bad({a: sorted(b or ()) for a, b in ask("getPermissions").items()} == {a: sorted(b) for a, b in self.perms.items()}, "ask", "permissions instead of %s" % self.perms)
        for l, m in self.links.items():
            s = ask("getStatus", l)
            want = (m["rx"], m["tx"], [(a, b, c) for a, (b, c) in m["relays"].items()], self.height, self.bmvs[self.verifiers[BTPAddress.from_string(l).net]].getStatus())
            got = (s["rx_seq"], s["tx_seq"], [(str(r["address"]), r["block_count"], r["msg_count"]) for r in s["relays"]], s["cur_height"], s["verifier"])
            self.bad(got == want, "status", "%s of %s instead of %s" % (got, l, want))
            self.bad([str(a) for a in ask("getRelays", l)] == list(m["relays"]), "status", "relays of %s" % l)
        self.k.count("looks")


def ref_message(src, dst, svc, sn, payload, long=False):
    n = ref.ib(sn)
    if long:  # the same number, written longer
        n = (b"\xff" if sn < 0 else b"\0") + n
    return ref.rlp([src.encode(), dst.encode(), svc.encode(), n, payload])


def rotation(k):
    """With turns, one relay at a time is accepted, and all have their turn."""
    w = World(k)
    l = where(NETS[0])
    v = list(w.bmvs.values())[0]
    for name, a in (("addVerifier", (NETS[0], list(w.bmvs)[0])), ("addLink", (l,))):
        _, e = w.call(w.owner, name, *a)
        w.bad(e is None, "setup", "%s: %r" % (name, e))
    relays = []

    def change():
        r = addr(100 + k.pick(6))
        owner = Address(False, bytes([r.body[0] + 20]) * 20)
        if r in relays:
            k.add(" -%s" % str(r)[-2:])
            _, e = w.call(owner, "removeRelay", l, r)
            relays.remove(r)
        else:
            k.add(" +%s" % str(r)[-2:])
            w.call(owner, "addRelayer", owner, "")
            _, e = w.call(owner, "addRelay", l, r)
            relays.append(r)
        w.bad(e is None, "setup", "a relay: %r" % e)

    for _ in range(k.of(1, 2, 3, 6)):
        change()
    interval, agg, delay = k.of(500, 1000, 2000, 3000), k.of(1, 5, 10), k.of(1, 3, 5)
    k.add(" setLink(%d, %d, %d)" % (interval, agg, delay))
    _, e = w.call(w.owner, "setLink", l, interval, agg, delay)
    w.bad(e is None, "setup", "setLink: %r" % e)
    rx, turns, gone = 0, set(), 0
    before = w.call(addr(9), "getStatus", l)[0]
    term = -(-agg * interval // 1000)  # of this chain's blocks of a second
    w.bad(before["rotate_term"] == term and before["rotate_height"] == w.height + term, "rotation", "a term of %s instead of %d, until %s" % (before["rotate_term"], term, before["rotate_height"]))
    for _ in range(k.of(3, 10, 25)):
        if k.chance(15):
            was = w.call(addr(9), "getStatus", l)[0]["relays"]
            change()
            now = w.call(addr(9), "getStatus", l)[0]
            gone += sum(x["msg_count"] for x in was if x["address"] not in [y["address"] for y in now["relays"]])
            w.bad(not relays or 0 <= now["relay_idx"] < len(relays), "rotation", "the turn is of %d of %d" % (now["relay_idx"], len(relays)))
            before = now
        w.height += k.of(0, 1, 2, 5, 20, 60)
        v.next = (v.height + k.of(0, 1, 4), v.last + k.of(0, 1, 4))
        v.out = [b"\xc1\x80"] * k.of(0, 0, 1, 2)
        k.add(" %d:%d@%d" % (w.height, len(v.out), v.next[1]))
        was, store, accepted = (v.height, v.last), dict(w.db.store), []
        for i, r in enumerate(relays):
            _, e = w.call(r, "handleRelayMessage", l, "")
            if e is None:
                accepted.append((i, dict(w.db.store)))
                w.db.store.clear()
                w.db.store.update(store)
            v.height, v.last = was
        _, e = w.call(addr(77), "handleRelayMessage", l, "")
        w.bad(e is not None, "rotation", "a stranger was accepted")
        v.height, v.last = was
        w.bad(len(accepted) == (len(relays) > 0), "rotation", "%d relays of %d are accepted at once" % (len(accepted), len(relays)))
        if not accepted:
            continue
        i, st = accepted[0]
        w.db.store.clear()
        w.db.store.update(st)
        v.height, v.last = v.next
        rx += len(v.out)
        turns.add(i)
        s = w.call(addr(9), "getStatus", l)[0]
        w.bad(s["relay_idx"] == i, "rotation", "relay %d was accepted though the turn is of %d" % (i, s["relay_idx"]))
        w.bad(s["rx_seq"] == rx, "rotation", "%d messages instead of %d" % (s["rx_seq"], rx))
        w.bad(gone + sum(r["msg_count"] for r in s["relays"]) == rx, "rotation", "counts %s instead of %d" % (s["relays"], rx))
        if not v.out:
            # a term after the other
            n = max(0, -(-(w.height - before["rotate_height"]) // term))
            want = ((before["relay_idx"] + n) % len(relays), before["rotate_height"] + n * term)
            w.bad((i, s["rotate_height"]) == want, "rotation", "without messages relay %d until %d instead of %s" % (i, s["rotate_height"], want))
        else:
            w.bad(s["rotate_height"] >= before["rotate_height"], "rotation", "the turn ends at %d after %d" % (s["rotate_height"], before["rotate_height"]))
        before = s
        k.count("turns")
    k.seen(tuple(turns), k.input)
