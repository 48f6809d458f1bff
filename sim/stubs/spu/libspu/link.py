"""Link contexts with yacl's naming scheme: a child's id is parent id + counter,
every message tag carries the context id, and all contexts share the channels."""


class IChannel:
    def __init__(self):
        pass


class Desc:
    def __init__(self):
        self.parties = []
        self.id = "root"
        self.recv_timeout_ms = 30000

    def add_party(self, pid, host):
        self.parties.append((pid, host))


class Context:
    def __init__(self, cid, desc, rank, channels):
        self.id = cid
        self.desc = desc
        self.rank = rank
        self.world_size = len(desc.parties)
        self.channels = channels
        self._children = 0
        self._count = 0

    def spawn(self, id=""):
        if not id:
            id = str(self._children)
            self._children += 1
        return Context(f"{self.id}-{id}", self.desc, self.rank, self.channels)

    def all_gather(self, data):
        n = self._count
        self._count += 1
        out = [None] * self.world_size
        out[self.rank] = data
        for j in range(self.world_size):
            if j != self.rank:
                self.channels[j].SendAsync(f"{self.id}:{n}:{self.rank}->{j}", data)
        for j in range(self.world_size):
            if j != self.rank:
                out[j] = self.channels[j].Recv(f"{self.id}:{n}:{j}->{self.rank}")
        return out


def create_with_channels(desc, self_rank, channels):
    if len(channels) != len(desc.parties) or channels[self_rank] is not None:
        raise RuntimeError("bad channels")
    # every party greets every other one before the link is used
    for c in channels:
        if c is not None:
            c.TestSend(desc.recv_timeout_ms)
    for c in channels:
        if c is not None:
            c.TestRecv()
    return Context(desc.id, desc, self_rank, list(channels))


def create_mem(desc, self_rank):
    if len(desc.parties) != 1:
        raise RuntimeError("stub: mem links support one party")
    return Context(desc.id, desc, self_rank, [None])


class _Server:
    """A party's listening socket: messages by tag, kept until they are asked for."""

    def __init__(self, k, node):
        self.k, self.node = k, node
        self.box = {}
        self.waiting = []

    def put(self, tag, data):
        self.box.setdefault(tag, []).append(data)
        for t in self.waiting:
            self.k.make_ready(t, "brpc")
        self.waiting.clear()

    def get(self, tag, limit):
        k = self.k
        end = k.now + limit
        while not self.box.get(tag):
            if k.now >= end:
                raise RuntimeError(f"stub: brpc recv timeout {tag}")
            self.waiting.append(k.cur)
            k.block("brpc recv", end - k.now)
        return self.box[tag].pop(0)


class _Peer:
    def __init__(self, k, mine, theirs, limit):
        self.k, self.mine, self.theirs, self.limit = k, mine, theirs, limit

    def SendAsync(self, tag, data):
        k, to = self.k, self.theirs
        if not to.node.alive:
            raise RuntimeError("stub: brpc peer is gone")
        k.after(k.net._lat(), lambda: to.node.alive and to.put(tag, data))

    def Recv(self, tag):
        return self.mine.get(tag, self.limit)


def create_brpc(desc, self_rank):
    """Listens on the own address and connects to every other party's."""
    from sim import kernel as K
    from sim import procs

    k = K.CURRENT
    me = procs.here()
    if me is None:
        raise RuntimeError("stub: brpc links are simulated between processes only")
    sockets = k.__dict__.setdefault("brpc", {})

    def where(host):
        name, _, port = host.rpartition(":")
        if not port.isdigit() or "/" in name:
            raise RuntimeError(f"stub: bad address {host!r}")
        return procs.resolve(me.machine, host)

    own = where(desc.parties[self_rank][1])
    if own.rpartition(":")[0] != me.machine:
        raise RuntimeError(f"stub: cannot bind {own} on {me.machine}")
    old = sockets.get(own)
    if old is not None and old.node.alive or own in k.net.hosts:
        raise RuntimeError(f"stub: address already in use {own}")
    mine = sockets[own] = _Server(k, me.node)
    channels = []
    for i, (_, host) in enumerate(desc.parties):
        if i == self_rank:
            channels.append(None)
            continue
        to = where(host)
        for _ in range(600):
            s = sockets.get(to)
            if s is not None and s.node.alive:
                break
            k.sleep(0.2)
        else:
            raise RuntimeError(f"stub: connect to {to} failed")
        channels.append(_Peer(k, mine, s, desc.recv_timeout_ms / 1000))
    return Context(desc.id, desc, self_rank, channels)
