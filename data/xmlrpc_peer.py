"""The other implementation: Python's own xmlrpc.client and xmlrpc.server,
driven over stdin/stdout by frames (length, then a value in a simple code)."""
import os
import socketserver
import ssl
import struct
import sys
import threading
import xmlrpc.client
import xmlrpc.server


def enc(v, o):
    if v is None:
        o.append(b"n")
    elif v is True or v is False:
        o.append(b"b1" if v else b"b0")
    elif isinstance(v, int):
        o.append(b"i%d;" % v)
    elif isinstance(v, float):
        o.append(b"d" + struct.pack(">d", v))
    elif isinstance(v, str):
        b = v.encode("utf-8", "surrogatepass")
        o.append(b"s%d;" % len(b) + b)
    elif isinstance(v, xmlrpc.client.Binary):
        o.append(b"B%d;" % len(v.data) + v.data)
    elif isinstance(v, xmlrpc.client.DateTime):
        b = v.value.encode()
        o.append(b"t%d;" % len(b) + b)
    elif isinstance(v, (list, tuple)):
        o.append(b"[%d;" % len(v))
        for x in v:
            enc(x, o)
    elif isinstance(v, dict):
        o.append(b"{%d;" % len(v))
        for k in v:
            enc(k, o)
            enc(v[k], o)
    else:
        enc("?" + repr(v), o)


class Dec:
    def __init__(self, b):
        self.b, self.p = b, 0

    def num(self):
        e = self.b.index(b";", self.p)
        n = int(self.b[self.p:e])
        self.p = e + 1
        return n

    def raw(self, n):
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def value(self):
        c = self.raw(1)
        if c == b"n":
            return None
        if c == b"b":
            return self.raw(1) == b"1"
        if c == b"i":
            return self.num()
        if c == b"d":
            return struct.unpack(">d", self.raw(8))[0]
        if c == b"s":
            return self.raw(self.num()).decode("utf-8")
        if c == b"B":
            return xmlrpc.client.Binary(self.raw(self.num()))
        if c == b"t":
            return xmlrpc.client.DateTime(self.raw(self.num()).decode())
        if c == b"[":
            return [self.value() for _ in range(self.num())]
        if c == b"{":
            d = {}
            for _ in range(self.num()):
                k = self.value()
                d[k] = self.value()
            return d
        raise ValueError(c)


class Once:
    """No silent second attempt."""
    def request(self, host, handler, request_body, verbose=False):
        return self.single_request(host, handler, request_body, verbose)

    def make_connection(self, host):
        c = super().make_connection(host)
        c.timeout = 25
        return c


class Plain(Once, xmlrpc.client.Transport):
    pass


class Safe(Once, xmlrpc.client.SafeTransport):
    pass


state = {"next": ("ok", None), "got": []}
lock = threading.Lock()


class Instance:
    def _dispatch(self, method, params):
        with lock:
            state["got"].append([method, list(params)])
            n = state["next"]
        if n[0] == "fault":
            raise xmlrpc.client.Fault(n[1], n[2])
        return n[1]


class Server(socketserver.ThreadingMixIn, xmlrpc.server.SimpleXMLRPCServer):
    daemon_threads = True
    request_queue_size = 50

    def handle_error(self, request, client_address):
        with lock:
            state["got"].append(["error", [repr(sys.exc_info()[1])]])


proxies, servers = {}, []


def serve(host, tls, version, crt, key):
    class H(xmlrpc.server.SimpleXMLRPCRequestHandler):
        protocol_version = version
        rpc_paths = ("/RPC2",)
        disable_nagle_algorithm = True

    s = Server((host, 0), requestHandler=H, logRequests=False, allow_none=True)
    s.register_instance(Instance())
    if tls:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        c.load_cert_chain(crt, key)
        s.socket = c.wrap_socket(s.socket, server_side=True)
    servers.append(s)
    threading.Thread(target=s.serve_forever, kwargs={"poll_interval": 60}, daemon=True).start()
    return s.server_address[1]


def handle(m):
    cmd = m[0]
    if cmd == "serve":
        return serve(*m[1:])
    if cmd == "next":
        with lock:
            state["next"] = tuple(m[1:])
            state["got"] = []
        return None
    if cmd == "got":
        with lock:
            return state["got"]
    if cmd == "proxy":
        _, pid, url, headers = m
        hs = list(headers.items())
        t = Safe(headers=hs, context=ssl._create_unverified_context()) if url.startswith("https") else Plain(headers=hs)
        proxies[pid] = xmlrpc.client.ServerProxy(url, transport=t, allow_none=True)
        return None
    if cmd == "drop":
        for p in proxies.values():
            p("close")()
        proxies.clear()
        return None
    if cmd == "call":
        _, pid, method, params = m
        try:
            return ["ok", getattr(proxies[pid], method)(*params)]
        except xmlrpc.client.Fault as e:
            return ["fault", e.faultCode, e.faultString]
        except Exception as e:
            return ["error", type(e).__name__ + ": " + str(e)[:300]]
    raise ValueError(cmd)


def main():
    i, o = sys.stdin.buffer, sys.stdout.buffer
    while True:
        h = i.read(4)
        if len(h) < 4:
            os._exit(0)
        r = handle(Dec(i.read(struct.unpack("<I", h)[0])).value())
        out = []
        enc(r, out)
        b = b"".join(out)
        o.write(struct.pack("<I", len(b)) + b)
        o.flush()


main()
