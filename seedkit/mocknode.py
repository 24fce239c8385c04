"""A node on the loopback network, enough for vrf-cli and vrf-oracle: JSON-RPC over HTTP and programSubscribe over WebSocket."""
import base64, hashlib, json, os, socket, struct, subprocess, sys, threading, time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

P = 2**255 - 19
D = (-121665 * pow(121666, P - 2, P)) % P
AL = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58e(b):
    n, s = int.from_bytes(b, "big"), ""
    while n:
        n, r = divmod(n, 58)
        s = AL[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s


def b58d(s, size=None):
    n = 0
    for c in s:
        n = n * 58 + AL.index(c)
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    b = b"\0" * (len(s) - len(s.lstrip("1"))) + b
    return b if size is None else b.rjust(size, b"\0")


def on_curve(b):
    y = int.from_bytes(b, "little") & (2**255 - 1)
    if y >= P:
        y %= P
    u, v = (y * y - 1) % P, (D * y * y + 1) % P
    x2 = u * pow(v, P - 2, P) % P
    return x2 == 0 or pow(x2, (P - 1) // 2, P) == 1


def pda(seeds, program):
    for bump in range(255, -1, -1):
        h = hashlib.sha256(b"".join(seeds) + bytes([bump]) + program + b"ProgramDerivedAddress").digest()
        if not on_curve(h):
            return h


VRF = b58d("Vrf1RNUjXmQGjmQrQLvJHs9SNkvDJEsRVFPkfSQUwGz", 32)
DLP = b58d("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh", 32)
SYS = bytes(32)
DEFAULT = b58d("D4fURjsRpMj1vzfXqHgL94UeJyXR8DFyfyBDmbY647PnpuDzszvbRocMQu6Tzr1LUzBTQvXjarCxeb94kSTqvYx", 64)
ME = DEFAULT[32:]


def queue_of(owner, index):
    return pda([b"queue", owner, bytes([index])], VRF)


def request(rid, slot, program=b"\x21" * 32, prio=0, metas=(), args=b"", disc=b"\x07" * 8):
    return dict(id=rid, slot=slot, program=program, prio=prio, metas=list(metas), args=args, disc=disc)


def queue(requests, index=0, size=4000):
    """The account's bytes."""
    a = bytearray(size - 8)
    at = 16
    for r in requests:
        at = (at + 7) // 8 * 8
        o = at + 96
        m = b"".join(k + bytes([w]) for k, w in r["metas"])
        item = struct.pack("<Q", r["slot"]) + r["id"] + r["program"]
        item += struct.pack("<III", o, o + len(r["disc"]), o + len(r["disc"]) + len(m))
        item += struct.pack("<HHH", len(r["disc"]), len(r["metas"]), len(r["args"]))
        item += bytes([r["prio"], 1, 0, 0, 0, 0])
        all = item + r["disc"] + m + r["args"]
        a[at : at + len(all)] = all
        at += len(all)
    a[0:12] = struct.pack("<IIB", len(requests), at, index) + b"\0\0\0"
    return bytes([3, 0, 0, 0, 0, 0, 0, 0]) + bytes(a)


def cu16(b, i):
    n = s = 0
    while True:
        n |= (b[i] & 127) << s
        i += 1
        if b[i - 1] < 128:
            return n, i
        s += 7


def parse_tx(b):
    """signature, account keys, blockhash, instructions (program, [keys], data), number of signers"""
    n, i = cu16(b, 0)
    sig = b[i : i + 64]
    i += 64 * n
    signers = b[i]
    i += 3
    n, i = cu16(b, i)
    keys = [b[i + 32 * k : i + 32 * k + 32] for k in range(n)]
    i += 32 * n
    bh = b[i : i + 32]
    i += 32
    n, i = cu16(b, i)
    ixs = []
    for _ in range(n):
        p = keys[b[i]]
        m, i = cu16(b, i + 1)
        acc = [keys[x] for x in b[i : i + m]]
        m, i = cu16(b, i + m)
        ixs.append((p, acc, b[i : i + m]))
        i += m
    return dict(sig=sig, keys=keys, blockhash=bh, ixs=ixs, signers=signers, size=len(b))


class Node:
    def __init__(self):
        self.slot = 1000
        self.accounts = {}  # key -> (owner, lamports, data)
        self.sent = []  # (time, parsed transaction, options)
        self.calls = []
        self.confirm = lambda sig: True
        self.refuse = lambda method: False  # answer with an error
        self.hashes = 0
        self.subs = []
        self.lock = threading.Lock()
        node = self

        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def do_POST(self):
                q = json.loads(self.rfile.read(int(self.headers["Content-Length"])))
                with node.lock:
                    node.calls.append((time.time(), q["method"]))
                    try:
                        if node.refuse(q["method"]):
                            raise ValueError("refused")
                        r = {"jsonrpc": "2.0", "id": q["id"], "result": node.answer(q["method"], q.get("params") or [])}
                    except Exception as e:
                        r = {"jsonrpc": "2.0", "id": q["id"], "error": {"code": -32000, "message": str(e)}}
                b = json.dumps(r).encode()
                self.send_response(200)
                self.send_header("Content-Type", "application/json")
                self.send_header("Content-Length", str(len(b)))
                self.end_headers()
                self.wfile.write(b)

        self.http = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.http.daemon_threads = True
        threading.Thread(target=self.http.serve_forever, daemon=True).start()
        self.url = "http://127.0.0.1:%d" % self.http.server_address[1]
        self.ws = socket.create_server(("127.0.0.1", 0))
        threading.Thread(target=self.serve_ws, daemon=True).start()
        self.ws_url = "ws://127.0.0.1:%d" % self.ws.getsockname()[1]

    def ctx(self, v):
        return {"context": {"slot": self.slot, "apiVersion": "2.3.0"}, "value": v}

    def ui(self, k):
        o, l, d = self.accounts[k]
        return {"lamports": l, "data": [base64.b64encode(d).decode(), "base64"], "owner": b58e(o), "executable": False, "rentEpoch": 0, "space": len(d)}

    def answer(self, m, p):
        if m == "getLatestBlockhash":
            self.hashes += 1
            return self.ctx({"blockhash": b58e(struct.pack(">Q", self.hashes) + b"\x09" * 24), "lastValidBlockHeight": 10**6})
        if m == "getProgramAccounts":
            prog = b58d(p[0], 32)
            return [{"pubkey": b58e(k), "account": self.ui(k)} for k, v in self.accounts.items() if v[0] == prog]
        if m == "getAccountInfo":
            k = b58d(p[0], 32)
            return self.ctx(self.ui(k) if k in self.accounts else None)
        if m == "getMultipleAccounts":
            ks = [b58d(x, 32) for x in p[0]]
            return self.ctx([self.ui(k) if k in self.accounts else None for k in ks])
        if m == "sendTransaction":
            o = p[1] if len(p) > 1 else {}
            raw = base64.b64decode(p[0]) if o.get("encoding") == "base64" else b58d(p[0])
            t = parse_tx(raw)
            self.sent.append((time.time(), t, o))
            return b58e(t["sig"])
        if m == "getSignatureStatuses":
            return self.ctx([{"slot": self.slot, "confirmations": 1, "err": None, "status": {"Ok": None}, "confirmationStatus": "confirmed"} if self.confirm(b58d(s)) else None for s in p[0]])
        if m == "isBlockhashValid":
            return self.ctx(True)
        if m == "getBlockHeight" or m == "getSlot":
            return self.slot
        if m == "getVersion":
            return {"solana-core": "2.3.0", "feature-set": 1}
        if m == "requestAirdrop":
            return b58e(b"\x01" * 64)
        raise ValueError("unknown method " + m)

    # ---- WebSocket
    def serve_ws(self):
        while True:
            c, _ = self.ws.accept()
            threading.Thread(target=self.one_ws, args=(c,), daemon=True).start()

    def one_ws(self, c):
        try:
            h = b""
            while b"\r\n\r\n" not in h:
                h += c.recv(4096)
            key = [l.split(b":", 1)[1].strip() for l in h.split(b"\r\n") if l.lower().startswith(b"sec-websocket-key")][0]
            acc = base64.b64encode(hashlib.sha1(key + b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11").digest())
            c.sendall(b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + acc + b"\r\n\r\n")
            f = c.makefile("rb")
            while True:
                a = f.read(2)
                if len(a) < 2:
                    return
                n = a[1] & 127
                if n == 126:
                    n = struct.unpack(">H", f.read(2))[0]
                elif n == 127:
                    n = struct.unpack(">Q", f.read(8))[0]
                mask = f.read(4) if a[1] & 128 else b"\0" * 4
                d = bytes(x ^ mask[i % 4] for i, x in enumerate(f.read(n)))
                op = a[0] & 15
                if op == 8:
                    return
                if op == 9:
                    c.sendall(bytes([0x8A, len(d)]) + d)
                if op == 1:
                    q = json.loads(d)
                    self.frame(c, {"jsonrpc": "2.0", "id": q["id"], "result": 7})
                    if q["method"] == "programSubscribe":
                        self.subs.append(c)
        except OSError:
            pass

    def frame(self, c, o):
        b = json.dumps(o).encode()
        n = len(b)
        h = bytes([0x81]) + (bytes([n]) if n < 126 else b"\x7e" + struct.pack(">H", n) if n < 65536 else b"\x7f" + struct.pack(">Q", n))
        c.sendall(h + b)

    def subscribed(self, count=1, secs=20):
        t = time.time() + secs
        while len(self.subs) < count and time.time() < t:
            time.sleep(0.05)
        time.sleep(0.3)
        return len(self.subs) >= count

    def notify(self, key):
        """Shows the subscriber the account as it is."""
        v = self.ctx({"pubkey": b58e(key), "account": self.ui(key)})
        self.frame(self.subs[-1], {"jsonrpc": "2.0", "method": "programNotification", "params": {"result": v, "subscription": 7}})

    # ---- what was submitted for the VRF program
    def fulfilled(self):
        """ids fulfilled, in order"""
        return [x[2][8:40] for _, t, _ in self.sent for x in t["ixs"] if x[0] == VRF and x[2][0] == 4]

    def purges(self):
        return [x for _, t, _ in self.sent for x in t["ixs"] if x[0] == VRF and x[2][0] == 9]


def wait_for(f, secs):
    t = time.time() + secs
    while time.time() < t:
        if f():
            return True
        time.sleep(0.1)
    return bool(f())


def oracle(node, *args):
    e = {k: v for k, v in os.environ.items() if not k.startswith("VRF_") and k not in ("RPC_URL", "WEBSOCKET_URL")}
    return subprocess.Popen(["target/debug/vrf-oracle", "--rpc-url", node.url, "--websocket-url", node.ws_url, *args], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def cli(node, *args):
    e = {k: v for k, v in os.environ.items() if k not in ("RPC_URL", "KEYPAIR_BASE58")}
    return subprocess.run(["target/debug/vrf-cli", "--rpc-url", node.url, *args], env=e, capture_output=True, text=True, timeout=60)
