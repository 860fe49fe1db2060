import json, os, subprocess
class Server:
    def __init__(self):
        self.p = subprocess.Popen([os.environ["KDL_LSP"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.n = 0
        self.ask("initialize", {"processId": None, "rootUri": None, "capabilities": {}})
        self.tell("initialized", {})
    def send(self, m):
        b = json.dumps({"jsonrpc": "2.0", **m}).encode()
        self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b); self.p.stdin.flush()
    def tell(self, m, p): self.send({"method": m, "params": p})
    def ask(self, m, p):
        self.n += 1
        self.send({"id": self.n, "method": m, "params": p})
        while True:
            n = 0
            while True:
                l = self.p.stdout.readline()
                if not l: raise SystemExit("the server ended")
                if not l.strip(): break
                if l.lower().startswith(b"content-length:"): n = int(l.split(b":")[1])
            v = json.loads(self.p.stdout.read(n))
            if v.get("id") == self.n: return v["result"]
    def open(self, u, t): self.tell("textDocument/didOpen", {"textDocument": {"uri": u, "languageId": "kdl", "version": 1, "text": t}})
    def change(self, u, *ts): self.tell("textDocument/didChange", {"textDocument": {"uri": u, "version": 2}, "contentChanges": [{"text": t} for t in ts]})
    def save(self, u, t=None): self.tell("textDocument/didSave", {"textDocument": {"uri": u}, "text": t})
    def close(self, u): self.tell("textDocument/didClose", {"textDocument": {"uri": u}})
    def diagnostics(self, u):
        return [tuple(i["range"][e][k] for e in ("start", "end") for k in ("line", "character")) for i in self.ask("textDocument/diagnostic", {"textDocument": {"uri": u}})["items"]]
s = Server()
