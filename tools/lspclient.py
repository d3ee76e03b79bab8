"""Minimal stdio LSP client for demonstrations."""
import json, subprocess, sys, os, tempfile, shutil

class Client:
    def __init__(self, caps=None):
        self.p = subprocess.Popen([os.path.join(os.getcwd(), "target/debug/ink-lsp-server")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.n = 0
        self.log = []
        self.init = self.req("initialize", {"capabilities": caps or {}, "processId": None, "rootUri": None})
        self.note("initialized", {})
    def _w(self, m):
        b = json.dumps(dict(jsonrpc="2.0", **m)).encode()
        self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b); self.p.stdin.flush()
    def _r(self):
        n = None
        while True:
            l = self.p.stdout.readline()
            if not l: raise EOFError("server ended")
            if l == b"\r\n": break
            if l.lower().startswith(b"content-length:"): n = int(l.split(b":")[1])
        return json.loads(self.p.stdout.read(n))
    def note(self, method, params): self._w({"method": method, "params": params})
    def answer(self, id, result): self._w({"id": id, "result": result})
    def req(self, method, params):
        """Sends a request, returns its response; everything else received meanwhile goes to self.log."""
        self.n += 1
        self._w({"id": self.n, "method": method, "params": params})
        while True:
            m = self._r()
            if m.get("id") == self.n and "method" not in m: return m
            self.log.append(m)
    def sync(self):
        """All messages sent by the server up to now."""
        self.req("demo/unknown", {})
        l, self.log = self.log, []
        return l
    def open(self, uri, text, version=1, lang="rust"): self.note("textDocument/didOpen", {"textDocument": {"uri": uri, "languageId": lang, "version": version, "text": text}})
    def change(self, uri, texts, version): self.note("textDocument/didChange", {"textDocument": {"uri": uri, "version": version}, "contentChanges": [{"text": t} for t in texts]})
    def close(self, uri): self.note("textDocument/didClose", {"textDocument": {"uri": uri}})

CONTRACT = "#[ink::contract]\nmod c {\n    #[ink(storage)]\n    pub struct S {}\n    impl S {\n        #[ink(constructor)]\n        pub fn new() -> Self { Self {} }\n        #[ink(message)]\n        pub fn get(&self) {}\n    }\n}\n"
