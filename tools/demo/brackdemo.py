"""What the demonstrations share: plugins written as WebAssembly text, runs of target/debug/brack in
scratch directories, a client of the language server, and a stand-in for GitHub."""
import json, os, queue, socket, ssl, subprocess, sys, tempfile, threading, time, shutil, atexit

BRACK = os.path.abspath(os.environ.get("BRACK", "target/debug/brack"))
SCRATCH = tempfile.mkdtemp(prefix="brackdemo")
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))

def check(condition, what):
    if not condition:
        print("FAILED:", what)
        sys.stdout.flush()
        os.kill(os.getpid(), 0)
        raise SystemExit(1)

# ---- plugins

T, O, A = "TInline", {"TOption": "TInline"}, {"TArray": "TInline"}

def plugin(name, commands):
    """commands: (command, return type, argument types, body); body None answers
    name.command(input), a string is the answer, a pair of strings is answered with the number of the
    call in between, and a pair of numbers answers the input without so many bytes at both ends."""
    data = bytearray()
    def put(s):
        b = s.encode()
        at = len(data)
        data.extend(b)
        return f"(i32.const {at}) (i32.const {len(b)})"
    meta = put(json.dumps([{"command_name": c, "call_name": f"{c}_{r}", "return_type": r,
        "argument_types": [[f"a{i}", a] for i, a in enumerate(args)]} for c, r, args, _ in commands]))
    funcs = [f'(func (export "get_metadata") (result i32) (call $const {meta}) (i32.const 0))']
    for c, r, _, body in commands:
        if body is None:
            code = f"(call $emit {put(f'{name}.{c}(')} {put(')')})"
        elif isinstance(body, str):
            code = f"(call $const {put(body)})"
        elif isinstance(body[0], str):
            digit = len(data) + len(body[0].encode())
            code = f"(call $const {put(body[0] + '0' + body[1])}) (i32.store8 (i32.const {digit}) (i32.add (i32.const 1) (i32.load8_u (i32.const {digit}))))"
        else:
            code = f"(call $slice (i64.const {body[0]}) (i64.const {body[1]}))"
        funcs.append(f'(func (export "{c}_{r}") (result i32) {code} (i32.const 0))')
    text = "".join(f"\\{b:02x}" for b in data)
    return f'''(module
 (import "extism:host/env" "input_length" (func $input_length (result i64)))
 (import "extism:host/env" "input_load_u8" (func $input (param i64) (result i32)))
 (import "extism:host/env" "alloc" (func $alloc (param i64) (result i64)))
 (import "extism:host/env" "store_u8" (func $store (param i64 i32)))
 (import "extism:host/env" "output_set" (func $output (param i64 i64)))
 (memory {len(data) // 65536 + 1})
 (data (i32.const 0) "{text}")
 (func $copy (param $at i64) (param $p i32) (param $len i32) (local $i i32)
  (block $end (loop $l
   (br_if $end (i32.ge_u (local.get $i) (local.get $len)))
   (call $store (i64.add (local.get $at) (i64.extend_i32_u (local.get $i))) (i32.load8_u (i32.add (local.get $p) (local.get $i))))
   (local.set $i (i32.add (local.get $i) (i32.const 1)))
   (br $l))))
 (func $const (param $p i32) (param $len i32) (local $at i64)
  (local.set $at (call $alloc (i64.extend_i32_u (local.get $len))))
  (call $copy (local.get $at) (local.get $p) (local.get $len))
  (call $output (local.get $at) (i64.extend_i32_u (local.get $len))))
 (func $slice (param $a i64) (param $b i64) (local $at i64) (local $i i64) (local $len i64)
  (local.set $len (i64.sub (call $input_length) (i64.add (local.get $a) (local.get $b))))
  (local.set $at (call $alloc (local.get $len)))
  (block $end (loop $l
   (br_if $end (i64.ge_u (local.get $i) (local.get $len)))
   (call $store (i64.add (local.get $at) (local.get $i)) (call $input (i64.add (local.get $i) (local.get $a))))
   (local.set $i (i64.add (local.get $i) (i64.const 1)))
   (br $l)))
  (call $output (local.get $at) (local.get $len)))
 (func $emit (param $p i32) (param $plen i32) (param $s i32) (param $slen i32)
  (local $at i64) (local $o i64) (local $i i64) (local $len i64) (local $total i64) (local $c i32)
  (local.set $len (call $input_length))
  (local.set $total (i64.add (local.get $len) (i64.extend_i32_u (i32.add (local.get $plen) (local.get $slen)))))
  (local.set $at (call $alloc (local.get $total)))
  (call $copy (local.get $at) (local.get $p) (local.get $plen))
  (local.set $o (i64.add (local.get $at) (i64.extend_i32_u (local.get $plen))))
  (block $end (loop $l
   (br_if $end (i64.ge_u (local.get $i) (local.get $len)))
   (call $store (i64.add (local.get $o) (local.get $i)) (call $input (local.get $i)))
   (local.set $i (i64.add (local.get $i) (i64.const 1)))
   (br $l)))
  (call $copy (i64.add (local.get $o) (local.get $len)) (local.get $s) (local.get $slen))
  (call $output (local.get $at) (local.get $total)))
 {chr(10).join(funcs)})'''

USUAL = [("c", "TInline", [A], None), ("d", "TBlock", [A], None)]

# ---- the compiler

def directory(name="d"):
    return tempfile.mkdtemp(prefix=name, dir=SCRATCH)

def write(path, content):
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    with open(path, "wb") as f:
        f.write(content if isinstance(content, bytes) else content.encode())

def compile(doc, level=5, as_json=False, plugins=None, timeout=60):
    d = directory()
    for n, cmds in (plugins if plugins is not None else {"m": USUAL, "k": USUAL}).items():
        write(f"{d}/p/{n}_0.wasm", plugin(n, cmds))
    os.makedirs(f"{d}/p", exist_ok=True)
    write(f"{d}/a.[]", doc)
    return subprocess.run([BRACK, "compile", "-p", "p", "-b", "html", "-f", "a.[]", "--output-level", str(level)] + ["--json"] * as_json,
        cwd=d, capture_output=True, text=True, timeout=timeout, encoding="utf-8")

def value(doc, level, **more):
    r = compile(doc, level, True, **more)
    check(r.returncode == 0, f"{doc!r} fails at level {level}: {r.stderr}")
    return json.loads(r.stdout)

def output(doc, **more):
    r = compile(doc, **more)
    check(r.returncode == 0, f"{doc!r} does not compile: {r.stderr}")
    return r.stdout[:-1]

def errors(doc, **more):
    """The lines of level 3, or none if there is no error."""
    r = compile(doc, 3, **more)
    check(r.returncode == 0, f"{doc!r} fails: {r.stderr}")
    return [] if r.stdout.startswith("Document(") else r.stdout.splitlines()

def nodes(v):
    """(kind, node) of a tree, in order."""
    (kind, node), = v.items()
    yield kind, node
    for c in node.get("children") or []:
        yield from nodes(c)

# ---- the language server

class Server:
    def __init__(self, cwd=None, env=None, announce=True):
        self.p = subprocess.Popen([BRACK, "language-server"], cwd=cwd or directory(), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env={**os.environ, **(env or {})})
        atexit.register(self.p.kill)
        self.q = queue.Queue()
        threading.Thread(target=self._read, daemon=True).start()
        self.n = 0
        if announce is not None:
            self.ask("initialize", {"capabilities": {"textDocument": {"publishDiagnostics": {}}} if announce else {}})
    def _read(self):
        f = self.p.stdout
        while True:
            n = None
            while True:
                line = f.readline()
                if not line:
                    return self.q.put(None)
                if line == b"\r\n":
                    break
                if line.lower().startswith(b"content-length:"):
                    n = int(line.split(b":")[1])
            self.q.put(f.read(n))
    def raw(self, data):
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
    def send(self, message):
        b = json.dumps(message, ensure_ascii=False).encode()
        self.raw(b"Content-Length: %d\r\n\r\n" % len(b) + b)
    def notify(self, method, params):
        self.send({"jsonrpc": "2.0", "method": method, "params": params})
    def next(self, timeout=10):
        """The next message, logs left out; None if there is none."""
        while True:
            try:
                b = self.q.get(timeout=timeout)
            except queue.Empty:
                return None
            if b is None:
                return None
            v = json.loads(b)
            if v.get("method") != "window/logMessage":
                return v
    def ask(self, method, params, timeout=10):
        self.n += 1
        self.send({"jsonrpc": "2.0", "id": self.n, "method": method, "params": params})
        while True:
            v = self.next(timeout)
            if v is None or "id" in v:
                return v
    def open(self, path):
        self.notify("textDocument/didOpen", {"textDocument": {"uri": "file://" + path, "languageId": "brack", "version": 1, "text": ""}})
    def save(self, path):
        self.notify("textDocument/didSave", {"textDocument": {"uri": "file://" + path}})
    def complete(self, path, trigger):
        r = self.ask("textDocument/completion", {"textDocument": {"uri": "file://" + path}, "position": {"line": 0, "character": 0}, "context": {"triggerKind": 2, "triggerCharacter": trigger}})
        return r and sorted(i["label"] for i in r.get("result") or [])
    def tokens(self, path):
        r = self.ask("textDocument/semanticTokens/full", {"textDocument": {"uri": "file://" + path}})
        return r and r["result"]["data"]

# ---- projects

def project(toml, docs):
    d = directory("project")
    write(f"{d}/Brack.toml", toml)
    os.makedirs(f"{d}/docs", exist_ok=True)
    for n, c in docs.items():
        write(f"{d}/docs/{n}", c)
    return d

def toml(backend="html", **plugins):
    s = f'[document]\nname = "n"\nversion = "1"\nbackend = "{backend}"\nauthors = ["a"]\n'
    for n, p in plugins.items():
        p = {"owner": "o", "repo": n, "version": "1", **p}
        s += f'\n[plugins.{n}]\nschema = "github"\n' + "".join(f"{k} = {json.dumps(v)}\n" for k, v in p.items())
    return s

def brack(*args, cwd, env=None, timeout=60, **more):
    return subprocess.run([BRACK, *args], cwd=cwd, capture_output=True, text=True, timeout=timeout, env={**os.environ, **(env or {})}, **more)

class GitHub:
    """A proxy that answers for github.com: answers maps a path to bytes, or to (status, bytes), or to
    a function that writes to the connection itself."""
    def __init__(self, answers):
        self.answers, self.requests = dict(answers), []
        d = directory("hub")
        subprocess.run(["openssl", "req", "-x509", "-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:P-256", "-nodes", "-keyout", f"{d}/key", "-out", f"{d}/cert", "-days", "3650",
            "-subj", "/CN=demo", "-addext", "subjectAltName=DNS:github.com", "-addext", "basicConstraints=critical,CA:TRUE"], check=True, capture_output=True)
        self.context = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        self.context.load_cert_chain(f"{d}/cert", f"{d}/key")
        self.listener = socket.create_server(("127.0.0.1", 0))
        proxy = f"http://127.0.0.1:{self.listener.getsockname()[1]}"
        self.env = {"HTTPS_PROXY": proxy, "https_proxy": proxy, "SSL_CERT_FILE": f"{d}/cert", "SSL_CERT_DIR": "/nonexistent", "NO_PROXY": "", "no_proxy": ""}
        threading.Thread(target=self._accept, daemon=True).start()
    def _accept(self):
        while True:
            c, _ = self.listener.accept()
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()
    @staticmethod
    def _head(c):
        b = b""
        while b"\r\n\r\n" not in b:
            x = c.recv(4096)
            if not x:
                return None
            b += x
        return b.decode()
    def _serve(self, c):
        try:
            if not self._head(c):
                return
            c.sendall(b"HTTP/1.1 200 OK\r\n\r\n")
            c = self.context.wrap_socket(c, server_side=True)
            while True:
                h = self._head(c)
                if not h:
                    return
                path = h.split(" ")[1]
                self.requests.append(path)
                a = self.answers.get(path, (404, b"nothing here"))
                if callable(a):
                    a(c)
                    continue
                status, body = a if isinstance(a, tuple) else (200, a)
                c.sendall(b"HTTP/1.1 %d X\r\nContent-Length: %d\r\n\r\n" % (status, len(body)) + body)
        except OSError:
            pass
        finally:
            c.close()

def slow(call, seconds, only="", after=0):
    """The environment of a program whose calls of mkdir, rename or unlink (on paths that contain
    `only`) each take so long before they begin, and after."""
    if not shutil.which("gcc"):
        raise SystemExit("gcc is missing")
    d = directory("slow")
    args, names, path = {"mkdir": ("const char *a, unsigned m", "a, m", "a"), "rename": ("const char *a, const char *b", "a, b", "b"), "unlink": ("const char *a", "a", "a")}[call]
    write(f"{d}/slow.c", f'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <string.h>
#include <unistd.h>
int {call}({args}) {{
  if (strstr({path}, "{only}")) usleep({int(seconds * 1e6)});
  int r = ((int (*)()) dlsym(RTLD_NEXT, "{call}"))({names});
  if (strstr({path}, "{only}")) usleep({int(after * 1e6)});
  return r;
}}
''')
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", f"{d}/slow.so", f"{d}/slow.c", "-ldl"], check=True)
    return {"LD_PRELOAD": f"{d}/slow.so"}

def start(*args, cwd, env=None):
    return subprocess.Popen([BRACK, *args], cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env={**os.environ, **(env or {})})
