"""Drives the ced program built in the current directory, in a scratch directory."""
import json, os, shutil, socket, subprocess, sys, tempfile, time

REPO = os.getcwd()
CED = os.path.join(REPO, "target", "debug", "ced")


class Server:
    def __init__(self, files=None, session="demo"):
        self.dir = tempfile.mkdtemp(prefix="ced-demo-")
        self.work = os.path.join(self.dir, "work")
        os.mkdir(self.work)
        for name, content in (files or {}).items():
            path = os.path.join(self.work, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as f:
                f.write(content if isinstance(content, bytes) else content.encode())
        self.session = session
        os.mkdir(os.path.join(self.dir, "ced-demo"))
        env = dict(os.environ, TMPDIR=self.dir, USER="demo", HOME=self.dir)
        self.proc = subprocess.Popen(
            [CED, "--mode=server", "--session=" + session], cwd=self.work, env=env,
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.proc.stdout.read(1)
        self.path = os.path.join(self.dir, "ced-demo", session)
        self.clients = []

    def client(self):
        c = Client(self.path)
        self.clients.append(c)
        c.settle()
        return c

    def settle(self):
        for c in self.clients:
            c.settle()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for c in self.clients:
            c.close()
        self.proc.kill()
        self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


class Client:
    def __init__(self, path):
        self.sock = socket.socket(socket.AF_UNIX)
        self.sock.connect(path)
        self.rest = b""
        self.n = 0
        self.got = []       # notifications, oldest first
        self.answers = []
        self.gone = False

    def _read(self, timeout):
        self.sock.settimeout(timeout)
        try:
            data = self.sock.recv(1 << 20)
        except (socket.timeout, BlockingIOError):
            return False
        except OSError:
            self.gone = True
            return False
        if not data:
            self.gone = True
            return False
        self.rest += data
        while b"\n" in self.rest:
            line, self.rest = self.rest.split(b"\n", 1)
            m = json.loads(line.decode())
            (self.got if "method" in m else self.answers).append(m)
        return True

    def settle(self, quiet=0.15):
        while self._read(quiet):
            pass

    def raw(self, line, wait=True):
        n = len(self.answers)
        self.sock.sendall((line + "\n").encode())
        end = time.time() + 10
        while wait and len(self.answers) == n and not self.gone and time.time() < end:
            self._read(1)
        if wait and len(self.answers) == n:
            return None
        return self.answers[-1] if wait else None

    def request(self, method, params=None, settle=True):
        self.n += 1
        m = {"jsonrpc": "2.0", "id": self.n, "method": method}
        if params is not None:
            m["params"] = params
        a = self.raw(json.dumps(m))
        if settle:
            self.settle(0.05)
        return a

    def keys(self, *names):
        def key(n):
            k = {"ctrl": False, "alt": False, "shift": False}
            while n[1:2] == "-" and n[0] in "cas" and len(n) > 2:
                k[{"c": "ctrl", "a": "alt", "s": "shift"}[n[0]]] = True
                n = n[2:]
            k["key"] = {"Char": n} if len(n) == 1 else n
            return k
        return self.request("keys", [key(n) for n in names])

    def exec(self, script):
        return self.request("exec", script)

    def last(self, method):
        l = [m for m in self.got if m["method"] == method]
        return l[-1]["params"] if l else None

    def clear(self):
        self.settle()
        self.got = []

    def view(self):
        """[(buffer, [line, ...])], lines without their trailing blank"""
        return [(i["buffer"], ["".join(f["text"] for f in l)[:-1] for n in i["lenses"] for l in n["lines"]])
                for i in self.last("view")]

    def selected(self):
        """{buffer: [(line number from 0, highlighted text)]}"""
        out = {}
        for i in self.last("view"):
            n = 0
            for lens in i["lenses"]:
                for l in lens["lines"]:
                    t = "".join(f["text"] for f in l if f["face"] == "Selection")
                    if t:
                        out.setdefault(i["buffer"], []).append((n, t))
                    n += 1
        return out

    def close(self):
        try:
            self.sock.close()
        except OSError:
            pass


def check(cond, what):
    if not cond:
        print("FAILED:", what)
        sys.exit(1)
