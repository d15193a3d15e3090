"""A process that holds converted objects: another interpreter, or a pristine one.

    python -I -S server.py REPO

Imports nothing of the library until asked to.  "new" forks a child that takes over the
conversation until "bye"; so every conversation starts from the same pristine state.
Requests and replies are pickles on stdin and stdout.
"""
import sys

sys.dont_write_bytecode = True
import os
import pickle
import struct

HERE = os.path.dirname(os.path.abspath(__file__))
ASKED = []      # top-level names of the modules whose import was attempted


class Watch:
    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if top not in ASKED:
            ASKED.append(top)
        return None


def send(f, x):
    b = pickle.dumps(x)
    f.write(struct.pack("<I", len(b)) + b)
    f.flush()


def recv(f):
    h = f.read(4)
    if len(h) < 4:
        raise EOFError
    n = struct.unpack("<I", h)[0]
    return pickle.loads(f.read(n))


def serve(inp, out):
    import warnings
    warnings.simplefilter("ignore")
    import session
    ads = {"DATA": session.DATA, "MAPS": session.MAPS, "FT": session.FT}
    del ASKED[:]
    objs = {}
    while True:
        op, *a = recv(inp)
        if op == "bye":
            send(out, ("ok", None))
            os._exit(0)
        try:
            if op == "load":
                objs[a[0]] = pickle.loads(a[1])
                r = None
            elif op == "dump":
                r = pickle.dumps(objs[a[0]], protocol=a[1])
            elif op == "call":
                o, ad, m, x = a
                ad = ads.get(ad, session.DATA)
                x = pickle.loads(x)
                r = pickle.dumps(ad.call(objs[o], m, x))
                r = (r, pickle.dumps(x))
            elif op == "attr":
                r = pickle.dumps(getattr(objs[a[0]], a[1]))
            elif op == "has":
                try:
                    r = callable(getattr(objs[a[0]], a[1]))
                except AttributeError:
                    r = False
            elif op == "import":
                for name in a[0]:
                    __import__(name)
                r = None
            elif op == "imports":
                r = sorted(set(ASKED) | {m.partition(".")[0] for m in list(sys.modules)} - {"session", "enc", "__main__"})
        except BaseException as e:
            send(out, ("raise", repr(e)[:300]))
        else:
            send(out, ("ok", r))


def main():
    inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    sys.path[:0] = [sys.argv[1], HERE]
    sys.meta_path.insert(0, Watch())
    import warnings, re, math, random, unicodedata, signal, threading, contextlib, hashlib  # noqa: what the harness itself needs
    import session  # noqa
    while True:
        try:
            r = recv(inp)
        except EOFError:
            return
        if r[0] == "new":
            pid = os.fork()
            if pid == 0:
                try:
                    send(out, ("ok", None))
                    serve(inp, out)
                finally:
                    os._exit(1)
            os.waitpid(pid, 0)


class Client:
    """The parent's side.  Used by the checks, not by the server."""

    def __init__(self, repo, bare=False):
        self.repo, self.bare = repo, bare
        self.p = None

    def start(self):
        import subprocess
        exe = "/usr/bin/python3" if self.bare else sys.executable
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        self.p = subprocess.Popen([exe, "-I"] + (["-S"] if self.bare else []) + [os.path.join(HERE, "server.py"), self.repo],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def ask(self, *req, timeout=60):
        import select
        if self.p is None:
            self.start()
        try:
            send(self.p.stdin, req)
            # the pipe is read in one go once the length has arrived
            ready, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not ready:
                raise EOFError("no answer in %d s" % timeout)
            return recv(self.p.stdout)
        except (EOFError, BrokenPipeError, OSError) as e:
            self.stop()
            return ("dead", repr(e))

    def new(self):
        return self.ask("new")

    def bye(self):
        if self.p is not None:
            self.ask("bye")

    def stop(self):
        if self.p is not None:
            import signal
            kids = kids_of(self.p.pid)
            for pid in kids + [self.p.pid]:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None


def kids_of(pid):
    try:
        return [int(k) for k in open("/proc/%d/task/%d/children" % (pid, pid)).read().split()]
    except OSError:
        return []


if __name__ == "__main__":
    main()
