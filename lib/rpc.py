"""A JSON-RPC client of a server on stdin and stdout."""
import json
import os
import re
import resource
import select
import subprocess
import tempfile
import time

import probe


class Dead(Exception):
    pass


HEADER = re.compile(rb"Content-Length: ([0-9]+)\r\n\r\n")


class Session:
    def __init__(self, path, args=(), stack_mb=64, **env):
        self.err = tempfile.TemporaryFile()

        def pre():
            resource.setrlimit(resource.RLIMIT_STACK, (stack_mb << 20, stack_mb << 20))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.p = subprocess.Popen([path] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=probe.env(**env), preexec_fn=pre, bufsize=0)
        os.set_blocking(self.p.stdin.fileno(), False)
        self.buf = b""
        self.out = b""
        self.rest = []
        self.queue = []
        self.eof = False

    def send(self, m):
        b = m if isinstance(m, bytes) else json.dumps(m, ensure_ascii=False).encode()
        self.out += b"Content-Length: %d\r\n\r\n" % len(b) + b
        self.pump(0)

    def pump(self, wait):
        """Write what is to be written, read what has arrived."""
        end = time.time() + wait
        while True:
            left = max(0, end - time.time())
            r, w, _ = select.select([] if self.eof else [self.p.stdout], [self.p.stdin] if self.out else [], [], left)
            if w:
                try:
                    n = os.write(self.p.stdin.fileno(), self.out[:65536])
                    self.out = self.out[n:]
                except BlockingIOError:
                    pass
                except BrokenPipeError:
                    raise Dead("it does not read any more")
            if r:
                b = os.read(self.p.stdout.fileno(), 1 << 18)
                if not b:
                    self.eof = True
                self.buf += b
                self.split()
                if self.queue and not self.out:
                    return
            if not r and not w:
                return
            if self.eof and not self.out:
                return

    def split(self):
        while self.buf:
            m = HEADER.match(self.buf)
            if not m:
                if len(self.buf) > 60 and not b"Content-Length: ".startswith(self.buf[:16]) and not HEADER.match(self.buf):
                    raise Dead("its output is not framed: %r" % self.buf[:100])
                return
            n = int(m.group(1))
            if len(self.buf) < m.end() + n:
                return
            try:
                self.queue.append(json.loads(self.buf[m.end():m.end() + n].decode()))
            except ValueError as e:
                raise Dead("it sends a message that is not JSON: %r" % self.buf[m.end():m.end() + min(n, 200)])
            self.buf = self.buf[m.end() + n:]

    def recv(self, wait):
        if not self.queue:
            self.pump(wait)
        if self.eof and not self.queue:
            raise Dead("exit %s" % self.p.wait())
        q, self.queue = self.queue, []
        return q

    def finish(self, close=True, timeout=30):
        """(exit code, stderr)"""
        code = None
        try:
            end = time.time() + timeout
            if close:
                while self.out and not self.eof and time.time() < end:
                    self.pump(.1)
                self.p.stdin.close()
                while not self.eof and time.time() < end:
                    if select.select([self.p.stdout], [], [], .1)[0]:
                        b = os.read(self.p.stdout.fileno(), 1 << 18)
                        self.eof = not b
                        self.buf += b
                        self.split()
                self.rest, self.queue = self.queue, []
            try:
                code = self.p.wait(max(.1, end - time.time()) if close else 5)
            except subprocess.TimeoutExpired:
                code = "nothing: it hangs"
        except (Dead, BrokenPipeError):
            pass
        finally:
            self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            try:
                self.p.stdin.close()
            except OSError:
                pass
        self.err.seek(0)
        e = self.err.read()[-30000:].decode(errors="replace")
        self.err.close()
        return code if code is not None else self.p.returncode, e
