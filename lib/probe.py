"""Talks to the C++ probes: "<len> <mode>\\n" + bytes -> "<len>\\n" + json."""
import json
import os
import resource
import select
import subprocess
import tempfile
import time

ASAN = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:"
                    "symbolize=1:handle_abort=1:malloc_context_size=12:max_allocation_size_mb=6000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:report_signal_unsafe=0:history_size=4",
    "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
}


def env(**kw):
    e = dict(os.environ)
    for k, v in ASAN.items():
        if k != "ASAN_SYMBOLIZER_PATH" or os.path.exists(v):
            e[k] = v
    e.update(kw)
    return e


class Crash(Exception):
    """The code under test died or hung on an input."""

    def __init__(self, kind, detail):
        Exception.__init__(self, kind, detail)
        self.kind, self.detail = kind, detail


def summary(err):
    """One line that says what a sanitizer or assertion reported."""
    for l in err.splitlines():
        if "Assertion" in l or "runtime error:" in l or "ERROR: AddressSanitizer" in l or \
                "SUMMARY:" in l or "terminate called" in l or "WARNING: ThreadSanitizer" in l:
            return l.strip()[:300]
    return err.strip()[-300:]


class Probe:
    def __init__(self, path, args=(), timeout=20, stack_mb=64):
        self.path, self.args, self.timeout, self.stack = path, list(args), timeout, stack_mb
        self.p = None

    def start(self):
        self.err = tempfile.TemporaryFile()

        def pre():
            resource.setrlimit(resource.RLIMIT_STACK, (self.stack << 20, self.stack << 20))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.p = subprocess.Popen([self.path] + self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env(), preexec_fn=pre, bufsize=0)
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def errors(self):
        self.err.seek(0)
        return self.err.read()[-20000:].decode(errors="replace")

    def _read(self, n, end):
        """At least n bytes (or a line for n=None) into self.buf."""
        while True:
            if n is None:
                i = self.buf.find(b"\n")
                if i >= 0:
                    out, self.buf = self.buf[:i], self.buf[i + 1:]
                    return out
            elif len(self.buf) >= n:
                out, self.buf = self.buf[:n], self.buf[n:]
                return out
            left = end - time.time()
            if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                raise Crash("hang", "no answer within %ss" % self.timeout)
            b = os.read(self.p.stdout.fileno(), 1 << 20)
            if not b:
                self.p.wait()
                e = self.errors()
                raise Crash("crash", "exit %s: %s" % (self.p.returncode, summary(e)) + "\n" + e)
            self.buf += b

    def ask_raw(self, data, mode=7, timeout=None):
        if self.p is None:
            self.start()
        try:
            end = time.time() + (timeout or self.timeout)
            msg = b"%d %d\n" % (len(data), mode) + data
            off = 0
            while off < len(msg):
                r, w, _ = select.select([self.p.stdout], [self.p.stdin], [], max(0.01, end - time.time()))
                if w:
                    try:
                        off += os.write(self.p.stdin.fileno(), msg[off:off + 65536])
                    except BrokenPipeError:
                        break
                elif time.time() > end:
                    raise Crash("hang", "does not read its input")
            n = int(self._read(None, end))
            return self._read(n, end)
        except Crash as c:
            if c.kind == "hang" and timeout is None:
                # is it slow, or does it hang? try once more, alone, with more time
                self.stop()
                return self.ask_raw(data, mode, timeout=self.timeout * 3)
            self.stop()
            raise

    def ask(self, data, mode=7):
        return json.loads(self.ask_raw(data, mode))
