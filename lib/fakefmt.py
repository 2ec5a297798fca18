#!/usr/bin/env -S python3 -I -S
"""A formatter that behaves as its first argument says."""
import os
import sys
import time

mode, args = sys.argv[1], sys.argv[2:]


def put(b, fd=1):
    while b:
        b = b[os.write(fd, b):]


def get():
    b = b""
    while True:
        x = os.read(0, 65536)
        if not x:
            return b
        b += x


if mode == "cat":
    put(get())
elif mode == "upper":
    put(get().upper())
elif mode == "stream":       # writes while it reads
    while True:
        x = os.read(0, 4096)
        if not x:
            break
        put(x.replace(b"a", b"aa"))
elif mode == "first":        # writes much before it reads
    put(b"# " + b"x" * int(args[0]) + b"\n")
    put(get())
elif mode == "noread":
    put(b"{ }\n" * int(args[0]))
elif mode == "closein":
    os.close(0)
    time.sleep(.01)
    put(b"closed\n")
elif mode == "half":
    put(os.read(0, 10)[:5])
elif mode == "empty":
    get()
elif mode == "stderr":
    put(b"warning\n" * int(args[0]), 2)
    put(get().replace(b" ", b"  "))
    put(b"warning\n" * int(args[0]), 2)
elif mode == "closeerr":
    os.close(2)
    put(get() + b"\n")
elif mode == "slow":
    b = get()
    for i in range(0, len(b), max(1, len(b) // 4)):
        put(b[i:i + max(1, len(b) // 4)])
        time.sleep(.01)
    put(b"#slow\n")
elif mode == "args":
    get()
    put("\n".join([repr(a) for a in args]).encode())
elif mode == "exit":
    put(get() + b"\n")
    os._exit(int(args[0]))
elif mode == "exitearly":
    os._exit(int(args[0]))
elif mode == "die":
    put(get())
    __import__("resource").setrlimit(__import__("resource").RLIMIT_CORE, (0, 0))
    os.kill(os.getpid(), int(args[0]))
elif mode == "closeout":     # says all, and lives on for a while
    put(get() + b"#\n")
    os.close(1)
    os.close(2)
    time.sleep(.05)
