"""The program itself, driven through arguments, STDIN, FIFOs and files in a scratch directory."""
import json, os, select, shutil, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import run
from .run import log

class Scratch:
    """a directory of its own, removed at the end"""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="ucv-cli-"); return self
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)
    def file(self, name, data):
        p = os.path.join(self.d, name)
        with open(p, "wb") as f: f.write(data if isinstance(data, bytes) else (data if isinstance(data, str) else json.dumps(data)).encode())
        return p

hangs = 0
def call(binary, args, stdin=b"", cwd=None, timeout=60, env=None):
    """-> (code, out, err); code "hang" when it does not end"""
    global hangs
    if hangs >= 12: return "hang", b"", b"(not run again: it has already not ended %d times)" % hangs
    try: r = subprocess.run([binary, *args], input=stdin, capture_output=True, cwd=cwd, timeout=timeout, env=env or run.case_env())
    except subprocess.TimeoutExpired as e:
        hangs += 1
        return "hang", e.stdout or b"", e.stderr or b""
    return r.returncode, r.stdout, r.stderr

def bads(f, xs, n=8, most=10):
    """what f says is wrong with each of xs; None for the rest once enough has gone wrong"""
    found = []
    def one(x):
        if len(found) >= most: return None
        b = f(x)
        if b: found.append(x)
        return b
    return pmap(one, xs, n)

def pmap(f, xs, n=8):
    with ThreadPoolExecutor(n) as ex: return list(ex.map(f, xs))
