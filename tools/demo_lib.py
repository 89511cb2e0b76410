"""Helper of the demonstrations: builds the sources of the current directory into a scratch directory (address and
undefined sanitizers on), runs the server on a loopback port with its own contents, configuration and module
directories, and exchanges raw bytes with it.  Everything is written below one temporary directory."""
import os, sys, subprocess, tempfile, shutil, socket, time, glob, re, atexit, signal
from concurrent.futures import ThreadPoolExecutor
REPO = os.getcwd()
D = tempfile.mkdtemp(prefix="demo_")
procs = []
def _end():
    for p in procs:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
    shutil.rmtree(D, ignore_errors=True)
atexit.register(_end)
WWW = D + "/www"; CONF = D + "/config"; MODS = D + "/modules"
def sources(main=True):
    s = glob.glob(REPO + "/src/viriatum_commons/**/*.c", recursive=True)
    if main: s += glob.glob(REPO + "/src/viriatum/**/*.c", recursive=True)
    return [x for x in s if "/jni/" not in x and not re.search(r"_config_win32|/win32/", x)]
def build(extra=(), main=True, san="address,undefined", harness=None, out="server", skip=(), defines=()):
    """-> path of the program"""
    for d in (WWW, CONF, MODS, D + "/inc"): os.makedirs(d, exist_ok=True)
    cfg = open(REPO + "/_build/src/config.h").read()
    cfg = re.sub(r'#define WITH_(CONFIG|WWW|MODULE)_ROOT.*', "", cfg)
    cfg = cfg.replace("#undef NDEBUG", "")
    open(D + "/inc/config.h", "w").write(cfg + '\n#undef WITH_DEFAULTS\n#undef HAVE_DEFAULTS\n#define WITH_CONFIG_ROOT "%s"\n#define WITH_WWW_ROOT "%s"\n#define WITH_MODULE_ROOT "%s"\n' % (CONF, WWW, MODS))
    if harness and "\n" in harness:
        open(D + "/" + out + "_harness.c", "w").write(harness); harness = D + "/" + out + "_harness.c"
    srcs = [x for x in sources(main) if not any(x.endswith(k) for k in skip)]
    if harness: srcs = [x for x in srcs if not x.endswith("/viriatum/viriatum.c")] + [harness]
    base = ["gcc", "-g", "-O1", "-w", "-fno-omit-frame-pointer", "-DHAVE_CONFIG_H", "-I" + D + "/inc"] + list(defines)
    if san: base += ["-fsanitize=" + san]
    def one(a):
        n, f = a
        o = "%s/%s_%d.o" % (D, out, n)
        inc = ["-I" + os.path.dirname(f), "-I" + REPO + "/src/viriatum_commons"] if "/viriatum_commons/" in f else ["-I" + os.path.dirname(f), "-I" + REPO + "/src/viriatum", "-I" + REPO + "/src"]
        r = subprocess.run(base + inc + ["-c", f, "-o", o], capture_output=True, text=True)
        if r.returncode: print("cannot compile", f, r.stderr[:2000]); sys.exit(2)
        return o
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, enumerate(srcs)))
    p = D + "/" + out
    r = subprocess.run(["gcc"] + (["-fsanitize=" + san] if san else []) + ["-rdynamic", "-o", p] + objs + list(extra) + ["-lssl", "-lcrypto", "-lpcre", "-ldl", "-lpthread", "-lm"], capture_output=True, text=True)
    if r.returncode: print("cannot link", r.stderr[:3000]); sys.exit(2)
    return p
def freeport():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); n = s.getsockname()[1]; s.close(); return n
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=0")
class Server:
    def __init__(s, prog, args=(), ini="", env=None, wait=True):
        s.port = freeport()
        open(CONF + "/viriatum.ini", "w").write(ini)
        s.log = D + "/log_%d" % s.port
        s.p = subprocess.Popen([prog, "--port=%d" % s.port, "--host=127.0.0.1"] + list(args), cwd=D, stdin=subprocess.DEVNULL, stdout=open(s.log, "w"), stderr=subprocess.STDOUT, env=env or ENV, start_new_session=True)
        procs.append(s.p)
        for _ in range(100 if wait else 0):
            time.sleep(0.05)
            try: socket.create_connection(("127.0.0.1", s.port), 1).close(); break
            except OSError:
                if s.p.poll() is not None: break
        time.sleep(0.1)
    def alive(s): time.sleep(0.2); return s.p.poll() is None
    def text(s): return open(s.log, errors="replace").read()
    def faults(s): return [l for l in s.text().splitlines() if "ERROR: AddressSanitizer" in l or "runtime error" in l]
    def conn(s, timeout=3):
        c = socket.create_connection(("127.0.0.1", s.port), timeout); c.settimeout(timeout); return c
    def ask(s, data, timeout=2, until=None):
        """send the bytes, return everything received until close or silence"""
        out = b""
        try:
            c = s.conn(timeout); c.sendall(data)
            while True:
                b = c.recv(65536)
                if not b: break
                out += b
                if until and until(out): break
        except OSError: pass
        try: c.close()
        except Exception: pass
        return out
    def stop(s):
        s.p.send_signal(signal.SIGTERM)
        try: s.p.wait(5)
        except subprocess.TimeoutExpired: os.killpg(s.p.pid, signal.SIGKILL); s.p.wait()
        return s.p.returncode
def get(path, *headers, ver="1.1"):
    return ("GET %s HTTP/%s\r\nHost: x\r\n%s\r\n" % (path, ver, "".join(h + "\r\n" for h in headers))).encode("latin1")
def finish(ok, why=""):
    print("ok" if ok else "FAILED: " + str(why)); sys.exit(0 if ok else 1)
