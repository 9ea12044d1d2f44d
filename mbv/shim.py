"""builds the LD_PRELOAD fault injector (csrc/shim.c) and drives it"""
import atexit, ctypes, os, shutil, subprocess, tempfile

NEEDS_SHIM = {"C08", "C09"}
SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "csrc", "shim.c")
OFF, COUNT, FAIL, STICKY, DIE, TORN, INT, SHORT, BADFILE = range(9)
TYPES = ["?", "openr", "openw", "read", "write", "close", "mkdir", "link", "rename", "unlink", "meta", "list", "trunc"]

def build():
    """compile into a fresh private directory (removed by the check itself when it ends); returns the library's path"""
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix="mbv-shim-", dir=base)
    os.chmod(d, 0o755)
    lib = os.path.join(d, "shim.so")
    for cc in ("gcc", "clang", "cc"):
        if shutil.which(cc):
            r = subprocess.run([cc, "-O1", "-shared", "-fPIC", "-w", "-o", lib, SRC, "-ldl"], capture_output=True, text=True)
            if r.returncode == 0:
                os.chmod(lib, 0o755)
                return lib
            print(r.stderr)
    raise SystemExit("cannot compile the fault injector")

_lib = None
def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["MBV_SHIM"])
        _lib.mbv_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int]
        _lib.mbv_disarm.restype = ctypes.c_long
        _lib.mbv_type.argtypes = [ctypes.c_long]
        _lib.mbv_hit.restype = ctypes.c_char_p
    return _lib
def arm(prefix, mode, k=-1, err=5):
    lib().mbv_arm(os.fsencode(prefix), mode, k, err)
def disarm():
    return lib().mbv_disarm()
def types(n):
    return [TYPES[lib().mbv_type(k)] for k in range(n)]
def hit():
    return os.fsdecode(lib().mbv_hit())
def cleanup():
    p = os.environ.get("MBV_SHIM")
    if p:
        shutil.rmtree(os.path.dirname(p), ignore_errors=True)
