#!/usr/bin/env python3
"""
Entry point of every check:   run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--jobs N]

Exit 0: the property held on everything explored.  Exit 1: "VIOLATION property=<id> replay=<path>".
"""
import os, sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))

def main():
    if os.environ.get("MBV_CHILD") != "1":
        env = {k: v for k, v in os.environ.items()
               if not k.startswith("PYTHON") and k not in ("LD_PRELOAD",)}
        env.update(MBV_CHILD="1", PYTHONHASHSEED="0", TZ="UTC", LANG="C.UTF-8", LC_ALL="C.UTF-8",
                   PYTHONDONTWRITEBYTECODE="1", PYTHONUNBUFFERED="1")
        py = PY if os.path.exists(PY) else sys.executable
        sys.path.insert(0, HERE)
        from mbv import shim
        args = sys.argv[1:]
        if args and args[0] in shim.NEEDS_SHIM:
            lib = shim.build()
            env["LD_PRELOAD"] = lib
            env["MBV_SHIM"] = lib
        sys.stdout.flush()
        os.execve(py, [py, "-W", "ignore", os.path.abspath(__file__)] + args, env)
    sys.path.insert(0, HERE)
    from mbv import engine
    sys.exit(engine.main(sys.argv[1:]))

if __name__ == "__main__":
    main()
