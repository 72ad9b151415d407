#!/opt/venv/bin/python
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def fixed_addresses():
    """Memory addresses reach a program through id() and hash() of objects:
    switch address randomisation off for this process and its children."""
    if os.environ.get("VERIF_ADDRESSES"):
        return
    try:
        import ctypes
        libc = ctypes.CDLL(None)
        cur = libc.personality(0xffffffff)
        if cur == -1 or cur & 0x40000:
            return
        if libc.personality(cur | 0x40000) == -1:
            return
    except Exception:
        return
    os.environ["VERIF_ADDRESSES"] = "fixed"
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + [os.path.abspath(__file__)] + sys.argv[1:])


if __name__ == "__main__":
    fixed_addresses()
    from sim.runner import main
    sys.exit(main(sys.argv[1:]))
