"""Hash-order seam: labels whose hash the simulator decides, so that the
iteration order of every set and of every hash table holding them is part of
the seed instead of part of the environment."""
from .core import derive

_salt = {"salt": 0, "mode": "spread"}
_cache = {}


def set_salt(salt, mode="spread"):
    _salt["salt"] = salt
    _salt["mode"] = mode
    _cache.clear()


class SimStr(str):
    __slots__ = ()

    def __hash__(self):
        h = _cache.get(str.__str__(self))
        if h is None:
            m = _salt["mode"]
            if m == "collide":
                h = 7
            elif m == "few":
                h = derive(_salt["salt"], str.__str__(self)) % 3
            else:
                h = derive(_salt["salt"], str.__str__(self)) & 0xFFFFFFFF
            _cache[str.__str__(self)] = h
        return h

    def __eq__(self, other):
        return str.__eq__(self, other)

    def __ne__(self, other):
        return str.__ne__(self, other)

    def __reduce__(self):
        return (SimStr, (str.__str__(self),))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"]
LNAMES = ["X", "Y", "Z", "W", "V", "U", "T", "S"]
ANAMES = ["r", "s", "t", "u"]
NAMES += ["n%02d" % i for i in range(200)]
LNAMES += ["R%02d" % i for i in range(60)]
ANAMES += ["v%02d" % i for i in range(60)]
MODES = ("int", "int", "str", "str", "sim", "sim", "sim", "sim", "collide", "collide", "few", "few", "neg", "float")


def make(mode, salt):
    """Returns (node(i), layer(i, aspect)) label makers."""
    if mode in ("sim", "collide", "few"):
        set_salt(salt, "spread" if mode == "sim" else mode)
        return (lambda i: SimStr(NAMES[i]),
                lambda i, a=1: SimStr((LNAMES if a == 1 else ANAMES)[i]))
    if mode == "str":
        return (lambda i: NAMES[i], lambda i, a=1: (LNAMES if a == 1 else ANAMES)[i])
    if mode == "neg":
        return (lambda i: -i, lambda i, a=1: i - 2)
    if mode == "float":
        return (lambda i: i + 0.5, lambda i, a=1: i * 0.25)
    if mode == "mixed":      # labels that cannot be compared with each other
        return (lambda i: i if i % 2 else NAMES[i], lambda i, a=1: (LNAMES if a == 1 else ANAMES)[i] if i % 2 else i)
    if mode == "tuplefree":  # awkward but legal labels
        odd = [None.__class__.__name__, "", " ", "0", "a b", "\u00e4", "-1", "True", "x,y", "(1, 2)", "'", '"', "\\", "\n", "%s", "{}"]
        return (lambda i: odd[i], lambda i, a=1: odd[-1 - i])
    return (lambda i: i, lambda i, a=1: i)


def ordinal_layer(salt):
    """Layer names for ordinal couplings: numbers, one apart or not."""
    step = (1, 1, 1, 0.5, -1, 2, 0.25)[salt % 7]
    off = (0, 0, -2)[salt // 7 % 3]
    return lambda i, a=1: i * step + off
