"""Read the .npy files shipped with the repository into the symbolic world.

Arrays of numbers are read by numpy itself. Object arrays (pickled configurations) are unpickled with the classes they name
resolved to the symbolic world's: torch tensors are rebuilt from torch's legacy storage format without torch.
"""
import io
import pickle
import struct

import numpy as np

STORE = {"FloatStorage": ("<f4", "float32"), "DoubleStorage": ("<f8", "float64"), "HalfStorage": ("<f2", "float16"),
         "LongStorage": ("<i8", "int64"), "IntStorage": ("<i4", "int32"), "ShortStorage": ("<i2", "int16"),
         "CharStorage": ("i1", "int8"), "ByteStorage": ("u1", "uint8"), "BoolStorage": ("?", "bool")}


class Storage:
    def __init__(self, kind, data=None):
        self.kind, self.data = kind, data


class Kind:
    """stands for a torch storage class in a pickle"""

    def __init__(self, name):
        self.name = name


def load_storage(b):
    """torch.load of one storage in the legacy (non-zip) format"""
    f = io.BytesIO(b)
    for _ in range(3):
        pickle.load(f)
    seen = {}

    class U(pickle.Unpickler):
        def find_class(self, mod, name):
            if name in STORE:
                return Kind(name)
            raise pickle.UnpicklingError(f"{mod}.{name}")

        def persistent_load(self, pid):
            _, kind, key = pid[:3]
            return seen.setdefault(key, Storage(kind.name if isinstance(kind, Kind) else str(kind)))
    out = U(f).load()
    for key in pickle.load(f):
        s = seen[key]
        n = struct.unpack("<q", f.read(8))[0]
        dt = np.dtype(STORE[s.kind][0])
        s.data = np.frombuffer(f.read(n * dt.itemsize), dtype=dt)
    return out


def load(path, world, allow_pickle=False):
    with open(path, "rb") as f:
        ver = np.lib.format.read_magic(f)
        shape, order, dtype = (np.lib.format.read_array_header_1_0 if ver == (1, 0) else np.lib.format.read_array_header_2_0)(f)
        if not dtype.hasobject:
            f.seek(0)
            return world.np.array(np.load(f).tolist(), dtype=dtype)
        if not allow_pickle:
            raise ValueError("Object arrays cannot be loaded when allow_pickle=False")
        T = world.torch

        def rebuild(storage, offset, size, stride, *a):
            view = np.lib.stride_tricks.as_strided(storage.data[offset:], size, [x * storage.data.itemsize for x in stride])
            return T.tensor(view.tolist(), dtype=getattr(T, STORE[storage.kind][1]))

        class U(pickle.Unpickler):
            def find_class(self, mod, name):
                if (mod, name) == ("torch._utils", "_rebuild_tensor_v2"):
                    return rebuild
                if (mod, name) == ("torch._utils", "_rebuild_parameter"):
                    return lambda data, *a: data
                if (mod, name) == ("torch.storage", "_load_from_bytes"):
                    return load_storage
                if mod.split(".")[0] in ("numpy", "collections", "_codecs", "builtins"):
                    return super().find_class(mod, name)
                raise pickle.UnpicklingError(f"{mod}.{name}")
        a = U(f, encoding="latin1", fix_imports=True).load()
    return np.array(a, dtype=object).reshape(shape)
