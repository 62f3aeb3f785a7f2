"""Independent bencode/torrent builder used as the oracle side (shares no code with /repo)."""
import hashlib
import random


def benc(v):
    if isinstance(v, bool):
        raise TypeError
    if isinstance(v, int):
        return b"i%de" % v
    if isinstance(v, Enc):
        return bytes(v)
    if isinstance(v, str):
        v = v.encode()
    if isinstance(v, (bytes, bytearray)):
        return b"%d:" % len(v) + bytes(v)
    if isinstance(v, (list, tuple)):
        return b"l" + b"".join(benc(x) for x in v) + b"e"
    if isinstance(v, dict):
        items = sorted(((k.encode() if isinstance(k, str) else k), x) for k, x in v.items())
        return b"d" + b"".join(benc(k) + benc(x) for k, x in items) + b"e"
    raise TypeError(type(v))


class Enc(bytes):
    """Bytes that are an encoding already."""


def bdec(b, i=0):
    """Strict decoder -> (value, next index)."""
    c = b[i:i + 1]
    if c == b"i":
        j = b.index(b"e", i)
        return int(b[i + 1:j]), j + 1
    if c == b"l":
        i += 1
        out = []
        while b[i:i + 1] != b"e":
            v, i = bdec(b, i)
            out.append(v)
        return out, i + 1
    if c == b"d":
        i += 1
        out = {}
        while b[i:i + 1] != b"e":
            k, i = bdec(b, i)
            v, i = bdec(b, i)
            out[k] = v
        return out, i + 1
    j = b.index(b":", i)
    n = int(b[i:j])
    if j + 1 + n > len(b):
        raise ValueError("short")
    return b[j + 1:j + 1 + n], j + 1 + n


def plain(p):
    return bool(p) and all(c not in ("", ".", "..") and "/" not in c and "\0" not in c for c in p)


class Torrent:
    """files: list of (path components, length) for a multi-file torrent, or None for a
    single file called `name` with `length` bytes."""

    def __init__(self, name="content.bin", length=None, files=None, piece_length=64, seed=1,
                 extra=None, content=None, file_extra=None, extra_raw=None, info_size=None):
        self.name = name
        self.files = files
        self.piece_length = piece_length
        self.total = length if files is None else sum(n for _, n in files)
        rnd = random.Random(seed)
        self.content = content if content is not None else rnd.randbytes(self.total)
        assert len(self.content) == self.total
        self.npieces = (self.total + piece_length - 1) // piece_length if piece_length else 0
        info = {"name": name, "piece length": piece_length,
                "pieces": b"".join(hashlib.sha1(self.piece(i)).digest() for i in range(self.npieces))}
        if files is None:
            info["length"] = length
        else:
            info["files"] = [dict({"length": n, "path": list(p)}, **(file_extra or {})) for p, n in files]
        if extra:
            info.update(extra)
        if extra_raw:                  # an encoded value under a key of its own
            info["x-extra"] = Enc(bytes.fromhex(extra_raw))
        if info_size:                  # a filler makes the encoding exactly this long
            for n in range(info_size, -1, -1):
                info["zfill"] = "z" * n
                if len(benc(info)) <= info_size:
                    break
            else:
                raise ValueError("metadata cannot be that short")
        self.info_dict = info
        self.info = benc(info)
        self.info_hash = hashlib.sha1(self.info).digest()

    def piece_len(self, i):
        return min(self.piece_length, self.total - i * self.piece_length)

    def piece(self, i):
        return self.content[i * self.piece_length:i * self.piece_length + self.piece_len(i)]

    def expected_files(self):
        """[(relative path, bytes)] as BEP 3 lays them out, relative to the download directory; without the files
        whose path is not a list of plain names."""
        if self.files is None:
            return [(self.name, self.content)] if plain([self.name]) else []
        out, o = [], 0
        for p, n in self.files:
            if plain(p):
                out.append(("/".join(p), self.content[o:o + n]))
            o += n
        return out

    def magnet(self, suffix=""):
        return "magnet:?xt=urn:btih:" + self.info_hash.hex() + suffix


class RawTorrent:
    """A torrent whose metadata are given bytes, whatever they are."""

    def __init__(self, info, piece_length=16384, npieces=1):
        self.info = info
        self.info_hash = hashlib.sha1(info).digest()
        self.piece_length, self.npieces = piece_length, npieces
        self.total = piece_length * npieces
        self.content = bytes(min(self.total, 1 << 16))
        self.files = []

    def piece_len(self, i):
        return self.piece_length

    def piece(self, i):
        return self.content[:self.piece_length]

    def expected_files(self):
        return []

    def magnet(self, suffix=""):
        return "magnet:?xt=urn:btih:" + self.info_hash.hex() + suffix
