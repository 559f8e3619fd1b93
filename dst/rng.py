import hashlib
import random


def derive(*parts) -> int:
    h = hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng(*parts) -> random.Random:
    return random.Random(derive(*parts))


def digest(obj) -> str:
    import json

    return hashlib.sha256(
        json.dumps(obj, sort_keys=True, default=str).encode()
    ).hexdigest()[:16]
