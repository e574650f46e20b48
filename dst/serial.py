"""Simulated serial line: octets in, chunks out, with the faults of a real UART / optical head / RS-485 bus."""
from __future__ import annotations

LINE_FAULTS = {"bit_flip": 0.01, "drop_octet": 0.008, "dup_octet": 0.006, "insert_octet": 0.008, "noise_burst": 0.25,
               "cut_frame": 0.2, "merge_flag": 0.5, "extra_flag": 0.4, "drop_frame": 0.3, "dup_frame": 0.3}


def damage(sim, rates: dict, frame: bytes) -> bytes:
    """the octets the far end sees for one transmitted frame"""
    if sim.chance(rates.get("drop_frame", 0)):
        sim.fault("drop_frame", len(frame))
        return b""
    out = bytearray(frame)
    if sim.chance(rates.get("cut_frame", 0)):
        k = sim.draw(len(out))
        sim.fault("cut_frame", k, "of", len(out))
        out = out[k:] if sim.chance(0.5) else out[:k]
    n_hits = {k: 0 for k in ("bit_flip", "drop_octet", "dup_octet", "insert_octet")}
    for kind in n_hits:
        r = rates.get(kind, 0)
        if r <= 0 or not out:
            continue
        # number of hits in this frame: one draw, then positions (keeps the number of draws small)
        if sim.chance(min(0.9, r * len(out))):
            for _ in range(1 + sim.draw(3)):
                if not out:
                    break
                i = sim.draw(len(out))
                if sim.chance(0.5):
                    i = min(i, sim.draw(min(12, len(out))))      # bias to the header
                if kind == "bit_flip":
                    out[i] ^= 1 << sim.draw(8)
                elif kind == "drop_octet":
                    del out[i]
                elif kind == "dup_octet":
                    out.insert(i, out[i])
                else:
                    out.insert(i, sim.pick((0x7E, 0xA0, 0x00, 0x7E, 0xFF)) if sim.chance(0.6) else sim.draw(256))
                sim.fault(kind, "at", i)
    if sim.chance(rates.get("noise_burst", 0)):
        k = sim.int(1, 24)
        burst = bytearray(sim.blob(k))
        for i in range(len(burst)):
            if burst[i] % 5 == 0:
                burst[i] = (0x7E, 0xA0, 0xA8)[burst[i] % 3]
        sim.fault("noise_burst", bytes(burst).hex())
        out = bytearray(burst) + out if sim.chance(0.7) else out + burst
    if sim.chance(rates.get("extra_flag", 0)):
        k = sim.int(1, 9)
        sim.fault("extra_flag", k)
        out = bytearray(b"\x7e" * k) + out
    return bytes(out)


def chunks(sim, data: bytes, mode: int):
    """cut a stream into read() chunks"""
    i = 0
    while i < len(data):
        if mode == 0:
            k = len(data) - i
        elif mode == 1:
            k = 1
        elif mode == 2:
            k = sim.int(1, 7)
        else:
            k = sim.int(1, 1 + min(400, len(data) - i))
        yield data[i:i + k]
        i += k
