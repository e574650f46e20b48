"""Deterministic simulation core.

One run = one scenario function driven by a `Sim`.  Every decision of the run (workload, interleaving, delay,
fault, crash point) is drawn through `Sim.draw`.  The draws come from one PRNG seeded by a string, or from a recorded list
(replay / minimisation); after the end of a recorded list every draw is 0, which by construction is "the simplest thing,
no fault".  A run is therefore a pure function of (code, list of draws).
"""
from __future__ import annotations

import hashlib
import heapq
import random
from collections import Counter


class Violation(Exception):
    """The property is broken.  `key` names the violation class (stable: used for minimisation and known findings)."""

    def __init__(self, key: str, message: str):
        super().__init__(f"{key}: {message}")
        self.key = key
        self.message = message


class HarnessError(Exception):
    """The harness itself is wrong; never a verdict."""


class StepLimit(Exception):
    """run stopped at the step cap (not a verdict)"""


class Sim:
    MAX_DRAWS = 200_000

    def __init__(self, seed: str | None = None, choices: list[int] | None = None, keep_log: bool = False,
                 known: frozenset = frozenset()):
        self.seed = seed
        self._rng = random.Random(seed) if choices is None else None
        self._given = choices
        self.choices: list[int] = []
        self.groups: list[tuple[int, int]] = []
        self._open: list[int] = []
        self.now: int = 0                      # simulated microseconds
        self._q: list = []
        self._seq = 0
        self._h = hashlib.blake2b(digest_size=12)
        self.keep_log = keep_log
        self.events: list[str] = []
        self.n_events = 0
        self.faults: Counter = Counter()
        self.probes: Counter = Counter()
        self.states: set[int] = set()
        self.known = known
        self.known_hit: dict[str, str] = {}

    # ---- decisions -------------------------------------------------------------------------------------------------
    def draw(self, n: int) -> int:
        """integer in [0, n)"""
        if n <= 1:
            return 0
        i = len(self.choices)
        if i >= self.MAX_DRAWS:
            raise StepLimit("draws")
        if self._rng is not None:
            v = self._rng.randrange(n)
        elif i < len(self._given):
            v = self._given[i] % n
        else:
            v = 0
        self.choices.append(v)
        return v

    def chance(self, p: float) -> bool:
        """True with probability p; a draw of 0 is always False"""
        if p <= 0:
            return False
        return self.draw(1000) >= 1000 - int(p * 1000 + 0.5)

    def int(self, lo: int, hi: int) -> int:
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)...]; the first pair is the simplest"""
        total = sum(w for w, _ in pairs)
        v = self.draw(total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        raise HarnessError("weighted")

    def bytes(self, n: int) -> bytes:
        out = bytearray()
        for _ in range(n):
            out.append(self.draw(256))
        return bytes(out)

    def blob(self, n: int) -> bytes:
        """n octets fixed by one draw (cheap long payloads)"""
        if n == 0:
            return b""
        s = self.draw(1 << 30)
        if s == 0:
            return bytes(i & 0xFF for i in range(n))
        return random.Random(s).randbytes(n)

    def steps(self, limit: int, mean: int | None = None):
        """yield step numbers; each step is a group the minimiser can drop whole"""
        p = 1 - 1 / max(2, mean or max(2, limit // 2))
        i = 0
        while i < limit:
            start = len(self.choices)
            if not self.chance(p):
                break
            self._open.append(start)
            yield i
            self._open.pop()
            self.groups.append((start, len(self.choices)))
            i += 1

    def swarm(self, kinds: dict[str, float], none: float = 0.2) -> dict[str, float]:
        """a random subset of the fault kinds for this run with a random rate each (rate 0: off)"""
        if not self.chance(1 - none):
            return {k: 0.0 for k in kinds}
        out = {}
        for k, hi in kinds.items():
            out[k] = hi * self.int(1, 10) / 10 if self.chance(0.55) else 0.0
        return out

    # ---- bookkeeping -----------------------------------------------------------------------------------------------
    def log(self, *parts):
        s = " ".join(str(p) for p in parts)
        self.n_events += 1
        self._h.update(s.encode("utf-8", "replace"))
        self._h.update(b"\n")
        if self.keep_log and len(self.events) < 20_000:
            self.events.append(f"t={self.now / 1e6:.6f} #{self.n_events} {s}")

    def fault(self, kind: str, *detail):
        self.faults[kind] += 1
        self.log("FAULT", kind, *detail)

    def probe(self, name: str, n: int = 1):
        self.probes[name] += n

    def state(self, *abstract):
        """record an abstract state reached"""
        if len(self.states) < 4000:
            self.states.add(int.from_bytes(hashlib.blake2b(repr(abstract).encode(), digest_size=7).digest(), "big"))

    def digest(self) -> str:
        return self._h.hexdigest()

    def check(self, cond: bool, key: str, message="", *more):
        if not cond:
            self.fail(key, message() if callable(message) else message)

    def fail(self, key: str, message: str = ""):
        """report a violation of the property; a listed known finding is recorded and the run goes on"""
        if key in self.known:
            self.known_hit.setdefault(key, message)
            self.log("KNOWN", key)
            return
        self.log("VIOLATION", key, message)
        raise Violation(key, message)

    # ---- virtual time ----------------------------------------------------------------------------------------------
    def after(self, delay_us: int, fn, *args):
        self._seq += 1
        ev = [self.now + max(0, int(delay_us)), self._seq, fn, args]
        heapq.heappush(self._q, ev)
        return ev

    @staticmethod
    def cancel(ev):
        if ev is not None:
            ev[2] = None

    def run_events(self, until_us: int, max_events: int = 100_000, stop=None) -> int:
        n = 0
        while self._q and n < max_events:
            if self._q[0][0] > until_us:
                break
            at, _, fn, args = heapq.heappop(self._q)
            if fn is None:
                continue
            self.now = max(self.now, at)
            fn(*args)
            n += 1
            if stop is not None and stop():
                return n
        return n
