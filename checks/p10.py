"""P10: every value crosses the wire unchanged, or the receiver gets an error."""
import asyncio
import math

from checks import common as c
from sim import net
from sim.runner import Scenario
from sim.world import PORT, check

PROP = "P10"
STR = ["", "a", "job", "äöü", "\u6f22\u5b57" * 5, "\U0001f600\u2028\x85\n\r\n", "x" * 3000, "null\x00byte", "None", "é" * 127, "z" * 255, "z" * 256, "\ufeffbom", " lead", "trail \n", "\t", "\x00", "e\u0301\u00e9", "\ufffd\uffff"]
BYT = [None, b"\x00", b"abc", bytes(range(256)), b"\xff" * 5000, b"\x00" * 16, b"\n" * 70000]
INT = [0, 1, -1, 127, 128, 255, 256, -128, -129, 2**31, -(2**31), 2**63 - 1, -(2**63), 65536, 10**12]
FLT = [0.0, -0.0, 1.5, -1e308, 5e-324, math.inf, -math.inf, math.nan, 0.1, 1 / 3]


def objs():
    from mixtera.core.query.mixture import ArbitraryMixture

    return [None, {}, [], 0, "", {"a": [1, 2.5, None, b"x"]}, list(range(3000)), ArbitraryMixture(7), c.static(8, {(("lang", "en"),): 0.25, (("lang", "de"),): 0.75}), ("t", frozenset({1})), False,
            {"nested": {"k": "v" * 1000}}]


def arrays():
    import numpy as np

    return [None, np.array([1.5, -2.0, np.nan]), np.array([], dtype=np.float32), np.array(7), np.arange(12, dtype=np.int32).reshape(3, 4), np.arange(6, dtype=">i8"), np.asfortranarray(np.arange(6.0).reshape(2, 3)),
            np.array([True, False]), np.array(["a", "bcd"]), np.zeros((2, 0)), np.arange(4000, dtype=np.float64), np.array([0])]


def text(w):
    """A string of arbitrary code points."""
    ranges = ((0, 0x80), (0x80, 0x800), (0x2000, 0x2070), (0xFE00, 0x10000), (0x10000, 0x110000), (0x20, 0x7F))
    out = []
    for _ in range(w.ch(12)):
        a, b = w.pick(ranges)
        out.append(chr(a + w.ch(b - a)))
    return "".join(out)


def gen(w):
    """One typed message: (kind, value, size of the length field)."""
    kind = w.pick(("int", "str", "bytes", "obj", "float", "np", "str", "int"))
    size = w.pick((8, 16))
    if kind == "int":
        v = w.pick(INT)
    elif kind == "str":
        v = text(w) if w.flip(1, 3) else w.pick(STR)
    elif kind == "bytes":
        v = w.pick(BYT)
    elif kind == "obj":
        v = w.ch(12)
    elif kind == "float":
        v = w.pick(FLT)
    else:
        v = w.ch(12)
    return kind, v, size


def value(m, O, A):
    kind, v, _ = m
    return O[v] if kind == "obj" else (A[v] if kind == "np" else v)


async def send(m, writer, O, A, drain):
    from mixtera.network import network_utils as nu

    kind, _, size = m
    v = value(m, O, A)
    if kind == "int":
        await nu.write_int(v, size, writer, drain=drain)
    elif kind == "str":
        await nu.write_utf8_string(v, size, writer, drain=drain)
    elif kind == "bytes":
        await nu.write_bytes_obj(v, size, writer, drain=drain)
    elif kind == "obj":
        await nu.write_pickeled_object(v, size, writer, drain=drain)
    elif kind == "float":
        await nu.write_float(v, writer, drain=drain)
    else:
        await nu.write_numpy_array(v, 8, size, writer, drain=drain)


async def recv(m, reader):
    from mixtera.network import network_utils as nu

    kind, _, size = m
    if kind == "int":
        return await nu.read_int(size, reader)
    if kind == "str":
        return await nu.read_utf8_string(size, reader)
    if kind == "bytes":
        return await nu.read_bytes_obj(size, reader)
    if kind == "obj":
        return await nu.read_pickeled_object(size, reader)
    if kind == "float":
        return await nu.read_float(reader)
    return await nu.read_numpy_array(8, size, reader)


def length(m, O, A):
    """Bytes a message occupies, measured by writing it into memory."""

    class W:
        def __init__(self):
            self.n = 0

        def write(self, b):
            self.n += len(b)

        def writelines(self, parts):
            for b in parts:
                self.n += len(b)

        def is_closing(self):
            return False

        async def drain(self):
            pass

    wr = W()
    co = send(m, wr, O, A, True)
    try:
        while True:
            co.send(None)
    except StopIteration:
        pass
    return wr.n


def eq(a, b):
    import numpy as np

    if isinstance(b, np.ndarray) or isinstance(a, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(b, float):
        return isinstance(a, float) and (math.isnan(a) and math.isnan(b) or a == b and math.copysign(1, a) == math.copysign(1, b))
    if isinstance(b, (bytes, bytearray)):
        return isinstance(a, (bytes, bytearray)) and bytes(a) == bytes(b)
    if b is None or isinstance(b, bool):
        return a is b
    if type(a).__name__ != type(b).__name__:
        return False
    return a == b if not hasattr(b, "mixture_in_rows") else (a.mixture_in_rows() == b.mixture_in_rows() and a.chunk_size == b.chunk_size)


def exchange(w, cut):
    k = w.k
    O, A = objs(), arrays()
    there = [gen(w) for _ in range(1 + w.ch(12))]
    back = [gen(w) for _ in range(w.ch(5))]
    drains = [w.ch(3) for _ in range(8)]
    lens = [[length(m, O, A) for m in l] for l in (there, back)]
    plan = None
    if cut:
        side = w.ch(2) if back else 0
        tot = sum(lens[side])
        mode = w.pick(("fin", "reset", "stall", "fin"))
        if w.flip():  # next to the boundary of a field
            i = w.ch(len(lens[side]))
            m = (there, back)[side][i]
            pos = sum(lens[side][:i]) + w.pick((0, 1, 7, 8, 15, 16, 24)) % max(1, lens[side][i])
            del m
        else:
            pos = w.ch(tot)
        plan = (side, pos, mode, w.pick((8.0, 9.99, 10.5, 30.0, 200.0)) if mode == "stall" else 0)
    k.net.fault_plan = (lambda conn: plan) if plan else None
    got = {0: [], 1: []}
    done = {}

    async def pump_out(msgs, writer, o):
        for i, m in enumerate(msgs):
            await send(m, writer, O, A, drains[(i + o) % 8] > 0)
            if drains[(i + o) % 8] == 2:
                await asyncio.sleep((0.0, 0.01, 3.0)[drains[(i + o + 1) % 8]])

    async def pump_in(side, msgs, reader):
        for m in msgs:
            t0 = k.now
            try:
                v = await recv(m, reader)
            except Exception as e:  # noqa: BLE001
                got[side].append(("err", e, k.now - t0))
                return
            got[side].append(("val", v, k.now - t0))
            if v is None and value(m, O, A) is not None:
                return

    def server():
        async def handle(reader, writer):
            try:
                await asyncio.gather(pump_in(0, there, reader), pump_out(back, writer, 3))
            except (ConnectionError, OSError):
                pass
            done["s"] = True
            if not cut:
                await asyncio.sleep(1)
            writer.close()

        async def main():
            s = await asyncio.start_server(handle, "sim", PORT)
            async with s:
                while len(done) < 2:
                    await asyncio.sleep(1)
                await asyncio.sleep(1)

        net.run(main())

    def client():
        async def main():
            reader, writer = await asyncio.open_connection("sim", PORT)
            try:
                await asyncio.gather(pump_in(1, back, reader), pump_out(there, writer, 0))
            except (ConnectionError, OSError):
                pass
            while "s" not in done:
                await asyncio.sleep(0.5)
            writer.close()

        try:
            net.run(main())
        finally:
            done["c"] = True

    hs = w.proc("server", server)
    w.wait(lambda: bool(k.net.servers), None, "up")
    hc = w.proc("client", client)
    w.join(hc)
    w.join(hs)
    nerr = 0
    for side, msgs in ((0, there), (1, back)):
        res = got[side]
        hurt = plan is not None and (plan[0] == side or plan[2] in ("reset", "fin"))
        pos = 0
        for i, m in enumerate(msgs):
            what = f"direction {side}, message {i} {m} of {[(x[0], x[2]) for x in msgs]} at byte {pos}, fault {plan}"
            exp = value(m, O, A)
            if i >= len(res):
                check(hurt, "value-missing", lambda: f"{what}: the receiver did not get to it: {res}")
                break
            st, v, dt = res[i]
            if st == "val" and eq(v, exp):
                pos += lens[side][i]
                continue
            check(hurt, "value-changed" if st == "val" else "spurious-error", lambda: f"{what}: received {v!r}")
            if st == "val":
                # only a stream that ended exactly between two values may be reported as "no value"
                clean = v is None and m[0] in ("int", "str", "float") and k.net.conns[0].got[side] <= pos
                check(clean, "wrong-value-on-broken-stream", lambda: f"{what}: received {v!r} instead of an error")
            else:
                nerr += 1
                check(dt < 60, "late-error", lambda: f"{what}: the error came after {dt} s")
            break
        else:
            check(len(res) == len(msgs), "value-extra", lambda: f"{res}")
    return dict(what=f"{len(there)}+{len(back)} messages {sum(lens[0]) + sum(lens[1])} bytes, fault {plan}, {nerr} errors", nontrivial=True)


SCENARIOS = [Scenario("intact", lambda w: exchange(w, False), 2), Scenario("broken", lambda w: exchange(w, True), 3)]
QUICK = dict(runs=3000, secs=28.0)
