"""C22: stream capture returns all output of the block and always restores the stream."""
import io
import os
import tempfile

from mc import load
from mc.core import Violation, leave_raising

ID = "C22"
LEVEL = "model_checking"
RULE = (
    "every sequence up to the stated depth of Python writes, Python writes with flush, descriptor writes, (in some jobs) large "
    "writes and writes by child processes to two streams, entering a capture of either stream, and leaving an open capture "
    "normally or with an exception (captures of one stream nest, captures of different streams may interleave), on several "
    "pairs of stream types including descriptors 1 and 2; at the end every captured buffer, both original destinations, the "
    "open descriptors and the temporary directory are compared with a model; states are nodes of the sequence tree"
)
ASSUMPTIONS = [
    "a buffered Python stream is flushed when its user flushes it and at the start and end of a capture of it, so Python's output is ordered by these moments relative to descriptor writes",
    "captures of the same stream are left in the reverse order they were entered",
    "single-threaded",
]


TYPES = {
    # name: (python mode of stream A, of stream B)
    "text-raw": ("text", "raw"),
    "line-binary": ("line", "binary"),
    "std": ("text", "line"),
}


def jobs(tier, seed):
    deep = tier == "thorough"
    out = []
    for pair in TYPES:
        n = 6 if pair == "text-raw" else 5
        for first in range(8):
            out.append({"pair": pair, "depth": n + deep, "first": first, "extra": False, "weight": 100 if n == 6 else 20})
        out.append({"pair": pair, "depth": 3, "first": None, "extra": True, "huge": 1, "weight": 20})
        out.append({"pair": pair, "depth": 4 if deep else 3, "first": None, "extra": True, "weight": 20})
    return out


OPS = ("pA", "fA", "dA", "pB", "dB", "(A", "(B")
HUGE = [None]  # position at which a large descriptor write is very large
EXTRA = ("PA", "PB", "DA", "DB", "cA", "cB")  # large writes, child process writes


def programs(depth, first, extra):
    """Sequences of operations; ')k' / '!k' leave the k-th capture normally / by exception."""
    ops = OPS + (EXTRA if extra else ())
    start = None if first is None else (ops[first] if first < len(ops) else "flush")

    def go(seq, opened, n):
        if seq:
            yield seq
        if len(seq) == depth:
            return
        for op in ops:
            if not seq and start is not None and op != start:
                continue
            if op[0] == "(":
                if n < 3:
                    yield from go(seq + (op,), opened + ((n, op[1]),), n + 1)
            else:
                yield from go(seq + (op,), opened, n)
        for i, (k, s) in enumerate(opened):
            if all(t != s for _, t in opened[i + 1:]):
                rest = opened[:i] + opened[i + 1:]
                yield from go(seq + (f"){k}",), rest, n)
                yield from go(seq + (f"!{k}",), rest, n)

    yield from go((), (), 0)


class Model:
    def __init__(self, kinds):
        self.kinds = dict(zip("AB", kinds))
        self.dest = {"A": ["A"], "B": ["B"]}
        self.out = {"A": b"", "B": b""}
        self.buf = {"A": b"", "B": b""}
        self.ctx = {}

    def flush(self, s):
        self.out[self.dest[s][-1]] += self.buf[s]
        self.buf[s] = b""

    def step(self, op, data):
        o, s = op[0], op[1:]
        if o in "dDc":
            self.out[self.dest[s][-1]] += data
        elif o in "pPfF":
            self.buf[s] += data
            if o in "fPF" or self.kinds[s] == "raw" or self.kinds[s] == "line":
                self.flush(s)
        elif o == "(":
            k = f"buffer {len(self.ctx)}"
            self.flush(s)
            self.ctx[len(self.ctx)] = (s, k)
            self.dest[s].append(k)
            self.out[k] = b""
        else:
            s, k = self.ctx[int(op[1:])]
            self.flush(s)
            assert self.dest[s].pop() == k


def open_stream(kind, fd):
    if kind == "raw":
        return io.FileIO(fd, "w", closefd=False)
    b = io.BufferedWriter(io.FileIO(fd, "w", closefd=False), 1 << 16)
    if kind == "binary":
        return b
    return io.TextIOWrapper(b, encoding="utf-8", newline="\n", line_buffering=kind == "line")


def fds():
    return set(os.listdir("/proc/self/fd"))


class Run:
    def __init__(self, util, kinds, fdnum, tmp):
        self.util = util
        self.fd, self.files, self.streams = {}, {}, {}
        self.kinds = dict(zip("AB", kinds))
        self.tmp = tmp
        for s, k, num in zip("AB", kinds, fdnum):
            f = os.memfd_create("dest" + s)
            self.files[s] = f
            if num is None:
                self.fd[s] = os.dup(f)
                os.set_inheritable(self.fd[s], True)
            else:
                os.dup2(f, num)
                self.fd[s] = num
            self.streams[s] = open_stream(k, self.fd[s])
        self.ctx, self.outs, self.raised = {}, {}, 0

    def reset(self, n=0):
        self.raised = n
        for s in "AB":
            self.streams[s].flush()
            os.ftruncate(self.files[s], 0)
            os.lseek(self.files[s], 0, 0)
        self.ctx, self.outs = {}, {}

    def step(self, op, data):
        o, s = op[0], op[1:]
        if o in "dD":
            done = os.write(self.fd[s], data)
            assert done == len(data)
        elif o == "c":
            # descriptors 1 and 2 are inherited, others passed on as the child's descriptor 1
            n = self.fd[s]
            act = [] if n < 3 else [(os.POSIX_SPAWN_DUP2, n, 1)]
            pid = os.posix_spawn("/bin/sh", ["sh", "-c", f"echo '{data.decode().strip()}' >&{n if n < 3 else 1}"], os.environ,
                                 file_actions=act)
            _, status = os.waitpid(pid, 0)
            if status:
                raise Violation(f"a child process could not write to the stream (exit status {status})")
        elif o in "pPfF":
            st = self.streams[s]
            if self.kinds[s] in ("text", "line"):
                print(data.decode(), end="", file=st)
            else:
                st.write(data)
            if o in "fPF":
                st.flush()
        elif o == "(":
            k = len(self.ctx)
            c = self.util.capture_stream(self.streams[s])
            self.ctx[k] = c
            self.outs[k] = c.__enter__()
        else:
            c = self.ctx[int(op[1:])]
            if o == ")":
                c.__exit__(None, None, None)
            else:
                self.raised += 1
                bad = leave_raising(c, self.raised)
                if bad:
                    raise Violation(f"a captured block {bad}")

    def read(self, s):
        size = os.fstat(self.files[s]).st_size
        return os.pread(self.files[s], size, 0)


def payload(i, op):
    if op[0] in "PD":
        return (f"<{i}{op}" + "x" * (70000 if op[0] != "D" or i != HUGE[0] else 17 << 20) + ">\n").encode()
    if op[0] == "c":
        return f"<{i}{op}>\n".encode()
    if op[0] == "d":  # any bytes at all, with and without a final newline
        return f"<{i}{op}".encode() + b"\xff\x00\xc3\r\n\x1b[0m\r" + (b">\n", b"", b"\x00\x00", b" \n")[i % 4]
    return f"<{i}{op} \u00e9\x00\r\n\t>\r\n".encode() if i % 2 else f"<{i}{op} \u20ac >\n".encode()


def execute(run, kinds, seq):
    m = Model(kinds)
    run.reset(sum(map(len, seq)) + 2 * seq.index(seq[-1]))
    before = fds()
    n, live = 0, []
    full = list(seq)
    for op in seq:
        if op[0] == "(":
            live.append(n)
            n += 1
        elif op[0] in ")!":
            live.remove(int(op[1:]))
    full += [f"){k}" for k in reversed(live)] + ["fA", "fB"]
    for i, op in enumerate(full):
        data = payload(i, op)
        m.step(op, data)
        run.step(op, data)
        if op[0] == "(" and not isinstance(run.outs[len(run.outs) - 1], io.BytesIO):
            raise Violation("capture does not yield a byte buffer")
    for s in "AB":
        run.streams[s].flush()
        got = run.read(s)
        if got != m.out[s]:
            raise Violation(f"original destination of stream {s} holds {short(got)}, expected {short(m.out[s])}")
    for k, b in run.outs.items():
        want = m.out[f"buffer {k}"]
        if b.getvalue() != want:
            raise Violation(f"capture {k} returned {short(b.getvalue())}, expected {short(want)}")
    after = fds()
    if len(after) != len(before):
        raise Violation(f"{len(after) - len(before)} file descriptor(s) left open")
    left = os.listdir(run.tmp)
    if left:
        raise Violation(f"temporary files left behind: {left}")
    return len(full)


def short(b):
    return repr(b) if len(b) < 200 else repr(b[:80]) + f"...({len(b)} bytes)"


def run_job(job, rec):
    util = load.util()
    kinds = TYPES[job["pair"]]
    tmp = tempfile.mkdtemp(prefix="mc-capture-")
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    saved = None
    try:
        if job["pair"] == "std":
            saved = (os.dup(1), os.dup(2))
        run = Run(util, kinds, (1, 2) if saved else (None, None), tmp)
        last = None
        HUGE[0] = job.get("huge")
        for seq in programs(job["depth"], job["first"], job["extra"]):
            if HUGE[0] is not None and (len(seq) <= HUGE[0] or seq[HUGE[0]][0] != "D" or seq[0][0] not in "(d"):
                continue
            last = seq

            def go(seq=seq):
                rec.executions += 1
                rec.traces += 1
                rec.transitions += execute(run, kinds, seq)
            rec.states += 1
            failed = len(rec.violations)
            rec.case({"pair": job["pair"], "seq": list(seq)}, go)
            if rec.full():
                break
            if len(rec.violations) > failed:
                # a failing capture may have left the streams diverted
                for s in "AB":
                    try:
                        run.streams[s].flush()
                    except Exception:  # noqa: B902
                        pass
                run = Run(util, kinds, (1, 2) if saved else (None, None), tmp)
        if last:
            rec.sample({"pair": job["pair"], "sequence": list(last)})
    finally:
        tempfile.tempdir = old
        if saved:
            for i, fd in enumerate(saved):
                os.dup2(fd, i + 1)
                os.close(fd)
        for name in os.listdir(tmp):
            os.unlink(os.path.join(tmp, name))
        os.rmdir(tmp)
