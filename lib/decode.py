"""Independent reader of player symbols and of the byte stream."""
import re
import numpy as np
from core import Violation, Inconclusive

_SYM = re.compile(r'^sym\s+(.*)$')


def parse_dbg(path):
    """{label: address} of the ld65 debug file."""
    out = {}
    for line in open(path):
        m = _SYM.match(line)
        if not m:
            continue
        f = dict(kv.split("=", 1) for kv in m.group(1).strip().split(",") if "=" in kv)
        if "name" in f and "val" in f and f.get("type") == "lab":
            out.setdefault(f["name"].strip('"'), int(f["val"], 16))
    return out


def entry_points(labels):
    """address -> ("tick", cycles, page) / ("ack",) / ("terminate",) / ("nop",)"""
    t = {}
    for n, v in labels.items():
        m = re.match(r"op_tick_(\d+)_page_(\d+)$", n)
        if m:
            t[v] = ("tick", int(m.group(1)), int(m.group(2)))
        elif n in ("op_ack", "op_terminate", "op_nop"):
            t[v] = (n[3:],)
    return t


class Decoder:
    """Streaming decoder.  feed(byte) returns None, or an event:
       ("header", mode), ("op", index, duty, page, content, offsets, bank, pos),
       ("ack", bank, pos), ("terminate", pos).
    Framing errors raise Violation."""

    def __init__(self, entries):
        self.e = entries
        self.pos = 0
        self.buf = []
        self.mode = None
        self.bank = 0
        self.nops = 0
        self.term = None
        self.acks = 0

    def bad(self, key, msg, **d):
        raise Violation("framing:" + key, msg, pos=self.pos, recent=list(map(int, self.buf)), **d)

    def feed(self, b):
        b = int(b)
        if not 0 <= b <= 255:
            self.bad("byte-range", "stream element %r is not a byte" % b)
        self.pos += 1
        if self.term is not None:
            if b != 0:
                self.bad("pad", "non-zero byte %02x after TERMINATE" % b)
            return None
        buf = self.buf
        buf.append(b)
        n = len(buf)
        if self.mode is None:
            if n < 7:
                if b != 0xff:
                    self.bad("header", "header pad byte is %02x" % b)
                return None
            if b not in (0, 1):
                self.bad("header-mode", "header mode byte is %02x" % b)
            self.mode = b
            self.buf = []
            return ("header", b)
        if n < 2:
            return None
        if n == 2:
            a = buf[0] << 8 | buf[1]
            k = self.e.get(a)
            start = self.pos - 2
            inblock = start % 2048
            if k is None:
                self.bad("opcode", "no player opcode at %04x" % a, start=start)
            self.k = k
            if k[0] == "nop":
                self.bad("nop", "unexpected NOP opcode", start=start)
            if k[0] == "ack" and inblock != 2044:
                self.bad("ack-position", "ACK at offset %d of its block" % inblock, start=start)
            if k[0] != "ack" and inblock >= 2044:
                self.bad("ack-missing", "%s at offset %d of its block" % (k, inblock), start=start)
            if k[0] == "tick" and inblock + 7 > 2044:
                self.bad("straddle", "opcode at offset %d runs into the ACK" % inblock, start=start)
            if k[0] == "terminate":
                self.term = start
                self.buf = []
                return ("terminate", start)
            return None
        k = self.k
        if k[0] == "ack":
            if n < 4:
                if b not in (0x54, 0x55):
                    self.bad("ack-operand", "ACK operand %02x" % b)
                self.ackb = b - 0x54
                return None
            self.bank = self.ackb
            self.buf = []
            self.acks += 1
            return ("ack", self.bank, self.pos - 4)
        if n < 7:
            return None
        self.buf = []
        self.nops += 1
        return ("op", self.nops - 1, k[1], k[2], buf[2], buf[3:7], self.bank, self.pos - 7)

    def end(self):
        if self.mode is None:
            self.bad("short", "stream ends inside the header")
        if self.term is None:
            self.bad("no-terminate", "stream does not end with TERMINATE")
        if self.pos % 2048:
            self.bad("length", "stream length %d is not a multiple of 2048" % self.pos)
        if self.pos - self.term > 2048:
            self.bad("pad-length", "%d bytes after TERMINATE's start" % (self.pos - self.term))


def decode(data, entries):
    d = Decoder(entries)
    ev = []
    for b in data:
        e = d.feed(b)
        if e is not None:
            ev.append(e)
    d.end()
    return ev


class Screen:
    """What a player showing the stream has in memory."""

    def __init__(self):
        self.mem = [np.zeros((32, 256), dtype=np.uint8), np.zeros((32, 256), dtype=np.uint8)]

    def op(self, e):
        m = self.mem[e[6]]
        p = e[3] - 32
        for o in e[5]:
            m[p, o] = e[4]
