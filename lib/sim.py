"""The repository's simulator and bus accesses through it.  Never import the
transcoder in the same process: both have modules called machine and memory."""
import os, sys
import core


def load():
    p = os.path.join(core.REPO, "simulator")
    if p not in sys.path:
        sys.path.insert(0, p)
    import apple2, machine, memory, uthernet
    for m in (apple2, machine, memory, uthernet):
        if not core.in_dir(m.__file__, p):
            raise core.Inconclusive("wrong module %s" % m.__file__)
    return apple2, machine, memory, uthernet


def apple(stream=b""):
    apple2, _, _, uthernet = load()
    a = apple2.AppleII(uthernet.Uthernet(stream))
    a.memory_manager.enable()
    return a


# CPU instructions that make exactly one bus read or write of their absolute operand
READS = {"LDA": 0xAD, "LDX": 0xAE, "LDY": 0xAC, "BIT": 0x2C, "CMP": 0xCD, "CPX": 0xEC, "CPY": 0xCC, "ORA": 0x0D, "AND": 0x2D, "EOR": 0x4D, "ADC": 0x6D}
WRITES = {"STA": 0x8D, "STX": 0x8E, "STY": 0x8C}


class Bus:
    """One access at a time, directly or by an instruction run on the CPU."""
    CODE = 0x0300

    def __init__(self, a):
        self.a, self.mem, self.cpu = a, a.memory, a.cpu

    def read(self, addr, via=None):
        if via is None:
            with core.quiet():
                return self.mem[addr]
        if via not in READS:
            return self._indexed(addr, via)
        self._put(READS[via], addr)
        self.cpu.p &= ~0x08
        with core.quiet():
            self.cpu.step()
        return {"LDA": self.cpu.a, "LDX": self.cpu.x, "LDY": self.cpu.y}.get(via)

    def write(self, addr, value, via=None):
        if via is None:
            with core.quiet():
                self.mem[addr] = value
            return
        if via not in WRITES:
            return self._indexed(addr, via, value)
        self._put(WRITES[via], addr)
        setattr(self.cpu, via[2].lower(), value)
        with core.quiet():
            self.cpu.step()

    def _indexed(self, addr, via, value=None):
        """LDA/STA abs,X ; LDA/STA (zp),Y"""
        c, m = self.cpu, self.mem
        c.x = c.y = 7
        if via in ("LDAX", "STAX"):
            self._put(0xBD if via == "LDAX" else 0x9D, (addr - 7) & 0xffff)
        else:
            b = (addr - 7) & 0xffff
            m.write(0x42, [b & 255, b >> 8])
            m.write(self.CODE, [0xB1 if via == "LDAY" else 0x91, 0x42])
            c.pc = self.CODE
        if value is not None:
            c.a = value
        with core.quiet():
            c.step()
        return c.a

    def _put(self, op, addr):
        self.mem.write(self.CODE, [op, addr & 255, addr >> 8])
        self.cpu.pc = self.CODE
