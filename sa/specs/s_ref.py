"""Operations compared with reference programs (sa/refs), by property."""
from ..spec import *  # noqa


def register(pid):
    @spec(pid, r"^pair:%s:" % pid)
    def cmp(s, m):
        s.compare()


for _p in ("P05", "P06", "P11", "P12", "P13", "P14", "P07", "P08", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P27", "P28", "P29"):
    register(_p)
