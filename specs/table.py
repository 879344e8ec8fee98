TABLE = {}


def _reg(module, first, last):
    for i in range(first, last + 1):
        TABLE["C%02d" % i] = "%s:c%02d" % (module, i)


_reg("ranges", 1, 2)
_reg("ranges", 4, 7)
_reg("spans", 8, 10)
_reg("params", 11, 15)
_reg("params", 17, 21)
for _i in (22, 24, 25, 43):
    _reg("iospec", _i, _i)
_reg("kvspec", 26, 31)
for _i in (33, 34, 35, 36, 38, 39):
    _reg("miscspec", _i, _i)
for _i in (23, 32, 37, 40, 41):
    _reg("scriptspec", _i, _i)
for _i in (42, 44):
    _reg("crossspec", _i, _i)
