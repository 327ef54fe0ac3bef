"""The process's wall clock, owned by the harness (LD_PRELOAD shim, see vclock.c)."""
import ctypes
import datetime as _D

_lib = ctypes.CDLL(None)
_lib.vclock_set_wall.argtypes = [ctypes.c_int64]
_lib.vclock_add_wall.argtypes = [ctypes.c_int64]
_lib.vclock_get_wall.restype = ctypes.c_int64
UTC = _D.timezone.utc
EPOCH = _D.datetime(1970, 1, 1, tzinfo=UTC)


def to_us(dt):
    d = dt.astimezone(UTC) - EPOCH
    return (d.days * 86400 + d.seconds) * 1_000_000 + d.microseconds


def from_us(us):
    return EPOCH + _D.timedelta(microseconds=us)


def set_us(us):
    _lib.vclock_set_wall(us * 1000)


def set_dt(dt):
    set_us(to_us(dt))


def add_us(us):
    _lib.vclock_add_wall(us * 1000)


def get_us():
    return _lib.vclock_get_wall() // 1000


def now():
    return from_us(get_us())


def off():
    _lib.vclock_off()
