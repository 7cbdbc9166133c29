"""A virtual clock that the harness owns.

install() must run before satisfy is imported, so that `from time import time` in the code under
test would pick up the virtual functions too.  Time moves only when the harness calls advance().
"""
import time as _time

real_time = _time.time
real_monotonic = _time.monotonic
real_perf = _time.perf_counter
BASE = 1000.0


class Clock:
    def __init__(self):
        self.base = BASE    # what is read when now is 0
        self.now = 0.0
        self.tick = 0.0     # time that passes between two readings

    def reset(self, tick=0.0, base=BASE):
        self.base = base
        self.now = 0.0
        self.tick = tick

    def advance(self, dt):
        self.now += dt


CLOCK = Clock()


def install():
    def now():
        CLOCK.now += CLOCK.tick
        return CLOCK.base + CLOCK.now

    def now_ns():
        CLOCK.now += CLOCK.tick
        return int(round((CLOCK.base + CLOCK.now) * 1e9))
    for name in ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time'):
        setattr(_time, name, now)
    for name in ('time_ns', 'monotonic_ns', 'perf_counter_ns', 'process_time_ns', 'thread_time_ns'):
        setattr(_time, name, now_ns)
    return CLOCK
