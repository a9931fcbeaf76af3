"""Simulated wall clock: the only clock corgidrp sees while a simulation is active."""
import datetime as _dtmod
import time as _time

import astropy.time as _at

_real_dt = _dtmod.datetime
_real_time = _time.time
_real_time_ns = _time.time_ns
_real_now = _at.Time.__dict__["now"]


class SimClock:
    def __init__(self, start=1_900_000_000.0):
        self.t = float(start)
        self.span = 0.0     # total simulated time covered (absolute steps)
        self.frozen = False

    def advance(self, dt):
        self.t += dt
        self.span += abs(dt)

    def tick(self, dt):
        if not self.frozen:
            self.t += dt
            self.span += dt

    def now(self):
        self.tick(0.001)
        return self.t

    def install(self):
        clk = self

        class _Meta(type):
            def __instancecheck__(cls, inst):
                return isinstance(inst, _real_dt)

        class SimDatetime(_real_dt, metaclass=_Meta):
            @classmethod
            def now(cls, tz=None):
                return _real_dt.fromtimestamp(clk.now(), tz)

            @classmethod
            def utcnow(cls):
                return _real_dt.fromtimestamp(clk.now(), _dtmod.timezone.utc).replace(tzinfo=None)

            @classmethod
            def today(cls):
                return _real_dt.fromtimestamp(clk.now())

        def sim_now(cls):
            return cls(val=_real_dt.fromtimestamp(clk.now(), _dtmod.timezone.utc).replace(tzinfo=None),
                       format="datetime", scale="utc")

        _time.time = clk.now
        _time.time_ns = lambda: int(clk.now() * 1e9)
        _dtmod.datetime = SimDatetime
        _at.Time.now = classmethod(sim_now)

    @staticmethod
    def uninstall():
        _time.time = _real_time
        _time.time_ns = _real_time_ns
        _dtmod.datetime = _real_dt
        _at.Time.now = _real_now
