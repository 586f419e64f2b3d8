"""A stand-in for Channel Access with the behaviour of cothread.catools.

PVs have a type, value, severity, time stamp and connection; monitors are told the latest
value by one dispatcher, merge updates that come while it is busy, are told of lost
connections if asked for, and are closed when their callback raises."""
import cothread
import numpy as np
from cothread import catools as real
from cothread.dbr import ca_array, ca_float, ca_int, ca_str

from .mal import yield_all


class Pv:
    def __init__(self, name, kind, value, labels=()):
        self.name, self.kind, self.value = name, kind, value
        self.labels = list(labels)
        self.severity = 0
        self.stamp = 1000
        self.connected = True
        self.refuse = False
        self.on_put = None
        self.limits = (-1.5, 2.5, "mm", 3)


class Sub:
    def __init__(self, ca, pv, callback, format, datatype, tell, index):
        self.ca, self.pv, self.callback = ca, pv, callback
        self.format, self.datatype, self.tell, self.index = format, datatype, tell, index
        self.pending = None
        self.open = True

    def post(self):
        if self.pv.connected:
            value = self.ca.make(self.pv, self.format, self.datatype)
        elif self.tell:
            value = real.ca_nothing(self.pv.name, 192)
        else:
            return
        if self.pending is None:
            self.ca.queue.append(self)
        self.pending = value
        self.ca.wake.Signal()

    def close(self):
        assert self.open or self.broken, "closed twice"
        self.open = False
        if self in self.ca.subs:
            self.ca.subs.remove(self)

    broken = False


class CA:
    """Use in place of malcolm.modules.ca.util.catools"""
    ca_nothing = real.ca_nothing
    FORMAT_CTRL, FORMAT_TIME = real.FORMAT_CTRL, real.FORMAT_TIME
    DBR_STRING, DBR_LONG, DBR_DOUBLE = real.DBR_STRING, real.DBR_LONG, real.DBR_DOUBLE
    DBR_ENUM, DBR_CHAR_STR = real.DBR_ENUM, real.DBR_CHAR_STR

    def __init__(self):
        self.pvs = {}
        self.subs = []
        self.queue = []
        self.puts = []
        self.busy = False
        self.time = 2000
        self.put_yields = 0
        self.wake = cothread.Event()
        self.stopped = False
        cothread.Spawn(self.dispatch)

    # what the device does
    def add(self, name, kind, value, labels=()):
        self.pvs[name] = Pv(name, kind, value, labels)
        return self.pvs[name]

    def change(self, name, value=None, severity=None, connected=None):
        pv = self.pvs[name]
        if value is not None:
            pv.value = value
        if severity is not None:
            pv.severity = severity
        if connected is not None:
            pv.connected = connected
        self.time += 1
        pv.stamp = self.time
        for s in list(self.subs):
            if s.pv is pv and (pv.connected or connected is not None):
                s.post()

    def dispatch(self):
        while True:
            if not self.queue:
                if self.stopped:
                    return
                self.wake.Wait(1)
                continue
            self.busy = True
            sub = self.queue.pop(0)
            value, sub.pending = sub.pending, None
            if sub.open:
                try:
                    if sub.index is None:
                        sub.callback(value)
                    else:
                        sub.callback(value, sub.index)
                except Exception:
                    if sub.open:
                        sub.close()
                        sub.broken = True
            self.busy = False

    def settle(self):
        for i in range(100000):
            yield_all(3)
            if not self.queue and not self.busy:
                return
            cothread.Sleep(0.0005)
        raise RuntimeError("monitors never settle")

    def stop(self):
        self.stopped = True
        self.wake.Signal()

    # what catools does
    def make(self, pv, format=None, datatype=None):
        kind, v = pv.kind, pv.value
        if datatype is None:
            datatype = {"double": self.DBR_DOUBLE, "long": self.DBR_LONG,
                        "enum": self.DBR_ENUM, "string": self.DBR_STRING,
                        "char": self.DBR_CHAR_STR, "doubles": self.DBR_DOUBLE,
                        "longs": self.DBR_LONG}[kind]
        if kind in ("doubles", "longs"):
            r = np.array(v, dtype=np.float64 if datatype == self.DBR_DOUBLE
                         else np.int32).view(ca_array)
        elif datatype == self.DBR_DOUBLE:
            r = ca_float(v)
        elif datatype in (self.DBR_LONG, self.DBR_ENUM):
            r = ca_int(v)
        elif kind == "enum":
            r = ca_str(pv.labels[v])
        else:
            r = ca_str(v)
        r.name, r.ok, r.datatype = pv.name, True, datatype
        r.element_count = len(v) if isinstance(v, list) else 1
        if format is not None:
            r.severity, r.status = pv.severity, 1 if pv.severity else 0
        if format == self.FORMAT_TIME:
            r.raw_stamp = (pv.stamp, 17)
            r.timestamp = float(pv.stamp)
        if format == self.FORMAT_CTRL:
            if datatype == self.DBR_ENUM:
                r.enums = list(pv.labels)
            elif datatype in (self.DBR_DOUBLE, self.DBR_LONG):
                r.lower_disp_limit, r.upper_disp_limit, r.units = pv.limits[:3]
                if datatype == self.DBR_DOUBLE:
                    r.precision = pv.limits[3]
        return r

    def caget(self, pvs, timeout=5, datatype=None, format=None, throw=True, **kw):
        if not isinstance(pvs, str):
            return [self.caget(pv, timeout, datatype, format, throw) for pv in pvs]
        cothread.Yield()
        pv = self.pvs[pvs]
        if not pv.connected:
            err = real.ca_nothing(pv.name, 80)
            if throw:
                raise err
            return err
        return self.make(pv, format, datatype)

    def caput(self, pvs, values, repeat_value=False, datatype=None, wait=False,
              timeout=5, throw=True, **kw):
        if not isinstance(pvs, str):
            assert len(values) == len(pvs)
            return [self.caput(p, v, datatype=datatype, wait=wait, timeout=timeout)
                    for p, v in zip(pvs, values)]
        pv = self.pvs[pvs]
        if isinstance(values, np.ndarray):
            values = values.tolist()
        elif isinstance(values, (list, tuple)):
            values = list(values)
        elif isinstance(values, np.generic):
            values = values.item()
        self.puts.append((pvs, values, wait, timeout))
        for _ in range(self.put_yields):
            cothread.Yield()
        if not pv.connected or pv.refuse:
            raise real.ca_nothing(pv.name, 80)
        self.change(pvs, value=values)
        if pv.on_put:
            pv.on_put(values)
        return real.ca_nothing(pv.name)

    def camonitor(self, pvs, callback, events=None, datatype=None, format=None,
                  notify_disconnect=False, **kw):
        if not isinstance(pvs, str):
            return [self.monitor(pv, callback, format, datatype, notify_disconnect, i)
                    for i, pv in enumerate(pvs)]
        return self.monitor(pvs, callback, format, datatype, notify_disconnect, None)

    def monitor(self, pv, callback, format, datatype, tell, index):
        sub = Sub(self, self.pvs[pv], callback, format, datatype, tell, index)
        self.subs.append(sub)
        if sub.pv.connected:
            sub.post()
        return sub
