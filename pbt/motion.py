"""Stand-ins for a motion controller: motors, a co-ordinate system and the
trajectory program that plays a profile"""
import cothread
from annotypes import Anno, add_call_types

from malcolm.core import (
    BooleanMeta, NumberArrayMeta, NumberMeta, Part, StringMeta, TableMeta)
from malcolm.modules.builtin.controllers import BasicController
from malcolm.modules.builtin.util import LayoutTable
from malcolm.modules.pmac.parts import CSPart, PmacTrajectoryPart

from .mal import AttrPart, yield_all

AXES = "ABCUVWXYZ"
# Velocity modes of the trajectory program
PREV_TO_NEXT, REAL_PREV, AVERAGE_PREV, ZERO_VELOCITY = range(4)


def attr(meta, value=None):
    a = meta.create_attribute_model()
    if value is not None:
        a.set_value(value)
    return a


def writeable(fields):
    return {k: a.set_value for k, a in fields.items()}


def add_block(process, mri, fields, parts=()):
    c = BasicController(mri)
    c.add_part(AttrPart("attrs", fields, writeable(fields)))
    for p in parts:
        c.add_part(p)
    process.add_controller(c)
    return c


def number(v=0.0):
    return attr(NumberMeta("float64", "d"), v)


def string(v=""):
    return attr(StringMeta("d"), v)


def motor_fields(cs="CS1,A", velocity=1.0, percent=100.0, acc_time=0.1,
                 resolution=0.001, offset=0.0, readback=0.0, settle=0.0, low=0.0,
                 high=0.0):
    return dict(
        cs=string(cs), maxVelocity=number(velocity), maxVelocityPercent=number(percent),
        accelerationTime=number(acc_time), resolution=number(resolution),
        offset=number(offset), readback=number(readback), velocitySettle=number(settle),
        units=string("mm"), userHighLimit=number(high), userLowLimit=number(low),
        dialHighLimit=number(high), dialLowLimit=number(low))


def layout_attr(names_mris):
    a = TableMeta.from_table(LayoutTable, "layout").create_attribute_model()
    names = [n for n, _ in names_mris]
    mris = [m for _, m in names_mris]
    zeros = [0.0] * len(names)
    a.set_value(LayoutTable(names, mris, zeros, zeros, [True] * len(names)))
    return a


class TrajPart(Part):
    """The trajectory program: remembers the points of the current profile"""

    def setup(self, registrar):
        super().setup(registrar)
        self.points = []
        self.profiles = []  # all that were executed
        self.writes = []  # [(build, number of points)]
        self.running = False
        self.aborted = 0
        self.release = None
        f = dict(
            trajectoryProgVersion=number(3), numPoints=number(), cs=string(),
            timeArray=attr(NumberArrayMeta("int32", "d")),
            velocityMode=attr(NumberArrayMeta("int32", "d")),
            userPrograms=attr(NumberArrayMeta("int32", "d")),
            pointsToBuild=number(), pointsBuilt=attr(NumberMeta("int32", "d"), 0),
            pointsScanned=attr(NumberMeta("int32", "d"), 0))
        for x in AXES:
            f["use" + x] = attr(BooleanMeta("d"), False)
            f["positions" + x] = attr(NumberArrayMeta("float64", "d"))
        self.f = f
        for n, a in f.items():
            registrar.add_attribute_model(n, a, a.set_value)
        for n in ("buildProfile", "appendProfile", "executeProfile", "abortProfile"):
            registrar.add_method_model(getattr(self, n), n)

    def _take(self):
        f = self.f
        n = int(f["pointsToBuild"].value)
        used = [x for x in AXES if f["use" + x].value]
        cols = {x: list(f["positions" + x].value) for x in used}
        lengths = {k: len(v) for k, v in cols.items()}
        for k in ("timeArray", "velocityMode", "userPrograms"):
            lengths[k] = len(f[k].value)
        first = len(self.points)
        for i in range(n):
            self.points.append(dict(
                t=int(f["timeArray"].value[i]), mode=int(f["velocityMode"].value[i]),
                prog=int(f["userPrograms"].value[i]),
                pos={x: float(c[i]) for x, c in cols.items() if i < len(c)}))
        self.writes.append((first == 0, n, lengths))
        f["pointsBuilt"].set_value(len(self.points))

    def buildProfile(self):
        self.points = []
        self.f["pointsScanned"].set_value(0)
        self._take()

    def appendProfile(self):
        self._take()

    def executeProfile(self):
        if len(self.points) == 1 and self.writes[-1][0]:
            # just the program of this one point
            self.profiles.append(self.points)
            self.f["pointsScanned"].set_value(1)
            return
        self.running = True
        self.release = cothread.Event()
        aborted = self.aborted
        self.release.Wait(30)
        self.running = False
        if self.aborted > aborted:
            raise RuntimeError("Aborted")

    def finish(self):
        """Let whoever still waits for the profile go on"""
        if self.running:
            self.aborted += 1
            self.release.Signal()

    def abortProfile(self):
        self.aborted += 1
        if self.release is not None:
            self.release.Signal()


with Anno("Servo frequency"):
    AFrequency = float


class ServoPart(Part):
    frequency = 4919.300698316487

    def setup(self, registrar):
        super().setup(registrar)
        registrar.add_method_model(self.servoFrequency, "servoFrequency")

    @add_call_types
    def servoFrequency(self) -> AFrequency:
        return self.frequency


class Pmac:
    """A PMAC block with the given motors: {name: fields}"""

    def __init__(self, process, motors, mri="PMAC"):
        self.mri = mri
        self.motors = motors
        self.traj = TrajPart("traj")
        c = BasicController("TRAJ")
        c.add_part(self.traj)
        process.add_controller(c)
        for n, f in motors.items():
            add_block(process, "MOTOR:" + n, f)
        self.cs = dict(deferMoves=attr(BooleanMeta("d"), False), csMoveTime=number(),
                       port=string("CS1"))
        for x in AXES:
            self.cs["demand" + x] = number()
        add_block(process, "CS1", self.cs)
        self.servo = ServoPart("servo")
        c = add_block(
            process, mri,
            dict(layout=layout_attr([(n, "MOTOR:" + n) for n in motors])),
            [PmacTrajectoryPart("traj", "TRAJ"), CSPart("CS1", 1),
             self.servo])
