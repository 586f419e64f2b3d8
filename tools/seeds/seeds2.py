SEEDS = [
dict(id="s06", property="P24",
 edits=[("malcolm/modules/ADPandABlocks/doublebuffer.py",
 """        self._remove_subscriptions()
        self._seq_status = {"seqA": None, "seqB": None}
        self._finished = True""",
 """        self._remove_subscriptions()
        self._finished = True""")],
 needs="a scan cut short while a sequencer is active, then another scan of more than one table",
 breaks="the second scan overwrites a table before it was played",
 demo="""
from malcolm.modules.ADPandABlocks.doublebuffer import DoubleBuffer, SequencerRows, MIN_TABLE_DURATION, TICK
class Field:
    def __init__(self, v=None): self.value = v; self.puts = []; self.cb = None
    def put_value(self, v): self.puts.append(v); self.value = v
    def subscribe_value(self, cb, *args):
        self.cb = lambda v: cb(v, *args); self.cb(self.value); return object()
class Seq:
    def __init__(self):
        self.table = Field(); self.repeats = Field(1); self.prescale = Field(0)
        self.active = Field(False); self.label = Field("x")
class Ctx:
    def unsubscribe(self, f): pass
a, b = Seq(), Seq()
db = DoubleBuffer(Ctx(), a, b)
def rows():
    for i in range(5):
        r = SequencerRows()
        r.add_seq_entry(count=2, half_duration=int(MIN_TABLE_DURATION / TICK))
        yield r
db.configure(rows()); db.run()
a.active.cb(True)
db.clean_up()
a.table.puts.clear(); b.table.puts.clear()
db.configure(rows()); db.run()
assert len(a.table.puts) == 1 and len(b.table.puts) == 1, (len(a.table.puts), len(b.table.puts))
os._exit(0)
"""),
dict(id="s07", property="P08",
 edits=[("malcolm/core/context.py",
 """        until: Union[float, None]
        while filtered_futures:
            if event_timeout is not None:
                until = time.time() + event_timeout
                if end is not None:
                    until = min(until, end)
            else:
                until = end
            self._service_futures(filtered_futures, until)""",
 """        until: Union[float, None]
        if event_timeout is not None:
            until = time.time() + event_timeout
            if end is not None:
                until = min(until, end)
        else:
            until = end
        while filtered_futures:
            self._service_futures(filtered_futures, until)""")],
 needs="a wait with an event timeout that gets events all the time but takes longer than it in all",
 breaks="the wait times out although no two events were that far apart",
 demo="""
import cothread
from malcolm.core import Context, Process, Part, NumberMeta, Controller
attr = NumberMeta("int32", "d").create_attribute_model(0)
class P1(Part):
    def setup(self, registrar):
        registrar.add_attribute_model("f", attr)
p = Process("p"); c = Controller("b"); c.add_part(P1("x")); p.start(); p.add_controller(c)
def go():
    for i in range(1, 9):
        cothread.Sleep(0.1)
        attr.set_value(i)
cothread.Spawn(go)
Context(p).when_matches(["b", "f", "value"], 8, event_timeout=0.5)
assert attr.value == 8
os._exit(0)
"""),
dict(id="s08", property="P05",
 edits=[("malcolm/core/table.py",
 """    def rows(self):
        self.validate_column_lengths()
        data = """,
 """    def rows(self):
        data = """)],
 needs="a table whose columns have different lengths, read by rows",
 breaks="the rows of a table with columns of different length are cut off silently",
 demo="""
from annotypes import Anno, Array
from malcolm.core import Table
with Anno("a"):
    AA = Array[int]
with Anno("b"):
    AB = Array[int]
class T(Table):
    def __init__(self, a: AA, b: AB) -> None:
        self.a = a
        self.b = b
try:
    rows = list(T(AA([1, 2, 3]), AB([4])).rows())
except AssertionError:
    os._exit(0)
raise SystemExit("rows %s" % rows)
"""),
dict(id="s09", property="P09",
 edits=[("malcolm/core/hook.py",
 """                for h in hook_spawned:
                    h.stop()
            # Wait for them to finish
            for h in hook_spawned:
                assert h.spawned, "No spawned functions"
                h.spawned.wait(timeout)
            raise ret""",
 """                for h in hook_spawned:
                    h.stop()
                # Wait for them to finish
                for h in hook_spawned:
                    assert h.spawned, "No spawned functions"
                    h.spawned.wait(timeout)
            raise ret""")],
 needs="a hook that is aborted while one of its parts takes longer to stop than another",
 breaks="the hook is over while a part of it is still running",
 demo="""
import cothread
from annotypes import add_call_types
from malcolm.core import AbortedError, Process, Part
from malcolm.modules.builtin.controllers import StatefulController
from malcolm.modules.builtin.hooks import ResetHook, AContext
running = set()
slow = set()
class Slow(Part):
    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(ResetHook, self.on_reset)
    @add_call_types
    def on_reset(self, context: AContext) -> None:
        running.add(self.name)
        try:
            context.sleep(20)
        except AbortedError:
            if self.name == "y":
                cothread.Sleep(0.5)
            raise
        finally:
            running.discard(self.name)
p = Process("p"); c = StatefulController("b")
for n in "xyz":
    c.add_part(Slow(n))
p.start(); p.add_controller(c)
contexts = c.create_part_contexts()
def stop():
    cothread.Sleep(0.2)
    for k in contexts.values():
        k.stop()
cothread.Spawn(stop)
try:
    c.run_hooks(ResetHook(q, k) for q, k in contexts.items())
except AbortedError:
    assert not running, running
else:
    raise SystemExit("not aborted")
os._exit(0)
"""),
dict(id="s10", property="P10",
 edits=[("malcolm/core/process.py",
 """        if len(controller_list) > len(new_unpublished):""",
 """        if len(controller_list) > len(self._unpublished):""")],
 needs="more unpublished blocks in the process than there are in a later group of blocks that is added",
 breaks="blocks added while the process runs are never published",
 demo="""
from malcolm.core import Process, Controller, UnpublishedInfo, ProcessPublishHook, ProcessStartHook, APublished, AMri
from annotypes import add_call_types
published = []
class Hidden(Controller):
    def __init__(self, mri: AMri) -> None:
        super().__init__(mri)
        self.register_hooked(ProcessStartHook, self.go)
    def go(self):
        return UnpublishedInfo(self.mri)
class Server(Controller):
    def __init__(self, mri: AMri) -> None:
        super().__init__(mri)
        self.register_hooked(ProcessPublishHook, self.publish)
    @add_call_types
    def publish(self, published: APublished) -> None:
        globals()["published"] = list(published)
p = Process("p")
p.add_controllers([Hidden("h1"), Hidden("h2"), Server("s")])
p.start()
p.add_controller(Controller("new"))
assert "new" in published, published
os._exit(0)
"""),
dict(id="s12", property="P36",
 edits=[("malcolm/modules/ADOdin/parts/odinwriterpart.py",
 """    if any(dim.alternate for dim in generator.dimensions[1:]):""",
 """    if len(generator.dimensions) > 1 and generator.dimensions[-1].alternate:""")],
 needs="a scan of three dimensions of which only the middle one alternates",
 breaks="frames of every other line appear at the wrong points of the virtual dataset",
 demo="""
import tempfile, shutil
from scanpointgenerator import CompoundGenerator, LineGenerator
from malcolm.modules.ADOdin.parts import odinwriterpart as o
class A:
    def __init__(self, v): self.value = v
class Child:
    imageWidth, imageHeight, blockSize, numProcesses, dataType = A(2), A(3), A(1), A(2), A("uint16")
g = CompoundGenerator([LineGenerator("z", "mm", 0, 1, 2), LineGenerator("y", "mm", 0, 1, 3, alternate=True),
                       LineGenerator("x", "mm", 0, 1, 2)], [], [], 0.1)
g.prepare()
d = tempfile.mkdtemp()
try:
    try:
        o.create_vds(g, "raw", d + "/vds.h5", Child, "uid", "sum")
    except Exception as e:
        assert "nake" in str(e), e
    else:
        raise SystemExit("snake accepted")
finally:
    shutil.rmtree(d)
os._exit(0)
"""),
dict(id="s13", property="P30",
 edits=[("malcolm/modules/scanning/parts/scanrunnerpart.py",
 """        except AssertionError:
            outcome = ScanOutcome.MISCONFIGURED
        except Exception as e:""",
 """        except AssertionError:
            outcome = ScanOutcome.MISCONFIGURED
            scan_block.reset()
        except Exception as e:""")],
 needs="a scan that is refused because a part asserts, as validation does, while the scan block stays Ready",
 breaks="the runner fails as Ready blocks cannot be reset, and the scans after it are not run",
 demo="""
import tempfile, shutil, json
from annotypes import add_call_types
from malcolm.core import Process, Part
from malcolm.modules.builtin.controllers import ManagerController
from malcolm.modules.scanning import hooks as sh
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.parts import ScanRunnerPart
class Fussy(Part):
    def setup(self, registrar):
        super().setup(registrar)
        self.n = 0
        registrar.hook(sh.ValidateHook, self.on_validate)
        registrar.report(sh.ConfigureHook.create_info(self.on_configure))
        registrar.hook(sh.ConfigureHook, self.on_configure)
    @add_call_types
    def on_validate(self, fileDir: sh.AFileDir) -> None:
        self.n += 1
        assert self.n != 2, "not this one"
    @add_call_types
    def on_configure(self, fileDir: sh.AFileDir) -> None:
        pass
d = tempfile.mkdtemp()
try:
    p = Process("p"); p.start()
    c = RunnableController("SCAN", config_dir=d); c.add_part(Fussy("f")); p.add_controller(c)
    m = ManagerController("RUNNER", config_dir=d); m.add_part(ScanRunnerPart("r", "SCAN")); p.add_controller(m)
    line = dict(axes="x", units="mm", start=0, stop=1, size=2)
    with open(d + "/f.yaml", "w") as f:
        json.dump([dict(scan=dict(name="a", repeats=3, generator=dict(generators=[dict(line=line)], duration=0.1)))], f)
    b = p.block_view("RUNNER")
    b.scanFile.put_value(d + "/f.yaml"); b.outputDirectory.put_value(d)
    b.loadFile()
    b.run()
    got = (b.scanSuccesses.value, b.scanFailures.value, b.runnerState.value)
    assert got == (2, 1, "Finished"), got
finally:
    shutil.rmtree(d)
os._exit(0)
"""),
]
