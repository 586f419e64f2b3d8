SEEDS = [
dict(id="s01", property="P01",
 edits=[("malcolm/core/notifier.py", """            if (
                not child.children
                and not child.update_requests
                and not child.delta_requests
            ):
                del self.children[name]""", """            if not child.children and not child.update_requests:
                del self.children[name]""")],
 needs="a delta and an update subscription to the same path, the update one being removed",
 breaks="removing one subscription silently stops the other subscription to the same path",
 demo="""
from malcolm.core import Controller, Process, Part, StringMeta, Subscribe, Unsubscribe
attr = StringMeta("d").create_attribute_model("a")
class P1(Part):
    def setup(self, registrar):
        registrar.add_attribute_model("f", attr)
p = Process("p"); c = Controller("b"); c.add_part(P1("x")); p.start(); p.add_controller(c)
got = []
inner = Subscribe(id=1, path=["b", "f", "value"], delta=True); inner.set_callback(got.append)
c.handle_request(inner).wait(10)
other = Subscribe(id=2, path=["b", "f", "value"]); other.set_callback(lambda r: None)
c.handle_request(other).wait(10)
u = Unsubscribe(id=2); u.set_callback(other.callback)
c.handle_request(u).wait(10)
attr.set_value("new")
assert [list(r.changes[0]) for r in got] == [[[], "a"], [[], "new"]], got
os._exit(0)
"""),
dict(id="s02", property="P01",
 edits=[("malcolm/core/notifier.py", """            if child_data is None:
                # Deletion""", """            if child_data is None or child_data == "":
                # Deletion""")],
 needs="a delta subscription inside a field, and the whole field being replaced by one with an empty string value",
 breaks="the delta subscriber is told that the leaf was deleted",
 demo="""
from malcolm.core import Controller, Process, Part, StringMeta, Subscribe
attr = StringMeta("d").create_attribute_model("a")
class P1(Part):
    def setup(self, registrar):
        registrar.add_attribute_model("f", attr)
p = Process("p"); c = Controller("b"); c.add_part(P1("x")); p.start(); p.add_controller(c)
got = []
s = Subscribe(id=1, path=["b", "f", "value"], delta=True); s.set_callback(got.append)
c.handle_request(s).wait(10)
c.add_block_field("f", StringMeta("d").create_attribute_model(""), None, False)
assert len(got) == 2 and list(map(list, got[1].changes)) == [[[], ""]], got
os._exit(0)
"""),
dict(id="s03", property="P07",
 edits=[("malcolm/core/controller.py", """                    present=[x for x in method.meta.takes.elements if x in took_value],""",
 """                    present=[
                        x for x in method.meta.takes.elements if took_value.get(x)
                    ],""")],
 needs="a method called with an argument that is false, zero or empty",
 breaks="the log of the call says the argument was not supplied",
 demo="""
from annotypes import Anno, add_call_types
from malcolm.core import Controller, Process, Part
with Anno("x"):
    AX = int
class P1(Part):
    def setup(self, registrar):
        registrar.add_method_model(self.go, "go")
    @add_call_types
    def go(self, x: AX = 3) -> None:
        pass
p = Process("p"); c = Controller("b"); c.add_part(P1("x")); p.start(); p.add_controller(c)
b = p.block_view("b")
b.go(x=0)
assert list(b.go.took.present) == ["x"], b.go.took.present
os._exit(0)
"""),
dict(id="s04", property="P03",
 edits=[("malcolm/core/controller.py", """        assert isinstance(
            attribute, AttributeModel
        ), f"Cannot Put to {attribute.path} which is a {type(attribute)}"
        self.check_field_writeable(attribute)

        put_function = self.get_put_function(attribute_name)
        value = attribute.meta.validate(request.value)
""", """        assert isinstance(
            attribute, AttributeModel
        ), f"Cannot Put to {attribute.path} which is a {type(attribute)}"

        put_function = self.get_put_function(attribute_name)
        value = attribute.meta.validate(request.value)
        unchanged = request.get and isinstance(value, str) and value == attribute.value
        if not unchanged:
            self.check_field_writeable(attribute)
""")],
 needs="a Put that asks for the value back, of the value the read-only attribute already has",
 breaks="the write reaches the device although the field is not writeable",
 demo="""
from malcolm.core import Controller, Process, Part, StringMeta, Put
attr = StringMeta("d").create_attribute_model("a")
calls = []
class P1(Part):
    def setup(self, registrar):
        registrar.add_attribute_model("f", attr, calls.append)
p = Process("p"); c = Controller("b"); c.add_part(P1("x")); p.start(); p.add_controller(c)
attr.meta.set_writeable(False)
r = Put(id=1, path=["b", "f", "value"], value="a", get=True); r.set_callback(lambda r: None)
c.handle_request(r).wait(10)
assert calls == [], calls
os._exit(0)
"""),
]
