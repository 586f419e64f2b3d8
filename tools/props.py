NOTES = ("Every check is `./check.sh <id>`; `--tier thorough` raises the number "
         "of cases, `--seed N` changes the seed (default VERIF_SEED), `--replay "
         "FILE` reruns a saved case.")
NOT_APPLICABLE = {}
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, observe,
      technique, note, state=()):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why,
        files=files, mechanism=mechanism, observe=observe, technique=technique,
        note=note, state=list(state)))


P("P01", "A subscriber's view always equals what a Get would return",
  "Whatever sequence of changes a block goes through, replaying the messages of "
  "any live subscription (full updates or deltas, to the block or to any path "
  "inside it) gives exactly the tree that a Get of that path returns once the "
  "change has been published. A group of changes made together is seen as one "
  "step, so no message shows a half-applied group, and a message already "
  "delivered never changes afterwards. A subscription that has been removed "
  "receives nothing more, and the other subscriptions are unaffected.",
  ["histories", "inputs"],
  "every block structure, every sequence of subscribe / unsubscribe / change "
  "batches (values, alarms, metadata, fields added, replaced and removed, table "
  "columns) and every subscribed path",
  "The tests subscribe to one path and make one or two changes; the guarantee is "
  "over all interleavings of several subscriptions with grouped changes of "
  "nested and replaced elements.",
  ["malcolm/core/notifier.py", "malcolm/core/models.py",
   "malcolm/core/controller.py"],
  [("Notifier / NotifierNode / NotifierSquasher", "malcolm/core/notifier.py"),
   ("Model.set_endpoint_data, apply_change, set_notifier_path",
    "malcolm/core/models.py")],
  ["Update / Delta messages", "Get response"],
  "stateful model-based testing: delta replay vs Get",
  "Subscribed paths are ones a Get accepts; scheduling is cooperative "
  "(cothread), preemption only at yield points.",
  [("tree of notifier nodes", "which requests watch which paths",
    "malcolm/core/notifier.py")])

P("P02", "Every request gets exactly one correct final answer",
  "Each Get, Put, Post, Subscribe or Unsubscribe is answered to its sender "
  "exactly once, carrying the request's own id: with the result if it succeeded, "
  "or with an error describing what went wrong if the path does not exist, the "
  "arguments are unusable, the field is read-only or the device code raised. "
  "A request that blocks in device code does not delay or change the answer to "
  "any other request, and nothing is answered before its work has finished.",
  ["histories", "inputs", "schedules"],
  "every sequence of valid and invalid requests to a block, with any of them "
  "blocking in device code and being released in any order",
  "The tests send single requests that mostly succeed; missing, doubled or mixed "
  "up answers need histories with failing and blocked requests outstanding.",
  ["malcolm/core/controller.py", "malcolm/core/request.py",
   "malcolm/core/response.py", "malcolm/core/notifier.py"],
  [("Controller.handle_request / _handle_request", "malcolm/core/controller.py"),
   ("Request.return_response / error_response", "malcolm/core/request.py")],
  ["response callback of each request"],
  "stateful model-based testing of request histories",
  "Cooperative scheduling; blocked device code is released by the harness.")

P("P03", "Writes reach the device exactly once, and only when allowed",
  "A Put or Post on a field that is not writeable at that moment, on something "
  "that is not a writeable field, or with a value that does not fit, is refused "
  "and has no effect at all on the device or the block. An accepted Put calls the "
  "device exactly once with the value converted to the declared type, leaves the "
  "attribute at what the device reports, and returns a value only when one was "
  "asked for.",
  ["histories", "inputs", "schedules"],
  "every history of writes with valid and invalid values while fields switch "
  "between writeable and read-only and while other writes are blocked",
  "Each test writes one field in one fixed state; protection must hold for every "
  "mix of writeable states, value kinds and outstanding writes.",
  ["malcolm/core/controller.py", "malcolm/core/models.py"],
  [("Controller.check_field_writeable, _handle_put, _handle_post",
    "malcolm/core/controller.py")],
  ["calls made on the device code", "attribute values by Get", "Put response"],
  "stateful model-based testing with a recording device",
  "Cooperative scheduling.")

P("P04", "Attribute values always conform to their declared type",
  "Whatever value is written, an attribute (boolean, string, choice, number, "
  "array or table) afterwards holds a value of its declared type that equals the "
  "written one under the documented conversion, or the write is rejected and the "
  "old value stays. Accepting an already accepted value changes nothing, and the "
  "value a client sees on the wire converts back to the same value.",
  ["inputs"],
  "every attribute type and element type, and every value of any shape that JSON "
  "or Python callers can pass (numbers, strings, lists, dictionaries, tables, "
  "None, out of range choices)",
  "The tests check a handful of conversions per type; silent truncation, wrong "
  "element types or shape mix-ups need odd combinations of type and value.",
  ["malcolm/core/models.py", "malcolm/core/table.py"],
  [("VMeta.validate of each meta type", "malcolm/core/models.py"),
   ("TableMeta.validate, Table.validate_column_lengths",
    "malcolm/core/models.py, malcolm/core/table.py")],
  ["AttributeModel value", "JSON wire value"],
  "property-based testing against a reference conversion model",
  "Integers outside the range of an integer element type are not generated as "
  "valid input (numpy wraps them).")

P("P07", "Methods run with exactly the validated arguments and log the call",
  "A method call runs the device code exactly once with each supplied argument "
  "converted to its declared type and each omitted optional argument at its "
  "default; a missing required, unknown or unusable argument is refused without "
  "running it or touching its log. Afterwards the method's log shows which "
  "arguments were supplied and with what values, and the values returned or the "
  "error raised.",
  ["histories", "inputs"],
  "every subset and order of good and bad arguments for methods with required, "
  "optional, array and structured parameters, in any history of calls including "
  "failing and blocking ones",
  "The tests call methods with complete valid arguments; the combinations of "
  "omitted, extra and unconvertible arguments with previous calls are not covered.",
  ["malcolm/core/models.py", "malcolm/core/controller.py",
   "malcolm/core/part.py"],
  [("MethodMeta / MapMeta validate, call parameter handling",
    "malcolm/core/models.py, malcolm/core/controller.py"),
   ("MethodLog took/returned", "malcolm/core/models.py")],
  ["recorded calls of the device code", "took and returned of the method"],
  "stateful model-based testing of method calls",
  "Cooperative scheduling.")

P("P08", "Asynchronous operations resolve once, with their own outcome",
  "Every asynchronous write, call, subscription or wait-for-value started "
  "through a client context resolves exactly once with its own result or error, "
  "whatever order responses arrive in. A wait ends exactly when everything it "
  "waits for has resolved, one of them failed, a bad value was seen, the context "
  "was stopped or the time is up, and never otherwise; callbacks see every update "
  "of their subscription in order, even if they wait on the same context "
  "themselves. A stop requested before an ignore-stops point has no effect after "
  "it.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of asynchronous operations, device responses (in any order, "
  "successful or failing), value changes, stops and (nested) waits on one context",
  "The tests wait on one or two futures in a fixed order; lost wake-ups, wrongly "
  "attributed results and swallowed stops need particular response orders.",
  ["malcolm/core/context.py", "malcolm/core/future.py", "malcolm/core/views.py"],
  [("Context.wait_all_futures, _service_futures, When",
    "malcolm/core/context.py"), ("Future", "malcolm/core/future.py")],
  ["future results", "exceptions of waits", "subscription callbacks"],
  "stateful model-based testing against a FIFO queue model",
  "Waits use zero timeouts or a cothread the harness releases, so no wall-clock "
  "dependence.",
  [("queue of responses and stops", "what the context still has to service",
    "malcolm/core/context.py")])

P("P09", "Hooks run every part once and stop the others when one fails",
  "Running a hook calls each hooked part exactly once with the arguments it asked "
  "for, concurrently, and finishes only when all of them have finished. If all "
  "succeed the result holds what each part returned under its name in part order; "
  "if one fails, every part still waiting on its context is stopped and the first "
  "failure is what the caller sees. A stop from an earlier operation does not "
  "affect a later hook.",
  ["schedules", "fault_sequences", "configurations"],
  "every set of parts that return, fail, abort or block, released in any order",
  "The tests use one or two parts that succeed or fail at once; ordering of "
  "failures and blocked parts is not explored.",
  ["malcolm/core/hook.py", "malcolm/core/controller.py", "malcolm/core/info.py",
   "malcolm/modules/builtin/hooks.py"],
  [("start_hooks / wait_hooks / Hook._run", "malcolm/core/hook.py"),
   ("ControllerHook.prepare / stop", "malcolm/modules/builtin/hooks.py")],
  ["result of running the hook", "calls made on the parts"],
  "generated fault and release schedules against a reference model",
  "Parts obey a stop of their context within the abort timeout.")

P("P10", "Process start, publish and stop treat every controller once",
  "Starting a process or adding controllers to it starts each controller exactly "
  "once and then tells every interested controller the complete list of published "
  "blocks: each block once, hidden ones left out, top level blocks before children; "
  "one controller failing affects none of the others. Stopping gives each "
  "controller its chance to clean up once, returns only after all spawned work has "
  "finished, and leaves an empty process that can be started again.",
  ["histories", "configurations", "fault_sequences"],
  "every order of adding controllers before and after the start, every parent-child "
  "graph, failing or slow start, publish and stop code, and spawned work",
  "The tests cover one or two controllers without failures.",
  ["malcolm/core/process.py", "malcolm/core/concurrency.py",
   "malcolm/core/hook.py"],
  [("Process.start / stop / add_controllers / _publish_controllers / spawn",
    "malcolm/core/process.py"), ("Spawned", "malcolm/core/concurrency.py")],
  ["calls made on the controllers", "published lists", "results of spawned work"],
  "stateful model-based testing of process histories",
  "Acyclic parent-child graphs.")

P("P11", "Blocks only make documented state changes and guard their fields",
  "A block is always in exactly one documented state and moves only along the "
  "documented transitions; any other change is refused and leaves it where it was. "
  "In each state exactly the fields documented for it are writeable, the state's "
  "alarm and the block's health say when it is disabled or in fault and why, and a "
  "failing reset or disable ends in Fault with the reason while a successful one "
  "ends in Ready or Disabled.",
  ["histories", "fault_sequences", "schedules"],
  "every history of reset and disable requests with part code that succeeds, fails "
  "or blocks, and every walk over requested transitions in the three state sets",
  "The tests walk one path through the states; the guarantee is about all pairs of "
  "states, all fields and overlapping operations.",
  ["malcolm/core/stateset.py", "malcolm/modules/builtin/util.py",
   "malcolm/modules/scanning/util.py",
   "malcolm/modules/builtin/controllers/statefulcontroller.py"],
  [("StateSet.set_allowed / transition_allowed", "malcolm/core/stateset.py"),
   ("StatefulController.transition / set_writeable_in / try_stateful_function",
    "malcolm/modules/builtin/controllers/statefulcontroller.py")],
  ["every published snapshot of the block", "answers to reset and disable"],
  "stateful model-based testing against the documented state tables",
  "A disable that overlaps a running reset may end in Fault.",
  [("state", "current state of the block",
    "malcolm/modules/builtin/controllers/statefulcontroller.py")])

P("P12", "Block health is the worst fault currently reported",
  "The health of a block always shows an alarm of the highest severity among those "
  "currently reported by its parts and by the block itself, with its message as the "
  "value, and shows OK exactly when nobody reports an alarm; a part that reports "
  "again replaces what it reported before.",
  ["histories"],
  "every sequence of alarm reports by several parts, mixed with disable and reset",
  "The tests report one or two alarms; clearing, replacing and ties need longer "
  "histories.",
  ["malcolm/modules/builtin/controllers/basiccontroller.py",
   "malcolm/modules/builtin/infos.py", "malcolm/core/part.py"],
  [("BasicController.update_health",
    "malcolm/modules/builtin/controllers/basiccontroller.py")],
  ["health attribute of the block"],
  "stateful model-based testing",
  "Ties may be shown either way.")

P("P15", "A scan does every step once and always ends where it should",
  "A scan configures, runs, pauses, seeks, resumes, aborts, resets and disables as "
  "documented: every part sees each phase once, in order, and never while another "
  "part is still in the phase before; the pieces handed to the parts follow "
  "axesToMove and the breakpoints and cover each step of the generator exactly once, "
  "starting again from where a pause or seek asks. completedSteps never exceeds "
  "configuredSteps nor that totalSteps, never falls during a run and is the progress "
  "of the slowest reporting part. run is answered only when its piece is done, and "
  "an abort, disable or fault at any moment stops what is running, answers it with an "
  "error and leaves the block Aborted, Disabled or Fault, from where it can be used "
  "again.",
  ["histories", "schedules", "fault_sequences"],
  "every generator shape, axesToMove and breakpoints, every history of requests, "
  "every point at which parts fail or block, and requests racing with each other",
  "The tests run a handful of fixed histories with one or two parts and never have "
  "requests overlap.",
  ["malcolm/modules/scanning/controllers/runnablecontroller.py",
   "malcolm/modules/scanning/hooks.py", "malcolm/modules/scanning/util.py",
   "malcolm/core/hook.py"],
  [("RunnableController.configure / run / pause / resume / abort",
    "malcolm/modules/scanning/controllers/runnablecontroller.py"),
   ("get_steps_per_run / do_pause / get_breakpoint_index",
    "malcolm/modules/scanning/controllers/runnablecontroller.py")],
  ["requests' answers", "published snapshots", "hooks called on the parts"],
  "stateful model-based testing with fault injection and request races",
  "Parts obey a stop of their context; progress of parts that have not reported "
  "since the last seek is only bounded; a second disable during a disable or reset "
  "is not raced.",
  [("completedSteps, configuredSteps, totalSteps", "progress of the scan",
    "malcolm/modules/scanning/controllers/runnablecontroller.py")])


P("P13", "Loading a design restores exactly what was saved, and modified tells the truth",
  "Saving a design writes down the layout, the exports and every config attribute of "
  "the manager's children and of its own parts without changing any of them; loading "
  "it later, at any time, after any changes, also in a new process, puts exactly "
  "those values back, in the order of their config iterations, writes to each "
  "attribute that differs once, and leaves everything else alone. modified is set "
  "if and only if something differs from the design last saved or loaded, and its "
  "alarm message names what differs. A design that does not exist or a template "
  "that may not be overwritten is refused with nothing changed. The choices of the "
  "design attribute are always the designs that exist, and a manager whose child is "
  "itself a manager restores the child's design.",
  ["histories", "inputs", "crash_points"],
  "every set of children and attribute types, every history of changes, saves, "
  "loads, failed loads and restarts",
  "The tests save one design with one string or number attribute; round trips of "
  "arrays, tables, enums and of histories over several designs are not sampled.",
  ["malcolm/modules/builtin/controllers/managercontroller.py",
   "malcolm/modules/builtin/parts/childpart.py",
   "malcolm/modules/builtin/util.py"],
  [("ManagerController.save / set_design / update_modified / do_load / do_save",
    "malcolm/modules/builtin/controllers/managercontroller.py"),
   ("ChildPart.on_load / on_save / send_modified_info_if_not_equal / "
    "put_import_export",
    "malcolm/modules/builtin/parts/childpart.py")],
  ["design, modified, layout, exports and child attributes",
   "puts received by the children"],
  "stateful model-based testing with round-trip oracle",
  "Attributes keep what they are given; no field is exported twice; attributes "
  "without a saved value are not judged.",
  [("saved_* of ManagerController and ChildPart", "what the design holds",
    "malcolm/modules/builtin/controllers/managercontroller.py")])

P("P14", "An exported field is the child's field, and hiding a child cuts its connections",
  "At every moment a manager has exactly the fields named in its exports whose child "
  "and source field are there and visible, in that order, next to its own: "
  "each shows the same value, alarm and time stamp as the child's field, and a Put "
  "or Post to it has the effect and the answer of one to the child. Exports with "
  "unusable names are refused. The layout lists every child once with the positions "
  "and visibility that were put; hiding a child disconnects exactly the sink ports "
  "wired to its source ports, and no others. The exportable sources are exactly the "
  "fields that the visible children have.",
  ["histories", "inputs"],
  "every set of children, every history of export and layout changes, changes of "
  "the children's values and fields, connections and requests through the exports",
  "The tests export a single attribute once; replaced exports, changing children, "
  "methods with arguments and several connected children are not sampled.",
  ["malcolm/modules/builtin/controllers/managercontroller.py",
   "malcolm/modules/builtin/parts/childpart.py",
   "malcolm/modules/builtin/util.py"],
  [("ManagerController.set_exports / set_layout / _make_export_field",
    "malcolm/modules/builtin/controllers/managercontroller.py"),
   ("ChildPart.update_part_exportable / on_layout / sever_inports_connected_to",
    "malcolm/modules/builtin/parts/childpart.py")],
  ["Get of the manager block", "requests received by the children"],
  "stateful model-based testing",
  "Layouts are put as whole tables; the writeable flag of exports is not judged.",
  [("exported fields", "which child field each stands for",
    "malcolm/modules/builtin/controllers/managercontroller.py")])

P("P05", "Tables and objects mean the same by rows, by columns and after the wire",
  "A table gives back exactly the rows and columns it was made from, however it was "
  "made and whichever way it is read; two tables are equal if and only if they have "
  "the same columns and the same rows; columns of different lengths are noticed. "
  "Every attribute, method, metadata object, alarm, time stamp, request and response "
  "that is sent as JSON and read back is an equal object of the same type that "
  "accepts and rejects the same values.",
  ["inputs"],
  "every column type and set of rows, every meta, value and message",
  "The tests serialize one example of each class, and compare tables that are the "
  "same length.",
  ["malcolm/core/table.py", "malcolm/core/models.py", "malcolm/core/alarm.py",
   "malcolm/core/timestamp.py", "malcolm/core/request.py",
   "malcolm/core/response.py"],
  [("Table.from_rows / rows / __getitem__ / __eq__", "malcolm/core/table.py"),
   ("TableMeta / MapMeta / MethodMeta from_dict and to_dict",
    "malcolm/core/models.py")],
  ["rows, columns, equality", "JSON form of objects and messages"],
  "property-based round-trip testing against a row model",
  "NaN is not generated; the typeid registry itself is in annotypes.")

P("P16", "configure only starts with parameters every part has agreed to",
  "configure and validate take exactly the parameters that the parts ask for at that "
  "moment, with their types, defaults (rows of tables from several parts together) "
  "and which are required. A request with unknown, missing or unusable parameters is "
  "refused before any part is asked. Otherwise the parts are shown the parameters "
  "until none of them wants a change: the answer holds the values all of them "
  "accepted, every value no part objected to is as given or its default, the "
  "duration is the longest any of them needs, and every part is configured once, "
  "with exactly those values. If a part refuses, or they never agree, the request "
  "fails with an error, no part is configured and the block stays as it was. "
  "validate has no effect on the block in any case.",
  ["inputs", "histories"],
  "every set of parts and parameters they ask for, every way they change or refuse "
  "values, and every request",
  "The tests have one or two parts with one tweak; parts that ask for different "
  "things over time and chains of changes are not sampled.",
  ["malcolm/modules/scanning/controllers/runnablecontroller.py",
   "malcolm/modules/scanning/util.py", "malcolm/modules/scanning/hooks.py"],
  [("RunnableController.validate / update_configure_params / update_configure_model",
    "malcolm/modules/scanning/controllers/runnablecontroller.py"),
   ("resolve_generator_tweaks, ConfigureParams", "malcolm/modules/scanning/util.py")],
  ["method metadata, answers", "arguments seen by the parts"],
  "stateful model-based testing with a fixed-point oracle",
  "Parts agree on the type of a parameter; chains that need more than 9 rounds are "
  "not judged.")

P("P17", "Every detector of a scan gets frames, exposure and files that fit the steps",
  "Each enabled row of the detectors table has its detector configured once with the "
  "scan multiplied out by framesPerStep: that many frames at every step, in order, "
  "each with that share of the step's duration, named after the detector; detectors "
  "that are disabled or not in the table are left alone and their row says so. "
  "Values left at 0 are worked out: the duration is what the slowest detector needs, "
  "the exposure the longest that fits, and framesPerStep as many as fit. Given "
  "values are never changed. What cannot be done (exposure too long or too short, "
  "frames without a trigger multiplier, wrong block) is refused and no detector "
  "is configured. During runs, breakpoints, pauses and seeks the detectors stay in "
  "step with the scan, completedSteps is the number of steps for which every "
  "detector has all its frames, and the datasets table lists what the enabled "
  "detectors produce.",
  ["inputs", "histories"],
  "every set of detectors (readout, accuracy, minimum exposure, multipliers), table, "
  "duration, breakpoints and history of runs and seeks",
  "The tests use two fixed detectors with one frame per step in nearly all cases and "
  "never seek or break a multi-frame scan.",
  ["malcolm/modules/scanning/parts/detectorchildpart.py",
   "malcolm/modules/scanning/parts/exposuredeadtimepart.py",
   "malcolm/modules/scanning/infos.py",
   "malcolm/modules/scanning/parts/datasettablepart.py"],
  [("DetectorChildPart.on_validate / _configure_args / on_seek",
    "malcolm/modules/scanning/parts/detectorchildpart.py"),
   ("ExposureDeadtimeInfo", "malcolm/modules/scanning/infos.py"),
   ("ExposureDeadtimePart.on_validate",
    "malcolm/modules/scanning/parts/exposuredeadtimepart.py")],
  ["answers of validate and configure", "what the detectors were configured with",
   "steps of scan and detectors"],
  "property-based testing of whole scans against an arithmetic model",
  "The fastest axis is moved inside the scan and not snaked with several frames per "
  "step; a duration too short for the minimum exposure is accepted with the minimum "
  "exposure, as an existing test demands; results decided by rounding are skipped.")

P("P18", "A web client is served exactly like one inside the process",
  "A client of the websocket sees what an in-process client of the same blocks would "
  "see: every request that can be read is answered with its own id and the same "
  "result, error or sequence of updates, in order, and each client only gets the "
  "answers to its own requests. A message that cannot be understood is answered with "
  "an error and leaves the connection, the other clients and the blocks as they "
  "were. With subnet validation, Put and Post from an address outside the subnets of "
  "the host's interfaces are refused with an error and change nothing, while Get and "
  "Subscribe still work. A REST GET or POST returns the same value or error message. "
  "When a client goes away its subscriptions end and nobody else notices.",
  ["histories", "inputs"],
  "every sequence of valid, invalid and malformed messages from several websocket and "
  "REST clients at several addresses, with clients leaving and blocks changing",
  "The tests exchange a handful of fixed messages with one client on one address.",
  ["malcolm/modules/web/parts/websocketserverpart.py",
   "malcolm/modules/web/parts/restfulserverpart.py",
   "malcolm/modules/web/controllers/httpservercomms.py"],
  [("MalcWebSocketHandler.on_message / on_response",
    "malcolm/modules/web/parts/websocketserverpart.py"),
   ("RestfulHandler", "malcolm/modules/web/parts/restfulserverpart.py"),
   ("HTTPServerComms", "malcolm/modules/web/controllers/httpservercomms.py")],
  ["messages received by the clients", "values of the blocks"],
  "stateful differential testing over real sockets: web clients vs in-process twin",
  "Ids are not used again by a client, as the documentation demands; requests sent in "
  "a burst contain at most one write; time stamps and log texts are not compared.")

P("P19", "A proxy block mirrors the remote block and passes requests through",
  "Once a proxy has connected, its fields, values, alarms and metadata (including "
  "fields and table columns that change, appear and disappear later) are those of "
  "the remote block as soon as the update has travelled, and its subscribers see "
  "those changes. A put or a method call on the proxy happens once on the remote "
  "block with the same arguments, and its result or refusal comes back to the "
  "caller it belongs to, whatever else is outstanding. When the connection is lost, "
  "the client comms goes to Fault and every caller gets an error instead of waiting "
  "for ever; after a reset requests work again.",
  ["histories", "inputs", "faults"],
  "every block structure and sequence of changes, every sequence of requests, and "
  "every point at which the connection is cut",
  "The tests use one Hello and one counter block, never cut the connection and never "
  "change the structure of the remote block.",
  ["malcolm/modules/web/controllers/websocketclientcomms.py",
   "malcolm/modules/builtin/controllers/proxycontroller.py",
   "malcolm/core/models.py"],
  [("WebsocketClientComms.on_message / sync_proxy / _handle_change",
    "malcolm/modules/web/controllers/websocketclientcomms.py"),
   ("ProxyController", "malcolm/modules/builtin/controllers/proxycontroller.py"),
   ("BlockModel / NTTable.apply_change", "malcolm/core/models.py")],
  ["fields of the proxy block", "answers", "calls that reach the device"],
  "stateful differential testing over real sockets with an injected connection loss",
  "A proxy is not synchronised again after a reconnect (the code does not claim to); "
  "of a refused request only that it is an error is compared.")

P("P24", "Double-buffered sequencers play exactly the pulses asked for",
  "Whatever rows a scan adds (any repeat count, trigger, position, width), the two "
  "sequencers of a double-buffered PandA together play exactly those pulses, in "
  "order, none lost, doubled or stretched, and stop in the endless last row: no "
  "table has more rows than fit, only the very last row repeats for ever, the "
  "allowance for the hand-over is taken from a single last repeat, a sequencer is "
  "only loaded while it is inactive, exactly once each time it finishes, and tables "
  "that are followed by another last the minimum duration. Stopping at any time and "
  "configuring again starts afresh.",
  ["inputs", "histories"],
  "every list of row groups and every number of tables, with stops in between",
  "The tests use a few fixed row lists and never a repeat count that is a multiple of "
  "what one row holds, nor play more than a few tables.",
  ["malcolm/modules/ADPandABlocks/doublebuffer.py",
   "malcolm/modules/ADPandABlocks/util.py"],
  [("SequencerRows.add_seq_entry / split / extend",
    "malcolm/modules/ADPandABlocks/doublebuffer.py"),
   ("DoubleBuffer", "malcolm/modules/ADPandABlocks/doublebuffer.py")],
  ["tables loaded into the sequencers"],
  "property-based testing: simulated sequencers vs the list of pulses asked for",
  "The sequencers hand over to each other as in the PandA design; the last rows are "
  "the endless row that the users of the class add.")

P("P27", "The motion controller plays a trajectory that visits every point of the scan",
  "For any scan (lines, snakes, curves, lists of points, delays, step or continuous), "
  "motors, triggers and piece of the scan, the trajectory that PmacChildPart writes, "
  "in however many pieces, passes the lower bound, the position and the upper bound "
  "of every point at the right time with the right trigger program; rows and "
  "turnarounds join without a jump in position or velocity, stay below the maximum "
  "velocity, last at least the delay asked for and keep within the controller's "
  "longest move; the run up starts within the limits and every axis is up to speed "
  "at the first point; the tail off stops the axes; no position is ever NaN; the "
  "progress reported is that of the point being played; it never starves and never "
  "writes more points than fit; stopping at any point and configuring again starts "
  "afresh. A scan that can't be done is refused. validate() only changes the "
  "duration, to one the motors can do and that is aligned with the servo cycles.",
  ["inputs", "histories"],
  "every generator, motor setting, trigger, batch size and place to stop",
  "The tests compare a handful of generators on two identical motors with recorded "
  "numbers, which included turnarounds that jump in velocity.",
  ["malcolm/modules/pmac/parts/pmacchildpart.py", "malcolm/modules/pmac/util.py",
   "malcolm/modules/pmac/infos.py",
   "malcolm/modules/pmac/parts/pmactrajectorypart.py",
   "malcolm/modules/pmac/parts/cspart.py"],
  [("PmacChildPart.on_configure / update_step / on_validate",
    "malcolm/modules/pmac/parts/pmacchildpart.py"),
   ("profile_between_points / all_points_joined", "malcolm/modules/pmac/util.py"),
   ("PmacTrajectoryPart.write_profile",
    "malcolm/modules/pmac/parts/pmactrajectorypart.py")],
  ["profile points written", "moves to the start", "progress reports", "tweaks"],
  "property-based testing: a simulated trajectory program vs the points of the "
  "generator",
  "Velocities follow from the modes as in the PMAC; the ramps come from another "
  "package (velocity_profile) and are taken as given; axes with a velocity settle "
  "time are a known finding and not generated; sparse rows may cut corners by as much "
  "as a point is off the middle of its bounds.")

P("P25", "A PandA opens exactly one gate per point of the scan, at the right time",
  "For any scan, row trigger (position compare, motion controller, none), wiring, "
  "scaling of the axes and piece of the scan, the rows given to the sequencers hold "
  "exactly one live gate per point, in order, as long as the duration of the point. "
  "The first point of each row waits for the trigger: the axis that moves most among "
  "those wired, compared with the start of the row in counts and in the direction of "
  "motion, or the gate of the motion controller; all other points follow "
  "immediately. Every row is preceded by a dead pulse, a compare is only looked at "
  "while its axis is on the run up to the row, and the last point is followed by the "
  "dead endless row. Sequencers are enabled when the motors are at the start, and "
  "are reset by every abort and at the end. Wrong wiring is refused.",
  ["inputs", "histories"],
  "every generator, wiring, scale, trigger, batch size and place to stop or seek",
  "The tests check a handful of scans with two axes; which axis is compared, when "
  "blind times start and where batches join depends on the whole scan.",
  ["malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py",
   "malcolm/modules/ADPandABlocks/util.py", "malcolm/modules/pmac/util.py"],
  [("PandASeqTriggerPart.on_configure / on_run / rows_generator",
    "malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py")],
  ["rows handed to the sequencers", "enable / reset of the sequencers"],
  "property-based testing: expanded sequencer rows vs the points of the generator",
  "The turnaround between two rows is the one of P27's profiles, taken as what the "
  "motion controller does; positions are compared as levels; a blind pulse of no "
  "length is not judged.")

P("P22", "Each PandA request gets its own reply, however the replies arrive",
  "Any number of users may share one PandA client: each gets the reply to its own "
  "request (the value, the lines, or an error if the PandA refused), whatever else is "
  "outstanding, has failed or was given up on, and however the replies are cut up by "
  "the network. What the client says about blocks, fields, enums, table columns, bits "
  "and changes is what the PandA said, in the right order; fields and tables are set "
  "to exactly what was given, and a refusal of one of several is reported. Stopping "
  "and starting again forgets replies that were on their way.",
  ["inputs", "histories", "schedules"],
  "every description of a PandA, every mix of concurrent requests, and every way to "
  "cut up the replies",
  "The tests feed canned replies, one request at a time.",
  ["malcolm/modules/pandablocks/pandablocksclient.py"],
  [("PandABlocksClient._send_loop / _recv_loop / _get_lines",
    "malcolm/modules/pandablocks/pandablocksclient.py"),
   ("get_blocks_data / get_changes / get_table_fields / set_fields / set_table",
    "malcolm/modules/pandablocks/pandablocksclient.py")],
  ["results of the client's methods", "state of the PandA"],
  "stateful model-based testing with a simulated PandA and generated packet boundaries",
  "Requests outstanding when the client is stopped are not answered (the code does not "
  "claim to).")

P("P23", "Tables of a PandA hold exactly the values that were put",
  "For any layout of columns within the 32 bit words of a row (numbers of any width, "
  "signed or not, booleans, enums), putting a table writes each value to the bits of "
  "its column and nothing else, the rows in order; what the PandA then reports is "
  "shown as the same table, and any words the PandA has are shown as the values in "
  "their bits.",
  ["inputs"],
  "every column layout, every row",
  "The tests have one layout, in which no narrow number is shifted and no narrow "
  "column is signed.",
  ["malcolm/modules/pandablocks/parts/pandatablepart.py"],
  [("PandATablePart.list_from_table / table_from_list",
    "malcolm/modules/pandablocks/parts/pandatablepart.py")],
  ["words written to the PandA", "value of the table attribute"],
  "property-based testing: round trip and bit-by-bit reference packing",
  "A column lies within one word; an enum value beyond its labels is not generated.")

P("P29", "A pvAccess client or proxy sees the block as it is, and may ask the same of it",
  "A monitor of a block or a field over pvAccess ends up with what Get gives there, also "
  "across fields that come, go or change their type, and is told when the channel goes "
  "away. A proxy block through pvAccess has the same fields with the same content as "
  "the remote block once things are quiet, and says it is disconnected when the server "
  "is gone. A put or a call, through the proxy or by a plain client, is done exactly "
  "once with the given values and gives the result or the error the block itself gives, "
  "however long it takes; one that makes no sense is refused and changes nothing.",
  ["inputs", "histories", "schedules"],
  "every block, every order of changes, removals and requests, blocked ones included",
  "The tests serve two fixed blocks and follow a handful of fixed changes and calls.",
  ["malcolm/modules/pva/controllers/pvaservercomms.py",
   "malcolm/modules/pva/controllers/pvaclientcomms.py",
   "malcolm/modules/pva/controllers/pvaconvert.py",
   "malcolm/modules/builtin/controllers/proxycontroller.py"],
  [("BlockHandler.handle / put / rpc, PvaServerComms.makeChannel",
    "malcolm/modules/pva/controllers/pvaservercomms.py"),
   ("PvaClientComms.sync_proxy / send_put / send_post",
    "malcolm/modules/pva/controllers/pvaclientcomms.py"),
   ("update_path / convert_to_type_tuple_value",
    "malcolm/modules/pva/controllers/pvaconvert.py")],
  ["values monitors and Gets give", "calls the device saw", "answers of requests"],
  "stateful model-based and differential testing over real p4p on the loopback",
  "Monitors may skip values in between; p4p connects when it is tried again.")

P("P30", "The scan runner runs the scans of its file, each once, and says how they went",
  "Loading a scan file lists exactly the scans it describes, and one that is missing or "
  "broken is refused and makes the runner's state Fault, with nothing run. Run does every "
  "scan of every set as often as its repeats say, in the order of the file, each with the "
  "generator, the directory and the parameters of its set; the report and the counts of "
  "completed, failed and remaining scans say how each of them went. A scan that fails, is "
  "refused or is aborted at its block counts as failed and the next ones still run; "
  "aborting the runner stops the scan and runs no more. The runner's state is Running "
  "while it runs and never after.",
  ["inputs", "histories", "crash_points"],
  "every scan file, every outcome of each of its scans, abort at any time",
  "The tests mock the scan block, so no scan is ever refused, failing or aborted for real.",
  ["malcolm/modules/scanning/parts/scanrunnerpart.py"],
  [("ScanRunnerPart.loadFile / run / run_scan / abort",
    "malcolm/modules/scanning/parts/scanrunnerpart.py")],
  ["attributes of the runner", "scans the device saw", "report files", "answers of calls"],
  "stateful model-based testing with injected failures",
  "Sets have different names and runs into one directory are a second apart.")

P("P31", "A PandA in Malcolm is what the PandA is",
  "After each poll every child block of a PandA shows what the PandA has: the value "
  "and health of each field, labels, units, which block each mux is linked to, tables, "
  "and the rows of the bits and positions tables; a bit that pulses between two polls "
  "is seen to change. A put reaches the PandA as exactly the fields that were put, one "
  "the PandA refuses is reported as an error and changes nothing, and after a fault a "
  "reset brings all of it back and keeps it up to date.",
  ["inputs", "histories"],
  "every description of a PandA, every sequence of puts, changes in the PandA, polls, "
  "faults and resets",
  "The tests have one PandA, polled once or twice, and never reset one after a fault.",
  ["malcolm/modules/pandablocks/controllers/pandamanagercontroller.py",
   "malcolm/modules/pandablocks/controllers/pandablockcontroller.py",
   "malcolm/modules/pandablocks/parts"],
  [("PandAManagerController._poll_loop / handle_changes",
    "malcolm/modules/pandablocks/controllers/pandamanagercontroller.py"),
   ("PandABlockController.handle_changes",
    "malcolm/modules/pandablocks/controllers/pandablockcontroller.py"),
   ("PandABussesPart.handle_changes",
    "malcolm/modules/pandablocks/parts/pandabussespart.py"),
   ("PandAFieldPart / PandALabelPart / PandAMuxPart",
    "malcolm/modules/pandablocks/parts/pandafieldpart.py")],
  ["attributes of the child blocks", "bits and positions tables", "state of the PandA"],
  "stateful model-based testing with a simulated PandA",
  "The rows given in a partial bits table decide for their whole capture word; icons "
  "are not judged.")

P("P28", "Each frame of a camera ends up at its point of the scan",
  "However a scan with a camera is cut up, paused, rewound, aborted and configured "
  "again, when it is finished the file has, at the indexes of each point, a frame that "
  "was taken at that point, and completedSteps never runs ahead of the file. The file "
  "has the dimensions of the scan, the demand positions of each axis, and a dataset at "
  "every path that is published, each fed by an attribute that the driver or the "
  "statistics plugin was told to produce, all at the place that was asked for, on "
  "Windows too. A layout the writer rejects fails the configure, and reset leaves no "
  "temporary files behind.",
  ["inputs", "histories", "schedules"],
  "every scan, trigger mode, set of attributes and breakpoints, and every moment of a "
  "pause, seek or abort relative to the frames on their way to the file",
  "The tests look at the puts of each part on its own, never at where a frame ends up "
  "after a pause with frames in flight.",
  ["malcolm/modules/ADCore/parts/detectordriverpart.py",
   "malcolm/modules/ADCore/parts/positionlabellerpart.py",
   "malcolm/modules/ADCore/parts/hdfwriterpart.py",
   "malcolm/modules/ADCore/parts/statspluginpart.py",
   "malcolm/modules/ADCore/infos.py"],
  [("DetectorDriverPart.setup_detector / on_seek / on_post_run_armed",
    "malcolm/modules/ADCore/parts/detectordriverpart.py"),
   ("PositionLabellerPart.setup_plugin / load_more_positions",
    "malcolm/modules/ADCore/parts/positionlabellerpart.py"),
   ("HDFWriterPart.on_configure / on_seek / make_layout_xml / create_dataset_infos",
    "malcolm/modules/ADCore/parts/hdfwriterpart.py")],
  ["frames in the simulated file", "XML files", "datasets table", "completedSteps"],
  "stateful model-based testing with a simulated camera and plugin chain",
  "Frames taken before a stop have gone through the plugins when the camera says it is "
  "no longer acquiring.")

P("P21", "A YAML file makes exactly the blocks and parts it says",
  "Calling the creator made from a YAML file gives exactly the controllers it asks for, "
  "directly and through included files, children before parents, each with its parts in "
  "order, and every $(name) in any argument replaced by the parameter, default or "
  "define of that name in that file and nowhere else. Missing or unknown arguments are "
  "refused with the file and line of the call, and all block definitions that are "
  "shipped can be made.",
  ["inputs", "configurations"],
  "every nesting of files, parameters, defaults, defines and substitutions",
  "The tests load a few fixed files; names that hide each other, repeated use of one "
  "file and odd values are not covered, nor are some of the shipped files.",
  ["malcolm/yamlutil.py", "malcolm/modules/builtin/parameters.py",
   "malcolm/modules/builtin/defines.py"],
  [("make_block_creator / make_include_creator / Section.instantiate",
    "malcolm/yamlutil.py"),
   ("_create_defines / replace_substitutions", "malcolm/yamlutil.py")],
  ["controllers returned", "fields of the blocks", "error message"],
  "property-based testing against a reference expansion of generated file trees",
  "The value of a parameter does not itself contain $(...).")

P("P33", "Queues hand over every value once, and spawned functions their own outcome",
  "Every value put on a Queue is got exactly once, first in first out, by the getters in "
  "the order they came, and a get that has waited for its timeout raises TimeoutError "
  "and takes nothing. A spawned function is run once with its arguments, ready says "
  "whether it has ended, and wait and get come back when it has, get with exactly the "
  "object it returned or the exception it raised, whatever these are.",
  ["inputs", "schedules"],
  "every schedule of puts, gets and timeouts, every result and exception",
  "The tests put a value or two; order between waiting getters, timeouts in between and "
  "unusual results are not covered.",
  ["malcolm/core/concurrency.py", "malcolm/core/process.py"],
  [("Queue.get / put", "malcolm/core/concurrency.py"),
   ("Spawned.wait / ready / get", "malcolm/core/concurrency.py"),
   ("Process.spawn", "malcolm/core/process.py")],
  ["values got", "TimeoutError", "results of spawned functions"],
  "stateful property-based testing against a first in first out model",
  "Only one waits for a spawned function at a time, as it says; cothreads only.")

P("P34", "Shutters are open only while a scan runs, and guards and triggers do their part",
  "The attribute a part sets for a run (a shutter, say) has its run value whenever the "
  "scan runs, and its other value once the scan is paused, aborted, finished or reset; "
  "loading a design never sets it. A scan that moves axes that may not move together, that "
  "takes other than two frames where triggers are doubled, or for which a directory is "
  "not there is refused. Each detector triggered through a PandA gets, in each step, as "
  "many pulses as it takes frames, each as long as its exposure, evenly spread over the "
  "step and centred (or at the start, if asked to); a PandA that is not set up to make "
  "them, or an exposure as long as the step, is an error, and detectors that take no part "
  "have their pulses left alone.",
  ["inputs", "histories", "crash_points"],
  "every history of configures, runs, pauses, seeks, aborts, faults and resets, and every "
  "table of detectors",
  "The tests call single hooks of single parts with mocks.",
  ["malcolm/modules/scanning/parts", "malcolm/modules/ADPandABlocks/parts"],
  [("AttributePreRunPart.on_pre_run / on_reset",
    "malcolm/modules/scanning/parts/attributeprerunpart.py"),
   ("PandAPulseTriggerPart.on_configure / on_post_configure",
    "malcolm/modules/ADPandABlocks/parts/pandapulsetriggerpart.py"),
   ("DoubleTriggerPart.on_validate", "malcolm/modules/scanning/parts/doubletriggerpart.py"),
   ("SimultaneousAxesPart.on_validate",
    "malcolm/modules/scanning/parts/simultaneousaxespart.py"),
   ("DirectoryMonitorPart.check_directories",
    "malcolm/modules/scanning/parts/directorymonitorpart.py"),
   ("MinTurnaroundPart.on_report_status",
    "malcolm/modules/scanning/parts/minturnaroundpart.py")],
  ["value of the shutter at each step and in each state", "answers of configure",
   "attributes of PULSE blocks"],
  "stateful model-based testing with injected failures",
  "After a fault or a disable during a run the shutter is judged from the next reset on.")

P("P35", "A view of a block is the block",
  "What client code reads through a Block view, by attribute or by item, down to any "
  "depth and however long it has held the view, is what a Get of that path returns; "
  "names that do not exist raise and views cannot be set. put_value and "
  "put_attribute_values write each value once, sorted by name or in the order given, "
  "and raise if one is refused; calling a method by position or keyword runs it with "
  "exactly those arguments or is refused; when_value_matches comes back at the first "
  "good value, raises at the first bad one and times out otherwise; subscribe_value "
  "calls back with every value until unsubscribed.",
  ["inputs", "histories", "schedules"],
  "every path, argument list, and order of changes, writes and waits",
  "The tests call the views with mock contexts for a few paths.",
  ["malcolm/core/views.py", "malcolm/core/context.py", "malcolm/core/controller.py"],
  [("View / Attribute / Method / Block", "malcolm/core/views.py"),
   ("Context.when_matches_async / subscribe", "malcolm/core/context.py")],
  ["values read through views", "calls the device saw", "errors raised"],
  "stateful model-based testing against the block as a Get sees it",
  "Views of timeStamp, alarm, took and returned are of the moment they were made.")

P("P36", "The file of an Odin scan has every frame at its point",
  "After a scan with an Odin detector each dataset it reports exists in its file, with "
  "the shape and unique ids of the scan, and holds at each point of the scan (at each "
  "step of an unrolled one) the frame that was taken there, however the frames were "
  "shared between the writing processes and blocks, and nothing elsewhere. The scan is "
  "not over before all frames are captured, progress follows the frames, and an abort "
  "stops the writer; the next scan starts anew.",
  ["inputs", "histories", "schedules"],
  "every scan, number of writers, block size, image, and time of each frame and abort",
  "The tests compare a few fixed layouts of the virtual dataset.",
  ["malcolm/modules/ADOdin/parts/odinwriterpart.py",
   "malcolm/modules/scanning/parts/unrollingpart.py"],
  [("create_vds / create_raw_vds / add_nexus_nodes / OdinWriterPart.on_configure / on_run",
    "malcolm/modules/ADOdin/parts/odinwriterpart.py"),
   ("UnrollingPart.on_validate / on_configure",
    "malcolm/modules/scanning/parts/unrollingpart.py")],
  ["contents of the files", "rows of the datasets table", "completed steps"],
  "model-based testing: a stand-in writes what Odin writes, read back through the file",
  "Process i of n writes blocks i, i + n, ...; uid and sum are 1 x 1 images per frame.")

P("P32", "An attribute backed by EPICS shows its PV and writes go to it once",
  "While a block with Channel Access parts is Ready, each attribute has the value, alarm "
  "severity and time of its readback PV as last told (choices by label, booleans as "
  "such, arrays and tables column by column), keeps its value with a disconnected alarm "
  "while the PV is lost, and recovers when it is back. A put is one caput of the "
  "converted value to the demand PV, and when it is done the attribute has the "
  "readback's value; a refused one is an error. Reset makes exactly one monitor per "
  "readback and fails if a PV that must be there is not, disable closes them all. An "
  "action puts its value once and succeeds exactly if the status becomes the good one "
  "in time.",
  ["inputs", "histories", "faults"],
  "every order of PV changes, alarms, lost connections, puts, resets and disables, and "
  "every type of part",
  "The tests mock catools and check the arguments of its calls for a value or two; lost "
  "connections and alarms that clear are hardly covered.",
  ["malcolm/modules/ca/util.py", "malcolm/modules/ca/parts",
   "malcolm/modules/asyn/parts/asynsourceportpart.py",
   "malcolm/modules/pmac/parts/rawmotorsinkportspart.py",
   "malcolm/modules/pmac/parts/compoundmotorsinkportspart.py",
   "malcolm/modules/pmac/parts/cssourceportspart.py"],
  [("CABase._update_value / CAAttribute.reconnect / caput", "malcolm/modules/ca/util.py"),
   ("CAActionPart.caput", "malcolm/modules/ca/parts/caactionpart.py"),
   ("RawMotorSinkPortsPart._update_value",
    "malcolm/modules/pmac/parts/rawmotorsinkportspart.py")],
  ["attributes of the block", "caputs and open monitors of the simulated CA"],
  "stateful model-based testing with simulated Channel Access",
  "Monitors behave as cothread.catools documents.")
