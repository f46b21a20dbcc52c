prop(
    "P08", "Saved designs survive failures and load back exactly",
    "A design whose save was answered with success can be loaded ever after, also after a "
    "crash or power cut and a restart, and brings back the layout, the exports and all config "
    "fields of the manager and its children as they were when saved, each child's fields in "
    "load-iteration order. A save that fails or is cut short by a crash, a full disk or an "
    "I/O error leaves the design that was there loadable as it was (or the new one complete), "
    "and touches no other design. While no save or load fails or overlaps changes, the "
    "modified light is on exactly when a config field of a visible child, the visibility or "
    "the exports differ from what was last saved or loaded, and names what differs.",
    ["inputs", "schedules", "crash_points", "fault_sequences"],
    "all sequences of changes, saves and loads, all disk errors, torn writes, process kills and "
    "power cuts at every file operation, and device refusals during load",
    "tests save to a healthy disk; what survives a crash at each write and what the light says "
    "after each history of changes cannot be sampled by hand",
    ["malcolm/modules/builtin/controllers/managercontroller.py",
     "malcolm/modules/builtin/parts/childpart.py"],
    [("design file written aside then moved into place", "ManagerController.do_save"),
     ("load hooks in iteration order", "ChildPart.on_load"),
     ("saved structure compared on every change", "ChildPart.update_part_modified")],
    "design files surviving a crash; values on the devices after load; modified attribute",
    "Real files behind a faulty file layer that decides errors, torn writes and which writes "
    "survive a kill or a power cut; device values are compared after every load.",
)

prop(
    "P09", "A manager's exports and layout mirror its children",
    "A manager Block has exactly the fields named by its exports table for visible children, "
    "whatever the sequence of layout and exports changes, loads and child updates. Each "
    "exported attribute or method equals the child's once changes settle (except label, config "
    "tags and writeability), a Put or Post through it reaches the child exactly once with "
    "the same arguments and is answered with the child's outcome and result. A layout write "
    "changes the rows written and no others, and hiding a child disconnects exactly the sink "
    "ports of that child and those connected to its source ports.",
    ["inputs", "schedules", "histories", "fault_sequences"],
    "all histories of layout, exports, loads, child changes (values, alarms, labels, single "
    "table columns) and puts through exports",
    "tests export one field and change it once",
    ["malcolm/modules/builtin/controllers/managercontroller.py",
     "malcolm/modules/builtin/parts/childpart.py", "malcolm/core/models.py"],
    [("export follows child by delta subscription", "ManagerController._make_export_field"),
     ("fields rebuilt", "ManagerController.update_block_endpoints"),
     ("sinks severed on hide", "ChildPart.on_layout, sever_sink_ports")],
    "fields and values a client reads from manager and child; puts and calls seen by devices",
    "Seeded search over histories on real manager and child controllers; devices are stand-ins.",
)

prop(
    "P10", "A proxy is as good as the Block it stands for",
    "A client of a proxy of a remote Block sees what a client on the server would: every state "
    "in order, changes made in one go as one, fields as they are added and removed, and once "
    "changes settle exactly what the server has (also through a proxy that is published "
    "again). A Put or Post through it reaches the device at most once, is answered exactly "
    "once, and with the device's outcome. When the connection is lost, outstanding requests "
    "fail, new ones are refused, and the comms Block is not Ready; it is Ready only when "
    "connected. After a reset that finds the server the proxies follow and work again.",
    ["inputs", "schedules", "histories", "fault_sequences"],
    "all histories of changes, subscriptions, puts and posts, message delays, lost connections "
    "noticed early or late, servers that go away and come back, and resets and disables",
    "tests use one healthy local connection; when a connection breaks relative to each message "
    "and what a proxy shows after each history cannot be sampled",
    ["malcolm/modules/web/controllers/websocketclientcomms.py",
     "malcolm/modules/builtin/controllers/proxycontroller.py",
     "malcolm/modules/web/parts/websocketserverpart.py", "malcolm/core/models.py"],
    [("outstanding requests by id, failed when the connection ends",
      "WebsocketClientComms.recv_loop, send_to_server"),
     ("remote structure applied to the local Block", "ClientComms.sync_proxy, "
      "WebsocketClientComms.on_message"),
     ("responses in order", "MalcWebSocketHandler.on_response")],
    "Blocks and answers a client of the proxy gets; what reaches the device",
    "Seeded search over real client and server comms with a real tornado IOLoop on a simulated "
    "asyncio loop; TCP and websocket framing are replaced by ordered streams that break.",
)

prop(
    "P11", "Every websocket and REST request is answered truly, once, to who asked",
    "Each request of a websocket session is answered by exactly one Return or Error with its "
    "id, on that session and no other, whatever else is under way, and messages that make no "
    "sense get an Error and leave the session working. A subscription gets the value, then "
    "every state in order, ends at the true state, and gets nothing after its unsubscription "
    "was answered. A Put or Post from a client outside the server's subnets is refused and "
    "never reaches a device. What a session subscribed to is given up when it closes. A REST "
    "get or post is answered once, with the value or with an error that says why.",
    ["inputs", "schedules", "histories", "fault_sequences"],
    "all mixes of requests of many sessions, malformed messages, addresses, slow clients and "
    "sessions that close or break at any point",
    "tests send one request at a time from one local client",
    ["malcolm/modules/web/parts/websocketserverpart.py",
     "malcolm/modules/web/parts/restfulserverpart.py",
     "malcolm/modules/web/controllers/httpservercomms.py"],
    [("session's own queue of responses", "MalcWebSocketHandler.on_response"),
     ("subnet check", "MalcWebSocketHandler.on_message"),
     ("unsubscribed when it can no longer be written to", "MalcWebSocketHandler._on_response")],
    "messages that arrive at each client; what reaches the device",
    "Seeded search over the real handlers on simulated connections.",
)

prop(
    "P12", "The Blocks of a PandA mirror the PandA, and writes reach it",
    "Once changes settle every attribute, label, health, link tag, bits row, positions row and "
    "layout position shows what the PandA has, whoever changed it. An attribute only ever "
    "shows values that the PandA had, in order unless a client wrote it meanwhile. A bit that "
    "changed between two polls, however briefly, is seen to change, and then shows its true "
    "value. A Put or action that returns reached the PandA exactly once and was accepted; one "
    "that the PandA refused fails with the reason that the PandA gave for it, and leaves no "
    "trace; a value of the wrong type never reaches it.",
    ["inputs", "schedules", "histories", "fault_sequences"],
    "all histories of changes by the PandA and by many clients, message delays and cuts, and "
    "refused writes",
    "tests feed single messages to a mocked client; polls that cross writes need simulation",
    ["malcolm/modules/pandablocks/pandablocksclient.py",
     "malcolm/modules/pandablocks/controllers/pandamanagercontroller.py",
     "malcolm/modules/pandablocks/controllers/pandablockcontroller.py",
     "malcolm/modules/pandablocks/parts/pandabussespart.py",
     "malcolm/modules/pandablocks/parts/pandafieldpart.py",
     "malcolm/modules/pandablocks/parts/pandatablepart.py"],
    [("responses matched to requests by order", "PandABlocksClient._respond"),
     ("bits toggled and set back", "PandAManagerController._handle_change"),
     ("tables from rows", "PandABussesPart.handle_changes")],
    "attributes seen by clients; commands and state at the PandA",
    "Seeded search of the real client, manager, controllers and parts against an executable "
    "model of a PandA behind a simulated socket that cuts and delays the stream.",
)

prop(
    "P13", "Losing the connection to a PandA is noticed, bounded and recoverable",
    "Whenever the connection to a PandA ends, breaks, goes silent or stalls, also while the "
    "process starts, every request is answered exactly once within the time limit, with "
    "success only if the PandA accepted it and never with the answer to another; the manager "
    "goes to Fault; and after a reset with the PandA back it is Ready, shows what the "
    "PandA has, follows changes, and writes reach it.",
    ["inputs", "schedules", "crash_points", "fault_sequences"],
    "all points at which a connection can end, break, stall or be refused, and all resets and "
    "disables around them",
    "tests have no connection that fails",
    ["malcolm/modules/pandablocks/pandablocksclient.py",
     "malcolm/modules/pandablocks/controllers/pandamanagercontroller.py"],
    [("loop that polls and reports failure", "PandAManagerController._poll_loop"),
     ("connection made and ended", "PandAManagerController.start_poll_loop, stop_poll_loop"),
     ("send and receive loops", "PandABlocksClient._send_loop, _recv_loop")],
    "answers to clients, state of the manager, Blocks after recovery",
    "As P12, with connections that end, reset, go silent, stall or are refused.",
)

prop(
    "P14", "Attributes and actions backed by EPICS PVs tell the truth about them",
    "An attribute of a Ready Block that stands for a PV only ever shows values that the PV "
    "had, together with the alarm and time stamp that went with them, never goes back to an "
    "older one, and once changes settle shows what the PV (or, for a table of waveforms, each "
    "of its PVs) has; when the PV is lost it is shown invalid with its last value, and follows "
    "again when it is back. A Put that returns was written to its PV exactly once, after being "
    "processed, and what is then shown is no older; one that fails was written at most once. An action "
    "succeeds only if the PV was put to and its status was good, and otherwise gives status "
    "and message. A disabled Block does not follow its PVs. Missing optional PVs never stop "
    "a Block from starting; after a reset with all PVs there it is Ready and its actions shown.",
    ["inputs", "schedules", "histories", "fault_sequences"],
    "all histories of PV changes, puts, actions, disables and resets, with IOCs that vanish "
    "and return, slow or refused puts, late connections and delayed updates",
    "tests mock catools: one update and one put at a time, never a lost connection",
    ["malcolm/modules/ca/util.py", "malcolm/modules/ca/parts/catablepart.py",
     "malcolm/modules/ca/parts/caactionpart.py"],
    [("connect, get and monitor", "CAAttribute.reconnect, CABase._update_value"),
     ("put and read back", "CAAttribute.caput"),
     ("put, then look at the status", "CAActionPart.caput")],
    "attributes seen by a subscriber, answers to Puts and Posts; PV puts seen by the IOC",
    "The real ca parts run against a simulated IOC with its own clock of updates, connections "
    "and put callbacks, in place of cothread.catools.",
)

prop(
    "P15", "A process starts, publishes and stops exactly what it hosts",
    "Process.start returns only when every controller has been initialised (each exactly "
    "once, also if another fails), add_controllers in a running process likewise; a name is "
    "never hosted twice. Every comms is told of exactly the Blocks hosted that may be "
    "published (a Block that may not is not, even while starting), parents before children, "
    "each once, whenever they were added. When Process.stop returns every controller has been "
    "halted exactly once, everything spawned has ended, every request made before has been "
    "answered exactly once and nothing is hosted any more.",
    ["inputs", "schedules", "histories", "fault_sequences"],
    "all sets of controllers added before, during and after start, requests under way, "
    "failing or slow initialisation and halting, and interleavings",
    "tests start one or two well behaved controllers",
    ["malcolm/core/process.py", "malcolm/core/controller.py",
     "malcolm/modules/builtin/controllers/servercomms.py",
     "malcolm/modules/web/controllers/httpservercomms.py"],
    [("init, publish and halt hooks", "Process.start, stop, _publish_controllers"),
     ("tasks spawned are waited for", "Process.spawn, stop"),
     ("list of published Blocks", "HTTPServerComms.update_request_received")],
    "calls seen by parts, published lists, answers to requests around start and stop",
    "Seeded search over real processes with stand-in parts and comms.",
)

prop(
    "P16", "A scan and its detectors agree on every step",
    "In a scan over detector Blocks each enabled detector is told to take framesPerStep "
    "frames for every step and no others, in the same runs (also with breakpoints), with the "
    "file name made from its own; a detector that is not enabled takes none. The "
    "scan is Armed or Finished only when all of its detectors are, and a scan that was "
    "paused misses no frame: after a pause or seek each detector goes on from exactly the frame of "
    "the step asked for. Completed steps never exceed those all detectors have done. "
    "When pause or abort returns no detector takes frames. The datasets are those of the "
    "enabled detectors. A detector that fails puts the scan in Fault with its error, as does one that "
    "someone else stops; otherwise the scan is never in Fault; it never hangs, and a reset "
    "recovers the scan and its detectors.",
    ["inputs", "schedules", "histories", "fault_sequences"],
    "all scan shapes, breakpoints, frames per step and enabled detectors, all points of "
    "pause, seek, abort, disable and reset, failures of devices and aborts by others",
    "tests run one detector at a fixed pace; where the detectors are relative to each other "
    "when something happens decides",
    ["malcolm/modules/scanning/parts/detectorchildpart.py",
     "malcolm/modules/scanning/controllers/runnablecontroller.py",
     "malcolm/modules/scanning/parts/datasettablepart.py"],
    [("frames multiplied out", "DetectorChildPart._configure_args"),
     ("run, resume and wait", "DetectorChildPart.on_run, on_post_run"),
     ("pause to the right frame", "DetectorChildPart.on_seek")],
    "states of scan and detectors, frames the cameras are told to take, datasets, counters",
    "Real outer and inner RunnableControllers; the cameras and the stage are stand-ins.",
)

prop(
    "P17", "The motors pass through every point of a scan, on time, and no others",
    "In a scan that moves, the path the motion controller executes takes every axis asked for "
    "through the start, middle and end of each point of the run, in order, each point taking "
    "its duration, and no other points; between points that do not join, it turns round without "
    "exceeding the speed of any axis. However long the scan, the path never runs out of points "
    "before its end and its outputs say which point it is in, and are off when it ends. "
    "Completed steps never exceed the points that have been passed. When run, pause or abort "
    "returns the path is no longer executed, and after a pause or seek the next path starts at "
    "exactly the step asked for. The scan is in Fault only if a device failed, and a "
    "reset recovers it.",
    ["inputs", "schedules", "histories", "fault_sequences"],
    "all scan shapes, directions, delays, motor parameters, buffer boundaries, pause, seek and "
    "abort points, paces at which progress is reported and failures of the controller",
    "tests compare the arrays of a few paths with recorded ones; nobody plays them, and how "
    "many points are appended when depends on when progress is reported",
    ["malcolm/modules/pmac/parts/pmacchildpart.py", "malcolm/modules/pmac/util.py",
     "malcolm/modules/pmac/parts/pmactrajectorypart.py",
     "malcolm/modules/pmac/parts/cspart.py", "malcolm/modules/pmac/infos.py"],
    [("points and turnarounds to profile", "PmacChildPart.calculate_generator_profile"),
     ("append as points are scanned", "PmacChildPart.update_step, write_profile_points"),
     ("move to start, build, execute", "PmacChildPart.on_configure, on_run")],
    "where the axes of a simulated motion controller are at each time, its outputs, the step "
    "counters and state of the scan",
    "The real pmac and scanning parts drive a simulated motion controller that executes the "
    "trajectory buffer in simulated time; lines of one or two axes and static points, and "
    "spirals and lissajous curves where every point is triggered; no velocity settle time.",
)

prop(
    "P18", "Every frame is triggered once, when the motors are at its point",
    "In a scan triggered by a PandA the two sequencers make exactly one live pulse for each "
    "step of the run, in order, each of the duration of its point and at a moment when every "
    "moving axis is at the start of that point (whether rows are started by the motion "
    "controller's output or by comparing positions of those axes the PandA sees, at any "
    "resolution, offset and direction), or one after the other if nothing moves; one dead pulse "
    "ends each row and the scan. However many tables that takes, none is changed while it is "
    "played, played twice or missing when its turn comes. When pause or abort returns the "
    "sequencers are stopped, and after a pause or seek they go on with exactly the step asked for. "
    "The scan is in Fault only if a device failed, never hangs, and a reset recovers it.",
    ["inputs", "schedules", "histories", "fault_sequences"],
    "all scan shapes, directions, delays, encoder scalings, table boundaries, pause, seek and "
    "abort points, paces and failures",
    "tests compare a few tables with recorded ones; nobody plays them against a motion",
    ["malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py",
     "malcolm/modules/ADPandABlocks/doublebuffer.py", "malcolm/modules/pmac/util.py"],
    [("rows from points", "SeqTriggers.get_rows"),
     ("blind while moving the wrong way", "SeqTriggers._how_long_moving_wrong_way"),
     ("two tables in turn", "DoubleBuffer")],
    "pulses of simulated sequencers and where the simulated axes are then",
    "The real parts drive a simulated pair of sequencers and a simulated motion controller; "
    "line and static generators only.",
)

prop(
    "P90", "Structures survive conversion to and from JSON, YAML and PVA unchanged",
    "Every value, meta, table, request and response that is converted to its serialised form "
    "and back compares equal, key order included, and malformed input is refused.",
    ["inputs"],
    "all values of all supported types",
    "tests convert a few",
    ["malcolm/core/serializable.py", "malcolm/core/models.py",
     "malcolm/modules/pva/controllers/pvaconvert.py", "malcolm/yamlutil.py"],
    [("to_dict and from_dict", "Serializable"), ("meta validation", "VMeta.validate")],
    "results of conversion functions",
    "",
    na="Conversions are pure functions of their input: no schedule, clock, I/O, fault or second "
       "party takes part, so a simulator has nothing to control. What crosses the simulated "
       "websocket and disk in P08, P10 and P11 is compared after conversion as a by-product.",
)

prop(
    "P91", "Moves between points stay within the limits of every axis",
    "The velocity profile computed for a turnaround between any two points arrives at the right "
    "place and velocity on every axis at the same time, without exceeding the maximum "
    "velocity or acceleration, for all motor parameters.",
    ["inputs"],
    "all points and motor parameters",
    "tests compute a few turnarounds",
    ["malcolm/modules/pmac/util.py", "malcolm/modules/pmac/infos.py"],
    [("velocity profiles", "profile_between_points, MotorInfo.make_velocity_profile")],
    "time and velocity arrays",
    "",
    na="A numerical function of its input (largely of the velocity_profile library), with no "
       "concurrency, time or I/O: property based testing or proof, not simulation. The turnarounds "
       "of the paths simulated for P17 and P18 are checked for place, time and speed as a "
       "by-product.",
)
