#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so that the wording stays in one reviewable place).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
H="hydra/src/"
p("P01","Node wire frames survive encoding, concatenation and any splitting",
 "Every frame a node can send decodes on the other side to an equal frame and consumes exactly the bytes that were written for it. A stream of frames, delivered in chunks cut at arbitrary positions, decodes to the same frames in the same order; an incomplete frame yields nothing and loses nothing.",
 ["inputs","histories"],"all ten frame kinds, all field values within the stated sizes, all cut positions of the byte stream",
 "No test touches the codec; a unit test would sample a few frames and never a cut inside a length marker.",
 [H+"frame/mod.rs",H+"frame/send.rs",H+"frame/hello.rs"],[("length-prefixed codec",H+"frame/mod.rs: Codec encode/decode")],hook="pub re-export of the frame module under the guard")
p("P02","Malformed bytes from a peer are rejected without damage",
 "Whatever bytes a peer sends, decoding them yields either a well-formed frame contained entirely in its declared length, a wait for more bytes that were really announced, or an error. It never panics, never takes bytes belonging to a following frame, and never waits forever for a frame whose declared bytes have all arrived.",
 ["inputs"],"all byte strings up to the stated length as receive buffer","Tests contain no malformed input; the space is all byte strings.",
 [H+"frame/mod.rs"],[("frame decoding",H+"frame/mod.rs: Codec::decode")],hook="pub re-export of the frame module under the guard")
p("P03","Mailboxes deliver every message once, in send order, to the addressee",
 "A message sent to a live local process, whether by pid, registered name, alias or as part of a multi-destination send, arrives in that process's mailbox exactly once and in no other mailbox; messages from one sender to one receiver arrive in sending order. A message sent to a destination that does not exist or has died is dropped without affecting anything else.",
 ["schedules","inputs","histories"],"all message payloads, destination mixes and task interleavings within the stated bounds",
 "The only process tests cover links and monitors; ordering and loss depend on interleavings.",
 [H+"process_kernel.rs",H+"process_registry.rs",H+"process.rs",H+"dest.rs"],[("local send",H+"process_kernel.rs: process_send*"),("mailbox channel",H+"process.rs: spawn_internal")])
p("P04","Selective receive takes only what it selects and keeps the rest in order",
 "A receiver with a filter returns the earliest matching message and leaves all others in the mailbox in their original order, so later receives see each of them exactly once. Removing messages discards exactly those the filter picks; with strict type checking a message of another type panics the receiver, without it such messages are left in place.",
 ["inputs","histories"],"all mailbox contents of the stated size (types, values, system messages) and all filters over the values",
 "No test uses filters; the property ranges over all mailboxes and filters.",
 [H+"process_receiver.rs",H+"process_item.rs"],[("selective receive",H+"process_receiver.rs: select/remove/process_item")])
p("P05","Exit signals act according to reason, sender and exit trapping",
 "A normal or ignore signal from another process never ends a process, kill always ends it, any other reason ends it unless it traps exits; a process signalling itself always ends, and a process trapping exits receives each non-kill signal from others as exactly one exit message carrying sender and reason. A process that ends reports the reason it was given, the panic text if it panicked, or normal if it returned, to its links and monitors.",
 ["inputs","schedules"],"all combinations of reason, custom text, trap flag, sender and target state, at every scheduling point",
 "No test exercises exit(); the table has many cells and depends on the time at which the signal lands.",
 [H+"process_registry.rs",H+"process.rs",H+"catch_unwind.rs",H+"exit_reason.rs"],[("exit signal",H+"process_registry.rs: process_exit"),("panic capture",H+"catch_unwind.rs")])
p("P06","Links connect processes in both directions until one dies or unlinks",
 "When a linked process ends, each process linked to it gets the signal exactly once: trapping processes get one exit message with the true pid and reason, others die with that reason unless it is normal. Linking to a dead or unknown process signals noproc, unlinking stops all signals in both directions, and no interleaving of linking and dying loses the signal.",
 ["schedules","histories","inputs"],"all orders and preemptions of link, unlink, exit and panic between up to three processes, all reasons",
 "Three link tests sample one schedule each.",
 [H+"link.rs",H+"process.rs",H+"process_registry.rs"],[("link table",H+"link.rs"),("down processing",H+"process.rs: Drop")])
p("P07","Each monitor yields exactly one down message",
 "A monitor installed on a process by pid or name produces exactly one down message, carrying the monitored destination, the monitor's reference and the true exit reason, once the process ends, or noproc when it does not exist at that time. After demonitor returns no down message for it is ever received, even when it had already been queued or looked at by a selective receive; no interleaving loses or duplicates a down message.",
 ["schedules","histories","inputs"],"all orders and preemptions of monitor, demonitor, exit, selective receive, all reasons",
 "Five monitor tests sample one schedule each and none of the races.",
 [H+"monitor.rs",H+"process.rs",H+"process_receiver.rs"],[("monitor table",H+"monitor.rs"),("discarding",H+"process_receiver.rs: process_item")])
p("P08","Registered names map to one live process and are freed when it ends",
 "At any time a name refers to at most one process and a process has at most one name; registering a taken name, a process that already has a name, a dead or a remote process fails and changes nothing. When the process ends or the name is unregistered the name becomes free and only that name does, whatever the interleaving.",
 ["histories","schedules","inputs"],"all sequences of register, unregister, exit and lookups over three processes and two names within the bound, with preemption",
 "Registration is only used incidentally in one test.",
 [H+"process_registry.rs",H+"process.rs"],[("name table",H+"process_registry.rs: process_register/unregister")])
p("P09","Aliases deliver only while active",
 "Messages sent to an alias reach its owner while it is active and are dropped afterwards; a reply alias delivers at most one message even under concurrent senders. An alias ends when its owner unaliases it or dies, and one tied to a monitor also when the monitor fires or is removed; unalias reports whether the alias was active for the calling process and never disturbs another process's alias.",
 ["histories","schedules","inputs"],"all sequences of alias, send, unalias, demonitor and exit within the bound, with preemption",
 "No test uses aliases.",
 [H+"alias.rs",H+"process.rs",H+"monitor.rs"],[("alias table",H+"alias.rs")])
p("P10","Timers deliver once, at the right time, unless cancelled",
 "A message scheduled with a delay is delivered exactly once, not before the delay has passed, and never after its timer was cancelled. Reading a timer reports the remaining time while it is pending and nothing once it fired or was cancelled.",
 ["schedules","inputs","histories"],"all delays, cancel and read instants and preemptions within the bound",
 "No test uses timers; time is a variable.",
 [H+"process.rs",H+"process_registry.rs"],[("timer table",H+"process.rs: send_after; "+H+"process_registry.rs: timers")])
p("P11","A process exists from spawn until its end, and leaves nothing behind",
 "From the moment spawn returns a process has a pid no other process ever had, is alive and listed until it ends, and its code, flags, links and monitors work whatever the relative speed of spawner and spawned. Once it ended it is not alive, not listed, has no name and no debug information, its links, monitors and aliases no longer act, and its mailbox is gone.",
 ["schedules","histories"],"all preemptions between spawning and running, all ways to end",
 "Tests run a single schedule in which spawn always wins.",
 [H+"process.rs",H+"process_registry.rs",H+"process_info.rs"],[("spawn",H+"process.rs: spawn_internal"),("teardown",H+"process.rs: Drop for Process")])
p("P12","A server call returns its own reply, a timeout, or the server's death",
 "A call returns exactly the reply the server gave to that call, or a timeout once the given time passed, or server-down with the server's exit reason; replies to other or timed-out calls never surface as a result or as a stray message. Casts are handled in sending order, at most once and with no answer, by each of the servers they are sent to.",
 ["schedules","inputs","histories"],"all payloads, reply orders, timeouts and server deaths within the bound, at every scheduling point",
 "No test exercises GenServer.",
 [H+"gen_server.rs",H+"from.rs"],[("call/reply",H+"gen_server.rs: call/call_with/reply")])
p("P13","Server start-up and termination follow the contract",
 "Starting a server returns its pid only after initialisation succeeded, and otherwise the initialisation error, a timeout, or already-started with a name in use, leaving no process and no name behind. A server asked to stop, or whose callback fails, runs its termination callback at most once with the true reason, exits with that reason, and the stopper gets the outcome within its timeout.",
 ["inputs","schedules","configurations"],"all results of initialisation and callbacks, all options, stop reasons and timeouts within the bound",
 "No test exercises GenServer.",
 [H+"gen_server.rs",H+"gen_server_options.rs"],[("server loop",H+"gen_server.rs: start_gen_server")])
p("P14","Supervisors restart the children their strategy and restart types demand",
 "When a child ends, the supervisor restarts it if its restart type asks for it (permanent always, transient only after an abnormal end, temporary never), together with all siblings for one-for-all and the later-started siblings for rest-for-one, which it first stops in reverse start order and then starts again in start order. Children not concerned keep running undisturbed and keep their order.",
 ["configurations","histories","inputs"],"all strategies, restart types and exit reasons over up to three children and the stated number of failures",
 "No test exercises supervisors.",
 [H+"supervisor.rs",H+"child_spec.rs",H+"restart.rs"],[("restart logic",H+"supervisor.rs: restart_exited_child/restart_multiple_children")])
p("P15","Supervisors give up exactly when restarts exceed the allowed intensity",
 "If more restarts than the configured maximum happen within the configured time window, the supervisor stops all children and itself with reason shutdown; as long as no window contains more, it keeps restarting. Restarts older than the window no longer count, and any window length, including the longest, is usable.",
 ["inputs","histories","configurations"],"all failure instants, window lengths and limits within the bound",
 "No test exercises supervisors; time is a variable.",
 [H+"supervisor.rs",H+"supervisor_options.rs"],[("restart intensity",H+"supervisor.rs: add_restart")])
p("P16","Supervisors stop children in reverse order, as each child's shutdown demands",
 "A stopping supervisor ends its children one after the other in reverse start order, waiting for each before the next: brutal-kill children are killed, children with a time limit get the shutdown signal and are killed if they outlive it, infinity children are waited for; no child survives its supervisor. With automatic shutdown, the supervisor stops itself exactly when one (any) or all significant children have ended by themselves.",
 ["configurations","histories","schedules"],"all shutdown modes, stubborn or dying children, auto-shutdown modes over up to three children",
 "No test exercises supervisors.",
 [H+"supervisor.rs",H+"shutdown.rs",H+"supervisor_options.rs"],[("shutdown",H+"supervisor.rs: terminate_children/shutdown"),("auto shutdown",H+"supervisor.rs: check_auto_shutdown")])
p("P17","Run-time management of children keeps the supervisor's books exact",
 "Starting, terminating, restarting and deleting a child each succeed or fail with the error the situation calls for (already present, already started, running, restarting, not found, start error), never crash the supervisor, and leave every other child alone. Counts and child lists always describe exactly the children held and which of them run; a failed start leaves no child and a terminated temporary child no specification.",
 ["histories","configurations"],"all sequences of management calls over two ids within the bound, with working, failing and ignoring start functions",
 "No test exercises supervisors.",
 [H+"supervisor.rs",H+"child_spec.rs"],[("child management",H+"supervisor.rs: start_new_child/terminate_child_by_id/restart_child_by_id/delete_child_by_id")])
p("P18","A registry maps each key to at most one running process",
 "For every key a registry holds at most one process: lookup-or-start starts one only if none is registered and hands everyone the same pid, starting a registered key fails, and a registry without start function reports so. A process that ends, or is stopped or removed, disappears from lookups, lists and counts, and nothing else does; a stopping registry stops all its processes.",
 ["histories","schedules","inputs"],"all sequences of registry operations and process exits over the stated keys, all key values",
 "No test exercises Registry.",
 [H+"registry.rs",H+"registry_options.rs"],[("registry server",H+"registry.rs")])
p("P19","Nodes only connect to peers that prove identity and cookie",
 "A connection is established only if the peer's first frame is a hello whose challenge was computed with the same cookie over the name and address it presents, and, for outgoing connections, if they are the ones dialled; every other first frame, a closed stream or silence beyond the handshake timeout ends the attempt, leaving the node unconnected. Setting node options changes the option named and no other.",
 ["inputs","configurations","fault_sequences"],"all cookies, names, addresses and challenges within the stated sizes (MAC idealised as collision-free), all peer behaviours in the handshake",
 "No test starts a node.",
 [H+"node_remote.rs",H+"frame/hello.rs",H+"node_options.rs"],[("handshake",H+"node_remote.rs: accepter/connector; "+H+"frame/hello.rs")])
p("P20","Pids, references and nodes keep their identity across the network",
 "A pid, reference or node sent to another node and back denotes the same process, alias or node as before; on the way it is seen as remote exactly by nodes other than its own, with equal values comparing equal. A node gets one stable identity however often it is met, distinct from all others, no reference is handed out twice, and node addresses convert to and from text consistently.",
 ["inputs","histories"],"all ids, names and addresses of the stated sizes, in all local-node configurations",
 "No test serialises a pid.",
 [H+"pid.rs",H+"reference.rs",H+"node.rs",H+"node_registry.rs"],[("wire form",H+"pid.rs, reference.rs, node.rs: Serialize/Deserialize"),("node table",H+"node_registry.rs: node_register")])
p("P21","Signals and messages between nodes arrive as they would locally",
 "Messages, exit signals, links and monitors to processes of a connected node act there as on a local process: a message reaches each target once and in order, including those sent while the connection was being set up, a remote exit reason reaches links and monitors unchanged, demonitor and unlink take effect on both nodes. Targets that do not exist yield noproc and disturb nothing.",
 ["histories","inputs","schedules"],"all frames a peer may send or receive for up to three operations, all payloads and ids",
 "No test starts a node.",
 [H+"node_remote.rs",H+"node_kernel.rs",H+"node_registry.rs",H+"link.rs",H+"monitor.rs"],[("frame handling",H+"node_remote.rs: node_remote_receiver"),("outgoing",H+"node_registry.rs: node_send_frame")])
p("P22","Losing a node is reported to everything connected to it, once",
 "When the connection to a node ends, for whatever reason including disconnect, forget, stop, timeout or protocol error, each link to its processes signals noconnection, each process monitor yields one down with noconnection, and each node monitor one node-down message; nothing held for that node on the peer's behalf remains and other nodes are unaffected. Node state and lists reflect this, and a later reconnect works.",
 ["fault_sequences","histories","schedules"],"all ways to lose a connection at every point of the stated scenarios",
 "No test starts a node.",
 [H+"node_registry.rs",H+"node_remote.rs",H+"node_local.rs"],[("node down",H+"node_registry.rs: node_remote_supervisor_down")])
p("P23","The hash ring assigns every key to the next node clockwise, stably",
 "For every key the ring returns its override if one is set, and otherwise the node whose position is the first at or after the key's, wrapping around; it returns none exactly if there is neither. Adding or removing a node only moves keys to or from that node; set, add, remove, clear and overrides have the effect of the corresponding operations on a plain set of nodes.",
 ["inputs","histories"],"all positions of nodes and keys on the ring (hash values symbolic), all operation sequences within the bound",
 "Four tests use a handful of fixed keys; boundaries (equality, wrap-around) need specific hash values.",
 [H+"hash_ring.rs"],[("ring lookup",H+"hash_ring.rs: find")],hook="hash builder replaced by the identity under the guard, so hash values are symbolic")
p("P24","Semaphores and tasks keep their counts and results",
 "A semaphore never has more permits out than it was created with, gives back exactly what was taken when a permit is dropped, and every waiter gets its permits once enough are free. A task's handle yields the task's value, or an error if it panicked or was shut down, and awaiting several yields their values in the order given.",
 ["schedules","inputs"],"all permit counts, acquisition orders and task outcomes within the bound",
 "Two documentation tests sample one schedule; tasks have none.",
 [H+"semaphore.rs",H+"task.rs"],[("semaphore",H+"semaphore.rs"),("task",H+"task.rs")])
p("P25","An application runs until its main process ends, and shuts down in bounded time",
 "Running an application returns once its main process has ended or failed to start, and not before. On a termination signal with graceful shutdown enabled the main process is asked to shut down, and killed if it outlives the configured time; the configuration given is the one applied.",
 ["schedules","configurations","inputs"],"all start results, exit reasons, signal instants and configurations within the bound",
 "Tests only ever run one application to a normal end.",
 [H+"application.rs",H+"application_config.rs"],[("application loop",H+"application.rs: run/test")])
p("P26","Websocket servers pass messages faithfully and close cleanly",
 "A websocket handler sees each incoming message (within the configured limits) once and in order, its commands are sent in the order given, and after a close by either side, an error or stop, or the end of the stream the handler process ends and its termination callback runs exactly once, with the reason monitors get. A failing, refused or too slow handshake or a failing handler affects only its own connection.",
 ["inputs","histories","fault_sequences"],"all incoming message sequences and handler results within the bound",
 "No test exists for the websocket crate.",
 ["hydra-websockets/src/websocket_handler.rs","hydra-websockets/src/websocket_server.rs"],[("handler loop","hydra-websockets/src/websocket_server.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
