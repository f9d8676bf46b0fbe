HOOKS = {"guard": "none", "enable": "No hook is needed in /repo: the simulator works at the libc, WebRTC and audio-library boundaries, and the compiler (LLVM edge callbacks on the crates under test) provides the preemption points.", "source_commits": []}
NOTES = "Every check rebuilds /repo's sources through a symlink workspace under build/ws, then runs seeded simulations in child processes. See DESIGN.md. './replay.sh FILE' reproduces a violation."
SEQ = "Sampling, not proof: seeded search over many executions of the real code; a fault or schedule that no seed reached is not covered. "
PROPS = []

def P(id, title, statement, over, qtext, why, files, mech, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                      why_tests_cant=why, anchors=a, note=SEQ + note))

MRP = ["mrp/src/stream.rs", "mrp/src/window.rs", "mrp/src/merge_buffer.rs"]
P("M01", "Reliable stream delivers every message once, in order, unaltered",
  "Whatever the datagram network loses, duplicates, reorders or delays, the messages a reliable stream hands to its receiving application are exactly a prefix of the messages its peer accepted for sending, in the order they were accepted, each exactly once and with unchanged contents. A message sent in fragments is handed over only as one whole, never partly, never mixed with another, and each message that is completely received in order is handed over at once.",
  ["fault_sequences", "inputs", "histories"],
  "All sequences of plain and fragmented sends, polls, send failures and packet deliveries on a pair of streams, all window sizes, and all patterns of loss, duplication, reordering, delay, partition and ancient replay.",
  "The unit tests replay a few fixed schedules and one random loss test per build; they cannot cover the space of loss, duplication and reordering patterns combined with full windows, failed sends and fragment boundaries.",
  MRP, [("receive window drain", "mrp/src/window.rs:BufferWindow::put/drain_front"), ("sequence assignment", "mrp/src/stream.rs:try_send"), ("fragment merge", "mrp/src/stream.rs:merge_packets")],
  "Two real streams over a simulated network; oracle is a reference list of accepted messages compared at every delivery.")
P("M02", "Reliable stream windows are bounded and sends are all-or-nothing",
  "A stream of limited capacity never holds more unacknowledged outgoing packets, nor more buffered incoming packets, than that capacity, and refuses anything beyond it with an error. A send that is refused, or whose transmission fails, leaves no trace: nothing of it is transmitted or retransmitted and the next accepted message takes its place in the sequence; a fragmented send transmits either all its fragments or none.",
  ["fault_sequences", "inputs", "histories"],
  "All sequences of sends (including failing transmissions), receptions and polls, all capacities, and all network fault patterns, including a misbehaving peer.",
  "Tests fill a window once in order; they do not combine failing transmissions, refused fragments, sliding windows and packets at the edges of the window.",
  MRP, [("capacity checks", "mrp/src/stream.rs:try_send/try_send_fragmented"), ("window bounds", "mrp/src/window.rs:get_pos/put")],
  "Checked after every operation against a reference model of both windows.")
P("M03", "Acknowledgements never cover a packet that was not received in order",
  "An acknowledgement a stream sends covers only packets it has received without a gap, and successive acknowledgements never go back. A sender forgets a packet only when an acknowledgement that covers it arrives; late, repeated or impossible acknowledgements never make it forget, or repeat, anything else.",
  ["fault_sequences", "histories", "inputs"],
  "All orders in which data and acknowledgements are lost, duplicated, delayed or replayed, and all acknowledgement numbers a peer can send.",
  "Tests check acknowledgements in scripted exchanges; stale and impossible acknowledgements arriving at arbitrary points are not enumerable by example.",
  MRP, [("ack generation", "mrp/src/stream.rs:try_send_ack"), ("ack processing", "mrp/src/stream.rs:update_send_window"), ("slide", "mrp/src/window.rs:drop_front")],
  "Ack numbers and the sender's retained packets are compared with a reference model at every step.")
P("M04", "Reliable stream recovers: everything accepted arrives once faults stop",
  "While a packet is unacknowledged and its timeout has passed, the next poll retransmits it exactly once (and no packet is retransmitted before its timeout); received data is acknowledged at the next poll, even when the previous acknowledgement was lost. Once the network stops losing packets, every accepted message is delivered and both windows empty within a bounded number of polls.",
  ["fault_sequences", "histories"],
  "All histories of faults followed by a fault-free period, for all window sizes and timeouts.",
  "A liveness property over unbounded fault histories; tests only run a few scripted losses to completion.",
  MRP, [("retransmission", "mrp/src/stream.rs:try_resend"), ("re-acknowledgement of repeats", "mrp/src/stream.rs:update_receiver_window")],
  "Bounded-liveness check after faults stop: outstanding packets + 6 polls.")
P("M05", "A hostile stream peer cannot crash, bloat or rewind the stream",
  "Whatever headers a peer sends, in any order, a stream of limited capacity never panics, never buffers more than its capacity, never moves its in-order position backwards or by more than its capacity at once, and never forgets an outgoing packet that was not acknowledged. What it delivers is always the contents of consecutive packets in order, each at most once, joined only as their sender said and never more than the window holds; a message within a message and one larger than the window are refused, and whatever comes after them is delivered again. Packets that carry no stream header are passed through untouched.",
  ["inputs", "histories", "fault_sequences"],
  "All header values (sequence numbers, acknowledgements, fragment counts at and beyond every boundary) in all positions of a history.",
  "Tests send a few malformed headers to fresh streams; boundaries move with the window, so histories matter.",
  MRP, [("window bounds", "mrp/src/window.rs:get_pos"), ("fragment count check", "mrp/src/stream.rs:merge_packets")],
  "Boundary-biased adversarial packets mixed into normal traffic.")

K = ["src/rust/src/core/crypto.rs"]
P("K01", "Frame encryption never reuses a key and counter",
  "Every frame a participant encrypts carries a frame counter larger than all its earlier ones, for the life of the call, across every ratchet step and key change; no two encrypted blocks are ever produced from the same piece of key stream, nothing is sent in the clear, and the ratchet number in a frame is the number of ratchet steps made since the last key change (modulo 256).",
  ["histories", "inputs"],
  "All interleavings of frames, ratchet steps and key changes, all frame sizes, with any number of ratchet steps (including more than 256).",
  "Unit tests encrypt a handful of frames around one ratchet step; reuse shows only across long histories that mix ratchets and rotations.",
  K, [("counter and IV", "src/rust/src/core/crypto.rs:Context::encrypt"), ("key change", "src/rust/src/core/crypto.rs:reset_send_ratchet")],
  "Key stream blocks recovered from plaintext and ciphertext are compared over the whole run.")
P("K02", "A receiver that holds the key decrypts every frame exactly, in any order",
  "A receiver that was given a sender's key (among the five most recent keys it was given for that sender) decrypts every frame made with that key or with a later ratchet step of it, to exactly the original contents, whatever frames or keys were lost, duplicated, delayed or reordered - as long as a frame of an older ratchet step is at most 300 frames and 5 ratchet steps behind the newest one seen. Forged or undecryptable frames in between change nothing about that.",
  ["fault_sequences", "histories"],
  "All orders of frames and key messages produced by a network that loses, duplicates, delays and reorders both, over several senders and receivers.",
  "The unit tests cover one frame out of order across one ratchet step; windows of 300 frames and 5 steps, several generations of keys and hostile frames combine into far more histories.",
  K, [("ratchet search", "src/rust/src/core/crypto.rs:ReceiverState::try_advance_ratchet"), ("retention", "src/rust/src/core/crypto.rs:limit_ooo/add_receive_secret")],
  "Oracle: a reference list of keys given and frames seen; a defect found this way (late frames of two older ratchet steps) was repaired.")
P("K03", "Forged frames are rejected, counted and harmless",
  "A frame whose contents, authentication code, frame counter, ratchet number or sender was altered is rejected and left untouched, it never affects the decryption of genuine frames, and every rejected frame is counted exactly once against the sender it claimed, between the current error statistics and the reports taken from them, even when the wall clock jumps.",
  ["inputs", "fault_sequences", "histories"],
  "All alterations of a frame at any point of any history of frames and key changes.",
  "Tests flip one bit of one MAC on a fresh context; harm shows in later frames, after state changed.",
  K, [("authentication before decryption", "src/rust/src/core/crypto.rs:Context::decrypt"), ("error statistics", "src/rust/src/core/crypto.rs:DecryptionErrorTracker")],
  "Forged copies of real frames are injected throughout.")
P("K04", "Keys that were never given or are retired decrypt nothing",
  "A receiver cannot decrypt frames made with a key it was never given, nor frames from before the ratchet step at which it was let in, nor frames of a key that five newer keys from that sender have pushed out, nor frames more than 5 ratchet steps older than the newest step it has followed.",
  ["histories", "fault_sequences"],
  "All histories of joins, key messages, ratchets and rotations.",
  "Forward secrecy is about everything a receiver must not be able to do after arbitrary histories.",
  K, [("retention limits", "src/rust/src/core/crypto.rs:MAX_RECEIVER_STATES_TO_RETAIN/limit_ooo")],
  "Negative oracle on every frame that must not decrypt.")

A = ["src/rust/src/common/actor.rs"]
P("A01", "An actor runs each task exactly once, one at a time, in order per sender",
  "Every task sent to a running actor is run exactly once, never at the same time as another task of that actor, and tasks sent by one thread run in the order they were sent. An actor whose state could not be created runs nothing.",
  ["schedules", "histories"],
  "All interleavings of up to four sender threads (and tasks that send on) with up to four actors.",
  "There are no tests of actors; ordering faults depend on thread interleavings.",
  A, [("task loop", "src/rust/src/common/actor.rs:Actor::start"), ("queue", "src/rust/src/common/actor.rs:Actor::send")],
  "Real threads and channels under the simulated scheduler.")
P("A02", "Delayed tasks are never early, never lost, and run in deadline order",
  "A task sent with a delay never runs before its delay has passed; when several are waiting in an actor, one with an earlier deadline runs first; and each runs exactly once, promptly once the actor is free, unless the actor is stopped first.",
  ["schedules", "histories"],
  "All mixtures of immediate and delayed tasks, delays from zero, slow tasks, spurious wake-ups and stalled threads.",
  "There are no tests of delayed tasks; order and timing depend on the clock and the schedule.",
  A, [("deadline heap", "src/rust/src/common/actor.rs:Actor::start"), ("deadline", "src/rust/src/common/actor.rs:Task")],
  "Virtual clock; order is judged only between tasks that were certainly received.")
P("A03", "Stopping actors is final and complete",
  "Once stopping has been requested an actor starts at most one more task; after stop-and-join has returned no task of any of its actors runs again, their threads have ended, tasks still queued or sent later (delayed ones included) never run, and stopping takes no longer than the tasks in progress. A task that panics takes down only its own actor.",
  ["schedules", "crash_points"],
  "All points at which a stop or a panic can happen relative to sends, running tasks and pending delayed tasks.",
  "Stops race with everything else; no test exercises them.",
  A, [("stop flag and join", "src/rust/src/common/actor.rs:Stopper")],
  "Actors are started before their stopper is stopped (a start racing with the stop is outside the claim).")

R = ["src/rust/src/simnet/router.rs", "src/rust/src/common/actor.rs"]
P("R01", "The network simulator delivers packets intact, once, and only where addressed",
  "A packet handed to the simulated network arrives only at the interface with its destination address, at most once, with unchanged contents and source; on links without loss whose queues can hold the traffic (idle links in particular) it arrives exactly once; a lossy link drops packets with its loss probability, or with its repeated-loss probability right after a dropped one; with an unknown source or destination a packet never arrives; and nothing arrives after the network is stopped.",
  ["schedules", "inputs", "histories"],
  "All topologies, link parameters, traffic patterns and thread schedules.",
  "The existing test sends a few packets over one configuration in real time.",
  R, [("routing", "src/rust/src/simnet/router.rs:Router"), ("loss", "src/rust/src/simnet/router.rs:Link::send_packet")],
  "Real router, links and actors under simulated threads and time.")
P("R02", "The network simulator respects delay, rate and queue limits",
  "A packet is delayed by between the minimum and the maximum delay of a link, over that whole range: it arrives no earlier than the minimum delays of its sending and receiving links plus the time both links need to transmit it (including network overhead); packets leave a link no faster than its rate; and a link never queues more than its queue size, dropping what does not fit.",
  ["schedules", "inputs", "histories"],
  "All link parameters, packet sizes, bursts and thread schedules.",
  "Timing over real sleeps cannot be judged by tests; here time is simulated.",
  R, [("leaky bucket", "src/rust/src/simnet/router.rs:LeakyBucket::send_packet"), ("delay", "src/rust/src/simnet/router.rs:Link::send_packet")],
  "Upper bounds on delay are judged only in runs whose threads are not stalled.")
P("H01", "Every HTTP response reaches exactly the request it answers",
  "Requests made through the app-driven HTTP client reach the app unchanged, each once and under an identifier no other request has; each response (or failure) is handed to the callback of the request with that identifier, exactly once; duplicate responses and responses with unknown identifiers are ignored; and requests, responses and follow-up requests made by callbacks on any number of threads never block each other for good.",
  ["schedules", "fault_sequences"],
  "All interleavings of requesting threads and responding threads, with lost, late, duplicated, failed, synchronous and unknown responses.",
  "There is no test of the client; mix-ups need concurrent requests and reordered responses.",
  ["src/rust/src/lite/http.rs"], [("callback table", "src/rust/src/lite/http.rs:DelegatingClient"), ("identifiers", "src/rust/src/lite/http.rs:ResponseCallbacks")],
  "The delegate does not issue requests from inside send_request (its lock is held there).")
P("N01", "Call links: everybody with the key reaches the same room and reads the truth",
  "A call link's key reads back exactly from the text and the bytes it is shared as (for keys with and without an epoch), and what reaches a device damaged is refused or is another well-formed key. All holders derive the same room, before and after its creation, and the name one sets is the name every holder reads; a name that cannot be decrypted is empty and the rest of the answer stands. Every request to create, read, change or delete a room says exactly what the caller asked, for that room and epoch, under the right authorization, and never tells the server the key or the name; a key unfit for the request is refused without one. Every answer is reported once to its caller as what it means, errors with their code, malformed ones as malformed, and no answer crashes the caller. Members of a room resolve to the same users for every thread.",
  ["inputs", "fault_sequences", "schedules"],
  "All keys, names, update requests and epochs, damaged texts and bytes, all answers of the server (unusual, damaged, lost, late, twice) and all interleavings of devices and threads.",
  "Tests check a handful of fixed keys, names and responses in one thread; they never damage an answer, mix up requests in flight or let devices exchange keys.",
  ["src/rust/src/lite/call_links.rs", "src/rust/src/lite/call_links/root_key.rs", "src/rust/src/lite/call_links/base16.rs", "src/rust/src/lite/call_links/member_resolver.rs"], [("requests", "src/rust/src/lite/call_links.rs:create_call_link/update_call_link"), ("keys and names", "src/rust/src/lite/call_links/root_key.rs:CallLinkRootKey"), ("member cache", "src/rust/src/lite/call_links/member_resolver.rs:resolve")],
  "zkgroup is a toy stand-in; AES-GCM-SIV and HKDF are the real crates on both sides of the comparison.")
P("S01", "Only content the manifest vouches for is ever registered as an asset",
  "An asset becomes readable only if an enabled manifest entry of its group vouches for exactly its contents by size and SHA-512; disabled, unknown, damaged, truncated or unreadable assets, invalid versions and a second asset of the same version are refused without changing anything; content an enabled entry vouches for is accepted; and once readable, an asset stays listed once, readable and unchanged for every concurrent reader.",
  ["inputs", "fault_sequences", "schedules"],
  "All manifests and contents (including contents that are prefixes of others), disk faults while reading, and concurrent readers.",
  "Tests register a few fixed assets in one thread from healthy storage.",
  ["src/rust/src/core/assets.rs", "src/rust/src/core/call_rwlock.rs"], [("verification", "src/rust/src/core/assets.rs:verify_asset"), ("registry", "src/rust/src/core/assets.rs:AssetRegistry")],
  "The order in which versions are listed is not claimed.")
P("L01", "Call-state locks exclude, and never hand out half-written state",
  "At most one holder of a call mutex (or writer of a call read-write lock) is inside at any time and never alongside readers; after a holder panicked every later acquisition reports an error instead of handing out the half-written state or crashing, unless it asks for a reset, in which case it gets a freshly reset value; without a panic no acquisition fails or resets.",
  ["schedules", "crash_points"],
  "All interleavings of up to four threads and all points at which a holder can panic.",
  "Lock behaviour depends on schedules and on panics at particular points; no test covers either.",
  ["src/rust/src/core/call_mutex.rs", "src/rust/src/core/call_rwlock.rs"], [("poison handling", "src/rust/src/core/call_mutex.rs:lock/lock_or_reset")],
  "Real std locks under simulated futexes and threads.")

CALLF = ["src/rust/src/core/call_manager.rs", "src/rust/src/core/call.rs", "src/rust/src/core/call_fsm.rs", "src/rust/src/core/connection.rs", "src/rust/src/core/connection_fsm.rs", "src/rust/src/native.rs"]
CALLQ = "All sequences of calls, answers, hang-ups, resets and crashes by up to six devices of three users, all losses, delays, duplicates, reordering and failures of signaling, ICE, media and WebRTC calls, and all thread schedules."
CALLW = "The unit tests drive one call manager with a mock platform through fixed sequences; races between its threads, and between devices, need controlled schedules and several real endpoints."
CALLN = "Real call managers, calls, connections and their threads for every device; WebRTC's C++ side, the signaling server and the application are simulated."
def C(id, title, statement, mech, note=CALLN, files=CALLF):
    P(id, title, statement, ["schedules", "fault_sequences", "histories"], CALLQ, CALLW, files, mech, note)
C("C01", "The application sees one 1:1 call at a time, through a well-formed life",
  "A device's application is told of the start of each call at most once, and of no other call's start while one is active (beyond the moment it takes to report the old one's end); a call it is told about rings before it connects, connects at most once, reports reconnecting only while connected, always names the same peer, and reports nothing after its end.",
  [("call state machine", "src/rust/src/core/call_fsm.rs:CallStateMachine"), ("active call", "src/rust/src/core/call_manager.rs:CallManager::active_call_id"), ("notifications", "src/rust/src/core/call.rs:Call::notify_application")])
C("C02", "Every call ends exactly once and is then concluded exactly once",
  "Every call that started is reported ended exactly once (or silently dropped by a reset) and every call, rejected ones included, is reported concluded exactly once, after its end. No call stays neither connected nor ended: without faults it gets there within its setup timeout, and a hang-up ends it.",
  [("ending", "src/rust/src/core/call_manager.rs:CallManager::terminate_call"), ("timeout", "src/rust/src/core/call_fsm.rs:handle_call_timeout"), ("conclusion", "src/rust/src/core/call.rs:Drop for Call")])
C("C04", "Both users agree about who is in a call",
  "Once faults stop and messages have arrived, a device that is in a connected call is in it with exactly one device of the other user, and no two devices of one user are in the same call. A call is reported connected only if the called user accepted it on one of their devices.",
  [("acceptance", "src/rust/src/core/call_fsm.rs:handle_remotely_accepted_connection"), ("forking", "src/rust/src/core/call.rs:Call::received_answer"), ("glare", "src/rust/src/core/call_manager.rs:handle_received_offer")])
C("C05", "The signaling messages of a call follow its protocol",
  "Only the caller sends an offer and each called device at most one answer, once each per call; ICE candidates follow the offer or answer and neither an offer nor an answer follows a hang-up. A local hang-up of a call the other side may know about is followed by a hang-up message, and the application is given one message at a time, the next only after it reported the last one sent or failed.",
  [("message queue", "src/rust/src/core/call_manager.rs:CallManager::send_next_message"), ("offer and hang-up", "src/rust/src/core/call.rs:Call::should_send_hangup")])
C("C06", "No media before acceptance, media after it, and no connection is left behind",
  "No device sends or plays media on a connection before the called user accepted (the caller: before it learnt of that), and at most one connection of a device sends media; a settled connected call has exactly one connected peer connection, with media flowing both ways. When all calls of a device are concluded all its peer connections are closed.",
  [("media gate", "src/rust/src/core/connection.rs:Connection::enable_media"), ("closing", "src/rust/src/core/connection.rs:Connection::terminate")])
C("C07", "A call ends for a reason that really happened",
  "The reason reported for the end of a call is true: a local hang-up only if the user hung up; a remote hang-up, decline, accept or busy elsewhere, glare or re-call only if a device of the right user did that; a timeout only after the setup timeout without a connection; a signaling, connection or internal failure only if something of that kind failed.",
  [("hang-up reasons", "src/rust/src/core/call_fsm.rs:handle_received_hangup"), ("failure reasons", "src/rust/src/core/call.rs:Call::handle_ice_failed")])
C("C08", "Every received offer is announced, or rejected for a reason that holds",
  "Each offer handed to a device leads to the start of that call or to a rejection, never both and never to silence; it is rejected as expired only if it was too old (and an expired one never rings), and as busy or glare only if another call was in the way, for glare a call with the same user.",
  [("collision handling", "src/rust/src/core/call_manager.rs:handle_received_offer")])
C("C09", "Remote status changes are reported faithfully and in order",
  "The states of the remote video, audio and screen sharing that are reported are states the peer has set, in the order it set them, never before the call was accepted and with the right peer; once faults stop the reported state is the peer's last one even if packets carrying it were lost, duplicated or reordered.",
  [("accumulated status", "src/rust/src/core/connection.rs:update_and_send_rtp_data_message"), ("sequence check", "src/rust/src/core/connection.rs:handle_received_rtp_data")])
C("C10", "The ends of a call share fresh media keys that tampering cannot influence",
  "The two ends of a connection that connects use the same SRTP keys, different for each direction and never reused by another connection. If the key exchange in an offer or answer was tampered with, the two ends never end up with matching keys.",
  [("key derivation", "src/rust/src/core/connection.rs:negotiate_srtp_keys")], note=CALLN + " The X25519 implementation is a stand-in of the same interface; the check is about how it is used.")
C("C11", "Closing leaves nothing behind",
  "Once close() has returned nothing is reported and no message is handed to the application any more, and no thread of the call manager or of any of its calls is left; close() returns promptly in every state.",
  [("close", "src/rust/src/core/call_manager.rs:CallManager::close"), ("thread shutdown", "src/rust/src/core/call_fsm.rs:CallStateMachine::drain_worker_thread")])
C("C12", "Neither side sends faster than the data modes and the network route allow",
  "Once settled, the send rate a device allows in a call is the lowest of its own data mode's, the rate its peer last asked for, and 1 Mbps if the connection is relayed on either side, but at least 30 kbps, whatever order mode changes, route changes and their (lossy) transmission happen in.",
  [("limit", "src/rust/src/core/connection.rs:BandwidthController::max_send_rate"), ("updates", "src/rust/src/core/connection.rs:update_bandwidth_controller")])
C("C13", "A call uses the settings chosen for it, and codecs both ends can handle",
  "A 1:1 call's connections are made the way the application chose for that call: through relays only if it asked to hide its address, with its relay servers, jitter buffer, report interval, audio encoder and decoder settings. Each end may send only the video codecs it is configured to send and the other end is configured to decode, and the better codec is available whenever both allow it, also with an older version on the other end, which knows no codecs for one direction only. WebRTC is given only candidates the other side gathered, unaltered, and told to forget only addresses the other side removed.",
  [("codec negotiation", "src/rust/src/webrtc/sdp_observer.rs:SessionDescription::to_v4/from_v4"), ("offer and answer", "src/rust/src/core/connection.rs:start_outgoing_child/start_incoming"), ("candidates", "src/rust/src/core/signaling.rs:IceCandidate"), ("settings", "src/rust/src/native.rs:NativePlatform::create_connection")],
  files=CALLF + ["src/rust/src/webrtc/sdp_observer.rs", "src/rust/src/webrtc/network.rs", "src/rust/src/core/signaling.rs"])

GRPF = ["src/rust/src/core/group_call.rs", "src/rust/src/core/call_manager.rs", "src/rust/src/lite/sfu.rs", "src/rust/src/core/crypto.rs", "src/rust/src/native.rs"]
GRPQ = "All sequences of joins, leaves, disconnects, mutes, reactions, rings, admin actions, crashes and 1:1 calls by up to six devices of three users in up to two rooms (groups and call links), all losses, delays, duplicates, reordering, failures and forgeries on the way to and from the SFU and the signaling service, and all thread schedules."
GRPW = "The unit tests drive one client with a mock SFU and observer through fixed sequences; what several clients, the SFU, the network and the threads between them do together needs controlled schedules and real endpoints on every device."
GRPN = "Real call managers and group clients on every device; WebRTC's C++ side, the SFU, the signaling service and the application are simulated."
def G(id, title, statement, mech, note=GRPN, files=GRPF):
    P(id, title, statement, ["schedules", "fault_sequences", "histories"], GRPQ, GRPW, files, mech, note)
G("G01", "A group call client lives a well-formed life and ends completely",
  "A client reports only sensible connection and join state changes: connected only after its peer connection is, joined only after the SFU let it in, never more joins than were asked for. A disconnected or failed client reports its end exactly once, after it left and closed its peer connection, and nothing afterwards; no join stays undecided, and after close() no thread is left and nothing is reported.",
  [("state changes", "src/rust/src/core/group_call.rs:set_connection_state_and_notify_observer/set_join_state_and_notify_observer"), ("end", "src/rust/src/core/group_call.rs:Client::end")])
G("G02", "What a client reports about participants is true and becomes complete",
  "A client never lists itself, a device twice, a device the SFU never announced, or a device under the wrong user; what is known about a listed device (its keys, when it was added) is not lost while it stays listed. Once the network is calm, every client in a call lists exactly the other participants, its connection's description names the same ones, and an approved client learns that it was. A peek is answered exactly once.",
  [("peek results", "src/rust/src/core/group_call.rs:Client::set_peek_result_inner"), ("polling", "src/rust/src/core/group_call.rs:Client::request_remote_devices_as_soon_as_possible")])
G("G03", "Media keys reach only participants, and not those who left",
  "A client sends its media key only to users that its view of the call contains, each with its own identity, never to the whole group, and two clients never use the same key. What a client sends more than about ten seconds after it noticed that a user left cannot be decrypted with any key that user was given, and nothing it sent before a user joined can be decrypted with the keys given to that user.",
  [("key rotation", "src/rust/src/core/group_call.rs:rotate_media_send_key_and_send_to_users_not_removed"), ("key advance", "src/rust/src/core/group_call.rs:advance_media_send_key_and_send_to_users_with_added_devices")])
G("G04", "A media key is accepted only from the user it belongs to",
  "A media key that another user sends for somebody's device is never used to decrypt what claims to come from that device, whenever it arrives: before the device is known, after, or while participants change.",
  [("acceptance", "src/rust/src/core/group_call.rs:add_media_receive_key_or_store_for_later")])
G("G05", "Participants can decrypt each other, over a connection only they can set up",
  "Once the network is calm and keys were sent again, each participant of a call can decrypt what every other participant encrypts, and media never leaves a client unencrypted. A client connects only with the ICE credentials of its own join, derives the same SRTP keys as the SFU, different ones per direction, and never accepts a low-order key from the SFU.",
  [("frame encryption", "src/rust/src/core/group_call.rs:Client::encrypt_media/decrypt_media"), ("SRTP negotiation", "src/rust/src/core/group_call.rs:DheState::negotiate"), ("pending keys", "src/rust/src/core/group_call.rs:pending_media_receive_keys")])
G("G06", "Admin actions and SFU notices arrive reliably and in order",
  "Every approval, denial, removal and block that an admin asked for while in the call reaches the SFU, in the order asked, although packets are lost, duplicated and reordered, and with exactly the identity of its target. Every reliable notice of the SFU, fragmented or not, is acted on: a removed client ends.",
  [("reliable stream", "src/rust/src/core/group_call.rs:reliable_send_device_to_sfu/handle_sfu_to_device"), ("admin actions", "src/rust/src/core/group_call.rs:Client::approve_user/deny_user/remove_client/block_client")])
G("G07", "Mute and presentation states are those their owners set",
  "What a client reports as another participant's mute, presentation and screen-sharing state is a state that participant's application set, states are seen in the order they were set, and once the network is calm the last one is seen. A remote mute is reported only if that participant asked for it, and 'muted by' only if its target accepted it.",
  [("heartbeats", "src/rust/src/core/group_call.rs:handle_heartbeat_received/send_heartbeat"), ("remote mute", "src/rust/src/core/group_call.rs:handle_remote_mute_request")])
G("G08", "Reactions are delivered at most once, with their true author",
  "A reaction that is reported was sent by the participant it is attributed to, in the same call, and is reported at most once, also when an SFU passes packets off as another participant's.",
  [("reactions", "src/rust/src/core/group_call.rs:handle_reaction/send_reaction")])
G("G09", "Raised hands converge to what their owners last asked for",
  "No hand is reported as raised whose owner never raised it; once the network is calm, the SFU knows of each participant what it last asked for, whatever was lost, and each client reports the SFU's list.",
  [("raising", "src/rust/src/core/group_call.rs:Client::raise_hand"), ("sequence numbers", "src/rust/src/core/group_call.rs:handle_raised_hands")])
G("G10", "Leaving a call is announced, once it is true",
  "A client announces that it leaves (to the other participants and the SFU) only when it does, a client is never reported as leaving on somebody else's word, its media is off once it left, and after an undisturbed leave the SFU was told.",
  [("leaving", "src/rust/src/core/group_call.rs:Client::leave_inner/send_leaving_through_sfu_and_over_signaling"), ("receiving", "src/rust/src/core/group_call.rs:handle_leaving_received")])
G("G11", "A device is in at most one call, and never locked out of the next",
  "A device is never in two group calls, or in a group call and a 1:1 call, at the same time. Once all its calls ended, whatever way they ended, it can join a call again.",
  [("busy flag", "src/rust/src/core/call_manager.rs:CallManager::busy"), ("release", "src/rust/src/core/group_call.rs:Client::release_busy")])
G("G12", "Group calls keep to their rates, and ask for the video the user wants",
  "Alone in a call a client sends no media; the send limits it sets follow the number of participants and whether the screen is shared; the receive limit and the resolutions it asks of the SFU follow the data mode and the application's latest request, for participants of the call only.",
  [("rates", "src/rust/src/core/group_call.rs:Client::compute_send_rates"), ("video requests", "src/rust/src/core/group_call.rs:send_video_requests_to_sfu")])
G("G13", "Rings go out once, for one's own call, and are answered truthfully",
  "A device rings a group at most once per call, only if asked to and only for a call its own user started, and cancels only a ring it sent, which it does when it leaves before anybody joined and never after somebody did. A device rings (and reports a cancellation, a busy state or an answer elsewhere) only because such a message came from another user, or one's own other device, for that group, not when the ring is over a minute old, and not while it is in another call, in which case it reports that it is busy.",
  [("outgoing rings", "src/rust/src/core/group_call.rs:Client::ring_inner/cancel_full_group_ring_if_needed"), ("incoming rings", "src/rust/src/core/call_manager.rs:CallManager::handle_received_call_message")])
G("G14", "Requests carry the right credentials, and an end its true reason",
  "Every request to the SFU goes to the room's address with the membership proof or call-link credentials of that user for that room, and the admin passkey if and only if the client has it. A call ends with a reason that happened: removal, denial, a full call, another call, failed requests, key agreement or connection, or the user's wish.",
  [("requests", "src/rust/src/lite/sfu.rs:join/peek"), ("reasons", "src/rust/src/core/group_call.rs:CallEndReason")])
G("G15", "A group call says truthfully whose video it gets, and whether better is pending",
  "A client reports that a participant's video is forwarded, and at which height, only as the SFU last told it, and a decoded height only if such a picture was decoded and the participant's video is not muted. It says that higher resolution is pending exactly if the height allocated by the SFU exceeds the height last decoded; once pictures of an unmuted participant arrive again, also after the video was muted or not forwarded for a while and even if its size is as before, this becomes true again at once.",
  [("forwarded videos", "src/rust/src/core/group_call.rs:Client::handle_forwarding_video_received"), ("decoded heights", "src/rust/src/core/group_call.rs:PeerConnectionObserverImpl::handle_incoming_video_frame")])
G("G16", "A group call reports every decryption failure to the SFU, and each just once",
  "While a client is connected, the decryption failures that it reports to the SFU for a participant never exceed those that happened, and by the time it has left, each failure that happened while it was connected has been reported exactly once, however often the report is sent again and however failures and timers interleave.",
  [("reports", "src/rust/src/core/group_call.rs:send_decryption_stats_inner"), ("counting", "src/rust/src/core/crypto.rs:DecryptionErrorTracker")])
P("E01", "Endorsements are used only for their member, room and lifetime",
  "In a call-link call, a message sent with an endorsement goes only to users for whom the SFU issued that very endorsement for this call, and never with one that has expired.",
  ["schedules", "fault_sequences", "histories"], GRPQ,
  "Endorsements arrive, are replaced and expire while participants come and go; tests use one fixed set.",
  ["src/rust/src/core/endorsements.rs", "src/rust/src/core/group_call.rs"], [("cache", "src/rust/src/core/endorsements.rs:EndorsementsCache"), ("use", "src/rust/src/core/group_call.rs:send_media_send_key_to_users_over_signaling")],
  GRPN + " The zkgroup cryptography is a toy with the same interface.")
P("P01", "The log never tells secrets",
  "What a release build logs (at level info and above) never contains a participant's IP address in any notation, an ICE password, a candidate's foundation, an agreed SRTP key or media key, a membership proof, or a call link's root key, passkey or credentials, in whatever state, order or failure it is logged.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "All descriptions, candidates and routes that WebRTC reports, in all notations of addresses, all keys and credentials, and all histories of 1:1 and group calls with their faults.",
  "Tests redact a fixed list of strings; whether every line that is ever logged, in every branch, is free of what identifies a user is not something examples can show.",
  ["src/rust/src/core/util.rs", "src/rust/src/webrtc/peer_connection_observer.rs", "src/rust/src/webrtc/peer_connection.rs", "src/rust/src/core/connection.rs", "src/rust/src/core/group_call.rs"],
  [("redaction", "src/rust/src/core/util.rs:redact_string"), ("candidates", "src/rust/src/core/connection.rs:inject_local_ice_candidate"), ("routes", "src/rust/src/webrtc/peer_connection_observer.rs:pc_observer_OnIceNetworkRouteChange")],
  "Each secret is noted when the simulated world creates or learns it, and every line the code logs is searched for it; a secret encoded in an unforeseen way is missed. WebRTC's own logging is not real.")

P("D01", "The audio devices shown, named and used are the real ones",
  "The lists of microphones and speakers that the app and WebRTC are given are exactly the devices there are (the default one first, monitors of outputs left out), with a name that fits; the app is told of every change of a list, and what it was told can be listed and selected at once; a device that is listed can be selected by its place or its identifier, one that is not is refused, and what plays or records afterwards is the selected device.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "All devices with or without identifiers, all names and their lengths, all orders of plugging, unplugging, enabling and changing the default while the app and WebRTC use them; failing and slow enumeration.",
  "Tests extract names from fixed lists; the races between a change of devices, its notice, the selection and the worker which carries it out never occur in them.",
  ["src/rust/src/webrtc/audio_device_module.rs", "src/rust/src/webrtc/audio_device_module_utils.rs", "src/rust/src/webrtc/peer_connection_factory.rs"],
  [("change of devices", "src/rust/src/webrtc/audio_device_module.rs:refresh_device_cache"), ("selection", "src/rust/src/webrtc/audio_device_module.rs:set_device_by_id"), ("list", "src/rust/src/webrtc/audio_device_module_utils.rs:extract_names"), ("names", "src/rust/src/webrtc/audio_device_module_utils.rs:copy_and_truncate_string")],
  "Linux rules for default and monitor devices (the rules of Windows and macOS are not compiled here). The back end announces every change.")
P("D02", "Sound flows exactly while it is wanted",
  "While WebRTC plays or records, its samples and the sound card's pass each other unchanged, complete and in order, in windows of 10 ms; no recorded sound reaches WebRTC while it is not recording (in particular while the microphone is only warmed up, after a stop, and after the module is gone), whatever device calls fail; no stream runs that nobody wants; once the app selected a working device, what is wanted runs; streams and the audio context are closed, in their order, when the module goes.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "All orders of WebRTC's and the app's commands, device changes, failing or slow starts, stops and creations of streams, all sizes of the hardware's buffers, callbacks at any moment.",
  "No test runs a stream. Whether a failed stop leaves the microphone on, or a failed start leaves it silent for good, takes a fault at a certain call and a certain order of commands.",
  ["src/rust/src/webrtc/audio_device_module.rs", "src/rust/src/webrtc/ffi/audio_device_module.rs", "src/rust/src/webrtc/peer_connection_factory.rs"],
  [("playing", "src/rust/src/webrtc/audio_device_module.rs:init_playout"), ("recording", "src/rust/src/webrtc/audio_device_module.rs:init_recording"), ("warm-up", "src/rust/src/webrtc/audio_device_module.rs:start_recording"), ("device change", "src/rust/src/webrtc/audio_device_module.rs:update_recording_device"), ("end", "src/rust/src/webrtc/audio_device_module.rs:terminate")],
  "libcubeb is simulated: stopping or destroying a stream waits for its callback, a stream whose device is gone stops by itself. The app warms the microphone up only while WebRTC does not record.")
P("D03", "The playout delay is measured after it is asked for, and in time",
  "When WebRTC asks for the playout delay, it is answered within a bounded time; the answer is one that was measured after the question, and a running stream's delay is refused only when the measurement failed or took too long.",
  ["schedules", "fault_sequences"],
  "All schedules of the asking thread, the worker and its other commands, with slow and failing device calls.",
  "An answer that comes after its question was given up must not be taken for the next one's; no test has a slow device.",
  ["src/rust/src/webrtc/audio_device_module.rs"],
  [("question", "src/rust/src/webrtc/audio_device_module.rs:playout_delay")],
  "Simulated time; the bound allows for the simulator's scheduling delays.")
P("W01", "Everything shared with the media library lives exactly as long as it is used",
  "Whatever the media library lends to RingRTC (factories, peer connections, observers, descriptions, ICE gatherers, streams, tracks) is used only while it is held and released exactly once: a factory outlives its connections, a connection is closed before the observers it reports to are released. Whatever RingRTC lends to the library exists whenever the library calls back on it, and during the call. However a call ends, whichever step failed and in whatever order the threads do it, nothing is left on either side once the call manager is closed.",
  ["schedules", "fault_sequences", "crash_points"],
  GRPQ + " The same for the 1:1 calls of several users with several devices; every creation in the library may fail.",
  "The tests run against a stand-in library that frees nothing and in which nothing is called back late; leaks, double releases and callbacks on freed objects need concurrent ends, failing steps and a library that counts.",
  ["src/rust/src/webrtc/arc.rs", "src/rust/src/webrtc/ptr.rs", "src/rust/src/webrtc/peer_connection.rs", "src/rust/src/webrtc/peer_connection_factory.rs", "src/rust/src/webrtc/sdp_observer.rs", "src/rust/src/core/connection.rs", "src/rust/src/core/group_call.rs"],
  [("reference counts", "src/rust/src/webrtc/arc.rs:Arc"), ("single owners", "src/rust/src/webrtc/ptr.rs:Unique"), ("connection", "src/rust/src/webrtc/peer_connection.rs:PeerConnection::drop"), ("end of a 1:1 connection", "src/rust/src/core/connection.rs:terminate"), ("end of a group call", "src/rust/src/core/group_call.rs:end")],
  "The library is simulated: it counts what it lends, and the allocator tells it when a Rust object that it was given is freed. An observer of one description may be freed as soon as its waiter has the result.")

P("X01", "Video frames reach the application once, whole, upright and as their sender's",
  "Each picture that the camera takes is given to the media library as it is, in whichever pixel format it comes. Each decoded picture is shown to the application exactly once, as the video of the participant who sent it, with its true size and rotation; turning it upright, reading it as I420 or RGBA and scaling it there and back yield the picture that was taken. No picture is shown after the connection is closed, and every frame is given back to the library.",
  ["inputs", "schedules", "fault_sequences"],
  GRPQ + " The same for 1:1 calls; pictures of all shapes, formats and rotations, up to 14 pixels wide and high.",
  "No unit test shows a frame; sizes, rotations and their combination with connections that come, go and fail need a library that decodes.",
  ["src/rust/src/webrtc/media.rs", "src/rust/src/webrtc/peer_connection_observer.rs", "src/rust/src/core/connection.rs", "src/rust/src/core/group_call.rs"],
  [("frames", "src/rust/src/webrtc/media.rs:VideoFrame"), ("decoded frames", "src/rust/src/webrtc/peer_connection_observer.rs:pc_observer_OnVideoFrame"), ("camera", "src/rust/src/webrtc/media.rs:VideoSource::push_frame")],
  "The library's own picture handling (colour conversion, scaling, rotation) is a stand-in; how RingRTC uses it is real.")

P("X02", "Audio levels and speech events say what the microphone and the library measured",
  "The application is told audio levels only if it asked for them, not more often than it asked, and each time those that the media library just measured for that call. A group call suggests to lower the hand only after at least 5 s of speech into an unmuted microphone, in which no silence lasted 3 s; it says that the user stopped speaking only after such a suggestion and 3 s of silence, and neither twice in a row. While a call is connected both keep being noticed.",
  ["schedules", "histories"],
  GRPQ + " The same for 1:1 calls; all patterns of speech, pauses and silence.",
  "The tests' peer connection measures nothing; what is said depends on timers, on the history of levels and on when the microphone is muted.",
  ["src/rust/src/core/group_call.rs", "src/rust/src/core/connection.rs", "src/rust/src/webrtc/peer_connection.rs"],
  [("levels", "src/rust/src/webrtc/peer_connection.rs:PeerConnection::get_audio_levels"), ("speech", "src/rust/src/core/group_call.rs:Client::tick"), ("1:1 calls", "src/rust/src/core/connection.rs:Connection::tick")],
  "The library's measurement is simulated; how far a thread is held up between measurement and report is taken into account.")

P("P02", "The log never tells an audio device's name",
  "What a release build logs about audio devices, its own lines and those passed on from the audio library on any platform, contains at most the first characters of a device's name, identifier and group, whatever the names are, whether one contains another, and however long the line is.",
  ["inputs", "schedules"],
  "All combinations of names, identifiers and groups in the library's six kinds of lines, long lines which the library cuts off, and the module's own lines in all its histories.",
  "Tests redact four fixed lines; names that contain each other and lines that are cut off are not among them.",
  ["src/rust/src/webrtc/audio_device_module.rs", "src/rust/src/webrtc/audio_device_module_utils.rs"],
  [("library lines", "src/rust/src/webrtc/audio_device_module.rs:log_c_str"), ("redaction", "src/rust/src/webrtc/audio_device_module_utils.rs:redact_by_regex"), ("own lines", "src/rust/src/webrtc/audio_device_module.rs:device_str")],
  "The lines are those of the cubeb version in use; a random part of each name is searched for in every line.")

P("V01", "Call statistics tell what happened since the report before",
  "Each report of WebRTC yields, between a begin and an end, one snapshot for the connection and one for each stream in it: its counts, rates, averages and losses are those of the time since that stream's previous report (kept while the stream is absent for less than ten minutes; from zero for a new stream and for a video sender that started again), its levels are the current ones in their units; nothing is negative, infinite or not a number, whatever the clock does; the route named is one that was in use; the raw report can be taken once, and is the latest.",
  ["inputs", "histories", "fault_sequences", "schedules"],
  "All numbers of streams of the four kinds that come, pause, end, start again and return, all counters, delayed and repeated reports, a wall clock that is set back or ahead between them, and the app asking at any moment.",
  "There is no test of the statistics at all; errors of this kind show in one field of one line only after certain histories (a pause, a restart, a repeated timestamp).",
  ["src/rust/src/webrtc/stats_observer.rs"],
  [("report", "src/rust/src/webrtc/stats_observer.rs:on_stats_complete"), ("restart", "src/rust/src/webrtc/stats_observer.rs:is_new_stream"), ("forgetting", "src/rust/src/webrtc/stats_observer.rs:remove_old_stats"), ("raw report", "src/rust/src/webrtc/stats_observer.rs:take_stats_report")],
  "WebRTC's counters and its thread are simulated; the CPU load is the machine's and not judged. Counters never decrease unless the stream starts again; only a video sender is expected to notice that.")
P("V02", "The summary of a call is true, complete and small enough",
  "The summary that the app gets of a call gives its real times (from the moment it connected, never ending before it starts, whatever the clock does), the medians of what was measured, whether the user may be asked about it, and telemetry of at most 64 KiB: every stream's distributions (of at most 500 streams of each kind), the newest reports that the limits allow, in order and each with its events, the counts of route changes and reconnects, and whether the call was relayed; parts are left out only when they do not fit, the oldest reports first. What is shown to the user as text is what is sent.",
  ["inputs", "histories", "fault_sequences", "schedules"],
  "All histories of events, reports, limits and clock changes before a summary, calls without any report, with thousands of them and with more streams than are kept; summaries made while reports and events arrive.",
  "Tests prune three telemetry records and compute one variance. What a summary says after a certain history (never connected, no report, still on a relay, clock set back) is not tested.",
  ["src/rust/src/core/call_summary.rs", "src/rust/src/webrtc/stats_observer.rs", "protobuf/protobuf/call_summary.proto"],
  [("pruning", "src/rust/src/core/call_summary.rs:prune_if_too_large"), ("direct call", "src/rust/src/core/call_summary.rs:build_call_summary"), ("sets", "src/rust/src/core/call_summary.rs:establish_current_stats_set"), ("events", "src/rust/src/core/call_summary.rs:process_connection_observer_event")],
  "Medians are judged with the 2% error of the sketch in use. Whether a call was relayed is judged only while the wall clock is not set, as the shipped code relates it to wall time.")
