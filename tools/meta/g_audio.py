import runpy, pathlib
_h = pathlib.Path(__file__)
_b = runpy.run_path(str(_h.with_name("b_misc.py")))
BOTH, ENUM = _b["BOTH"], _b["ENUM"]
def F(*a): return ["src/rust/src/webrtc/" + f for f in a]
PROPS = [
 dict(id="C42", title="Audio: the right device, exactly while it is wanted, every sample in order",
  statement="At any time at most one stream is open in each direction; it is on the device chosen last (or the default one, if none is or that is gone) and runs exactly while WebRTC plays or records or the app warms up the microphone, also over changes of devices, and WebRTC hears the microphone exactly while WebRTC records. Every sample that WebRTC gives is played and every one that is recorded reaches WebRTC, once, in order and in windows of 10 ms, whatever amounts the sound card asks for, until one of them fails. A playout delay is the current one or none within 50 ms, and threads, streams and the module are released with the last handle, also when the set-up fails.",
  over=["histories","schedules","inputs"], text="Every sequence up to the depth of choosing devices, warming up, devices coming and going, failures, and WebRTC initializing, starting and stopping; every sequence of callback sizes and answers; every schedule within the bound of a sound card that delivers while recording stops or changes.",
  why="The repository tests only that the module starts, on a machine with a sound card.",
  files=F("audio_device_module.rs","ffi/adm.rs","peer_connection_factory.rs"), mech=[("Worker, AudioDeviceModule","src/rust/src/webrtc/audio_device_module.rs")],
  technique=BOTH, level="model_checking", note="All reachable states to the depth against a reference model, exhaustive sequences of 5 (6) callbacks, schedules with up to 4 (6) deviations; the C library cubeb and WebRTC are stand-ins that check how they are used. Linux' rules for devices; nothing is promised for a direction whose device failed to open, until WebRTC stops it."),
 dict(id="C43", title="Audio logs and errors never show what devices are called",
  statement="No line that ringrtc logs of the sound library or of its own, and no error it returns, shows more of a device's name, id or group than its first four characters (the first one if it is not ASCII), also when the library cut the line off. The rest of such a line is left as it is, as are lines that tell no names. Lists of all devices that the library logs are not shown at all.",
  over=["inputs","histories"], text="Every line of the library that tells names, with every combination of a set of names that overlap, are short, empty or outside ASCII, cut off after every byte; everything logged and returned in every sequence up to the depth of what may be done with devices.",
  why="Tests redact four lines; which names overlap or where a line is cut off depends on what users call their headsets.",
  files=F("audio_device_module.rs","audio_device_module_utils.rs"), mech=[("log_c_str, redact_by_regex, redact_for_logging","src/rust/src/webrtc/audio_device_module_utils.rs")],
  technique=ENUM, level="exploration", note="Exhaustive over the forms, names and cuts, and over histories of 3 (4) operations, in builds without debug assertions (others show names by design); the library's lines are those that ringrtc's patterns describe."),
 dict(id="C44", title="Audio devices: what is listed, what it is called, and what a choice means",
  statement="The devices offered are those that are enabled and have a name, except monitors of what is played, after the default one, which is called so and may be a monitor; a device without an id gets one of its own. The app and WebRTC get the same list, under names cut off at 127 bytes and never within a character, and a choice by number or by id, of the app or of WebRTC, is for exactly the device listed so and refused for others. The app is told of the new list once whenever what is known of devices changes, and only then.",
  over=["inputs","histories"], text="Every list of up to two devices of 64 kinds and of three of 33, every change between two such lists, every choice in them by number and id, and every length of names of four widths of characters.",
  why="Tests list two plain devices; devices that are disabled, nameless, monitors, equal or long occur on users' computers only.",
  files=F("audio_device_module.rs","audio_device_module_utils.rs","peer_connection_factory.rs"), mech=[("DeviceCollectionWrapper, copy_and_truncate_string","src/rust/src/webrtc/audio_device_module_utils.rs")],
  technique=ENUM, level="exploration", note="Exhaustive over the lists and their changes, through the real worker; Linux' rules for devices; the sound library and WebRTC are stand-ins."),
 dict(id="C45", title="WebRTC boundary: what is asked reaches the object it is asked of, once",
  statement="Every operation on a peer connection, track, video source, frame or ICE gatherer reaches exactly the object it was called on, exactly once and with exactly its arguments, and its outcome is what WebRTC says (a failure is an error; levels, estimates and pictures come back as they are). Whatever is given or handed over is alive for as long as WebRTC may use it: a factory outlives what it made and an observer its connection, nothing is used after its release, and everything is released once nothing needs it. WebRTC's log lines are logged once, at their level.",
  over=["inputs","histories"], text="Every operation with every combination of its arguments' edge values, on either of two connections, succeeding and failing; every sequence to the depth of making, sharing, using and dropping factories, connections, tracks, sources, gatherers and frames; every level and form of log line.",
  why="Tests run against a simulator of the same wrappers; a wrong pointer, argument or order of release shows only with the real library, on one platform, as a crash.",
  files=F("peer_connection.rs","peer_connection_factory.rs","media.rs","ice_gatherer.rs","logging.rs","arc.rs"), mech=[("PeerConnection, PeerConnectionFactory","src/rust/src/webrtc/peer_connection.rs")],
  technique=ENUM, level="exploration", note="Exhaustive over operations and edge arguments, and over histories of 7 (9) steps with merging; WebRTC is a stand-in that counts references and notes what it is asked. Send rates are assumed to fit 31 bits."),
]
