EMU = "The player is assembled from the tree with cc65 and executed on lib/csrc/a2vm.c, an NMOS-cycle-counting 65C02 with a W5100 model; the emulator's fidelity is trusted (its instruction timing was cross-checked against py65). "
ENC = "The real encoder runs in-process on synthetic movies (stand-ins replace only ffmpeg, the audio decoder and the external bmp2dhr converter). "
SIM = "The real simulator runs in-process; its prints are discarded. "
TECH = {
 "C01": "runtime monitor over recorded streams: independent parser",
 "C02": "runtime monitor: encoder state vs independent decoder",
 "C03": "runtime monitor over recorded streams: store addresses",
 "C04": "runtime monitor over recorded streams: bank and content provenance",
 "C05": "runtime monitor: conservation and order of audio samples",
 "C06": "runtime monitor: frame fetch and update trace vs schedule",
 "C07": "offline checker: limited vs unlimited recorded streams",
 "C08": "runtime monitor: convergence (bounded liveness) of update passes",
 "C09": "runtime monitor: per-store optimality recomputed from memory",
 "C10": "runtime monitor: priority order vs reference accumulator",
 "C11": "exhaustive assertion sweep and random-history monitor",
 "C12": "history monitor: incremental vs rebuilt state",
 "C13": "differential monitor vs independent dot renderer",
 "C14": "differential monitor vs edit distance recomputed from memory",
 "C15": "differential monitor vs independent dynamic program",
 "C16": "differential monitor vs independent CIEDE2000",
 "C17": "execution monitor of the assembled player vs symbol addresses",
 "C18": "round-trip monitor with purity assertions",
 "C19": "cycle-stamped trace monitor of the assembled player",
 "C20": "bus-write trace monitor of the assembled player",
 "C21": "trace monitor of network chip accesses under random schedules",
 "C22": "trace monitor of startup, pause and exit with fault injection",
 "C23": "black-box monitor of a real server process with hostile clients",
 "C24": "runtime monitor of frame delivery with kill and delay injection",
 "C25": "fault injection with outcome and hang monitor",
 "C26": "runtime monitor of audio levels vs analytic model",
 "C27": "online monitor of soft switch accesses vs state model",
 "C28": "online monitor of memory protection and region entry",
 "C29": "online monitor of card accesses vs pointer model",
 "C30": "trace comparison: simulator vs independent machine",
 "C31": "end-to-end trace monitor: CLI, server, player",
 "C32": "runtime monitor of CLI effects (files, arguments)",
}
NOTE = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"):
    NOTE[_p] = "Every execution run is judged completely; executions are sampled. " + ENC
for _p in ("C11", "C12", "C13", "C14", "C15", "C16", "C18"):
    NOTE[_p] = "Exhaustive where the evidence says so, otherwise random; the oracle is an independent implementation written from the specification."
for _p in ("C17", "C19", "C20", "C21", "C22", "C31"):
    NOTE[_p] = "Every execution run is judged completely; executions are sampled. " + EMU
NOTE["C23"] = "A real server process on loopback with concurrent, aborting and stalling clients; sampled."
for _p in ("C24", "C25", "C26", "C32"):
    NOTE[_p] = "Sampled configurations, timings and faults. " + ENC
for _p in ("C27", "C28", "C29", "C30"):
    NOTE[_p] = "Sampled access sequences over the whole address space. " + SIM
NA = {}
