import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
T="transcoder/"
p("C01","The stream is exactly framed in 2 KB blocks the player can follow",
 "Every transcoded stream is a whole number of 2048-byte blocks that begins with a 7-byte header (six 0xFF padding bytes, then 0 for HGR or 1 for DHGR). It then consists only of 7-byte audio/video opcodes whose 2-byte (high byte first) address is a valid player entry point, with a 4-byte ACK opcode (address, $54/$55, one dummy byte) as the last 4 bytes of every block but the last and nothing straddling a block. It ends with exactly one TERMINATE opcode followed by zero bytes to the end of that block.",
 ["inputs","configurations"],"every movie, mode, palette, bitrate, frame rate and size cap",
 "No existing test encodes a stream at all; the framing depends on the running byte position over the whole stream and on how it ends.",
 [T+"movie.py",T+"opcodes.py",T+"machine.py"],[("stream position modulo 2048 decides where ACKs go","transcoder/movie.py emit_stream"),("padding after terminate","transcoder/movie.py done")],
 [("stream position","bytes emitted so far","transcoder/movie.py")],["the byte sequence written to the output file"])
p("C02","The encoder's model of the screen is what the viewer's screen shows",
 "At every point of the stream, the encoder's own picture of the MAIN (and, in DHGR, AUX) screen memory equals the memory obtained by applying all opcodes emitted so far, with the bank selected by the preceding ACKs, to a cleared screen. This includes opcodes emitted when there is nothing left to change.",
 ["histories","inputs"],"every sequence of target frames, bank switches and interruptions of a frame's update by the next frame",
 "Tests check single packed updates; drift appears only when long sequences of opcodes, bank flips and idle padding are compared with an independent decoder.",
 [T+"video.py",T+"screen.py",T+"movie.py"],[("each emitted store is also applied to the in-memory screen","transcoder/video.py _index_changes"),("idle padding re-stores a byte","transcoder/video.py _index_changes")],
 [("screen shadow","memory maps and packed bitmap the encoder plans with","transcoder/video.py Video")],["opcodes yielded by the encoder","decoded stream"])
p("C03","Only visible screen bytes are ever written",
 "Every store encoded in the stream addresses a byte of hi-res page 1 ($2000-$3FFF) that is displayed on one of the 192 rows: never a screen hole, and always exactly four offsets per opcode. In DHGR the stored byte never has its top bit set.",
 ["inputs","histories"],"all target images (including images with data in the screen holes) and all encoder histories",
 "No existing test runs the update selection; whether a hole is chosen depends on image content and on the rest of the page.",
 [T+"video.py",T+"screen.py",T+"opcodes.py"],[("diff weights of holes forced to zero","transcoder/video.py _index_changes"),("hole mask","transcoder/screen.py")],
 [("screen-hole mask","bytes of the page not displayed","transcoder/screen.py")],["decoded stream"])
p("C04","Memory bank steering follows the ACKs",
 "In DHGR, playback starts in the MAIN bank and each ACK toggles the selected bank, so blocks alternate MAIN, AUX, MAIN, ...; in HGR every ACK selects MAIN. Every content byte in a block is either taken from the frame being shown, for the bank and page that is selected while the block plays, or re-stores what is already there.",
 ["histories","configurations"],"all streams, all positions of frame changes relative to block boundaries",
 "Needs multi-block encodes in which frame changes and bank flips interleave; nothing in the tests does that.",
 [T+"movie.py",T+"video.py",T+"opcodes.py"],[("bank flag toggled as the ACK is emitted","transcoder/movie.py emit_stream"),("new opcode sequence after a flip","transcoder/movie.py encode")],
 [("selected bank","which bank following stores go to","transcoder/movie.py")],["decoded stream with target frames"])
p("C05","Every audio sample becomes exactly one opcode with its duty cycle",
 "The k-th audio/video opcode of the stream carries the k-th audio sample: its speaker pulse width is 34 + 2*s cycles for sample level s in -15..16 (so 4..66 in steps of 2). No sample is dropped, repeated or reordered, including across block boundaries, frame changes and bank switches.",
 ["inputs","histories"],"all audio signals, alignments of samples with frame changes and ACKs",
 "Audio code is not exercised by any runnable test, and dropping or repeating a sample shows only at particular alignments.",
 [T+"movie.py",T+"opcodes.py"],[("one opcode yielded per audio sample","transcoder/movie.py encode"),("opcode chosen by (duty, page)","transcoder/opcodes.py")],
 [("tick count","audio samples consumed","transcoder/movie.py")],["decoded stream vs recorded audio samples"])
p("C06","Video frames are shown in order at their due time",
 "With audio rate R and input frame rate F (the video stream's own rate, r_frame_rate), input frame k (from 0) is fetched when audio sample number t first satisfies t >= k*R/F, in order, each exactly once; encoding stops when a frame is due and video has run out, and otherwise continues until the audio ends. Exactly the frames 0, n, 2n, ... are encoded when every n-th frame is requested, and from the moment a frame is due until the next encoded frame, stores move the screen towards that frame only.",
 ["inputs","configurations"],"all audio rates, frame rates (fractional included), frame selections, and lengths of audio and video",
 "Tests only tick a Video with one frame rate at best; drift and off-by-one show only over long streams with fractional ratios.",
 [T+"movie.py",T+"video.py",T+"frame_grabber.py"],[("tick compares sample count with frame_number*ticks_per_frame","transcoder/video.py tick"),("frame selection","transcoder/movie.py encode")],
 [("frame number","input frames consumed","transcoder/video.py")],["frame fetches and encode calls relative to sample index","decoded stream"])
p("C07","A size limit only cuts the stream short",
 "With a maximum output size of N bytes the stream up to termination is a prefix of the stream the same encode would produce without a limit, no audio/video opcode starts at or after byte N, none that would start before byte N is left out, and it is still properly terminated and padded. A limit of zero or none means unlimited.",
 ["configurations","inputs"],"all limits, in particular those near opcode and block boundaries",
 "No test sets a limit; errors appear only for limits at particular offsets within a block.",
 [T+"movie.py",T+"main.py"],[("limit tested before each opcode","transcoder/movie.py emit_stream"),("megabytes converted to bytes","transcoder/main.py main")],
 [],["streams produced with and without a limit"])
p("C08","The screen converges to a still frame",
 "If the same frame is shown for long enough, the displayed colours of every visible pixel on the (D)HGR screen become those of the frame, after at most a bounded number of full update passes per bank, from any earlier screen state reached by showing other frames. After that the encoder emits only stores that do not change the picture.",
 ["inputs","histories"],"all pairs of images and all histories of partially shown frames",
 "A liveness property: it needs complete update passes from many starting screens; tests never run one.",
 [T+"video.py",T+"screen.py"],[("priority heap drained until empty","transcoder/video.py _index_changes"),("stores with residual error are re-queued","transcoder/video.py _index_changes")],
 [("pending priorities","accumulated unresolved differences","transcoder/video.py")],["screen memory after each pass, rendered by an independent display model"])
p("C09","Stores are chosen to reduce visible error and to reuse the byte well",
 "While there is work left in an update, each opcode's first store puts the frame's own byte at a position whose surroundings differed visibly from the frame when the update (of one bank, towards one frame) began, and a position that has been given the frame's own byte is not written again in that update. Up to three further distinct positions of the page receive that same byte only where, for the frame being shown, doing so gives a visible error smaller than the error present when the update began; the largest improvements are taken first and none is left unused while there is room. Missing positions are filled by repeating the first one.",
 ["inputs","histories"],"all images, pages and content bytes",
 "Requires recomputing visible error from raw memory for every emitted store; tests never run the store selection.",
 [T+"video.py",T+"screen.py"],[("only negative deltas accepted","transcoder/video.py _compute_error"),("delta of storing a byte at every offset","transcoder/screen.py compute_delta_page")],
 [],["each emitted opcode with the screen before and after it"])
p("C10","The worst accumulated error is fixed first and no error starves",
 "Within one update the first store of each opcode targets a position whose accumulated error is the largest among those still pending; a position that received another position's byte stays pending with the error this leaves. Error left over when an update is interrupted carries over and accumulates into the next frame's priorities, and is dropped as soon as the position no longer differs, so a persistently wrong position is eventually repaired even if other parts of the picture change in every frame.",
 ["histories","inputs"],"all frame sequences and interruption points",
 "Order and fairness can only be judged over whole update sequences interrupted at arbitrary points.",
 [T+"video.py"],[("priority queue ordered by accumulated weight","transcoder/video.py _heapify_priorities"),("accumulation across frames","transcoder/video.py _index_changes")],
 [("accumulated error per byte","carried between frames","transcoder/video.py")],["order of first stores compared with the accumulated-error table"])
p("C11","Screen memory layout matches the hardware and conversions lose nothing",
 "For both hi-res pages, row y byte x lives at base + 1024*(y mod 8) + 128*((y div 8) mod 8) + 40*(y div 64) + x; the forward and inverse coordinate tables agree with that everywhere, and exactly the 512 bytes that no row covers are holes. Converting between linear and paged screen memory preserves every byte, and out-of-range addresses, page numbers and wrongly shaped data are rejected.",
 ["inputs"],"all 8192 addresses of both pages, all coordinates, arbitrary write sequences",
 "The tests look at none of the layout tables exhaustively.",
 [T+"screen.py"],[("layout tables built at import","transcoder/screen.py"),("range checks","transcoder/screen.py FlatMemoryMap.write")],
 [("layout tables","address/coordinate maps","transcoder/screen.py")],["tables and conversions"])
p("C12","Incremental screen updates equal a full rebuild",
 "After any sequence of single-byte updates to a bitmap at any page and offset, in either bank, its packed representation and memory equal those of a bitmap built from scratch from the resulting memory. Each update changes only the addressed byte of the addressed bank.",
 ["histories","inputs"],"all sequences of updates to HGR and DHGR bitmaps from any starting memory, page edges included",
 "Tests apply a handful of updates to fixed positions; neighbour fix-ups at page edges and repeated updates need long random histories.",
 [T+"screen.py"],[("neighbouring column headers/footers patched on update","transcoder/screen.py apply")],
 [("packed columns","two screen bytes per bank with neighbour context","transcoder/screen.py Bitmap.packed")],["packed array after each update"])
p("C13","Displayed colours follow the Apple II NTSC model",
 "For any HGR or DHGR memory contents, the dots and nominal colours the transcoder derives are those of the hardware: each HGR bit lights two dots, delayed by one dot if the byte's top bit is set (the previous byte's last dot then stays on), DHGR bits light one dot each in AUX-then-MAIN order ignoring the top bit, and each dot's colour is its 4-dot window rotated by its phase within the colour cycle. Neighbouring bytes influence a byte's colours on both sides; the edges of a 256-byte page see no neighbour.",
 ["inputs"],"all byte values in all neighbour contexts and all column parities",
 "Existing tests pin a few hand-picked patterns; the relation must hold for every context of every byte.",
 [T+"screen.py",T+"colours.py"],[("dot expansion","transcoder/screen.py to_dots"),("sliding window with phase","transcoder/colours.py")],
 [],["colours computed through the public API for every context vs an independent renderer"])
p("C14","Error weights equal the visible difference of the two screens",
 "For any two screens and either bank, the error weight of each byte is the pixel-string distance between the colours the two screens show in that byte's zone of influence. The predicted error change of storing a byte at each offset of a page, and the predicted residual error of storing it at one offset, equal those obtained by really performing the store on the target screen and measuring again.",
 ["inputs"],"all pairs of screens, pages, offsets, bytes, both modes and both palettes",
 "One test checks one pair of nearly blank bitmaps; masking, shifting and bank selection errors need random screens and an independent measurement.",
 [T+"screen.py"],[("masked pair lookup","transcoder/screen.py diff_weights"),("store prediction","transcoder/screen.py compute_delta_page, byte_pair_difference")],
 [],["weights and predictions vs distances recomputed from raw memory"])
p("C15","Edit-distance tables are complete, symmetric and match their definition",
 "For every palette and mode, the generated table gives, for each ordered pair of masked screen contexts at each column position, the minimum cost of turning one pixel string into the other with substitutions at the palette's colour difference and swaps of adjacent pixels at cost 1, each pixel taking part in at most one of them. After loading it is symmetric, zero on the diagonal and independent of which screen is called source; the table stored on disk is the one the generator produces.",
 ["inputs","configurations"],"all pairs of contexts for every bitmap type and palette",
 "The tests check a few string pairs by hand; the generator loop, pair indexing and the symmetrising load are untested.",
 [T+"make_data_tables.py",T+"screen.py"],[("lower triangle computed, mirrored on load","transcoder/make_data_tables.py compute_edit_distance; transcoder/screen.py edit_distances")],
 [("distance table","one row per column position, indexed by context pair","transcoder/data")],["generated and loaded tables vs an independent dynamic program"])
p("C16","Colour-difference costs are perceptual distances of the displayed colours",
 "For each palette the cost of substituting one nominal colour for another is the CIE2000 difference of the RGB values that palette assigns to those two colours, truncated to an integer: symmetric, zero for identical colours, and the same for a colour regardless of how the display mode numbers it.",
 ["inputs","configurations"],"all pairs of the 16 colours, both palettes, both display modes",
 "Tests pin a few distances in one mode; nothing compares the modes' colour numbering or recomputes the metric independently.",
 [T+"make_data_tables.py",T+"palette.py",T+"colours.py"],[("CIE2000 matrix indexed by colour value","transcoder/make_data_tables.py compute_diff_matrix")],
 [],["cost matrices vs an independent CIEDE2000 implementation"])
p("C17","Opcode addresses are those of the assembled player",
 "Every opcode the transcoder can emit is encoded as the address at which the player assembled from the source in the tree implements that very operation (page, pulse width), no two opcodes share an address, and the committed symbol file agrees with the assembled one. Symbol files are read correctly whatever other records, order or spacing of lines they contain, and a symbol file that lacks an opcode is rejected.",
 ["configurations","inputs"],"all 1028 opcodes; all well-formed symbol files",
 "The parser test reads a two-line file; nothing ties the committed symbols to the assembly source.",
 [T+"opcodes.py",T+"symbol_table.py","player/iivision.dbg","player/main.s"],[("addresses parsed from debug file","transcoder/symbol_table.py; transcoder/opcodes.py")],
 [("opcode start addresses","per-opcode class attribute","transcoder/opcodes.py")],["emitted address bytes vs labels of a fresh assembly and behaviour at that address"])
p("C18","Opcodes encode to bytes and compare faithfully",
 "Encoding any opcode yields exactly its player address (high byte first) followed by its own operands in order, and decoding those bytes gives back an equal opcode. Two opcodes are equal exactly when they are of the same kind and carry the same operands; encoding has no side effect on later encodings and a tick opcode with other than four offsets is refused.",
 ["inputs"],"all opcode kinds and operand values",
 "The equality test compares a few opcodes; encoding is never tested.",
 [T+"opcodes.py",T+"machine.py"],[("emit_command/emit_data","transcoder/opcodes.py"),("emit","transcoder/machine.py")],[],["bytes emitted for random opcodes"])
p("C19","The player's speaker timing is exact",
 "On a 1 MHz 6502, every audio/video opcode of the player takes exactly 73 cycles from its first speaker access to the next opcode's, and the two speaker accesses are as many cycles apart as the opcode's nominal pulse width (with the documented one-cycle deviation for widths 22 and 40). When data is already available the ACK path takes exactly two such periods, each with the pulse width of sample level zero (34 cycles).",
 ["inputs","histories"],"all 1024 opcodes in any order, all offsets and contents, every ACK position",
 "Not tested at all: the player is only assembled, never executed.",
 ["player/main.s"],[("hand-counted opcode bodies with shared tails","player/main.s op_tick_* macros"),("op_ack + checkrecv path","player/main.s")],
 [("X register zero","invariant the cycle counts rely on","player/main.s")],["cycle-stamped speaker accesses of the assembled binary in an emulator"])
p("C20","The player writes only what the opcode says",
 "Executing an audio/video opcode stores its content byte at exactly its four offsets of its own screen page in the currently selected bank, and otherwise changes only the player's own jump operands and scratch zero-page bytes. The ACK opcode touches only the soft switch it names and the network interface; the screen after any stream equals the one an independent decoder of that stream computes.",
 ["inputs","histories"],"all opcodes, contents, offsets and opcode sequences, HGR and DHGR",
 "The player is never executed by any test.",
 ["player/main.s"],[("STA page,Y after reading the offset","player/main.s"),("soft switch operand patched in op_ack","player/main.s")],
 [],["all memory and soft-switch writes of the assembled binary in an emulator"])
p("C21","The player consumes the stream exactly once, in order, under any arrival timing",
 "Whatever the sizes and timing of network deliveries, the player reads every byte of the stream exactly once and in order, never reads a byte before the network chip reports a complete block (256 bytes for the header), and never acknowledges bytes it has not consumed. After each block it frees exactly 2048 bytes, and the socket buffer wraps without loss however long the stream.",
 ["schedules","histories"],"all segmentations and delays of the TCP stream, streams of any number of blocks, pauses by keypress included",
 "Depends on arrival schedules against a network chip; no test runs the player.",
 ["player/main.s"],[("wait for 2K before dispatch","player/main.s checkrecv"),("read pointer advanced by $0800 and RECV issued","player/main.s op_ack"),("address pointer saved in Y","player/main.s")],
 [("RX read pointer","W5100 socket pointer","player/main.s")],["reads of the receive buffer and commands to a modelled W5100"])
p("C22","The player starts, pauses and quits cleanly",
 "At startup the player configures MAC, IP, 8 KB buffers, TCP mode, ports and foreign address, then opens and connects; a refused connection is retried up to five times with a full reset each time, then reported with a message. The header's mode byte selects a cleared HGR screen, or cleared MAIN and AUX screens with 80-store, 80-column and double-hi-res on and MAIN selected. A keypress pauses playback until the next keypress without losing data, and after TERMINATE a keypress (or RESET at any time) quits to ProDOS.",
 ["fault_sequences","schedules","configurations"],"connection failures, connect delays, keypress times, both modes",
 "No test runs the player.",
 ["player/main.s"],[("bootstrap","player/main.s"),("op_header","player/main.s"),("op_terminate/exit","player/main.s")],[],["register writes, soft switches, output and MLI calls in an emulator"])
p("C23","Every client receives the complete file from its first byte",
 "The server, reachable on any address of its host and by default at port 1977 (the one the player connects to), sends each client that connects and reads the complete current content of the served file, byte for byte and from the beginning, then closes the connection. Clients that disconnect early, stall for a while or send data do not damage what later clients receive, and the server keeps serving; it can be stopped and started again on the same port at any time.",
 ["schedules","fault_sequences","histories"],"client counts, arrival patterns, aborts at any point, file sizes from empty to many megabytes, file replaced between clients",
 "No test touches the server.",
 ["server/server.py"],[("whole file sent per request","server/server.py handle")],[],["bytes received by clients of a real server process"])
p("C24","Frames arrive complete, in order, and survive interruption of an earlier run",
 "The sequence of frames delivered equals the converted input frames, in order, one per input frame, each converted from the whole picture of its frame scaled to the screen, for either mode, regardless of how slowly or quickly frames are produced or consumed. A run that finds conversions left by earlier runs, of this movie or of others next to it (whose names differ in more than the extension), delivers the same frames as a fresh run, even if an earlier run was killed at any point.",
 ["schedules","crash_points","inputs"],"producer/consumer speeds, clip lengths, every point at which an earlier run may have stopped while writing its converted files",
 "The only test checks a path name; the thread, queue and cache are never run.",
 [T+"frame_grabber.py"],[("bounded queue from worker thread","transcoder/frame_grabber.py frames"),("cached conversions reused","transcoder/frame_grabber.py")],
 [("frame cache","converted frames on disk","<movie name>/<mode>/<palette>")],["frames delivered for marked input frames"])
p("C25","Failures are reported, never a hang or silently wrong output",
 "If frame conversion or decoding fails at any frame, iterating the frames ends with an error after delivering the frames before it, instead of waiting forever or delivering wrong or missing frames. The same holds for the whole transcode.",
 ["fault_sequences","crash_points"],"conversion missing, failing or producing short output at any frame; decoder error at any frame",
 "No test injects a fault; the worker thread dying leaves no trace in a passing run.",
 [T+"frame_grabber.py",T+"movie.py"],[("end-of-stream marker from worker","transcoder/frame_grabber.py worker")],[],["outcome of iterating the frames under injected faults"])
p("C26","Audio is scaled to the full range without distortion",
 "The audio levels are the (energy-preserving) resampled mono signal times the normalisation, truncated towards zero to integers and limited to -15..16; the automatic normalisation maps the larger of the 0.5% and 99.5% percentile magnitudes to full scale, an explicit one replaces it, and silence stays silence. The number of levels is the audio's duration times the output rate up to rounding per decoded chunk, for any channel count and input rate.",
 ["inputs","configurations"],"all signals, amplitudes, channel counts, sample rates, output rates and normalisations",
 "The audio module is not importable in the test environment and has no tests.",
 [T+"audio.py"],[("percentile normalisation","transcoder/audio.py _normalization"),("scale, truncate, clip","transcoder/audio.py audio_stream")],[],["levels produced from synthetic sound files vs an analytic model"])
p("C27","Simulated soft switches behave like the hardware's",
 "In the simulator, accessing a switch's on or off address in the way the hardware responds to sets exactly that switch, reading its status address returns a byte whose top bit is the state, and no other switch changes. Accesses in a direction the device does not support, or to unmapped I/O addresses of the machine or registers of the network card, and setting or clearing a switch that is not simulated, raise an error instead of being ignored.",
 ["histories"],"all sequences of reads and writes over $C000-$C0FF",
 "The simulator has no tests.",
 ["simulator/machine.py","simulator/apple2.py"],[("SoftSwitch.register","simulator/machine.py"),("io_interceptor","simulator/machine.py")],
 [("switch states","on/off per switch","simulator/machine.py SoftSwitch")],["bus accesses through the simulator's memory"])
p("C28","The simulator polices memory protection and control flow",
 "Writes to ROM ($D000-$FFFF), slot ROM ($C100-$C7FF) and other protected regions ($4000-$4FFF) always raise an error and leave memory unchanged, while writes to ordinary RAM take effect. Execution that enters another region other than by a known entry point or a subroutine return (RTS) is reported; reports name the addresses involved; reaching a known entry point, from any region, runs its handler.",
 ["histories","programs"],"all addresses and instruction sequences crossing region boundaries",
 "The simulator has no tests.",
 ["simulator/memory.py","simulator/apple2.py"],[("write interceptors","simulator/memory.py RegisterRegion"),("MaybeInterceptExecution","simulator/memory.py")],[],["small programs run in the simulator"])
p("C29","The simulated network card is addressed as the CPU asks",
 "In the simulator, with address auto-increment on, the card's address registers select exactly the 15-bit address last written by the CPU, high and low byte independently of each other and of earlier values; each data read or write transfers that location and advances the address by one (within 15 bits); socket commands change the socket status as on the chip.",
 ["histories"],"all interleavings of address, data and mode accesses",
 "The simulator has no tests.",
 ["simulator/uthernet.py","simulator/apple2.py"],[("address pointer update","simulator/apple2.py"),("auto-increment","simulator/uthernet.py")],
 [("card address pointer","next location accessed","simulator/uthernet.py")],["bus accesses through the simulator's memory"])
p("C30","The real player boots in the simulator",
 "Running the assembled player in the simulator performs the same sequence of network-card configuration writes as on hardware and leaves the card configured and the socket connected, waiting for stream data.",
 ["programs"],"the assembled player from the tree, with random initial memory",
 "Neither the simulator nor the player is run by any test.",
 ["simulator/apple2.py","simulator/uthernet.py","player/main.s"],[("I/O interception of WMODE/WADR/WDATA","simulator/apple2.py")],[],["card memory after boot"])
p("C31","End to end: what the player shows and plays is the input movie",
 "Transcoding a movie with the command line, serving the file, and playing it with the assembled player yields speaker pulse widths equal to the audio samples in order, and a screen that follows the movie's frames and ends on the last frame shown where time permits, whatever the network timing.",
 ["inputs","schedules","configurations"],"movies, modes, options and network schedules",
 "Tests cover no combination of transcoder, server and player.",
 [T+"main.py",T+"movie.py","server/server.py","player/main.s"],[("agreed stream format and opcode addresses","transcoder/opcodes.py; player/main.s")],[],["player emulator fed through a real server from the transcoded file"])
p("C32","Command-line options take effect as documented",
 "The command line writes the stream to the given output path, or by default to the input path with only its last extension replaced by .a2m, and writes nothing else outside the movie's own frame directory next to it. Mode, palette, bitrate, normalisation, frame selection and size limit (in megabytes of 1048576 bytes) given on the command line reach the encoder unchanged, mode and palette also the picture converter (under BMP2DHR's names and numbers), and the documented defaults apply otherwise.",
 ["configurations"],"all option combinations and file names (dots in directories, no extension, several extensions)",
 "No test runs the command line.",
 [T+"main.py",T+"frame_grabber.py"],[("argument parser and output name","transcoder/main.py"),("frame directory","transcoder/frame_grabber.py")],[],["files created and stream produced by the real entry point"])
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
import collections
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
