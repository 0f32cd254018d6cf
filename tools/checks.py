"""Configuration of the checks: one entry per claimed property."""

CHECKS = {
 "C01": dict(
  technique="differential monitoring of the decoder against an independent reference decoder",
  rule="documents come from a grammar generator, plus every truncation, byte mutations, hostile numbers, deep nests and garbage; "
       "distinct = different document bytes whose verdict (value or refusal) the reference decides",
  note="Every decode of the run is compared value for value (and raw slice for raw slice) with a reference decoder; crashes are caught. Trusts the reference decoder; inputs are sampled, not enumerated.",
 ),
 "C02": dict(
  technique="runtime comparison of every encoding with an independent canonical encoder, and round-trip monitoring",
  rule="values come from a generator of nested strings, integers, lists and dictionaries; distinct = different canonical encodings",
  note="Encodings are repeated to expose map-order dependence. Trusts the reference encoder; values are sampled.",
 ),
 "C03": dict(
  technique="runtime comparison of every unmarshalled struct with a reference assignment model",
  rule="generated documents against struct shapes of all supported field kinds, with missing keys, wrong kinds and out-of-range numbers; "
       "distinct = different (shape, document) pairs",
  note="Field-for-field comparison, crash and silent-alteration detection. Trusts the assignment model; documents are sampled.",
 ),
 "C08": dict(
  technique="trace monitoring of real downloads: disk image, statistics and completion flag against the blocks peers really sent",
  rule="virtual-time downloads against peers that corrupt, shift, duplicate, swap and mislabel data; distinct = different torrent layout and answer history",
  note="Every byte on disk, every counted total and every completion report is compared with the content at many instants of each download. Peers, layouts and instants are sampled.",
 ),
 "C09": dict(
  technique="online assignment monitor over all peer sessions, plus race-detected concurrent use of the assignment calls",
  rule="downloads with overlapping piece sets, failures, chokes and stalls, and concurrent takers on one torrent; distinct = different assignment histories",
  note="A monitor tracks who holds each piece from the requests on the wire; exclusivity, announced-only, no idling and re-assignment are judged online. Schedules are sampled.",
  race=True,
 ),
 "C12": dict(
  technique="online protocol automaton on every byte of every session",
  rule="sessions with scripted honest and hostile peers under virtual time; distinct = different sequences of message types and choke states",
  note="An automaton follows each connection in both directions and rejects the first message out of protocol. Remote behaviours are sampled from a script generator.",
 ),
 "C13": dict(
  technique="liveness and content monitoring of complete downloads under virtual time with fault-injecting peers and trackers",
  rule="torrent geometry, honest peers covering all pieces, hostile peers and failing trackers from generators; distinct = different layout and answer history",
  note="Each download must finish within a virtual-time bound and equal the content byte for byte. Bounded liveness; worlds are sampled.",
 ),
 "C04": dict(
  technique="runtime comparison of every hash computed and sent with the SHA-1 of the generator's info bytes",
  rule="torrent files with shuffled entries, unknown keys, decoy info values and large info; distinct = different torrent files whose identity was observed",
  note="Metainfo, torrent, every handshake and every HTTP and UDP announce of real downloads are observed. Files are sampled.",
 ),
 "C05": dict(
  technique="directory-tree monitoring around every load and store, as an unprivileged user in a scratch tree",
  rule="plain and hostile names and path lists over several spellings of the output directory; distinct = different declarations and outcome",
  note="The whole scratch tree (decoy files included) is compared before and after. Paths far outside the scratch tree are not observable and not tried.",
 ),
 "C06": dict(
  technique="runtime comparison of loaded torrents with an arbitrary-precision size model, with allocation monitoring",
  rule="grid of small sizes plus random and extreme 64-bit sizes and hash string lengths, and tracker lists; distinct = different geometries or tracker lists",
  note="Length, piece count, hashes and trackers are compared with the model; refusals are required exactly for contradictory sizes. Torrents of total length zero may be accepted or refused.",
 ),
 "C07": dict(
  technique="disk-image monitoring after every stored batch against a flat byte model",
  rule="all layouts of up to four files and seven bytes, random layouts, several-block pieces, misplaced data, and sparse torrents above 4 GiB; distinct = different layouts",
  note="The concatenated files are compared byte for byte with the model after each call. The small grid is complete, the rest is sampled.",
 ),
 "C10": dict(
  technique="linearizability checking of recorded concurrent histories against a bag, plus conservation stress under the race detector",
  rule="concurrent reporters and takers on one queue; distinct = different recorded histories",
  note="Small histories are decided exactly by a linearizability checker; large runs check exactly-once and that 'nothing to retry' is never wrong. Schedules are those the machine produced.",
  race=True, procs=4,
 ),
 "C11": dict(
  technique="differential monitoring of the wire codec against an independent one, in isolation, on fragmented streams and in live sessions, with allocation monitoring",
  rule="well-formed, truncated, mistyped and absurdly sized frames, all type bytes with all short lengths, arbitrary fragmentation; distinct = different frames or announced sets",
  note="Encoded bytes, decoded fields, the set of pieces asked for and the memory allocated are compared with the reference. Frames and fragmentations are sampled.",
 ),
 "C14": dict(
  technique="fault-injection at random instants with goroutine, connection and disk monitoring after every stop",
  rule="downloads cancelled or stopped at random virtual instants, once or repeatedly, from several goroutines, in every phase; distinct = different (phase, stop pattern) histories",
  note="Return time, left-over goroutines and connections, and every verified piece on disk are checked after each stop. Instants are sampled.",
 ),
 "C15": dict(
  technique="race detector (ThreadSanitizer) over whole downloads and concurrent API use",
  rule="downloads with many peers, trackers, observers, duplicate announces and stops in virtual and in real time, and mixes of concurrent calls; distinct = different workload outcomes",
  note="Happens-before race detection on every access of the executions; accesses a workload does not reach are not judged.",
  race=True, procs=4, shards=12,
 ),
 "C16": dict(
  technique="runtime comparison of every HTTP request and every announce result with a reference reading of the response",
  rule="generated URLs, totals, hashes and responses, every truncation, mutations, sequences and real loopback servers; distinct = different requests or response bodies",
  note="The request seen by the tracker and the peers returned are compared exactly. Responses whose meaning the protocol leaves open are only watched for crashes and made-up peers.",
 ),
 "C17": dict(
  technique="packet-level monitoring of UDP exchanges against a BEP 15 model with fault-injecting replies, in virtual time",
  rule="right, foreign, stale, short, late, duplicated and erroneous replies in sequences; distinct = different reply histories and outcomes",
  note="Every packet sent and every result is judged, with virtual-time limits. Reply histories are sampled.",
 ),
 "C18": dict(
  technique="trace monitoring of announce times over long virtual-time downloads",
  rule="trackers with all kinds of intervals, failures, hangs and bad addresses; distinct = different announce histories",
  note="Each pause between announces is judged against the tracker's last answer; bounds on retries, growth and cancellation. Histories are sampled.",
 ),
 "C19": dict(
  technique="conservation monitoring of the statistics under concurrency and of every announced total against the disk",
  rule="concurrent additions, boundary values, and downloads whose announced totals are bracketed by disk images; distinct = different totals observed",
  note="Sums are exact; announced totals are compared with the pieces on disk just before and after. Schedules and values are sampled.",
  procs=4,
 ),
 "C20": dict(
  technique="online monitor of simultaneously open sessions on the virtual network",
  rule="announce histories with duplicate and many addresses from several trackers, failing, silent and leaving peers, and concurrent pool calls; distinct = different session histories",
  note="Open connections per address and in total are followed at every dial and close; freed places must be used again within a virtual-time bound. Histories are sampled.",
  procs=4,
 ),
 "C21": dict(
  technique="virtual-time and byte-exactness monitoring of every connection operation under stalls, trickles and cuts",
  rule="streams cut into portions with pauses around the timeout, slow readers, packets, whole sessions and UDP exchanges with silent remotes, real sockets; distinct = different timing plans",
  note="Each operation's duration and bytes are judged against the plan. Plans are sampled; real sockets only get generous limits.",
 ),
 "C22": dict(
  technique="black-box monitoring of the built program: exit status, output, files and signals, with loopback peers and trackers",
  rule="argument mistakes, bad files and directories, generated torrents, loopback swarms, log levels and formats, and signals at random moments; distinct = different command lines and outcomes",
  note="The real binary runs as an unprivileged user in scratch directories. Wall-clock limits are generous (75 s).",
  cli=True, shards=12,
 ),
 "C23": dict(
  technique="online monitor of every request on the wire against the files on disk and the requests before it",
  rule="virtual-time downloads from prompt, failing, leaving and hostile peers; distinct = different layout, number of requests and sessions",
  note="Each request is judged when it is written: the piece must not be on disk, and among prompt peers the block must never have been asked for before. Peers and layouts are sampled.",
 ),
 "C24": dict(
  technique="resource monitoring (heap after collection, goroutines, connections, files) of long virtual-time downloads under hostile load",
  rule="floods of every kind of message, sessions that end in every way, ever new addresses, failing trackers, idle days; distinct = different load and amount of it",
  note="What is held after the first part of a run is compared with what is held after twice as much more of the same load; 512 KiB of growth are tolerated. Loads are sampled, and a leak smaller than about 60 bytes a session or 8 bytes a message is not seen.",
 ),
 "C25": dict(
  technique="monitoring of several downloads in one process: announces, sessions and files attributed to each of them and judged as if it were alone",
  rule="2 to 40 downloads with common trackers, addresses and torrents, started together, later or one after another, finished, stopped or stuck; distinct = different torrents, announce and session counts",
  note="Every announce and session is attributed by its torrent hash and port; contents, limits, totals and completion are judged per download, and a prompt download beside stuck ones has to finish within a short virtual-time bound. Sets of downloads are sampled.",
 ),
 "C26": dict(
  technique="fault injection into the torrent's file descriptors and the file size limit, with disk, completion and total monitoring",
  rule="episodes in which writes to some or all files fail, or fail beyond an offset, from the start or later, with honest and hostile peers, ended by recovery or a stop; distinct = different torrents and histories of failures",
  note="While writes fail, completion and totals are judged against the disk; afterwards the download has to finish with the exact content within a virtual-time bound. Failing reads and failing creation of files are not injected.",
 ),
 "C27": dict(
  technique="black-box monitoring of the built program: ids received by loopback trackers and peers, compared within and across runs",
  rule="2 to 12 programs started at once, each with an HTTP tracker, a UDP tracker and up to three peers of its own; distinct = different ids",
  note="Every id that reaches a loopback tracker or peer is compared with the others of its run and with those of all runs of the check. Runs are sampled; that ids are hard to guess is not judged.",
  cli=True, shards=12,
 ),
 "C28": dict(
  technique="online comparison of every progress line with files, connections and trackers at that moment of virtual time",
  rule="swarms with honest, hostile, leaving and unreachable peers, failing trackers, large pieces, added totals, and terminals that are slow, stuck or gone; distinct = different lines against a settled state",
  note="Each line is compared with the scenes a few milliseconds before and after it; where both agree the numbers have to be exact to the printed digit. With a disturbed terminal only upper bounds and the download's completion are judged. Swarms are sampled.",
 ),
 "C29": dict(
  technique="offline check of each download's duration in virtual time against the answer times of its good peers",
  rule="swarms of 1 to 16 good peers with answer times of 0 to 700 ms, alone, beside up to 8 hostile or 50 dead ones, with trackers that are mute or busy, or joined by more at a later announce; distinct = torrent, population and duration",
  note="Delays of the client itself are tolerated up to 50 ms an answer, 15 s a download and 4 s for each hostile peer. Computing time does not count. Swarms are sampled.",
 ),
}
