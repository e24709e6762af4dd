STUBS = ['kernel: threads and their scheduling, mutexes and condition variables, clocks and sleeps, signals, sockets and the network, pipes and FIFOs, poll/select, file locks, process start/exit/crash are the simulator',
  'files: the real file system below a per-run scratch directory, reached through simulated calls that inject errors, short transfers and stalls',
  'filter programs, schedulers and client programs are scripted actors']
REAL = ['nbspd: every module of src/, compiled from the working tree (AddressSanitizer, edge coverage)', 'Berkeley DB 5.3, Tcl 8.6 and zlib (library code, single-stepped as one atomic call)']
ASSUME = ['sampled, not exhaustive: a clean batch is evidence for the seeds run', 'crashes are process crashes: what was handed to the kernel survives', 'code between two simulator calls is preempted only at basic-block boundaries chosen by the seed']
def P(scenarios, rule, **k): d = dict(scenarios=scenarios, rule=rule, real=REAL); d.update(k); return d
PROPS = {
 'C01': P([('recv', 1)], 'a station receives products on 1-7 channels with datagram loss, duplication, reordering, delays, cut-off and aborted transmissions, disk stalls and slow filters.'),
}
PROPS['C02'] = P([('recv', 1)], 'as C01; the reference receiver is fed with exactly the datagrams the daemon consumed and says which transmissions must be announced, recorded missing, aborted or rejected, and in which order.')
PROPS['C08'] = P([('serve', 1)], 'one to five file and notification clients with short transfers, split segments, network stalls and slow readers connect at any time while products of all sizes arrive; each stream is parsed by a strict reference decoder and compared with what the filter was told and what was broadcast.', assume=['an identification string of a few bytes arrives in one segment, as every real TCP delivers it'])
PROPS['C14'] = P([('servemix', 1)], 'as C08 with weather-wire clients in the mix and a simulated weather-wire filter program that splits and delays its replies.', assume=['an identification string of a few bytes arrives in one segment, as every real TCP delivers it'])
PROPS['C06'] = P([('filt', 1)], 'one to five pipe filters (configured and from the device directory) and up to two FIFO filters which are prompt, slow, blocked for seconds or die and come back, with small and large pipe capacities, datagram loss and stalls; every filter is compared with the first, and the first with the reference receiver.')
PROPS['C07'] = P([('filtreload', 1)], 'as C06 with hangup signals at any moment and filters of each kind added and removed between them; sessions of each filter must join without loss, repetition or cut lines.')
PROPS['C11'] = P([('slave', 1)], 'a master on the broadcast feed, a slave of it, sometimes a second master and a slave of the slave; connection resets, partitions, stalls, and crashes and restarts of master and slave between calm rounds; in calm rounds every product reaches the end of the chain, and after a disturbance products flow again within a bounded time.')
PROPS['C15'] = P([('stop', 1)], 'a station with random feeds (broadcast, master, local pipe), services and filters, and clients that are healthy, stalled, silent or sending garbage, is told to stop at a random moment (start-up included) while peers are stalled, partitioned or gone, up to three times, and is then started once more; products on disk must be whole and announced ones intact.', assume=['filter programs end within seconds of being told to'])
PROPS['C09'] = P([('noise', 1)], 'a serving station with one to three well-behaved clients and up to eighteen that stall, stay silent, send garbage, come and go, are reset, become unreachable, are killed or pause for up to 40 s; announcements and the good clients stay on time and complete, and once the others are gone every descriptor they held is released.')
PROPS['C16'] = P([('crash', 1)], 'a station with random feeds, services and filters is killed at a random moment or right after a random file operation, sometimes several times in a row and during recovery or start-up, restarted with or without the documented recovery step, and afterwards stopped and started normally; products announced before the crash are intact, nothing half-written is announced and products flow again.')
PROPS['C03'] = P([('garble', 1)], 'a station receives, among whole products on seven channels, random bytes, truncated, extended and bit-flipped frames, frames with odd field values, oversized control headers, hostile product headers and names, damaged compression and stray frames of other transmissions; it stays up, writes nothing outside its directories, announces only what was sent whole in clean frames and then receives every product on each channel.')
PROPS['C12'] = P([('hostile', 1)], 'a station fed by a master server (file-oriented or notification), by the local input pipe, or both, besides the broadcast and sometimes a second master, receives random bytes, cut-off, oversized and undersized packets, wrong types and checksums, blocks out of order, hostile names and paths and damaged compression among good products; it stays up, writes nothing outside its directories, announces only what a reference reassembler calls whole, loses nothing of the other sources and then receives from each source again.')
PROPS['C13'] = P([('insert', 1)], 'up to fourteen real runs of the insertion tool by one to six users at once, against a running, slow, stalled, stopping and restarting daemon, with the pipe flooded, refused records of other programs in between, short reads, a full disk and tools killed at arbitrary points; every success must be announced once with the attributes and the bytes given, a failure must not be announced and bad attributes must be refused.', assume=['an insertion that overlaps the stop or the start of the daemon may be lost although the tool reported success: the request was still in the pipe', 'writes of up to 4096 bytes to a pipe are atomic, as the kernel guarantees'])
PROPS['C04'] = P([('rtx', 1)], 'a station with the received-products record in memory or in a file, receives products whole, cut off, with a lost frame or not at all, then any number of retransmissions of them (also whole or not, and retransmissions of retransmissions) over minutes, record truncations and clean restarts; a reference record says which must be announced, which must not, and for which, older than the retention guarantees, either is right.')
PROPS['C05'] = P([('spool', 1)], 'a station with a spool limited to 2-40 products (the minimum is lowered by a compile-time hook) stores products from the broadcast, a master or both with slow filters and is stopped and restarted in between; every creation and removal below the spool directory is checked as it happens against a queue model: oldest first, only when the limit is exceeded.', assume=['products have different file names, as their sequence numbers make them', 'the spool limit is not changed between restarts'])
PROPS['C10'] = P([('reconn', 1)], 'one to three file and notification clients stop reading until the server gives them up, or their connection breaks, and come back at once, within the waiting time, around its end or late, again and again, while products keep arriving; what the next connection brings first must be the product that was due, or nothing old once the waiting time is over, and everything is released when they leave.', assume=['whether a client whose connection was seen to break is resumed or forgotten depends on which thread notices first; both are accepted'])
PROPS['C22'] = P([('mcast', 1)], 'one to three real runs of the multicast tool at once, with up to four files each of 0 to 150000 bytes (from the command line or a list on standard input, at several rates), to one or two daemons, over a network that is lossless or loses, repeats and reorders datagrams; each daemon must store what was sent, once, or record it missing, judged by the datagrams it consumed.', assume=['a file without a product header has no product name and is not stored'])
PROPS['C25'] = P([('xfer', 1)], 'random sequences of the read and write operations of the code, called directly in a simulated process, on pipes, FIFOs and network connections of several capacities and latencies, while the other side moves pieces, pauses, acts exactly at the deadline, closes, resets, and a stop request arrives; every byte is followed by position and every return value is compared with what was moved, why it stopped and how long it took.', assume=['the error return does not tell how much was moved before the error'])
PROPS['C18'] = P([('starve', 1)], 'a station, serving or not, on the broadcast or on a master or the input pipe too, goes through one to four episodes, up to 70 s each, of a full or failing disk, short writes, failing opens, exhausted memory, threads or descriptors, with reloads and new clients in the middle; it stays up, announces only whole products, leaves no half-written file, reports every product received whole and not stored, and afterwards announces products again.', assume=['shortages begin after the start of the daemon', 'allocations inside Berkeley DB, Tcl and zlib do not fail', 'a reload of the filters that fails for lack of memory is reported and is repeated by the operator'])
PROPS['C17'] = P([('leak', 1)], 'a station with any mix of feeds and services goes six times through the same one to four activities (products complete, aborted, with lost frames or large; clients that come and go, stay, stall, are reset, send garbage or nothing; reloads of the filters with a filter and a FIFO added and removed; a filter that dies; a master that disconnects or sends garbage; garbage in the input pipe; idle periods), rests after each, and its open descriptors, directories, threads, terminated threads not joined, connections and allocated blocks are compared: none may grow in every repetition.', assume=['allocations inside Berkeley DB, Tcl and zlib are not counted', 'a leak is one that repeats with the activity: growth in one cycle only is not reported'])
PROPS['C19'] = P([('clock', 1)], 'a station with any mix of feeds and services under a trickle of products while its clock is stepped up to four times by 1 ms to 8 years in either direction, with new clients, reloads and a stop right after some of the steps; products must come out as without steps, announced within 20 s, old and new clients be served, and the runs of the statistics, the queue report, the scheduled cleanup and the discarding of retransmission records, timed with the real passage of time, neither pause for more than two periods nor come in bursts.', assume=['no client is identifying itself at the very moment of a step'])
PROPS['C20'] = P([('inst', 1)], 'two to four daemons are started at once or later on the same configuration, with valid, invalid and unreadable configurations, -C and unknown options, signals to any of them, starts during a stop, a full disk at the start, and crashes of the running one; at most one runs, the others end with an error and touch no file of the running one, which goes on receiving, and after the last one ends a new one starts.', assume=['after a crash the pid file that remains is removed, as nbsppanic does', 'a pid file that cannot be removed for lack of descriptors is accepted when it is reported', 'what the configured stop script does for an instance that did not run is not judged'])
PROPS['C21'] = P([('over', 1)], 'a station with limits of 0 to 20 products on the processor, filter and client queues (0: none) and 1 or 2 MB on the processor queue, with memory or disk queues, goes through one to three phases of overload in which the storage, the filter or the clients stall or are slow while up to 80 products arrive on up to three channels, with reloads, and restarts with products waiting and other limits. The number and size of those waiting are computed from what entered and left (datagrams read, files closed, lines and packets written) and compared with the limits; nothing is turned away while there was room, each product is announced or said to be turned away, exactly one of both, order is kept, products are accepted again once there is room, and the periodic reports tell of the overload.', assume=['the feed itself loses nothing', 'clients whose data cannot be written are not disconnected in the meantime (client_write_timeout_ms is large)'])
PROPS['C24'] = P([('stats', 1)], 'a station reporting its statistics every 5 to 20 s receives from one to seven channels at once 2-11 products each in one to four bursts, with originals, retransmissions, transmissions cut off, aborted, rejected by name, with lost, repeated, reordered, damaged and timing frames, a spool directory that cannot be used, slow storage, a status file that is slow to open or cannot be opened for a while, and reloads; the retransmission record is kept in a file, in memory or not at all (with either default). All sixteen figures summed over the periods are compared with the datagrams the sockets handed to the daemon, at no time exceed them, and at the end equal them, the missing and retransmission logs and the number of announcements.', assume=['the daemon is not stopped in the middle of a period (the figures since the last report are not written)', 'the status file can be written to once it was opened'])
PROPS['C23'] = P([('mspool', 1)], 'a station keeping its products in memory (with and without an environment directory), in 1-4 parts of 8 KB to 768 KB read through 1 or more slots, receives 6-95 products of up to 30 KB, some larger than a part, while 0-4 clients read quickly, slowly, stall, leave and return, a service inside the daemon opens and reads products at its own pace, the filter is slow and the station is reloaded. What is found, and when something is not, is compared with a reference ring computed from the order and sizes of the announcements alone; at the end exactly the newest products that fit must be there, byte for byte.', assume=['spool types 4 and 5 are not operational (const.h)'])
PROPS['C26'] = P([('access', 1)], 'a station with an access filter, a real Tcl script with random rules on the fields of the product, the client and its name (by default, by address, by name, in the absence of each, and with products on which the script fails), one to four clients of mixed kinds with and without names, one refused by access control, one too many for the limit of clients; the rules are replaced and reloaded once, possibly with a broken script in between, during which the station may be stopped. Every client must have received exactly the products that a reference evaluation of the rules allows, with one common point at which they change.', assume=['rules change at a reload, not by rewriting the part of the script that is read for every product', 'a name look-up answers at once'])
PROPS['C27'] = P([('start', 1)], 'a station with a random mix of feeds, services and filters is started one to three times while something is wrong: one call or a run of calls of the start fails (allocation, open or pipe creation, thread or program start, socket call, database call, write, or any of these, at a random position), the port is taken for a while, a directory is missing, a directory is in the way of a file, few descriptors, a full disk, every call fails with some probability, or the saved spool record is damaged; in some starts a termination request comes in the middle. A start must end, within a bound, either in a daemon whose every configured part works once the shortage is over (a product through every feed, to every filter and to a client of every service) or in an exit that says why, with failure status when no thread had been started, without its process-id file; the next start must work.', assume=['a failure found by a thread after the start may end the daemon with any exit status, provided that it is reported', 'the daemon is told why on standard error or the log'])
NA = {
 'N01': 'Option parsing is one sequential pass over one file with no concurrency, time, I/O interleaving or peers for a schedule or fault to change; a simulator adds nothing over a table test.',
 'N02': 'The decoders are separate one-shot converters of one input file into one output file: a pure function of the bytes, with no schedule, clock, peer or crash state to explore.',
 'N03': 'The matcher is a pure function of a list and a string; there is no nondeterminism to schedule. (The simulated stations use it with several lists against a reference matcher as part of C01 and C02.)',
}
