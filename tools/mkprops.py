#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
L = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if observe: a['observe_at'] = observe
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    L.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
T = 'The existing tests exercise text decoders and helper libraries with fixed files; none of them starts the daemon, '

p('C01', 'Stored products are byte-exact and correctly named and described',
  'Every product the daemon announces is stored whole before the announcement: its bytes are exactly the bytes that were broadcast, fragment by fragment in order (uncompressed, or without the leading 24-byte communications block, when so configured). Its name, path, sequence number, type, category, code and channel are the ones derived from its own headers, never a mixture with another product. Nothing else ever appears in the spool.',
  ['inputs', 'schedules', 'fault_sequences', 'configurations'], 'any set of products on any number of channels, any fragment sizes, any loss, duplication, reordering or delay of datagrams, any thread schedule',
  T + 'so no interleaving of readers, processor and filters and no datagram loss is ever seen.',
  ['src/sbn.c', 'src/framep.c', 'src/pctl.c', 'src/pctldb.c', 'src/pctlmfdb.c', 'src/mfile.c', 'src/nbsp.c', 'src/efile.c', 'src/packfp.c', 'src/packfpu.c'],
  [('frame assembly', 'src/framep.c sbnframeproc'), ('per-channel active product', 'src/pctl.c'), ('product memory file', 'src/mfile.c'), ('save', 'src/nbsp.c pce_spool_product')], ['spool directory', 'filter notifications'])
p('C02', 'No product is silently lost, duplicated or reordered',
  'Each product transmission that the daemon begins to receive ends in exactly one outcome: stored and announced once, recorded once as missing, aborted by the sender, or rejected by configuration. A product all of whose frames were received in order is stored and announced whatever arrives before, after or around it on any channel, and the products of a channel are announced in the order they were completed.',
  ['inputs', 'schedules', 'fault_sequences'], 'any interleaving of products on all channels with lost, duplicated, late and reordered frames, transmissions cut off or aborted',
  T + 'and accounting for every product needs histories with losses at arbitrary places.',
  ['src/framep.c', 'src/reader.c', 'src/pctl.c', 'src/pctldb.c', 'src/nbsp.c', 'src/filters.c', 'src/nbspq.c'],
  [('unfinished products go to the missing log', 'src/framep.c start_activepce, e_update_activepce'), ('processor queue', 'src/pctldb.c'), ('export to queues', 'src/nbsp.c e_export_product')], ['filter notifications', 'missing-products log'])
p('C03', 'Malformed broadcast data never harms the daemon or other products',
  'Whatever bytes arrive on the broadcast channels, the daemon keeps running without memory errors, writes nothing outside its own directories, and continues to receive, store and announce well-formed products on every channel. A damaged frame can at most cost the product being received on its own channel.',
  ['inputs', 'schedules', 'histories'], 'any sequence of datagrams: truncated, oversized, mutated, inconsistent lengths, bad checksums, impossible fields, between any valid products',
  T + 'and no finite sample of malformed frames covers the header fields and the states in which they arrive.',
  ['src/sbn.c', 'src/framep.c', 'src/unz.c', 'src/npcast.c', 'src/reader.c', 'src/nbsp.c'],
  [('frame checks', 'src/sbn.c unpack_sbn_headers, sbn_unpack_frame'), ('header validation', 'src/sbn.c split_wmo_header, validate_wmo')], ['process state', 'spool directory', 'filter notifications'])
p('C04', 'Retransmissions recover missed products and never duplicate received ones',
  'With the received-products record enabled, a retransmission of a product that was received is ignored and a retransmission of one that was not received is stored and announced exactly once, so that each product is announced at most once and, if any transmission of it was received whole, at least once. This remains true across restarts of the daemon and when old records are discarded, within the configured capacity.',
  ['histories', 'fault_sequences', 'schedules', 'crash_points'], 'any history of original transmissions and retransmissions (of retransmissions), with losses, restarts and record truncation between them',
  T + 'so the effect of loss and retransmission histories is not tested.',
  ['src/ertxdb.c', 'src/rtxdb.c', 'src/nbsp.c', 'src/framep.c'], [('received-products record', 'src/rtxdb.c'), ('decision', 'src/nbsp.c process_pctl_element')], ['filter notifications', 'retransmission log'])
p('C05', 'The spool keeps the newest products and never more than its limit',
  'The spool directory never holds more than the configured number of products, apart from the one being stored; the products removed are always the oldest, and no product is removed while it is among the newest of that number. After a clean stop and restart the daemon continues with the same record, so files from before the restart are still removed in order.',
  ['histories', 'crash_points', 'schedules'], 'any history of more products than the limit, with stops and restarts at any point',
  T + 'so retention over long histories and restarts is never observed.',
  ['src/spooldb.c', 'src/espooldb.c', 'src/nbsp.c', 'src/file.c'], [('slot ring', 'src/spooldb.c spooldb_insert'), ('save and load', 'src/spooldb.c spooldb_write, spooldb_read')], ['spool directory'])
p('C06', 'Each filter gets every accepted product exactly once and in order',
  'Every running filter receives one well-formed notification for each product accepted for filtering, exactly once, in the order the products were processed, as long as it keeps reading. A pipe filter that is slow or blocked holds the notifications back but nobody loses any; a FIFO filter that is blocked or gone loses only its own notifications and holds the others back no longer than the configured time-out for each; a filter that dies loses at most the notifications in flight and is started again with the following product. The reception of products is never affected.',
  ['schedules', 'fault_sequences', 'configurations'], 'any mix of pipe and FIFO filters, any speed, hang or death of any of them at any moment, any schedule',
  T + 'and no test runs two filters, let alone one that stalls.',
  ['src/filters.c', 'src/pfilter.c', 'src/nbspq.c', 'src/libqdb', 'src/nreadn.c', 'src/packfp.c'], [('filter queue', 'src/nbspq.c'), ('timed FIFO writes', 'src/filters.c'), ('filter processes', 'src/pfilter.c')], ['bytes read by the filters'])
p('C07', 'Reloading filters on hang-up loses and duplicates nothing',
  'A request to reload the filters at any moment leaves reception undisturbed: every product is still notified exactly once to every filter that is configured before and after, pipe filters are asked to finish and started again, and no notification is cut in two. Filters that are added or removed take effect from some product on.',
  ['schedules', 'histories'], 'reload requests at arbitrary moments, repeatedly, with products in flight',
  T + 'and no test sends the daemon a signal.',
  ['src/filters.c', 'src/signal.c', 'src/per.c', 'src/pfilter.c'], [('reload flag', 'src/per.c periodic'), ('list rebuild', 'src/filters.c')], ['bytes read by the filters'])
p('C08', 'A client receives every queued product intact, in order, exactly once',
  'A connected client of the file-oriented network service receives, for every product accepted for it while it is connected and keeping up, one intact copy in the order of processing, with the correct name, codes, size and checksum, and nothing else. Segment boundaries, short transfers and the speed of other clients make no difference.',
  ['inputs', 'schedules', 'fault_sequences'], 'any products, any number of clients, any segmentation, delay and partial transfer on the connections, any schedule',
  T + 'and no test opens a client connection to the server.',
  ['src/serverc.c', 'src/serverm.c', 'src/nbs1s.c', 'src/nbspq.c', 'src/libqdb', 'src/libconnth', 'src/nreadn.c'], [('client queue', 'src/nbspq.c, src/libqdb'), ('client thread', 'src/serverc.c'), ('packet format', 'src/nbs1s.c')], ['bytes received by clients'])
p('C09', 'A stalled, broken or abusive client never affects anything but itself',
  'Clients that stop reading, reset, vanish, never identify themselves or send garbage at any moment do not delay or corrupt the service to other clients, the filters or the reception of products, and cannot terminate the daemon. What is held for such a client is bounded by the configured queue limits and is released when it goes.',
  ['schedules', 'fault_sequences', 'inputs'], 'any number of misbehaving clients of any kind at any moment together with healthy ones',
  T + 'so misbehaving peers are never seen.',
  ['src/serverm.c', 'src/serverc.c', 'src/libconnth', 'src/nbspq.c', 'src/nreadn.c', 'src/access.c'], [('one thread and queue per client', 'src/libconnth'), ('timed writes and retries', 'src/serverc.c'), ('queue limits', 'src/nbspq.c')], ['bytes received by healthy clients', 'threads, descriptors and memory of the daemon'])
p('C10', 'A client that reconnects in time resumes where it left off',
  'When the server cannot write to a file-service client and the same client connects again within the waiting time, the products queued in the meantime are delivered over the new connection, each at least once and in order, starting with the one that was being sent, and none is skipped except beyond the configured queue limit. After the waiting time, or at once when the connection is seen to be closed, the client is forgotten and its resources are released.',
  ['fault_sequences', 'schedules', 'histories'], 'connection resets and reconnections at any byte of the stream, repeatedly, before and after the waiting time',
  T + 'and no test breaks a connection.',
  ['src/serverc.c', 'src/serverm.c', 'src/libconnth', 'src/nbspq.c'], [('reconnect wait', 'src/serverc.c'), ('client table', 'src/libconnth')], ['bytes received by the client over its connections'])
p('C11', 'A slave reproduces the products of its master',
  'A daemon fed by another daemon stores and announces byte-exact copies under the same names of the products its master sent it, each at most once when duplicate rejection is on, over any segmentation of the connection. After connection losses, partitions, stalls or restarts of the master it reconnects by itself and receives again, and never stores a mixture of products.',
  ['schedules', 'fault_sequences', 'crash_points', 'histories'], 'two or three daemons, any partitions, resets, stalls, crashes and restarts, any schedule',
  T + 'and no test runs two daemons.',
  ['src/slave.c', 'src/slave_net.c', 'src/slavet.c', 'src/slavenbs', 'src/nbs1r.c', 'src/serverc.c', 'src/nbs1s.c'], [('reader threads and reconnection', 'src/slave.c, src/slave_net.c'), ('packet reassembly', 'src/slavenbs')], ['spool directories of both', 'filter notifications of the slave'])
p('C12', 'Malformed input from a master or the local input pipe is contained',
  'Whatever bytes a master server or a program writing to the local input pipe sends, the daemon keeps running without memory errors, writes and deletes nothing outside its own directories, and recovers to receive well-formed products afterwards. No product is announced that was not sent whole.',
  ['inputs', 'histories', 'schedules'], 'any byte stream: truncated, mutated, oversized, hostile names and sizes, at any point between valid messages',
  T + 'and hostile peers cannot be enumerated by examples.',
  ['src/nbs1r.c', 'src/slavenbs', 'src/slavefp', 'src/slavein', 'src/slave_in.c', 'src/packfpu.c'], [('header checks', 'src/nbs1r.c, src/packfpu.c'), ('message parsing', 'src/slavein')], ['process state', 'file system', 'filter notifications'])
p('C13', 'Concurrent local insertions are received whole, once each',
  'Any number of programs inserting files into the daemon at the same time through the insertion tool each get their file announced exactly once with the attributes they gave, and no two requests are ever mixed. A program that fails to insert reports failure.',
  ['schedules', 'inputs', 'fault_sequences'], 'any number of concurrent insertions, any interleaving of the writes and of the reader, partial transfers, the daemon starting or stopping meanwhile',
  T + 'and the tool is tested by nobody while others run it.',
  ['tools/nbspinsert', 'src/slave_in.c', 'src/slavein'], [('lock and single message', 'tools/nbspinsert'), ('message reader', 'src/slavein')], ['filter notifications', 'exit status of the tool'])
p('C14', 'The notification and weather-wire services deliver intact streams',
  'A client of the notification service receives one well-formed notification per product in order, and a client of the weather-wire service receives for every product accepted for it the consecutive fixed-size packets that together hold exactly the product, correctly numbered, checked and padded. Both hold for any segmentation and any number of clients of mixed kinds on the same port, each of which gets the service it identified itself for.',
  ['inputs', 'schedules', 'fault_sequences', 'configurations'], 'any products, any mix of client kinds, any segmentation and delay',
  T + 'and no test connects such a client.',
  ['src/emwin.c', 'src/serverc.c', 'src/serverm.c', 'src/packfp.c', 'src/appdata.c'], [('packet building', 'src/emwin.c'), ('client identification', 'src/serverc.c, src/serverm.c')], ['bytes received by clients'])
p('C15', 'The daemon stops promptly and cleanly in every state',
  'A termination request at any moment, in any configuration and with any peers stalled or gone (filter programs excepted, which are expected to finish when told to), makes the daemon exit with success within a bounded time, after removing its process-id file and leaving its records loadable by the next start. It never crashes, hangs or leaves products half written while stopping.',
  ['schedules', 'fault_sequences', 'configurations'], 'termination at every reachable moment of start-up, idleness, reception, and with stalled clients, masters and filters',
  T + 'and shutdown races need particular schedules.',
  ['src/main.c', 'src/init.c', 'src/signal.c', 'src/nbsp.c', 'src/filters.c', 'src/serverm.c', 'src/slave.c', 'src/reader.c', 'src/pid.c'], [('quit flag and joins', 'src/signal.c, src/init.c cleanup'), ('thread cancellation', 'src/serverc.c')], ['exit status', 'time to exit', 'files left'])
p('C16', 'After a crash at any point the daemon restarts and works',
  'If the daemon is killed at any instruction, the next start (after the stale process-id file is removed, as the start script does) succeeds without manual repair, and from then on products are received, stored and announced as usual. Products that were announced before the crash are intact on disk.',
  ['crash_points', 'histories', 'schedules'], 'a kill after any file-system operation or at any scheduling point, repeatedly, in any configuration with records on disk',
  T + 'so no crash point is ever tried.',
  ['src/dbenv.c', 'src/spooldb.c', 'src/ertxdb.c', 'src/rtxdb.c', 'src/pid.c', 'src/nbsp.c', 'src/efile.c'], [('database environment', 'src/dbenv.c'), ('spool record', 'src/spooldb.c'), ('store before announce', 'src/nbsp.c')], ['restart outcome', 'spool directory', 'filter notifications'])
p('C17', 'Long-running operation does not accumulate resources',
  'However many clients come and go, filters are reloaded, masters reconnect and products pass, the numbers of descriptors, threads, connections and the memory in use return to what they were once the activity is over. Queues drain completely.',
  ['histories', 'schedules', 'fault_sequences'], 'any history of client churn, reconnection, reload and reception cycles',
  T + 'and leaks show only over histories.',
  ['src/libconnth', 'src/serverm.c', 'src/serverc.c', 'src/filters.c', 'src/slave_net.c', 'src/nbspq.c', 'src/pctldb.c'], [('client teardown', 'src/serverm.c, src/libconnth'), ('filter reload', 'src/filters.c')], ['descriptors, threads and heap of the daemon'])
p('C18', 'Exhausted disk or memory degrades service without corrupting it',
  'When the disk is full or fails, or memory or threads cannot be obtained, the daemon keeps running; a product that cannot be stored is not announced and is reported, and everything that is announced is whole. When the shortage ends, products are received, stored and announced normally again. (A reload of the filters commanded during the shortage may fail; that is reported and the command can be repeated.)',
  ['fault_sequences', 'schedules'], 'any sequence of failing writes, opens, allocations and thread creations at any point, and their end',
  T + 'and no test makes a system call fail.',
  ['src/nbsp.c', 'src/efile.c', 'src/file.c', 'src/mfile.c', 'src/framep.c', 'src/pctldb.c', 'src/filters.c', 'src/serverm.c', 'src/serverc.c'], [('error returns', 'src/efile.c, src/nbsp.c process_pctl_element')], ['filter notifications', 'spool directory', 'log'])
p('C19', 'Clock steps do not stop or corrupt the service',
  'Steps of the system clock of any size in either direction do not corrupt, drop, mix or reorder products, and do not stop periodic work: afterwards products are still processed promptly and the statistics and retention tasks run again within two of their periods of actual time. No burst of repeated periodic work follows a forward step.',
  ['fault_sequences', 'schedules'], 'any sequence of forward and backward clock steps at any moment',
  T + 'and no test controls the clock.',
  ['src/per.c', 'src/pctldb.c', 'src/libqdb', 'src/oscompat.c', 'src/rtxdb.c'], [('periodic table', 'src/per.c periodic'), ('queue key from time', 'src/pctldb.c pctldb_send_pce'), ('timed waits', 'src/pctldb.c, src/libqdb')], ['filter notifications', 'status file'])
p('C20', 'Only one daemon instance runs, and the process-id file tells which',
  'Of any number of daemons started on the same configuration at the same time, exactly one runs, and the others exit with failure without disturbing it. While it runs its process-id file holds its process id, and it is removed when the daemon exits but never by another instance.',
  ['schedules', 'histories'], 'concurrent starts and stops in any interleaving',
  T + 'and a start race needs particular schedules.',
  ['src/pid.c', 'src/init.c', 'src/main.c'], [('exclusive creation', 'src/pid.c create_pidfile'), ('ownership flag', 'src/init.c init_lock, cleanup_files')], ['process-id file', 'exit status'])
p('C21', 'Queue and memory limits hold and overload is reported',
  'When products arrive faster than they can be processed the number and total size of those waiting never exceed the configured hard limits, what is turned away is reported, everything accepted is processed in order, and acceptance resumes as soon as there is room. The same holds for the queues of filters and of each client.',
  ['schedules', 'configurations', 'histories'], 'any arrival pattern against any speed of processor, filters and clients, and any limits',
  T + 'and no test fills a queue.',
  ['src/pctldb.c', 'src/pctl.c', 'src/nbspq.c', 'src/libqdb'], [('limits', 'src/pctldb.c pctldb_hard_limit, src/libqdb'), ('status reporting', 'src/pctl.c, src/nbspq.c')], ['queue state file', 'log', 'filter notifications'])
p('C22', 'Files sent by the multicast tool are received unchanged',
  'A file sent with the multicast tool over a network that does not lose datagrams is stored and announced exactly once by every daemon listening on that channel, with the content that was sent, whatever its size and the product header it carries. Over a lossy network it is stored whole or recorded as missing. (A file without a product header has no product name and is not stored.)',
  ['inputs', 'fault_sequences', 'schedules'], 'any file size and header, several senders on different channels, loss and reordering',
  T + 'and the sender is tested only by eye.',
  ['tools/nbspmcast', 'src/sbn.c', 'src/framep.c', 'src/libmcast'], [('splitting', 'tools/nbspmcast'), ('assembly', 'src/framep.c')], ['spool directory', 'filter notifications', 'exit status of the tool'])
p('C23', 'Products in the memory spool are found whole or not at all',
  'With a memory spool (spool types 2 and 3), every product that fits in a part of the spool is announced with its size and can be read whole, byte for byte, by the services that follow until newer products have displaced it; a reader never obtains a partial, stale or different product, and a product that is gone is reported as not found, at once. Displacement removes the oldest products first, a part at a time and only when the current part cannot hold the next product, and keeps the data within the configured limit; a product larger than a part is dropped without displacing any other. Readers that wait for a free read slot all go on as slots become free, whatever happens to the other readers.',
  ['histories', 'schedules', 'configurations'], 'any history of products exceeding the spool, with concurrent readers, for any spool geometry',
  T + 'and the library test uses a fixed sequence from one thread.',
  ['src/nbspmspoolbdb.c', 'src/libspoolbdb', 'src/nbsp.c', 'src/nbs1s.c', 'src/serverc.c'], [('ring of databases', 'src/libspoolbdb'), ('insert and read', 'src/nbspmspoolbdb.c')], ['bytes received by clients', 'notification sizes'])
p('C24', 'The statistics account for every frame and product',
  'The figures written to the status file each period add up exactly: summed over the periods, every frame received is counted as processed or bad, and every product transmission as completed, missed, rejected or aborted, once, with retransmissions counted as the retransmission log shows. No count is lost or repeated when the periods change, and a period whose report could not be opened is included in the next one.',
  ['schedules', 'histories'], 'any traffic on all channels at once, any schedule of readers, processor and the periodic report',
  T + 'and lost updates need particular interleavings of several threads.',
  ['src/stats.c', 'src/per.c', 'src/framep.c', 'src/nbsp.c'], [('counters', 'src/stats.c')], ['status file'])
p('C25', 'Timed transfers move all the data or report the truth',
  'The timed read and write operations on which every service rests transfer the whole buffer or report how much was moved and why they stopped: end of data, time-out, interruption by a stop request, or error. They never report success with fewer bytes, never repeat or skip bytes, and a transfer that makes no progress returns within its time limit.',
  ['schedules', 'fault_sequences'], 'any sequence of partial transfers, delays, interruptions, closes and errors on the descriptor at any byte',
  'The functions have no test at all; partial transfers and interruptions at every byte cannot be sampled by fixed tests.',
  ['src/nreadn.c', 'src/util.c'], [('poll loops', 'src/nreadn.c')], ['bytes moved and return value'])
p('C26', 'Access rules decide per client and product',
  'A client of the network service is admitted unless access control refuses it or the limit of clients is reached, and of the products it is sent exactly those that the access filter allows for its name, else for its address, else by default, whichever other clients come and go. After a command to reload, the new rules apply to all clients from one product on. A product on which the filter fails goes to no client and is reported, and the following ones are decided as usual; a filter that cannot be loaded is reported and tried again until it can be, without losing products and without hindering a stop.',
  ['schedules', 'histories', 'fault_sequences'], 'any rules, set of clients, order of connections, products, reloads and failures of the script at any moment',
  'The tests run no client and no access filter; which product meets which rules depends on the interleaving of reloads, connections and products.',
  ['src/serverf.c', 'src/serverm.c', 'src/sfilter.c', 'src/access.c', 'src/libconnth/poll.c'], [('server_send_client_queues', 'src/serverm.c'), ('exec_net_filter', 'src/serverf.c'), ('server_loop', 'src/serverm.c')], ['products each client receives', 'connections refused', 'log'])
p('C27', 'A start either brings up the whole service or fails cleanly',
  'When something that the daemon needs cannot be obtained while it starts (memory, descriptors, disk space, threads, sockets, database files, directories, its port), the start ends within a bounded time in one of two ways: the daemon runs, and every configured feed, filter and service works once the shortage is over, or it exits after reporting why, with failure status if no thread had been started yet, and leaves no process-id file behind. It never crashes, hangs or keeps running with a part of it missing unnoticed, and the next start works.',
  ['schedules', 'fault_sequences', 'histories'], 'any failing call or run of calls at any position of the start, any configuration, a termination request at any moment',
  'The tests start no daemon; the failure paths of the start are executed only when one particular call fails.',
  ['src/main.c', 'src/init.c', 'src/slavet.c', 'src/pctldb.c', 'src/nbspq.c', 'src/nbsp.c', 'src/serverm.c', 'src/pid.c'], [('main', 'src/main.c'), ('init_queues', 'src/init.c'), ('slave_table_create', 'src/slavet.c'), ('cleanup', 'src/init.c')], ['process-id file', 'exit status', 'log', 'notifications', 'products each client receives'])
# not simulation targets
p('N01', 'Configuration parsing assigns each option its documented meaning',
  'Every documented option of the configuration file sets the parameter it documents, an invalid value stops the start with a message, and unset options have their documented defaults.',
  ['configurations'], 'every configuration file', 'The tests do not read configuration files of the daemon.',
  ['src/conf.c.in', 'src/libtclconf', 'src/init.c'], [('option table', 'src/conf.c.in')], ['printed configuration'])
p('N02', 'Graphics and data decoders render and convert files faithfully',
  'Each decoder of radar, satellite and gridded products converts any valid file into the documented output without losing or inventing data, and rejects an invalid file without memory errors.',
  ['inputs'], 'every product file', 'The tests convert a few sample files.',
  ['filters'], [('decoders', 'filters/filterlib/c')], ['output files'])
p('N03', 'Product-name patterns accept and reject as documented',
  'A list of patterns accepts a product name exactly when the right-most pattern that matches is not negated; an unset list accepts everything and an empty list nothing.',
  ['inputs', 'configurations'], 'every pattern list and name', 'No test compares the matcher with its definition.',
  ['src/ure.c', 'src/nbspre.c'], [('matcher', 'src/ure.c uwildregex_match')], ['accepted products'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in L: f.write(json.dumps(x) + '\n')
