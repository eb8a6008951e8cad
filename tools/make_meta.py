#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "txstatsd/server/processor.py"
C = "txstatsd/server/configurableprocessor.py"

# id, title, statement, over, quantifier text, why tests cannot, files,
# [(mechanism, where)], [observe_at], technique, level note
TABLE = [
("C01", "Every counter increment is reported once, scaled by its sample rate",
 "In StatsD mode, the counts reported for a counter over all flushes add up to the values received for it since the start, each divided by its sample rate, and every message belongs to exactly one flush, also when messages arrive while a flush is being handed out or when flushes overlap. With each count goes the rate of that flush: the count divided by the flush interval in seconds. A counter seen once is reported at every later flush, as 0 when nothing arrived.",
 ["inputs", "histories", "schedules"],
 "every sequence of counter messages (any values, rates, keys), interleaved with flushes of any interval and with messages and further flushes between two datapoints of a flush",
 "The tests flush processors holding one or two hand-set counters once; none follows a counter over several flushes or lets anything arrive during one.",
 [P], [("MessageProcessor.process_counter_metric", P), ("MessageProcessor.flush_counter_metrics", P)],
 ["MessageProcessor.process", "MessageProcessor.flush"],
 "online ledger (conservation monitor) over recorded histories under a virtual clock",
 "Held on the recorded histories (thousands of messages and ledgers per run, messages and flushes injected between datapoints). Clock and interleaving are the harness's; floats compared to 1e-9."),
("C02", "Timers report exactly the durations of their window, per percentile",
 "In StatsD mode each flush reports, per timer with durations since the last flush, their count, the lowest and the highest of all of them, and mean and upper of those at or below the percentile: the round(n*(100-percentile)/100) largest of n durations are excluded, at least one is always kept. Every duration belongs to exactly one window, and a timer without new durations is not reported. This holds for any number of durations, percentile, and for durations that arrive during a flush.",
 ["inputs", "histories", "schedules"],
 "every sequence of durations and flushes, window sizes from 1 to thousands, percentiles 1 to 100, messages between two datapoints",
 "The tests flush windows of one and four durations at two percentiles.",
 [P], [("MessageProcessor.process_timer_metric", P), ("MessageProcessor.flush_timer_metrics", P)],
 ["MessageProcessor.process", "MessageProcessor.flush"],
 "window recomputation from recorded arrivals (reference model monitor)",
 "Held on the recorded histories; every integer of the sources and its neighbours is tried as a window size."),
("C03", "Each gauge is reported once per flush with its last value",
 "In both modes every flush carries exactly one datapoint for each gauge received since the start: the value received last before that datapoint, however many values came and however long ago. Values may be negative, fractional, or arrive while a flush is under way.",
 ["inputs", "histories", "schedules"],
 "every sequence of gauge messages and flushes, both modes, up to thousands of gauges",
 "The tests send one gauge value and flush once.",
 [P, C, "txstatsd/metrics/gaugemetric.py"], [("process_gauge_metric / flush_gauge_metrics", P), ("ConfigurableMessageProcessor.flush_gauge_metrics", C)],
 ["MessageProcessor.flush"],
 "last-writer ledger over recorded histories",
 "Held on the recorded histories of both modes."),
("C04", "A meter reports its cumulative count and the rate since the last flush",
 "In both modes the flushes report, for each meter received so far, a count equal to the sum of all its values, and a rate equal to the sum of its values since its previous report divided by the seconds since then (since its first message, the first time). A flush in the same second as the previous one reports nothing for it and loses nothing; rates of meters with non-negative values are never negative, and no value is counted twice or lost.",
 ["inputs", "histories", "schedules"],
 "every sequence of meter messages and flushes with any time between them (none, fractions of a second, minutes)",
 "The tests read one meter after one or two marks.",
 [P, C, "txstatsd/metrics/metermetric.py"], [("MeterMetricReporter", "txstatsd/metrics/metermetric.py")],
 ["MessageProcessor.flush"],
 "ledger of counts and rates over recorded histories under a virtual clock",
 "Held on the recorded histories of both modes."),
("C05", "Configurable mode reports each counter's last value at every flush",
 "In the configurable (not StatsD-compliant) mode, where clients send running totals, every flush carries for each counter received since the start one datapoint under its name with suffix count: the last value received, truncated to an integer, whatever sample rate came with it. Totals may go down, be negative or fractional.",
 ["inputs", "histories"],
 "every sequence of counter messages and flushes in the configurable mode",
 "The tests flush one counter value once.",
 [C, "txstatsd/metrics/countermetric.py"], [("CounterMetricReporter", "txstatsd/metrics/countermetric.py")],
 ["ConfigurableMessageProcessor.flush"],
 "last-writer ledger over recorded histories",
 "Held on the recorded histories."),
("C06", "Configurable timers report the statistics of exactly one flush window",
 "In the configurable mode every flush reports for each timer received so far the minimum, maximum, mean, standard deviation and the 99th and 99.9th percentiles of the (non-negative) durations since the previous flush, zeros if there are none, with the cumulative count of all durations and their rate per second since the previous flush. Percentiles are exact while a window has at most 1028 durations and stay within the window's values, in order, above that.",
 ["inputs", "histories", "schedules"],
 "every sequence of durations and flushes in the configurable mode, windows of 0 to thousands of durations",
 "The tests compute statistics of one fixed series.",
 [C, "txstatsd/metrics/timermetric.py", "txstatsd/metrics/histogrammetric.py"], [("TimerMetricReporter", "txstatsd/metrics/timermetric.py")],
 ["ConfigurableMessageProcessor.flush"],
 "window recomputation from recorded arrivals (reference model monitor)",
 "Held on the recorded histories; above 1028 durations only bounds and order of the percentiles are judged (C19 judges the sample)."),
("C07", "Malformed messages are logged and otherwise leave no trace",
 "A message that cannot be read (wrong number of fields, empty or unparsable or non-finite value, unusable sample rate, unknown type, arguments a plugin cannot parse) never raises out of the processor or router, is logged as a bad line, and changes neither what is reported for any metric nor whether later messages and flushes work. Well-formed messages are never rejected.",
 ["inputs", "histories"],
 "every byte string as a message, at every point of a history, in both modes, directly or behind a router",
 "The tests try five malformed messages on an empty processor and never flush afterwards.",
 [P, C, "txstatsd/server/router.py", "twisted/plugins/sli_plugin.py", "txstatsd/metrics/distinctmetric.py"],
 [("BaseMessageProcessor.process / fail", P)],
 ["BaseMessageProcessor.process", "twisted log", "MessageProcessor.flush"],
 "differential twin monitor: same history with and without the malformed messages",
 "Held on the messages generated (mutations, every source string in every field, random bytes); a reference reading of the format decides which are malformed."),
("C08", "Keys are normalised and every datapoint has its documented name",
 "Keys have runs of blanks replaced by one underscore, slashes by a dash and every character other than letters, digits, underscore, dash and dot removed, and two keys that normalise alike are one metric; whitespace around a message is no part of its key. The names of the datapoints of a flush are exactly the documented ones for the metrics received: stats.*, stats_counts.*, stats.timers.*, stats.gauge.*.value, stats.meter.* and the statsd.* summary in StatsD mode; the configured prefix, key and statistic in the configurable mode. The list of metric names contains every counter, timer, gauge, meter and plugin metric received.",
 ["inputs", "configurations"],
 "every byte string as a key, every metric type, both modes, any prefix",
 "The tests check a handful of names made of letters.",
 [P, C], [("normalize_key", P), ("get_message_prefix", C), ("get_metric_names", P)],
 ["MessageProcessor.flush", "MessageProcessor.get_metric_names"],
 "name-set monitor over generated keys, every byte enumerated",
 "Held on the keys generated (each of the 256 bytes among them)."),
("C09", "Flush accounting adds up",
 "The numStats of every flush is the number of metrics that flush reported, which is the sum of the per-kind flush counts, and the receive counts of each message type over all flushes add up to the messages of that type processed, each counted once, whatever arrives during a flush. The flush durations reported are the milliseconds that part of the flush took. All datapoints of one flush carry the same timestamp, the whole second in which the flush began, whichever way the clock was set since the last one.",
 ["inputs", "histories", "schedules"],
 "every history of messages and flushes in both modes, with messages and time between two datapoints",
 "The tests look at the summary of one flush of an idle processor.",
 [P], [("flush / flush_metrics_summary", P), ("process (timing)", P)],
 ["MessageProcessor.flush"],
 "accounting monitor over recorded flushes under a virtual clock",
 "Held on the recorded histories; durations compared under a virtual clock that only moves where the harness says."),
("C10", "Flushing is periodic and hands carbon every datapoint once, in order",
 "While the service runs it flushes every flush-interval milliseconds (fractions of a second included), the first time one interval after the start, and never after it was stopped until it is started again; a flush under way at the stop is handed over in full before the stop ends. Every datapoint of every flush is handed to the carbon client exactly once and unchanged, in order within its flush, also when the client answers late or never and when flushes overlap; a client that fails costs at most the rest of the flush it failed in.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "every flush interval, start/stop sequence, message stream and pattern of late or failing answers of the carbon client",
 "The tests check that a flush task is scheduled, not what it hands over.",
 ["txstatsd/service.py"], [("StatsDService.flushProcessor", "txstatsd/service.py")],
 ["carbon client's sendDatapoint"],
 "trace monitor (exactly-once, order, schedule) in virtual time with injected delays and failures",
 "Held on the schedules explored; a reactor clock replaces real time. A failing answer ends the flush it belongs to, as Twisted's cooperator documents; only later flushes are judged then."),
("C11", "Routing does to every message exactly what the rules say, in order",
 "For every rule set, a message meets the rules in order; each rule whose condition (any, metric_type, path_like, any of them negated) matches drops, rewrites, retypes or duplicates it, and what remains after the last rule is processed exactly once with its final key, type and fields. Rules never affect messages they do not match, and a duplicated message continues both as it was and as it became. A rule set with an unknown condition or target is refused.",
 ["programs", "inputs"],
 "every rule set of the documented language and every message",
 "The tests try one or two rules at a time on one message.",
 ["txstatsd/server/router.py"], [("Router.process_message / build_rules", "txstatsd/server/router.py")],
 ["the processor behind the router"],
 "differential monitor against a reference interpreter of the rule language",
 "Held on the rule sets and messages generated."),
("C12", "Redirected messages reach the other daemon while it can be reached",
 "A message a redirect rule matches is sent to that rule's host and port, and no other, as rebuilt from its current key, type and fields (a datagram over UDP, a line over TCP), and then continues through the rules like any other. Over UDP messages are queued in order, up to the queue limit, until the host is resolved; over TCP those that come while there is no connection or it is paused are dropped without an exception (their number is logged when it resumes), all others arrive once, in order, and a lost or refused connection is retried, however often it fails (with at most two hours between attempts, and within a minute once a connection had been made), until the service stops.",
 ["inputs", "schedules", "fault_sequences"],
 "every sequence of messages, name resolutions, connections made, refused, lost, paused and resumed, and service starts and stops",
 "The tests send one message over one established redirect.",
 ["txstatsd/server/router.py"], [("build_target_redirect_udp / _tcp, TCPRedirectProtocol", "txstatsd/server/router.py")],
 ["bytes written to the transports"],
 "trace monitor over an in-memory network with injected network faults",
 "Held on the schedules explored; sockets and reactor are in-memory stand-ins with Twisted's contracts."),
("C13", "Listeners process every message once and answer monitors",
 "Every datagram, and every line of every TCP connection however the stream is cut, is handed to the processor exactly once and in order, except a monitor message, which is answered to its sender with the configured response and not processed. An exception while processing one message does not stop the ones after it, nor close connections. What a connection leaves unfinished when it ends is no message.",
 ["inputs", "schedules", "fault_sequences"],
 "every sequence of datagrams and byte streams, any segmentation, any number of connections, processors that raise",
 "The tests deliver one datagram and one line.",
 ["txstatsd/server/protocol.py"], [("StatsDServerProtocol.datagramReceived, StatsDTCPServerProtocol.lineReceived", "txstatsd/server/protocol.py")],
 ["the processor's process", "bytes written back"],
 "trace monitor over an in-memory network, streams cut everywhere",
 "Held on the streams generated."),
("C14", "The Twisted client sends every message once, in order, never blocking",
 "Messages written to the Twisted UDP client before its host is resolved and its transport connected are kept in order (the earliest up to the queue limit, later ones dropped) and sent when it is; from then on every message is sent at once, each exactly once, also when several threads write while it gets ready. Each message's callback gets the number of bytes sent or None after a socket error, the connect callback is called once at resolution, the disconnect callback when the transport is gone, and a failed resolution goes to the errback or the log.",
 ["schedules", "histories", "fault_sequences"],
 "every order of writes, resolution, connection, loss and reconnection, socket errors, reentrant writes from callbacks, and thread interleavings",
 "The tests make each transition once with mocks, in one order and one thread.",
 ["txstatsd/protocol.py"], [("TwistedStatsDClient, DataQueue, TransportGateway", "txstatsd/protocol.py")],
 ["datagrams written to the transport", "callbacks"],
 "trace monitor (FIFO, exactly-once) over an in-memory network, and stressed threads with injected pauses",
 "Held on the lives and thread interleavings seen (pauses injected at lines of the client); in-memory transports."),
("C15", "Consistent hashing places keys by the ring, stably",
 "A key belongs to the node owning the first ring position at or after the key's (the first 32 bits of the MD5 of 'node:i', for i below the number of replicas, and of the key, wrapping around; the node named first where several share it), independently of the order nodes were added, so that adding or removing a node moves only the keys it gains or loses; all nodes of a key come in ring order, each once. A hashing client sends each message, whole, to exactly one of its clients, chosen by the metric's name alone, and connects and disconnects all of them.",
 ["inputs", "histories", "configurations"],
 "every set of nodes, number of replicas, order of additions and removals, and key",
 "The tests place three fixed keys on three fixed nodes.",
 ["txstatsd/hashing.py", "txstatsd/client.py"], [("ConsistentHashRing", "txstatsd/hashing.py"), ("ConsistentHashingClient", "txstatsd/client.py")],
 ["get_node / get_nodes", "datagrams received by each server"],
 "differential monitor against an independent placement over ring histories",
 "Held on the rings and keys generated; get_nodes is judged with the default number of replicas."),
("C16", "Client metrics put on the wire what was measured",
 "Every call of the client API (gauge, meter, increment, decrement, timing, sli, distinct, report, plain or extended, with or without a namespace) sends at most one message name:value|type, which the daemon reads back as the same name and value; extended counters send running totals. With a sample rate below 1 that share of the calls is sent, tagged with the rate, and with rate 1 or above all are, call by call and whatever the rate of earlier calls of that name; several such objects do not disturb each other. Sending never raises or blocks, whatever state the socket is in; only connecting to a host that cannot be resolved does. The plain client needs no Twisted.",
 ["inputs", "histories", "fault_sequences"],
 "every sequence of client calls with any names, values and sample rates, and any socket failures",
 "The tests check one message per method, with no sampling and no daemon at the other end.",
 ["txstatsd/metrics/metrics.py", "txstatsd/metrics/extendedmetrics.py", "txstatsd/metrics/metric.py", "txstatsd/client.py", "txstatsd/metrics/distinctmetric.py"],
 [("Metrics / ExtendedMetrics", "txstatsd/metrics/metrics.py"), ("Metric.send", "txstatsd/metrics/metric.py"), ("UdpStatsDClient", "txstatsd/client.py")],
 ["connection.write", "flush of a processor fed with it"],
 "round-trip monitor: API calls against messages and against a real processor's flush",
 "Held on the calls made; shares of sampled calls judged statistically (six sigma)."),
("C17", "Distinct counters estimate the items of each window",
 "A distinct metric reports for the last minute, hour and day, and in total, estimates of how many different items were received within that time: items repeated, in any order, do not change an estimate, an item seen again counts as recent, and reading or flushing changes nothing. A window's estimate depends only on the items inside it, wider windows never report less, and over independent hashes the estimates are right within the estimator's error.",
 ["inputs", "histories"],
 "every sequence of items and times, any number of items, with flushes in between, in both modes",
 "The tests check one estimate of one fixed set and mock the counter otherwise.",
 ["txstatsd/metrics/distinctmetric.py"], [("SlidingDistinctCounter, DistinctMetricReporter", "txstatsd/metrics/distinctmetric.py")],
 ["DistinctMetricReporter.flush"],
 "twin monitor with identical hashes per window, and a statistical error monitor",
 "Exact for agreement between twins; accuracy judged over several independent counters with bounds far outside the estimator's spread."),
("C18", "Service levels count exactly the values their rules admit",
 "For every key matching a configured pattern, every flush reports the number of durations received since the last one, the number of errors, and for each label of the rule how many of those durations satisfy its condition: strictly below, strictly above, or strictly between limits, with slopes multiplied by the size. Counts start from zero after each flush, each value is in exactly one flush, keys matching no pattern report only the total and the errors, and a rule set with a line that cannot be read is refused.",
 ["inputs", "histories", "configurations"],
 "every rule set, key, value, size and flush schedule, in both modes",
 "The tests judge six values against three conditions of one fixed rule.",
 ["txstatsd/metrics/slimetric.py", "twisted/plugins/sli_plugin.py"], [("SLIMetricReporter", "txstatsd/metrics/slimetric.py"), ("SLIMetricFactory", "twisted/plugins/sli_plugin.py")],
 ["MessageProcessor.flush"],
 "differential monitor against an independent reading of the rules",
 "Held on the rule sets and values generated, limits themselves included."),
("C19", "Histograms and samples are faithful to the stream",
 "A histogram's minimum, maximum, mean and standard deviation are those of all values since the last clear, its percentiles and buckets those of its sample, and a sample holds all values up to its size and exactly its size of them after that. A uniform sample keeps every position of the stream with equal probability; a decaying sample prefers recent values in the proportion exp(alpha * age difference), also across its rescaling and after any pause. Clearing forgets everything.",
 ["inputs", "histories"],
 "every stream of values and timestamps, of any length and shape, with clears and pauses",
 "The tests feed fixed series of numbers and look at sizes.",
 ["txstatsd/metrics/histogrammetric.py", "txstatsd/stats/uniformsample.py", "txstatsd/stats/exponentiallydecayingsample.py"],
 [("HistogramMetricReporter", "txstatsd/metrics/histogrammetric.py"), ("UniformSample", "txstatsd/stats/uniformsample.py"), ("ExponentiallyDecayingSample", "txstatsd/stats/exponentiallydecayingsample.py")],
 ["the reporter's and samples' methods"],
 "reference recomputation and statistical monitors of the sampling distribution",
 "Statistics are exact to rounding; distributions judged with bounds no correct run meets in practice."),
("C20", "Options: command line before file before default, with their types",
 "Every option's value is what the command line says (long, short, abbreviated or joined), else what the configuration file (the last one named) says in its own section, else the default, with its declared type; the carbon-cache options collect their values in the order given (in the file: by section name), and plugin sections reach the plugins unchanged. Names the daemon does not know are ignored in the file and refused on the command line, and values of a wrong type are refused.",
 ["inputs", "configurations"],
 "every command line and configuration file over the daemon's options, and every class of options built the same way",
 "The tests try one overridden option in one spelling.",
 ["txstatsd/service.py"], [("OptionsGlue, StatsDOptions", "txstatsd/service.py")],
 ["the parsed options"],
 "differential monitor against an independent reading of command line and file",
 "Held on the inputs generated."),
("C21", "The HTTP pages tell the truth about the daemon",
 "The status page answers with the last flush's durations (all of them, also when asked while a flush is handed out), the flush interval and whether the daemon keeps up: error 500 when the last flush and the processing before it took more than 0.7 of the flush interval, else 200. The list page names exactly the metrics received, the page of a timer of the configurable mode (and of a plugin metric that has one, whatever else has its key in the compliance mode) shows its current content, and anything else is not found. Asking for a page changes nothing, and without an http port nothing listens.",
 ["inputs", "histories", "configurations"],
 "every history of messages, flushes and requests in both modes, any flush interval and duration",
 "The tests ask each page once with hand-set state.",
 ["txstatsd/server/httpinfo.py"], [("Status, ListMetrics, Metrics, makeService", "txstatsd/server/httpinfo.py")],
 ["HTTP responses"],
 "differential monitor: pages against the recorded history, over an in-memory network",
 "Held on the histories generated; a virtual clock makes flushes take time."),
("C22", "Reporting calls every function on schedule whatever the others do",
 "While the service runs every scheduled function is called once per interval, counted from the start of the service (or at once and from then on, if scheduled while it runs), and each value of its result, immediate or deferred, is reported once under its name behind the instance name. A function that fails, reported or not, is logged and called again next time, and does not affect others; nothing is called after the service was stopped, and it can always be stopped and started again.",
 ["schedules", "histories", "fault_sequences"],
 "every set of functions (plain, deferred, slow, failing), intervals, scheduling times, stops and restarts",
 "The tests run one function for one interval.",
 ["txstatsd/report.py"], [("ReportingService", "txstatsd/report.py")],
 ["calls of the functions and of the report function"],
 "schedule simulation compared with the recorded calls in virtual time",
 "Held on the schedules explored."),
("C23", "Counter reports are differences that add up to what happened",
 "A report of counters gives nothing the first time and then, for each counter also known to the last successful reading, the difference to it; a failed reading is the caller's failure and loses nothing for later ones. The statistics of the carbon clients are reported under their names with colons replaced, and reset, so that all reports together add up to what the clients did.",
 ["histories", "fault_sequences"],
 "every sequence of readings (counters appearing, vanishing, growing, shrinking), failures and reports",
 "The tests take one difference and one report.",
 ["txstatsd/process.py", "txstatsd/service.py"], [("report_counters", "txstatsd/process.py"), ("report_client_manager_stats", "txstatsd/service.py")],
 ["the reports returned"],
 "conservation monitor over recorded readings and reports",
 "Held on the readings generated; carbon's clients are real with their sockets replaced, psutil is a stand-in."),
("C24", "Process and system statistics report what the system says",
 "The memory, load and network reports carry exactly the numbers of the kernel's files, read anew each time, under their documented names; process reports carry what the process object says (memory, cpu, threads, io, TCP connections by status) and leave out what it cannot say. The per-cpu, thread pool and reactor reports carry the current figures.",
 ["inputs", "configurations", "histories"],
 "every content of the files in the kernel's formats, and every process object with any readings and missing abilities",
 "The tests parse one sample of each file.",
 ["txstatsd/process.py"], [("parse_meminfo, parse_loadavg, parse_netdev, ProcessReport", "txstatsd/process.py")],
 ["the reports returned"],
 "differential monitor against the values the files and objects were built from",
 "psutil is a stand-in with the named tuples of the required versions; one known finding (memory-info-order) is listed."),
("C25", "Moving averages are exponentially weighted sums of all rates",
 "After every tick of its interval a moving average's rate is the exponentially weighted average of the rates of all intervals so far, the first one taken as it is, with weights given by its constant (one, five or fifteen minutes); updates between two ticks add up, and a tick without updates counts as rate zero. Rates stay between the lowest and highest interval rate.",
 ["inputs", "histories"],
 "every sequence of updates and ticks, any constant and interval",
 "The tests follow one update through minutes of silence.",
 ["txstatsd/stats/ewma.py"], [("Ewma", "txstatsd/stats/ewma.py")],
 ["Ewma.rate after each tick"],
 "recomputation from the whole recorded history with compensated sums",
 "Held on the histories generated, to 1e-9."),
("C26", "Dump mode logs everything once and changes nothing",
 "In dump mode every message that is processed is logged once before it takes effect, in order, and every datapoint is logged once as it is handed out, whether or not the rest of the flush is consumed. The datapoints are exactly those the same history gives without dumping (in the configurable mode, the one dump mode always uses), and a logger that cannot log is refused at once.",
 ["inputs", "histories"],
 "every history of messages and flushes, consumed entirely, partly or interleaved",
 "The tests dump one message and one flush.",
 ["txstatsd/server/loggingprocessor.py"], [("LoggingMessageProcessor", "txstatsd/server/loggingprocessor.py")],
 ["the logger", "LoggingMessageProcessor.flush"],
 "differential twin monitor: dumping against not dumping, and a log-order monitor",
 "Held on the histories generated."),
("C27", "The reactor inspector's verdicts match what the reactor did",
 "In every round the inspector posts one call to the reactor and reports it ok when it ran within the loop time, late when only a call of an earlier round ran, and unresponsive when none ran; stack frames of all other threads are dumped when and only when a round is unresponsive. The delay gauge carries in every round the delay of the call that ran, or the time waited since the last round that had an answer, and after a stop the thread ends.",
 ["schedules", "histories"],
 "every pattern of calls run on time, late, in bursts or never, in any order of rounds",
 "The tests make three fixed patterns.",
 ["txstatsd/report.py"], [("ReactorInspector.run", "txstatsd/report.py")],
 ["the log", "the delay gauge"],
 "trace monitor in virtual time, and with a real thread against a blocked reactor thread",
 "Held on the patterns explored; the timing of the real threads is judged with wide margins only."),
("C28", "The daemon is wired as its options say, from port to carbon",
 "For every configuration the daemon listens on exactly the configured UDP, TCP and HTTP ports, on every interface, connects to every configured carbon daemon, and every message received on any of its ports takes effect in the datapoints the carbon daemons receive at the next flush, each datapoint going to exactly one of them, the same for each name, within the configured message and queue sizes. Prefix, instance name, compliance, monitor message and response, routing, dump mode, reports and plugins do what their options say. After it is stopped nothing listens, flushes or stays connected.",
 ["configurations", "inputs", "histories"],
 "every combination of options, given on the command line or in a file, and every message stream",
 "The tests look at the services made for a few option sets, nothing is sent through them.",
 ["txstatsd/service.py", "twisted/plugins/txstatsd_plugin.py"], [("createService", "txstatsd/service.py")],
 ["bytes on the carbon connections", "listening ports", "HTTP responses"],
 "end-to-end trace monitor of the whole daemon in virtual time on an in-memory network",
 "Held on the configurations sampled; reactor, sockets and psutil are stand-ins, carbon's clients and Twisted's services are real."),
("C29", "In real time and over real sockets everything sent reaches carbon once",
 "A daemon on its real reactor and sockets, with clients sending over UDP (through the client library) and TCP at once while it flushes: every message accepted is accounted for in the datapoints the carbon daemons receive, exactly once (counts, timer counts and extremes, last gauge values, meter counts), in messages of at most max-datapoints-per-message datapoints, each metric always to the same carbon daemon; what arrives while a carbon daemon is away is delivered once it is back, as far as the queue holds it. Monitors are answered, pages served and routed messages redirected meanwhile. The processor is only used in the reactor's thread, also for what other threads report. The stop closes every port and connection and ends without errors.",
 ["schedules", "fault_sequences", "configurations", "histories"],
 "every timing of concurrent senders, flushes and carbon outages, every combination of listeners, modes and destinations",
 "The tests replace the reactor, the sockets and carbon; none runs a daemon.",
 ["txstatsd/service.py", "txstatsd/server/protocol.py", "txstatsd/client.py", P, C], [("createService / StatsDService", "txstatsd/service.py")],
 ["bytes on the carbon connections", "answers on the sockets", "twisted log"],
 "conservation monitor over real executions with concurrent senders and injected outages; thread-confinement monitor on the processor",
 "Held on the executions observed; the schedules are those the machine produced. Datagrams the kernel drops (read from /proc/net/udp) void a case."),
("C30", "Metrics do not affect one another",
 "What is reported for a metric depends only on the messages for that metric and on the flush times: adding, removing or reordering messages of other keys or other types does not change its datapoints. This holds for counters, timers, gauges, meters and plugin metrics, in both modes, also when two types share a key.",
 ["histories", "inputs"],
 "every history over many metrics and every subset of them",
 "The tests hold one metric at a time.",
 [P, C], [("separate state per kind and key", P)],
 ["MessageProcessor.flush"],
 "projection monitor: a history against its restriction to some metrics",
 "Held on the histories generated."),
("C31", "Memory is bounded by the metrics, not by the traffic",
 "For a fixed population of metrics, what the processor and router keep does not grow with the number of messages received or flushes made, malformed messages and unknown types included, once every window was flushed; within a window only StatsD-mode durations may accumulate. Timers of the configurable mode keep a bounded sample. Nothing is kept of datagrams answered or connections closed, and what a client and its metrics object keep depends on the names used, not on the calls or the messages sent.",
 ["histories", "inputs"],
 "every unending history over a fixed population of metrics",
 "The tests never send more than a few messages.",
 [P, C, "txstatsd/server/router.py"], [("state reset at flush; bounded samples", P)],
 ["objects reachable from the processor, listeners and clients"],
 "census monitor of the reachable objects over long histories",
 "Held on the histories run; growth is judged between censuses after a warm-up."),
]

NOT_APPLICABLE = []

EXTRA = {}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for (pid, title, statement, over, text, why, files, mech, observe,
             technique, note) in TABLE:
            assert len(title) <= 80, (pid, len(title))
            anchors = {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe, "hook_needed": None}
            anchors.update(EXTRA.get(pid, {}))
            f.write(json.dumps({
                "id": pid, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why, "anchors": anchors}) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "python3 check.py --self-test",
        "checks": [{
            "property": row[0],
            "quick_cmd": "python3 check.py " + row[0],
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + row[0],
            "evidence_file": "evidence/%s.json" % row[0],
            "technique": row[9],
            "level": "exploration",
            "level_note": row[10]} for row in TABLE],
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks are needed in /repo: the monitors observe public "
                 "entry points. Everything runs under the sandbox's Jython, "
                 "as the repository's own tests do."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
