#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the prose stays diffable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

ALL = "all interleavings of the receive, publish, expiry, janitor and admin threads"
UNIT = "Unit tests call one meter from one thread and measure it once or twice"

prop("C01", "Counter increments are reported exactly once",
 "Every non-negative increment accepted for a counter (spectatord line type c, or a statsd counter scaled by its sample rate) is contained in exactly one reporting interval: over any run the values reported for that counter add up to exactly what was accepted, an increment handled before a measurement starts is never left for a later interval, and nothing is reported that was not accepted. Negative and not-a-number increments change nothing, now or later.",
 ["schedules","histories","inputs"], ALL+", any mix of datagrams per counter, any number of intervals, idle gaps longer than the meter ttl",
 UNIT+"; none races an increment against a measurement, against expiry of the same counter, or against another adder.",
 ["spectator/counter.cc","spectator/atomicnumber.h","spectator/registry.h","server/spectatord.cc"],
 [("atomic add / exchange of the accumulated value","spectator/counter.cc"),("meter map with expiry","spectator/registry.h"),("line dispatch","server/spectatord.cc")],
 [("count_","increments since the last measurement","spectator/counter.h")], ["the measured vector of every cycle","payloads received by the aggregator"])

prop("C02", "Timer and distribution-summary statistics are conserved",
 "For every timer and distribution summary (line types t and d, statsd ms and h) each accepted non-negative recording contributes exactly once to count, once to total and once to total-of-squares, and the reported max of an interval is the largest recording attributed to it and never larger than anything recorded. A recording handled before a measurement starts is in that measurement at the latest, for all four statistics; sampled statsd recordings count 1/rate times.",
 ["schedules","histories","inputs"], ALL+", any recordings, any number of intervals",
 UNIT+"; none measures between the individual statistic updates of one recording.",
 ["spectator/timer.cc","spectator/dist_summary.cc","spectator/dist_stats.h","spectator/atomicnumber.h","server/spectatord.cc"],
 [("per-statistic atomics exchanged at measurement","spectator/timer.cc, spectator/dist_summary.cc")],
 [("count_/total_/totalSq_/max_","statistics of the open interval","spectator/timer.h")], ["the measured vector of every cycle"])

prop("C03", "Percentile meters put every recording in exactly one bucket",
 "Every non-negative recording accepted for a percentile timer or percentile distribution summary (line types T and D) increments exactly one percentile bucket counter, the one whose range contains the recorded value and which is tagged with it, and is counted once in the base count, total, total-of-squares and max of the same name; over any run bucket counts sum to the base count. This also holds when the cached percentile meter, its base meter or its bucket counters expire in between.",
 ["schedules","histories","inputs"], ALL+", percentile cache expiry after 120s, meter ttl shorter or longer than that",
 "Unit tests record a few values into one live percentile meter on one thread and never let the cache entry, base meter or buckets expire.",
 ["spectator/percentile_timer.h","spectator/percentile_distribution_summary.h","spectator/percentile_buckets.cc","server/expiring_cache.h","server/spectatord.cc"],
 [("bucket counter lookup per recording","spectator/percentile_timer.h"),("cache of percentile meters with 120s idle expiry","server/expiring_cache.h")],
 [("cache_","percentile meters by id","server/expiring_cache.h")], ["the measured vector of every cycle"])

prop("C04", "Monotonic sources report exactly the growth of the source",
 "For a monotonically increasing source (line types C and U) the reported deltas telescope: over any run they add up to the last value measured minus the value at the first measurement (modulo 2^64 for U), that first value itself is never reported as growth, and no growth is lost or counted twice whatever the timing of updates and measurements. A source that goes backwards yields no negative or spurious delta for C, and a wrapped U source reports the wrapped distance unless it is implausibly large, in which case zero.",
 ["schedules","histories","inputs"], ALL+", any sequence of source values",
 UNIT+", always with the new value stored strictly before or after the measurement.",
 ["spectator/monotonic_counter.cc","spectator/monotonic_counter_uint.cc","spectator/registry.h","server/spectatord.cc"],
 [("previous/current value pair","spectator/monotonic_counter.cc, spectator/monotonic_counter_uint.cc")],
 [("value_/prev_value_","latest source value and value at last report","spectator/monotonic_counter.h")], ["the measured vector of every cycle"])

prop("C05", "Gauges report the last value until their ttl passes",
 "A gauge (line type g, statsd g) reports in every interval the most recently accepted value, as long as the time since that update is within its ttl (the ttl given with an update, the configured meter ttl for a gauge that never had one, at least 5s), and reports nothing once the ttl has passed. An update without a ttl keeps the ttl set earlier, and an update that races with expiry is not lost.",
 ["schedules","histories","inputs"], ALL+", any ttls, wall-clock steps",
 UNIT+" with a hand-fed clock; expiry never races with an update.",
 ["spectator/gauge.cc","spectator/registry.h","spectator/registry.cc","server/spectatord.cc"],
 [("value with per-gauge ttl","spectator/gauge.cc"),("gauge specialisation of expiry","spectator/registry.h")],
 [("ttl_nanos_, value_","ttl and current value","spectator/gauge.h")], ["the measured vector of every cycle"])

prop("C06", "Max gauges report the maximum of the interval, then reset",
 "A max gauge (line type m) reports in each interval the largest value accepted since the previous report, exactly one interval owns each accepted value, and an interval without updates reports nothing. A value accepted before a measurement starts is never carried over to a later interval.",
 ["schedules","histories","inputs"], ALL+", any values including negative ones",
 UNIT+"; none races an update with a measurement.",
 ["spectator/max_gauge.cc","spectator/atomicnumber.h","spectator/registry.h","server/spectatord.cc"],
 [("atomic max / exchange","spectator/max_gauge.cc")], [("value_","running maximum","spectator/max_gauge.h")], ["the measured vector of every cycle"])

prop("C07", "Age gauges report time since last success and never expire",
 "An age gauge (line type A) reports, in every interval after it is first set, the seconds elapsed between its last success (an explicit epoch time in seconds, or the moment a 0 was received) and the measurement; it never reports an age for a success that was never recorded, and it is not removed by inactivity. At most the configured number of age gauges exist at a time, further ones are refused without affecting existing ones, and deleting one frees its place.",
 ["schedules","histories","inputs","configurations"], ALL+", concurrent admin deletes, wall-clock steps, any limit",
 UNIT+"; limit, deletion and update are never concurrent and no measurement falls between creation and first update.",
 ["spectator/age_gauge.h","spectator/registry.cc","spectator/registry.h","admin/admin_server.cc"],
 [("limit check before insertion","spectator/registry.cc"),("never-expire specialisation","spectator/registry.h")],
 [("last_success_","time of last success","spectator/age_gauge.h")], ["the measured vector of every cycle","GET /metrics"])

prop("C08", "Sampled monotonic sources report the rate between samples",
 "A sampled monotonic source (line type X with a millisecond timestamp) reports, after at least two samples with increasing timestamps, the growth between the newest sample and the newest sample of the previous report divided by the seconds between them; out-of-order samples are ignored, decreasing values report nothing, and each stretch of growth is reported at most once. Growth in samples handled before a measurement starts is reported by that measurement.",
 ["schedules","histories","inputs"], ALL+", any sample sequence",
 "The unit tests drive the meter object directly and never through the registry's measurement, so they do not see whether it is ever published.",
 ["spectator/monotonic_sampled.cc","spectator/registry.h","server/spectatord.cc"],
 [("sample pair under lock","spectator/monotonic_sampled.cc"),("inclusion in measurement, expiry and size","spectator/registry.h")],
 [("value_/ts_/prev_value_/prev_ts_","newest sample and newest reported sample","spectator/monotonic_sampled.h")], ["the measured vector of every cycle"])

prop("C09", "Idle meters are dropped, active meters never",
 "A meter that received no update for longer than the meter ttl stops being reported and leaves the registry within one expiration period, and reappears cleanly (no stale value) when updated again, so the registry's size is bounded by the recently active identifiers (interned strings are kept). A meter that is being updated within its ttl is never removed, and an update concurrent with removal of an idle meter is still reported.",
 ["schedules","histories","configurations"], ALL+", any ttl and expiration frequency, wall-clock steps",
 "The one expiration test calls the expirer by hand on one thread while holding the meters.",
 ["spectator/registry.h","spectator/registry.cc","spectator/meter.h"],
 [("periodic expirer thread","spectator/registry.cc"),("last-updated stamp per meter","spectator/meter.h")],
 [("meters_","live meters by id","spectator/registry.h")], ["the measured vector of every cycle","GET /metrics"])

prop("C10", "Every measurement is published once, in a well-formed batch",
 "In every enabled reporting cycle each measurement is sent in exactly one batch of at most the configured batch size; each request is a gzip-compressed smile document whose string table and entries decode to exactly the measured name, tags, common tags, value and operation (add for counting statistics, max otherwise). When publishing is disabled or nothing was measured, nothing is sent.",
 ["schedules","histories","configurations","fault_sequences"], "any number of meters, batch sizes, sender threads, common tags, schedules of sender threads, slow or failing aggregator responses, meters expiring or being deleted while they are sent",
 "No test runs the publisher end to end with several sender threads; encoding tests encode a handful of constants.",
 ["spectator/publisher.h","spectator/smile.cc","spectator/smile.h","spectator/compressed_buffer.cc","spectator/gzip.cc","spectator/measurement.h"],
 [("batching and buffer pool","spectator/publisher.h"),("smile encoder","spectator/smile.cc"),("gzip stream","spectator/compressed_buffer.cc")],
 [("buffers_","one encoder per sender thread","spectator/publisher.h")], ["requests received by the aggregator versus the measured vector"])

prop("C11", "Delivery attempts follow the retry policy",
 "Each batch is attempted at most three times and always with the identical payload; it is tried again only after a connection-level failure that came back before the request's total timeout or after a 429 or 5xx answer (then after waiting at least 200ms, and 400ms for the third attempt), and never after a success or another 4xx. No attempt takes longer than connect timeout plus read timeout.",
 ["fault_sequences","schedules","histories"], "any sequence of refused, unreachable, reset, stalled, slow, truncated, 2xx, 3xx, 4xx, 429 and 5xx outcomes per attempt, any timeouts, concurrent senders",
 "The client tests try single fixed outcomes against a real server, not sequences of different faults or wall-clock steps.",
 ["spectator/http_client.cc","spectator/publisher.h"],
 [("attempt counter and retry decision","spectator/http_client.cc")],
 [("attempt_number","attempts made for this batch","spectator/http_client.cc")], ["connections and requests seen by the simulated aggregator with their simulated times"])

prop("C12", "Sent and dropped measurements are accounted exactly",
 "For every publishing cycle, the self-metrics spectator.measurements account for each measurement exactly once: as sent when the aggregator accepted it (the whole batch for 200, all but errorCount for another answer below 500 carrying one), as dropped with the right error tag otherwise (validation, http-error or other). No aggregator answer, however malformed, makes the accounting wrong, crashes the daemon or stops later publishing.",
 ["fault_sequences","histories","schedules"], "any answers (status, body shapes, missing fields, huge or negative errorCount) in any order across batches and cycles",
 "No test feeds aggregator answers to the publisher.",
 ["spectator/publisher.h","spectator/http_client.cc"],
 [("interpretation of aggregator answers","spectator/publisher.h")],
 [("sent/dropped counters","self-metrics","spectator/publisher.h")], ["spectator.measurements values in later cycles"])

prop("C13", "Publishing keeps its cadence and recovers from faults",
 "A reporting cycle starts within one reporting period of the previous one's start, or as soon as the previous one's bounded set of delivery attempts ends if that took longer; cycles are never started closer together than the period allows, and no fault, disabled phase or wall-clock step stops the cadence. Once faults stop, the next cycle is delivered within one period, and counters keep accumulating meanwhile without loss of what had not been measured.",
 ["fault_sequences","schedules","histories","configurations"], "any aggregator outages and stalls, wall-clock steps forward and backward, spurious wake-ups, enabling and disabling, any period",
 "Tests never run the sender loop, let alone under faults or clock changes.",
 ["spectator/publisher.h","spectator/registry.cc"],
 [("sender loop","spectator/publisher.h"),("expirer loop","spectator/registry.cc")],
 [("cv_","sleep between cycles","spectator/publisher.h")], ["times of measured vectors and of requests"])

prop("C14", "Ingestion never stalls behind publishing, admin or bad input",
 "Whatever the aggregator and admin clients do and whatever was received before, a datagram that reaches the daemon's UDP or local socket is handled within a bounded time; no single datagram makes the daemon spend unbounded time or stop receiving. Receive errors and socket-level oddities (empty or maximum-size datagrams, transient errors, senders that run out of descriptors or ports) never stop reception on that or another socket.",
 ["schedules","fault_sequences","inputs"], "any stalls of the aggregator and of admin connections, any datagram contents and sizes, receive errors",
 "The server tests call the parser directly; no socket, no concurrent publisher.",
 ["server/udp_server.cc","server/local_server.cc","server/spectatord.cc","spectator/publisher.h","admin/admin_server.h"],
 [("receive loops","server/udp_server.cc, server/local_server.cc"),("separate publisher threads","spectator/publisher.h")],
 [("recv_buffer_","datagram being parsed","server/udp_server.h")], ["receive calls on the simulated sockets","measured vectors"])

prop("C15", "Lines are handled independently and accounted exactly",
 "Each line of each datagram on each socket is handled exactly as if it were the only line ever received: a malformed line has no effect other than being counted, never changes the fate of its neighbours, and the meaning of a line never depends on earlier datagrams, on arrival order of other lines, or on the socket it came from within the same protocol. Over any run the reported parsed count equals the number of accepted lines and the reported error count the number of rejected ones, and duplicated or reordered datagrams are each handled on their own.",
 ["inputs","histories","schedules"], "any datagrams built from well-formed, malformed and truncated lines on all three sockets, duplicated, reordered, interleaved with measurements and expiry",
 "Tests parse about twenty fixed lines, each in a fresh zero-filled buffer, and check status counts once.",
 ["server/spectatord.cc","server/udp_server.cc","server/local_server.cc"],
 [("line splitting and parsing","server/spectatord.cc")],
 [("parsed/error counters","self-metrics","server/spectatord.h")], ["measured vectors versus a reference parser"])

prop("C16", "Common-tag administration is validated, atomic and effective",
 "A request to change common tags is applied entirely or not at all: it succeeds only for a JSON object with string values whose keys are all on the allowed list and only when addressed to localhost, an empty value removes the tag, and every other request leaves the configuration unchanged. After a successful answer the configuration endpoint shows the change and every reporting cycle that starts later publishes with the new common tags, never with a mixture of old and new within a cycle.",
 ["schedules","histories","inputs"], "concurrent administration requests, publishing in progress, partial, slow or aborted requests",
 "Tests send one request at a time and look at the configuration object, not at what is published.",
 ["admin/admin_server.cc","spectator/registry.cc","spectator/publisher.h"],
 [("validation then update","admin/admin_server.cc"),("common tag map","spectator/registry.cc")],
 [("common_tags","tags added to all measurements","spectator/config.h")], ["HTTP answers of the admin server","payload tags"])

prop("C17", "Admin deletion removes exactly what it names",
 "Deleting a gauge or age gauge through the admin endpoint answers success exactly when such a meter existed and removes that meter and no other, deleting a kind removes all meters of that kind and no others, and later updates recreate the meter from scratch; requests not addressed to localhost change nothing. The metrics endpoint lists exactly the live counters, gauges, timers, distribution summaries, age gauges, maxima and monotonic counters (sampled monotonic counters are not listed) with their current values and counts, and reading it never changes what is reported.",
 ["schedules","histories","inputs"], "concurrent deletes, reads, updates, measurement and expiry; any identifiers",
 "Tests delete a single meter on an otherwise idle registry.",
 ["admin/admin_server.cc","spectator/registry.h","spectator/registry.cc"],
 [("delete and list operations","spectator/registry.h")],
 [("meters_","live meters by id","spectator/registry.h")], ["HTTP answers of the admin server","measured vectors"])

prop("C18", "No schedule or fault corrupts memory or blocks threads",
 "Under every interleaving of its threads and every fault of its environment the daemon does not crash, throw out of a thread, touch freed or out-of-bounds memory, access data concurrently without synchronisation, or deadlock. This includes meters expiring or being deleted while they are being measured, encoded, sent, listed or updated.",
 ["schedules","fault_sequences","inputs"], ALL+", all simulated faults",
 "Tests are single-threaded except for one interning test, so the sanitizers see one schedule.",
 ["spectator/registry.h","spectator/publisher.h","spectator/measurement.h","server/spectatord.cc","server/expiring_cache.h","spectator/string_pool.cc","admin/admin_server.cc"],
 [("locks, atomics and shared ownership","spectator/registry.h, server/expiring_cache.h, spectator/string_pool.cc")],
 [], ["every instrumented memory access and lock operation"])

prop("C19", "Startup and shutdown are clean and bounded",
 "The daemon starts and serves even when a stale socket file from a crashed predecessor is present, with a local socket which every local user may send to, and on SIGTERM or SIGINT at any moment after it started serving it terminates with success within a bounded time (no longer than the delivery attempts in flight may take, never a reporting, expiry or housekeeping period), with all its threads finished and nothing used after destruction. A second signal or requests in flight do not change this.",
 ["schedules","crash_points","fault_sequences"], "signal at any instant: right after the start, during a publish, a stalled delivery, an admin request",
 "No test starts or stops the daemon.",
 ["bin/spectatord_main.cc","server/spectatord.cc","spectator/registry.cc","spectator/publisher.h"],
 [("stop flags and condition variables","server/spectatord.cc, spectator/registry.cc, spectator/publisher.h"),("stale socket removal","server/spectatord.cc")],
 [("should_stop_","shutdown requested","server/spectatord.h")], ["exit time after the signal","thread states at exit"])

prop("C20", "Equivalent identifiers are one meter, different ones never merge",
 "Two identifiers denote the same meter exactly when their sanitised names and tag sets are equal, irrespective of tag order or of which thread or socket introduces their strings first; a repeated tag key keeps its last value. Published names and tags contain only allowed characters, and concurrent interning of new strings never loses, duplicates or mixes up text.",
 ["schedules","inputs","histories"], "any names and tags, first uses of strings raced from receive, sender and admin threads",
 "Tests compare a few fixed identifiers; the concurrent interning test has one schedule.",
 ["spectator/id.h","spectator/tags.h","spectator/string_pool.cc","spectator/string_pool.h","spectator/string_intern.h"],
 [("sorted tags and precomputed hash","spectator/tags.h, spectator/id.h"),("string pool under lock","spectator/string_pool.cc")],
 [("table_","interned strings","spectator/string_pool.h")], ["measured vectors and payload strings"])

prop("C21", "Self-metrics tell the truth about the environment",
 "When status metrics are enabled the daemon reports, from the environment it actually saw: kernel-dropped datagrams as the growth of the kernel's counter for its port (no growth lost or invented, the value found at startup is not reported), the largest receive-queue length sampled per interval, the number of measurements per cycle, measurements sent and dropped with the reason, one request record per delivery attempt with its outcome, status and attempt number, lines parsed and rejected, and sizes and expirations of the percentile caches. With status metrics disabled none of the daemon's own metrics is published.",
 ["histories","configurations","fault_sequences"], "any evolution of the kernel tables (missing file, missing port, other ports), any cache population history, with and without common tags",
 "Tests parse one static copy of the kernel table.",
 ["server/spectatord.cc","server/proc_utils.cc","spectator/registry.cc"],
 [("housekeeping loop","server/spectatord.cc")], [("percentile cache sizes","cache entries","server/expiring_cache.h")], ["measured vectors versus the simulated kernel tables"])

prop("C22", "Encoders are exact for every single value",
 "The smile encoder and the gzip stream encode every integer, double and string so that a standard decoder returns exactly that value, for each value and size in isolation.",
 ["inputs"], "all integers, doubles, strings",
 "Tests encode a handful of constants.",
 ["spectator/smile.cc","spectator/gzip.cc","spectator/compressed_buffer.cc"],
 [("encoder","spectator/smile.cc")])

prop("C23", "Percentile bucket arithmetic is consistent for every value",
 "For every 64-bit value the bucket index function is monotone, in range, and the bucket's bounds contain the value; the percentile estimate computed from bucket counts lies within the bucket holding that rank.",
 ["inputs"], "all 64-bit values",
 "Tests sample random values.",
 ["spectator/percentile_buckets.cc","tools/gen_perc_bucket_values.cc"],
 [("bucket index computation","spectator/percentile_buckets.cc")])

prop("C24", "External publishing uses mutually authenticated TLS",
 "With external publishing enabled no measurement leaves the host except over a TLS session verified against the Metatron authorities and the configured application name.",
 ["configurations","fault_sequences"], "any certificate layout and peer certificate",
 "The open-source tree only carries a stub of the certificate code.",
 ["metatron/metatron_sample.cc","spectator/http_client.cc"],
 [("TLS options of the client","spectator/http_client.cc")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
