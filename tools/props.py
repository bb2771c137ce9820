#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when it changes)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = 'jaeger_client/'

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms [(name, where)]
PROPS = [
 ('C01', 'Text trace header: what is injected is what is extracted',
  'Injecting a span context into a text-map or HTTP-header carrier and extracting it from there gives back the same trace id, span id, parent id and flags. This holds for every id in range, every configured header name, whatever the letter case of the header names, whether or not values are percent-encoded, and with unrelated headers around.',
  ['inputs', 'configurations'], 'every trace id below 2^128, span and parent id below 2^64, flags byte, header name, carrier already filled with other entries',
  'The tests round-trip a few constant ids; they cannot cover the id ranges, absent parents and every header configuration.',
  [J + 'codecs.py', J + 'span_context.py', J + 'tracer.py'],
  [('text codec', J + 'codecs.py TextCodec'), ('header formatting and parsing', J + 'codecs.py span_context_to_string / span_context_from_string')]),
 ('C02', 'Untrusted trace headers give ids in range or are reported as corrupted',
  'Whatever a carrier holds under the trace header (any string, any other type), extraction either gives a context whose ids and flags fit the wire format or raises the corrupted-context error. No other exception escapes and no out-of-range id enters the process.',
  ['inputs'], 'every value of every type under the trace header of a text carrier',
  'The tests try about a dozen malformed strings; the input space is all values an attacker can send.',
  [J + 'codecs.py'], [('header validation', J + 'codecs.py span_context_from_string')]),
 ('C03', 'Baggage and correlation id survive the text carriers',
  'Every baggage item of an injected context is extracted with its lower-cased key and an equal value, nothing is added and nothing is lost, also when it is given as encoded bytes or stands next to ad-hoc baggage, a debug id and foreign headers. A debug id or ad-hoc baggage without a trace is extracted as such.',
  ['inputs', 'configurations'], 'every set of baggage items (any strings), header prefix, order of headers, with and without percent-encoding',
  'Tests use one or two ASCII items; encoding problems show with other strings or combinations of headers.',
  [J + 'codecs.py', J + 'span_context.py'], [('baggage headers', J + 'codecs.py TextCodec.inject / extract'), ('ad-hoc baggage header', J + 'codecs.py TextCodec._parse_baggage_header')]),
 ('C04', 'Binary carrier: exact layout, lossless round trip, malformed data refused',
  'The binary format writes the documented big-endian record, appended to the carrier; extracting it gives back every id, the flags and all baggage. A truncated or arbitrary carrier gives a context in range or the corrupted-context error, and nothing else.',
  ['inputs'], 'every context with any baggage of any strings; every byte sequence and every truncation as a carrier',
  'Tests check a few constants; malformed carriers are barely sampled.',
  [J + 'codecs.py'], [('binary codec', J + 'codecs.py BinaryCodec')]),
 ('C05', 'B3 headers: lossless ids, sampling state kept, untrusted headers refused',
  'B3 injection writes zero-padded hexadecimal ids and the sampling or debug header; extraction, in any letter case, gives back the ids, the sampled decision and the debug decision. Headers of any value give a context in range, no context, or the corrupted-context error.',
  ['inputs', 'configurations'], 'every context, every value of every B3 header, 64 and 128 bit trace ids',
  'Tests use fixed header sets; the ranges and the combinations of sampled, debug and parent headers are not covered.',
  [J + 'codecs.py'], [('B3 codec', J + 'codecs.py B3Codec, header_to_hex')]),
 ('C06', 'Zipkin-format carriers carry ids unchanged',
  'The Zipkin span format writes the trace id, span id, parent id and flags unchanged and reads them back from a dictionary or from an object with such attributes. A carrier without a trace id gives no context and one that lacks an entry is refused as invalid.',
  ['inputs'], 'every id and flags value, dictionary and object carriers, each missing entry',
  'Tests cover one constant context.', [J + 'codecs.py'], [('Zipkin codec', J + 'codecs.py ZipkinCodec')]),
 ('C07', 'Formats are dispatched to their codec; unusable carriers are refused unwritten',
  'Injecting or extracting uses exactly the codec registered for the format, a codec given by the application takes precedence, and an unknown format is refused. A carrier of the wrong kind is refused as invalid before anything is written to it.',
  ['inputs', 'configurations'], 'every format, extra codecs, carriers of every type',
  'Tests try few wrong carriers and do not look at what was written before the error.',
  [J + 'tracer.py', J + 'codecs.py'], [('codec registry', J + 'tracer.py Tracer.__init__, inject, extract')]),
 ('C08', 'Propagation has no side effects beyond the carrier it writes',
  'Injecting changes nothing but the carrier and keeps the entries it already had; extracting changes nothing at all. Contexts extracted from the same carrier share no mutable state with it or with each other, and propagation never samples, reports or activates a span.',
  ['inputs', 'histories'], 'every format, context, and carrier content; repeated use of the same carrier',
  'Tests look at results, not at aliasing or at what else changed.',
  [J + 'codecs.py', J + 'tracer.py', J + 'span_context.py'], [('codecs', J + 'codecs.py'), ('immutable contexts', J + 'span_context.py SpanContext')]),
 ('C09', "A child span belongs to its parent's trace",
  "A span started with a parent, however the parent is given, has the parent's trace id, sampling flags and baggage, the parent's span id as its parent id and a fresh span id. Its sampling decision is never taken again; with shared RPC spans a server span takes over the parent's ids.",
  ['inputs', 'programs'], 'every parent context or span, given as parent, reference or active span, with any flags and baggage, any configuration of the tracer',
  'Tests check a few constellations with fixed ids.',
  [J + 'tracer.py', J + 'span.py', J + 'span_context.py'], [('start_span', J + 'tracer.py Tracer.start_span')]),
 ('C10', 'A root span starts a new trace with one sampling decision',
  'A span without a parent trace gets fresh random ids of the configured width and no parent id. The sampler is asked exactly once, with that trace id and the operation, its answer decides the sampled flag, and its tags are recorded exactly when it says yes.',
  ['inputs', 'configurations'], 'no parent, parents carrying only baggage, references without a trace; every sampler answer',
  'Tests use constant samplers and do not count or inspect the questions asked.',
  [J + 'tracer.py'], [('start_span', J + 'tracer.py Tracer.start_span')]),
 ('C11', 'A debug id forces one debug trace, subject to the throttler',
  'A request carrying a debug id and no trace starts a sampled debug trace, recorded with that id, unless the throttler refuses; the throttler is asked exactly once and the sampler is not asked. A request that carries a trace keeps its own decision.',
  ['inputs', 'configurations'], 'every parent with and without debug id and trace, each throttler and sampler answer',
  'Tests check the allowed and the denied case for one input each.',
  [J + 'tracer.py', J + 'span_context.py'], [('debug id', J + 'tracer.py Tracer.start_span'), ('throttler', J + 'tracer.py Tracer.is_debug_allowed')]),
 ('C12', 'Setting the sampling priority changes sampling exactly as documented',
  'Setting the sampling priority to a nonzero number makes a span sampled and debug when the throttler agrees (asked at most once), zero makes it unsampled, and any other value is ignored. Nothing else an application does to a span changes its flags.',
  ['inputs', 'histories'], 'every flags value, every tag value and type, repeated calls, each throttler answer',
  'Tests try priorities 0 and 1 on fresh spans.',
  [J + 'span.py'], [('sampling priority', J + 'span.py Span.set_tag, Span._set_sampling_priority')]),
 ('C13', 'Baggage is immutable in a context and isolated between spans',
  'Setting a baggage item on a span never changes a context taken earlier, its parent, its siblings or children started before; children started later inherit it. The other items and all ids stay as they are, and dictionaries given by the caller are not modified.',
  ['histories', 'inputs'], 'every order of setting, removing and reading items on spans of one trace',
  'Tests check one order; aliasing shows only in particular histories.',
  [J + 'span.py', J + 'span_context.py', J + 'tracer.py'], [('copy on write', J + 'span_context.py SpanContext.with_baggage_item')]),
 ('C14', 'Updates of one span from several threads are all kept',
  'When two threads update the same span (tags, logs, baggage, name, priority, finish), both updates are there afterwards and neither fails, whatever the interleaving. No update is lost or half applied.',
  ['schedules'], 'every pair of span operations, the second run by another thread at any access of the first',
  'The tests are single-threaded; a lost update needs a particular interleaving.',
  [J + 'span.py'], [('span lock', J + 'span.py Span.update_lock')]),
 ('C15', 'A sampled span is reported exactly once, when first finished',
  'However a sampled span is finished (explicitly, by leaving a block with or without an exception, by closing its scope, by two threads at once), it is reported exactly once with the end time of the first finish. Finishing again reports and changes nothing.',
  ['histories', 'schedules'], 'every way and order of finishing, also concurrently',
  'Tests finish once or twice on one thread.',
  [J + 'span.py', J + 'tracer.py'], [('finish', J + 'span.py Span.finish'), ('scopes', J + 'tracer.py Tracer.start_active_span')]),
 ('C16', 'An unsampled span records and reports nothing',
  'A span that is not sampled keeps no tags or logs, does not convert the values given, and is never reported, whatever is done to it. A sampled span records everything.',
  ['inputs', 'histories'], 'every flags value and every operation on the span',
  'Tests check one unsampled span with few operations.',
  [J + 'span.py', J + 'tracer.py'], [('sampled checks', J + 'span.py')]),
 ('C17', 'Tag and log values are recorded with the right type and length',
  'Booleans, integers within 64 bits and floats are recorded with their type and value, anything else as its text cut to the configured length (tracebacks to their own). Exactly one typed value is set and no value an application passes makes recording raise.',
  ['inputs', 'configurations'], 'values of every type and size, every maximum length, tags, log fields and process tags',
  'Tests cover a handful of values.',
  [J + 'thrift.py', J + 'span.py'], [('make_tag', J + 'thrift.py make_tag')]),
 ('C18', 'Ids reach the wire bit for bit',
  'The two halves of the trace id, the span id, the parent id and the ids of references arrive in the reported span as the same 64 bits, in signed 64-bit fields. A span without a parent reports zero as its parent.',
  ['inputs'], 'every trace id below 2^128 and every span and parent id below 2^64',
  'Tests check a few constants; the sign boundary needs the whole range.',
  [J + 'thrift.py'], [('id conversion', J + 'thrift.py id_to_int, _id_to_low, _id_to_high')]),
 ('C19', 'The reported span says what the span object says',
  'Operation name, start time, duration, flags, tags, logs, references and parent of a finished span appear in the reported span, complete, unchanged and in order, with times in microseconds. Spans of a batch stay in order and carry the process they belong to.',
  ['inputs'], 'every finished span with any number of tags, logs and references',
  'Tests compare few fields of few spans.',
  [J + 'thrift.py'], [('make_jaeger_batch', J + 'thrift.py make_jaeger_batch, make_references, make_log')]),
 ('C20', 'The serialisers speak the Jaeger wire schema',
  'Each structure of a batch (and of the sampling and Zipkin definitions that come with it) is written with the field numbers, types and optional fields the Jaeger interface definition prescribes, and read back independent of field order. A batch is sent as one one-way message with the agreed name.',
  ['inputs'], 'every structure with each combination of optional fields absent',
  'Tests do not decode what is sent; a wrong field number is seen only by the backend.',
  [J + 'thrift_gen/jaeger/ttypes.py', J + 'thrift_gen/agent/Agent.py', J + 'thrift_gen/sampling/ttypes.py', J + 'thrift_gen/zipkincore/ttypes.py'], [('generated writers', J + 'thrift_gen')]),
 ('C21', 'Nothing an application records makes a span impossible to serialise',
  'Every number in a reported span has the type and range its wire field takes, whatever ids, flags, times, tags or log values the application or a remote caller gave.',
  ['inputs'], 'values of every type and range for each field of a span, including those taken from a parent',
  'Tests use ordinary values; a value out of range loses the whole batch.',
  [J + 'thrift.py', J + 'span.py', J + 'tracer.py'], [('conversions', J + 'thrift.py')]),
 ('C22', 'A reported span is one consistent snapshot',
  'While spans are converted for sending, other threads may still touch them: what is reported is the span before or after each such operation, never a mixture, and conversion never fails. Later operations do not change what was converted.',
  ['schedules'], 'every span operation of another thread at every access of the conversion',
  'Needs a particular interleaving; tests have one thread.',
  [J + 'thrift.py', J + 'span.py'], [('span lock in conversion', J + 'thrift.py make_jaeger_batch')]),
 ('C23', 'Constant and probabilistic sampling are functions of the trace id',
  'The constant sampler always answers the same; the probabilistic sampler answers yes exactly for the fraction of trace ids its rate says, by the low 64 bits, so that all services agree and a higher rate samples a superset. Rates outside 0 to 1 are refused.',
  ['inputs', 'configurations'], 'every rate and every trace id',
  'Tests check boundaries for one rate.',
  [J + 'sampler.py'], [('samplers', J + 'sampler.py ConstSampler, ProbabilisticSampler')]),
 ('C24', 'The rate limiter never spends more credit than has accrued',
  'A check is granted exactly when the balance accrued so far covers it; it then costs exactly that much, and the balance stays between zero and its cap, whatever the clock does. Changing the rate accrues at the old rate first and scales the balance.',
  ['inputs', 'histories'], 'every rate, cap, balance, cost and sequence of clock readings, also clocks set back',
  'Tests use fixed clocks and few steps.',
  [J + 'rate_limiter.py', J + 'sampler.py'], [('rate limiter', J + 'rate_limiter.py RateLimiter'), ('rate limiting sampler', J + 'sampler.py RateLimitingSampler')]),
 ('C25', 'Per-operation sampling follows probability and guaranteed lower bound',
  'A trace is sampled when the probability of its operation says so, or when its lower bound has credit left, and its tags name which of them decided. Unknown operations get the defaults, no more than the configured number is tracked, and updates change only the operations they name.',
  ['histories', 'inputs'], 'histories of requests, pauses and strategy updates over several operations',
  'Tests follow a few short histories.',
  [J + 'sampler.py'], [('adaptive sampling', J + 'sampler.py AdaptiveSampler, GuaranteedThroughputProbabilisticSampler')]),
 ('C26', 'A failed sampling response leaves the sampler unchanged',
  'When the answer to a sampling poll is an error, undecodable, malformed or out of range, the active sampler keeps deciding exactly as before. The failure is counted and reported once, nothing escapes into the event loop, and later good answers are applied.',
  ['fault_sequences', 'inputs'], 'every kind of failure and every response body, with every kind of active sampler',
  'Tests try a few malformed bodies and check only that nothing is raised.',
  [J + 'sampler.py', J + 'thrift.py'], [('response callback', J + 'sampler.py RemoteControlledSampler._sampling_request_callback, _update_sampler')]),
 ('C27', 'A good sampling response is applied completely',
  'After a valid answer the strategy it names, with its numbers, decides; a strategy of the active kind keeps the credit and operations already known. The same strategy again changes and counts nothing, each change is counted once, and polls name the service.',
  ['inputs', 'histories'], 'every valid response after every active sampler',
  'Tests try one transition for each strategy.',
  [J + 'sampler.py', J + 'thrift.py'], [('strategy update', J + 'sampler.py RemoteControlledSampler._update_sampler')]),
 ('C28', 'Concurrent sampling gives no credit away',
  'With several threads asking the samplers while updates arrive, one credit pays for one trace only, the table of operations stays bounded, no update is lost or half seen, and nobody fails.',
  ['schedules'], 'two requests, or a request and an update, interleaved at every shared access',
  'Needs a particular interleaving; tests have one thread.',
  [J + 'sampler.py', J + 'rate_limiter.py'], [('sampler locks', J + 'sampler.py')]),
 ('C29', 'Every reported span is accounted for exactly once',
  'Each span handed to the reporter is sent in exactly one batch and counted as sent, or counted as failed, or counted as dropped. Batches keep the order, are never empty and never exceed the configured size.',
  ['histories', 'fault_sequences'], 'every order of reporting, loop steps, flush timeouts, sending failures and closing',
  'Tests follow single histories without failures in between.',
  [J + 'reporter.py'], [('queue and consumer', J + 'reporter.py Reporter.report_span, Reporter._consume_queue')]),
 ('C30', 'Closing the reporter sends what was reported before, then completes',
  'The future returned by closing is always settled, and when it is, every span reported before has been sent, failed or dropped and counted. This holds with a full queue, failing sends, repeated closing and without waiting for a flush interval.',
  ['histories', 'fault_sequences'], 'every state of the reporter when it is closed, repeated and interleaved closing',
  'Tests close once in one state.',
  [J + 'reporter.py', J + 'ioloop_util.py'], [('flush', J + 'reporter.py Reporter.close, Reporter._flush'), ('submission to the loop', J + 'ioloop_util.py submit')]),
 ('C31', 'Reporting never blocks, fails or sends on the application thread',
  'Reporting a span and closing only hand work over to the event loop: no queueing, no sending and no lock held during sending delays the application, and neither ever raises. The spans kept in memory are bounded by the configured queue and batch size, also with several threads reporting.',
  ['schedules', 'histories'], 'every state of the reporter, several threads, bursts larger than the queue',
  'Tests use one thread and do not observe which thread does what.',
  [J + 'reporter.py', J + 'tracer.py', J + 'span.py'], [('hand-over to the loop', J + 'reporter.py Reporter.report_span')]),
 ('C32', 'A composite reporter serves all its reporters and closes when all have closed',
  'Each reporter gets each span and the process description exactly once. The future of closing is settled exactly once, after the last of the reporters has closed, in whatever order and on whatever threads they do so.',
  ['schedules', 'histories'], 'any number of reporters, every order of their closing, at once or later, failing or not, on two threads',
  'Tests close two reporters in one order.',
  [J + 'reporter.py'], [('composite', J + 'reporter.py CompositeReporter')]),
 ('C33', 'A batch that cannot be sent affects no other batch',
  'Each datagram is exactly one complete message with the spans of one batch and the process. Whatever step of building, writing or sending a batch fails, nothing of it is sent later and the following batches are sent complete.',
  ['fault_sequences', 'crash_points'], 'a failure at every single write of a message, at the datagram, or in converting a span, alone and in sequence',
  'Tests replace the transport; failures half-way through a message are not tried.',
  [J + 'reporter.py', J + 'local_agent_net.py', J + 'TUDPTransport.py', J + 'thrift_gen/agent/Agent.py'], [('buffered transport', J + 'local_agent_net.py LocalAgentSender'), ('error handling', J + 'reporter.py Reporter._submit, Reporter._send')]),
 ('C34', 'The throttler grants a debug span only against a credit received',
  'A debug span of an operation is allowed exactly when at least one credit received for it is left, and then costs exactly one; unknown operations are refused and asked for at the next poll. Balances received are added, also while other threads ask; a failed poll changes nothing, is counted and reported. Requests are made under the client id the process is described with.',
  ['histories', 'schedules', 'fault_sequences'], 'histories of requests and responses of any balances, failing responses, two threads',
  'Tests follow one short history on one thread.',
  [J + 'throttler.py'], [('credits', J + 'throttler.py RemoteThrottler.is_allowed, _update_credits')]),
 ('C35', 'Closing the tracer stops all background work',
  'Closing a tracer closes its sampler, its throttler and its reporter, and gives the completion of the reporter. After a sampler or throttler is closed it starts no further polling, whenever in its start-up the closing happens, and polling that runs is stopped. Once the reporter has closed nothing of it waits for spans any more.',
  ['schedules', 'histories'], 'closing at every step of starting to poll, on the loop or from another thread',
  'Tests close fully started components only.',
  [J + 'tracer.py', J + 'sampler.py', J + 'throttler.py'], [('close', J + 'tracer.py Tracer.close'), ('polling', J + 'sampler.py RemoteControlledSampler, ' + J + 'throttler.py RemoteThrottler')]),
 ('C36', 'Configuration validation refuses unknown keys and accepts every known one',
  'With validation on, a configuration with an unknown key is refused and one made of supported keys is accepted; with validation off unknown keys are ignored. Every key the configuration reads is among the supported ones. Without a service name the configuration is refused.',
  ['configurations'], 'every configuration dictionary, each supported key, unknown keys',
  'Tests try one unknown key.',
  [J + 'config.py'], [('validation', J + 'config.py Config._validate_config')]),
 ('C37', 'Every configured value reaches the component it configures',
  'Each setting (sampler, rates, batch and queue sizes, intervals, headers, lengths, ports, hosts, tags, id width, propagation) takes effect in the component it is for, with the documented default when absent, and an explicit setting takes precedence over the environment; process tags of both are merged.',
  ['configurations'], 'every combination of set and absent settings and environment variables',
  'Tests check single settings through the configuration object, mostly not the tracer built from it.',
  [J + 'config.py', J + 'tracer.py'], [('wiring', J + 'config.py Config.new_tracer, Config.create_tracer, Config properties')]),
 ('C38', 'The global tracer is initialised at most once',
  'However often and from however many threads initialisation is called, at most one tracer is built and installed as the global tracer per process; the call that built it returns it, the others build nothing and return None. Tracers made otherwise are not installed.',
  ['schedules', 'histories'], 'repeated and concurrent initialisation calls',
  'Tests call it once or twice on one thread.',
  [J + 'config.py'], [('initialisation lock', J + 'config.py Config.initialize_tracer')]),
 ('C39', 'Objects the application passes in are not modified',
  'Configuration dictionaries (with all they contain), tag dictionaries of tracers and metrics, codec dictionaries, reference lists, log dictionaries, values, sampling strategies, parent contexts and carriers to extract from stay as they are, and injecting only adds its own entries to a carrier. Changing a container after the tracer, span, context, sampler or metric was made from it does not change what was made. Only the tags dictionary of start_span may be written to, as its documentation says, and it too can be changed afterwards without effect.',
  ['histories', 'inputs'], 'every entry point that takes a container, any contents, used again and changed afterwards',
  'Tests do not look at arguments after the call.',
  [J + 'config.py', J + 'tracer.py', J + 'span.py', J + 'sampler.py', J + 'throttler.py'], [('copies', J + 'config.py Config.tags, ' + J + 'tracer.py Tracer.start_span')]),
 ('C40', 'Locks are released on every path and never deadlock',
  'Code of the application that the client calls in the middle of an operation (conversions of values, errors and priorities, logging handlers, metrics callbacks, its own samplers, throttlers and reporters) can use the same span, the tracer and the configuration again: no thread waits for a lock it holds itself. After every operation no lock of the client is held, also when a value, a part, the event loop or a metric raises in the middle, and the span or component can be used afterwards. The client takes its locks in one order.',
  ['schedules', 'programs'], 'every operation of spans, tracer, samplers, throttler, reporters and configuration; application code at every place where it is called; failures of every part',
  'A deadlock needs re-entrant code, a failure in the middle or a particular schedule.',
  [J + 'span.py', J + 'sampler.py', J + 'throttler.py', J + 'reporter.py', J + 'thrift.py', J + 'config.py'], [('locks', J + 'span.py Span.update_lock and the locks of samplers, throttler, reporters and configuration')]),
 ('C41', 'Repeated errors are logged at a bounded rate',
  'The error reporter logs at most one error per configured interval, counted from its construction or the last error it logged; the first error after that is logged, with its message and arguments. Without a logger nothing is logged, and it never raises.',
  ['histories', 'inputs'], 'every interval and every sequence of error times',
  'Tests check one sequence.',
  [J + 'utils.py'], [('error reporter', J + 'utils.py ErrorReporter.error')]),
 ('C42', 'Span and trace metrics count each event once',
  'Each started span counts once as started, by its sampling state; a span without a parent also counts once as a started trace, a server span with a parent once as a joined trace, other spans as neither. Each finished sampled span counts once as finished, however often it is finished; unsampled ones never.',
  ['inputs', 'histories'], 'every kind of parent, sampler answer and way of finishing',
  'Tests count a few combinations.',
  [J + 'tracer.py', J + 'span.py'], [('span metrics', J + 'tracer.py Tracer._emit_span_metrics, TracerMetrics')]),
 ('C43', 'Every metrics backend receives each measurement once, with its name and tags',
  'Counters, gauges and timers created by a metrics factory pass each value on once, under the given name and tags: the legacy factory to the function for that kind (if there is one) under a name that does not depend on the order of the tags, timers in milliseconds; the Prometheus factory to one metric per name, whatever the order of the tags, with the namespace and the service label. Without a backend nothing happens and nothing fails.',
  ['inputs', 'configurations'], 'every name, set of tags and value, each factory',
  'Tests check one name per factory.',
  [J + 'metrics/__init__.py', J + 'metrics/prometheus.py'], [('factories', J + 'metrics')]),
 ('C44', 'Requests and datagrams go to the configured agent',
  'Span batches go to the reporting port and polls to the sampling and throttling ports of the configured host, with service, client and operations encoded in the query and no longer than the time allowed. A host name that cannot be resolved does not prevent start-up and the socket never blocks.',
  ['configurations', 'inputs', 'fault_sequences'], 'every host, port, service and operation names; address resolution failing or giving any family',
  'Tests use one local server.',
  [J + 'local_agent_net.py', J + 'TUDPTransport.py', J + 'config.py'], [('agent client', J + 'local_agent_net.py'), ('datagram socket', J + 'TUDPTransport.py')]),
 ('C45', 'Sampling responses are parsed to a strategy or an error, never both',
  'Parsing a thrift sampling response gives a sampler of the kind its type names with exactly the number of the response, or an error message, exactly one of the two, for every response a thrift message can hold: unset numbers, missing strategies, unknown types. It never raises.',
  ['inputs'], 'every type, every number or none, any combination of strategies present',
  'Tests cover four responses.',
  [J + 'thrift.py'], [('parser', J + 'thrift.py parse_sampling_strategy')]),
 ('C46', 'The local address is found when it can be and never prevents start-up',
  'The address in the process description is the one the application gives, else that of the host name unless it is a loopback address, else that of the first network interface that has one, else that of the route to other hosts, else none. Each step may fail in any way; neither that nor a missing host name prevents start-up.',
  ['inputs', 'fault_sequences'], 'every address a host name resolves to, every failure of name resolution, interfaces, routes and sockets',
  'Tests mock one failure; the interfaces and name errors of a machine are its own.',
  [J + 'utils.py', J + 'tracer.py'], [('local address', J + 'utils.py local_ip'), ('process tags', J + 'tracer.py Tracer.__init__')]),
 ('C47', 'Without an event loop of the application the client runs its own',
  'When the application gives an event loop, every part of the client (transport, reporter, polling of sampler and throttler) uses that loop and no thread is started. When it gives none, a tracer starts one background thread, which does not keep the process from ending, and everything goes through the loop which that thread runs; the loop of the calling thread is never used or run. A sampler or throttler without a loop decides but does not poll. Spans are sent and closing completes either way.',
  ['inputs', 'histories'], 'every combination of parts with and without a given loop, every order of their creation',
  'Tests use one loop or mock it; that no part is left on another loop, or on one that never runs, is a statement about all of them together.',
  [J + 'local_agent_net.py', J + 'config.py', J + 'reporter.py', J + 'sampler.py', J + 'throttler.py'],
  [('loop', J + 'local_agent_net.py LocalAgentSender._create_new_thread_loop'), ('hand over', J + 'config.py Config.new_tracer')]),
 ('C48', 'Questions about a span tell its current state and change nothing',
  'After any history of a span, is_sampled and is_debug tell its two flags, is_rpc and is_rpc_client tell its span kind wherever that tag stands among the others, trace_id, span_id, parent_id and flags are those of its context, get_baggage_item gives the value last set or None, and its text form names its context, service and current operation. Asking changes nothing about the span and asks no other part.',
  ['inputs', 'histories'], 'every flags byte, every id, every position of the span kind among the tags, every history',
  'Tests ask a handful of spans right after they were made.',
  [J + 'span.py', J + 'span_context.py'], [('questions', J + 'span.py Span.is_sampled'), ('text form', J + 'span.py Span.__repr__')]),
 ('C49', 'Parts work without their optional helpers and tell those they are given',
  'Reporter, remote sampler, throttler, tracer and logging reporter work the same whether a metrics factory, legacy metrics, an error reporter or a logger is given, left out or (where allowed) None: nothing escapes into the application or the event loop. A helper that is given is told of every event that concerns it, in messages that go with the arguments they have places for, and nothing meant for it goes elsewhere.',
  ['inputs', 'fault_sequences', 'configurations'], 'every combination of helpers given, None or left out, through failed sends, failed polls, malformed answers, overflow and closing',
  'Tests pass nearly every helper, and reach the failure paths with mocks in place; a default that is wrong shows only in an application that relies on it, when something fails.',
  [J + 'reporter.py', J + 'sampler.py', J + 'throttler.py', J + 'tracer.py', J + 'utils.py', J + 'metrics/metrics.py'],
  [('defaults', J + 'reporter.py Reporter.__init__'), ('error reports', J + 'utils.py ErrorReporter.error')]),
]

NOT_APPLICABLE = [
 ('C50', 'The sampled fraction converges to the configured probability',
  'Over many traces the fraction sampled approaches the configured probability.',
  ['histories'], 'all sequences of random trace ids',
  'A statistical statement about generated ids.', [J + 'sampler.py', J + 'tracer.py'], [('random ids', J + 'tracer.py Tracer._random_id')],
  'a statement about the distribution of random numbers; the structural part (the decision is a fixed threshold on the random id) is decided by C10 and C23'),
 ('C51', 'Reported spans arrive at the agent',
  'Every span sent in a datagram arrives at the agent.', ['fault_sequences'], 'all network behaviours',
  'Depends on the network.', [J + 'TUDPTransport.py'], [('datagram', J + 'TUDPTransport.py TUDPTransport.write')],
  'the transport is unacknowledged UDP: delivery is decided by the network, not by the source; what the client does is decided by C29, C30 and C33'),
 ('C52', 'Span and trace ids are unique',
  'No two spans of all processes get the same ids.', ['histories'], 'all runs of all processes',
  'Probabilistic.', [J + 'tracer.py'], [('random ids', J + 'tracer.py Tracer._random_id')],
  'uniqueness of random numbers across processes is probabilistic; that fresh random ids of the right width are drawn is decided by C09 and C10'),
 ('C53', 'Polls and flushes happen within their interval',
  'A poll or flush happens no later than its configured interval after it is due.', ['schedules'], 'all schedules of the event loop',
  'Depends on the load of the event loop.', [J + 'reporter.py', J + 'sampler.py', J + 'throttler.py'], [('timers', J + 'reporter.py Reporter._consume_queue')],
  'real time on a shared event loop cannot be bounded from the source; that a flush or poll is scheduled with the configured interval is decided by C29, C35 and C37'),
 ('C54', 'The host address recorded for the process is the right one',
  'The address recorded in the process tags is the one other hosts reach this process by.', ['configurations'], 'all network configurations',
  'Depends on the host.', [J + 'utils.py'], [('local_ip', J + 'utils.py local_ip')],
  'which interface address is the right one is a fact about the host, not about the source'),
]

TECH = 'path-sensitive abstract interpretation (value, type, range, alias and lock-set domains) of the syntax tree'
EXTRA = {'schedules': ' with enumeration of the interfering operation at each shared access'}


def line(p):
    i, title, st, over, text, why, files, mech = p[:8]
    assert len(title) <= 80, title
    return {'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [
                {'name': n, 'where': w} for n, w in mech]}}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS + NOT_APPLICABLE:
            f.write(json.dumps(line(p)) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p[0]
        if os.path.exists(os.path.join(HERE, 'rules', i.lower() + '.py')):
            checks.append({
                'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': 'static analysis: ' + TECH + (EXTRA['schedules'] if 'schedules' in p[3] else ''),
                'level': 'other',
                'level_note': 'static analysis of the current source: every obligation of the rule is '
                'discharged on every abstract path of its scenarios; containers of unknown content are '
                'unrolled to 2 elements and unknown loops to a stated bound (3 in the thorough tier), '
                'the Python and library models in sa/ are trusted; nothing is executed, no solver'})
        else:
            na.append({'property': i, 'reason': 'not built yet: the rule for this property is still to be written'})
    na += [{'property': p[0], 'reason': p[8]} for p in NOT_APPLICABLE]
    m = {'version': 1, 'setup_cmd': 'python3 -c "import ast,glob; [ast.parse(open(f).read()) for f in glob.glob(\'*/*.py\')]"',
         'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
