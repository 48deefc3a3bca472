#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

P = []


def prop(id, title, statement, over, text, tests, files, mechanism, observe, note):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=text, tests=tests, files=files,
                  mechanism=mechanism, observe=observe, note=note))


prop('C01', 'Event dispatch: filter, lazy message and handler isolation',
     '''An event logged through any log overload, directly or through any chain of wrappers, reaches every handler of the logger exactly
     once, in the order of the handler list, if and only if the current filter accepts it, and with exactly the severity, message pattern,
     formatted message, calling thread, timestamp and attributes it was logged with. A lazy message supplier runs exactly once for an
     accepted event and never for a rejected one. No exception of a handler leaves a log call: one which throws prevents neither the remaining
     handlers from getting this event nor later events from being handled.''',
     ['inputs', 'histories'], 'every history of log/filter/move/assign operations over loggers, wrappers, filters and handlers that may throw',
     'Unit tests check single calls on a mocked handler; combinations of overloads, wrappers, throwing handlers and reassignments are never sampled.',
     ['src/root.cpp', 'src/wrapper.cpp', 'src/logger.cpp', 'include/blackhole/root.hpp', 'include/blackhole/logger.hpp', 'src/record.cpp'],
     [('root_logger_t::consume and log overloads', 'src/root.cpp'), ('wrapper_t::log', 'src/wrapper.cpp')],
     ['what handlers added to a root logger receive', 'calls of the lazy supplier', 'exceptions out of log()'],
     'model-based histories of up to 50 operations; 3 threads taking turns (real concurrency is C03)')

prop('C02', 'Scoped and wrapper attributes are attached exactly where they are active',
     '''Every event carries its own attributes, then those of the wrappers it goes through from the outermost to the innermost, then those of
     the scopes active for this logger on the calling thread from the innermost to the outermost, and nothing else. A scope is active from
     the construction of its guard to its destruction, only on the thread which made it, only for its logger, and follows the logger when
     it is moved or assigned over.''',
     ['histories', 'schedules'], 'every history of nested scopes, wrappers, moves and log calls on several threads',
     'The tests nest at most two scopes on one thread and never move or reassign a logger under an active scope.',
     ['src/root.cpp', 'src/wrapper.cpp', 'src/scope/holder.cpp', 'src/scope/manager.cpp', 'src/scope/watcher.cpp', 'include/blackhole/scope/holder.hpp'],
     [('thread-local scope manager of a logger', 'src/root.cpp'), ('watcher_t collect and destruction', 'src/scope/watcher.cpp')],
     ['attribute packs received by handlers and filters'],
     'model-based histories; scopes are closed on the thread that opened them, the documented use')

prop('C03', 'Reconfiguring a logger while other threads log through it',
     '''While threads log through a logger, other threads may replace its filter or assign another logger over it: every event is then
     judged by exactly one of the configurations in force during its call, reaches all the handlers of one such configuration and none of
     another, and a configuration whose installation returned before a log call began is never ignored in favour of an older one. There is
     no data race, crash or use of a destroyed filter or handler, and no deadlock either, even when filters, handlers and their destructors
     log to or reconfigure the logger themselves.''',
     ['schedules', 'histories'], 'every interleaving of log calls with filter replacements and move assignments',
     'The tests are single-threaded apart from one smoke test: interleavings inside a log call are never controlled.',
     ['src/root.cpp', 'src/spinlock.linux.hpp', 'src/spinlock.hpp', 'include/blackhole/root.hpp'],
     [('configuration snapshot taken under the spinlock by log, filter and assignment', 'src/root.cpp')],
     ['handlers, filters and their destructors, as instrumented doubles', 'ThreadSanitizer and AddressSanitizer'],
     'controlled interleavings through callbacks plus free-running threads under ASan and TSan')

prop('C04', 'Attribute values keep their type and content through every conversion',
     '''An attribute value or view made from any supported type holds exactly one of null, bool, signed or unsigned 64-bit integer, double,
     string or display function with the original content, and visiting or getting it yields that very content and type; a view made of an
     owned value refers to the same content. Copies, moves and assignments preserve the content, and equality is an equivalence which holds
     exactly for equal type and content with inequality its negation.''',
     ['inputs'], 'all values of all supported types, boundaries included, and all pairs of values',
     'The tests use one literal per type and compare few pairs.',
     ['src/attribute.cpp', 'src/attribute.hpp', 'include/blackhole/attribute.hpp', 'include/blackhole/attributes.hpp'],
     [('value_t/view_t construction, visitation and comparison', 'src/attribute.cpp')],
     ['get<T>, apply(visitor), operator== and != of value_t and view_t'],
     'generated values over the full range of every constructor')

prop('C05', 'Asynchronous sink delivers every event once, in order and intact',
     '''With the waiting policy every event emitted into an asynchronous sink before its destruction begins is delivered to the wrapped sink
     exactly once before the destructor returns, in the order of emission of each thread, and a producer is blocked while the queue is
     full rather than losing anything. What is delivered (line, message, formatted message, severity, timestamp, thread and attributes)
     equals what was emitted even though everything the caller passed is gone by then.''',
     ['schedules', 'inputs', 'histories'], 'every interleaving of producers, consumer and destruction, and all records',
     'No test emits more than one event or destroys the sink while events are pending.',
     ['src/sink/asynchronous.p.cpp', 'src/sink/asynchronous.cpp', 'src/sink/asynchronous.hpp', 'src/recordbuf.hpp', 'src/record.cpp'],
     [('emit, run and the destructor of asynchronous_t', 'src/sink/asynchronous.p.cpp'), ('recordbuf_t', 'src/recordbuf.hpp')],
     ['the wrapped sink, as an instrumented double'],
     'generated producers and pauses of the consumer at arbitrary instructions; ASan and TSan')

prop('C06', 'Asynchronous sink: overflow policy, options and failures of its target',
     '''An asynchronous sink, whether made by the builder or from a configuration, holds 2^factor events and applies the chosen policy: with
     dropping, an event which finds the queue full is discarded without blocking while all the others are delivered; with waiting (the
     default, along with factor 10) nothing is discarded. A factor over 20 and an unknown policy name are refused with
     std::invalid_argument. Exceptions of the wrapped sink never reach the application nor stop the delivery of the other events.''',
     ['inputs', 'histories', 'fault_sequences', 'configurations'], 'all factors, policies, bursts and patterns of failure of the wrapped sink',
     'The tests only construct the sink and read its capacity; no overflow or failure is ever produced.',
     ['src/sink/asynchronous.p.cpp', 'src/sink/asynchronous.cpp', 'include/blackhole/sink/asynchronous.hpp'],
     [('overflow policies and run()', 'src/sink/asynchronous.p.cpp'), ('builder and factory', 'src/sink/asynchronous.cpp')],
     ['the wrapped sink, as an instrumented double'],
     'generated bursts against a held consumer and generated failures')

prop('C07', 'String formatter renders every event as its pattern says',
     '''The string formatter's output is the pattern with literals kept verbatim, each placeholder (message, severity, timestamp, process,
     thread, attribute by name, leftover attributes) replaced by its value rendered under its spec, a placeholder with a
     default by the default (possibly empty) when the attribute is absent, and leftovers by every attribute in order, each
     rendered by the inner pattern, joined by the separator and padded as a whole, or by nothing when all that is empty. The first attribute with the name wins, a missing required attribute is an error, and nothing outside of the event's data is read.''',
     ['inputs', 'configurations'], 'all patterns of the documented language and all events',
     'The tests cover some tens of fixed pattern/record pairs.',
     ['src/formatter/string.cpp', 'src/formatter/string/parser.cpp', 'src/formatter/string/grammar.cpp', 'src/formatter/string/token.cpp', 'include/blackhole/formatter/string.hpp'],
     [('visitor_t over tokens', 'src/formatter/string.cpp'), ('leftover traversal', 'src/formatter/string.cpp')],
     ['formatter output for a record'],
     'patterns generated together with a reference rendering')

prop('C08', 'Formatter patterns: every text is either understood or refused cleanly',
     '''Constructing a string formatter from any text whatsoever either succeeds or throws an exception: it never crashes, aborts or hangs.
     Text without braces, and doubled braces, come out verbatim; rendering a pattern of concatenated parts renders the parts one
     after another; and an unterminated placeholder, stray brace or illegal name is refused rather than silently accepted as something
     else. A malformed spec is refused by an exception at the latest when an event is formatted.''',
     ['inputs'], 'all byte strings as patterns, valid ones mutated at every position included',
     'The tests try a handful of malformed patterns.',
     ['src/formatter/string/parser.cpp', 'src/formatter/string/grammar.cpp', 'src/formatter/string.cpp', 'src/formatter/string/error.cpp'],
     [('parser_t::next and the grammar', 'src/formatter/string/parser.cpp')],
     ['constructor of the string formatter and its output'],
     'generated and mutated patterns under ASan/UBSan with assertions on')

prop('C09', 'Timestamps are rendered as the C library would, with exact microseconds',
     '''For every point in time from the epoch on and every strftime-style pattern the rendered timestamp equals what strftime gives for the UTC (or, on
     request, local) broken-down time in the C locale, with the fraction placeholder replaced by the six digits of the microseconds of that
     very instant, in every time zone, daylight saving time included. Rendering is the same from any thread and for any sequence of calls.''',
     ['inputs', 'configurations'], 'all instants, patterns, time zones',
     'The tests use a single instant and one conversion at a time.',
     ['src/datetime/generator.linux.cpp', 'src/datetime/generator.linux.hpp', 'src/datetime.hpp', 'src/util/time.hpp', 'src/formatter/string.cpp'],
     [('datetime generator', 'src/datetime/generator.linux.cpp'), ('timestamp token rendering', 'src/formatter/string.cpp')],
     ['{timestamp} output of the formatters'],
     'differential against libc strftime/gmtime_r/localtime_r')

prop('C10', 'JSON formatter always produces one valid and faithful JSON object',
     '''For every event the JSON formatter writes exactly one syntactically valid JSON object, optionally ended by a newline, holding the
     message, severity, timestamp, process, thread and every attribute under its name with its JSON type and exact value: strings survive
     escaping, 64-bit integers keep all digits, finite doubles parse back to the same number and numbers JSON has no notation for become
     null.''',
     ['inputs'], 'all messages, attribute names and values',
     'The tests compare some fixed lines; control characters, extreme numbers and hostile names are not sampled.',
     ['src/formatter/json.cpp', 'src/formatter/json.hpp', 'include/blackhole/formatter/json.hpp'],
     [('visitor and builder over a rapidjson document', 'src/formatter/json.cpp')],
     ['formatter output parsed by an independent parser'],
     'generated events, output read back by an independent JSON parser')

prop('C11', 'JSON formatter options: routing, renaming, uniqueness and mutations',
     '''Every field goes to the object of the route that names it, or to the route of the remaining fields, created as nested objects, and a
     renamed field appears only under its new name. With uniqueness on, only the first value of a name is written and no object
     has two members of a name; a route which is not a JSON pointer is refused; a configured severity mapping and timestamp pattern replace the numbers; and the same holds whether the formatter is built by builder or configuration.''',
     ['configurations', 'inputs'], 'all combinations of options and events',
     'The tests set one option at a time with one or two fields.',
     ['src/formatter/json.cpp', 'include/blackhole/formatter/json.hpp'],
     [('routes, renames and unique filter', 'src/formatter/json.cpp'), ('builder and factory', 'src/formatter/json.cpp')],
     ['formatter output parsed by an independent parser'],
     'generated option sets against a reference model')

prop('C12', 'TSKV lines split back into exactly the fields of the event',
     '''Every event makes a single line which starts with the tskv marker, and splitting it by tabs and the first unescaped equals sign and
     unescaping gives exactly the configured constant fields, the event's own fields and every attribute under its (possibly renamed) name,
     without those removed. No value, name or constant, whatever bytes it holds, can break the line or forge a field.''',
     ['inputs', 'configurations'], 'all events and options',
     'The tests format a few fixed records without special characters in most places.',
     ['src/formatter/tskv.cpp', 'include/blackhole/formatter/tskv.hpp'],
     [('escaping and mutators', 'src/formatter/tskv.cpp')],
     ['formatter output, split by a reference reader'],
     'generated events and options, output split and unescaped by a reference reader')

prop('C13', 'File sink appends each event as one line to its file, across rotation',
     '''Every event accepted by a file sink is appended as exactly its formatted text and a newline to the file of the configured path, after
     the content which was there before, in the order of emission, whole lines even from several threads, and every other file stays
     untouched. When the file is removed or replaced by another (rotation) and the sink is configured to look, later events go to the file
     newly opened under the name. A failure to open or write is reported by an exception with the system's reason, and once its cause is gone
     later events are written again.''',
     ['histories', 'inputs', 'fault_sequences'], 'all histories of events, paths, reopenings and rotations',
     'The tests mock the streams: bytes on a real file system, several sinks and rotation are not covered.',
     ['src/sink/file.cpp', 'src/sink/file.hpp', 'src/sink/file/stream.hpp', 'src/sink/file/rotate.hpp', 'include/blackhole/sink/file.hpp'],
     [('backend per path and append streams', 'src/sink/file.cpp'), ('rotation by stat', 'src/sink/file')],
     ['files in a scratch directory'],
     'model-based histories against real files in a scratch directory')

prop('C14', 'File sink flush policies and their units',
     '''Under the flush policy every n events (bytes) the file of a sink holds at the return of each n-th event (as soon as at least that many
     bytes were written since the last flush) everything written so far, so what is not flushed is always less than the threshold, across
     rotation too. Sizes given as text in configurations with decimal or binary units mean the documented number of bytes for every
     quantity that fits, and anything else is refused.''',
     ['inputs', 'histories', 'configurations'], 'all thresholds, event sizes and size texts',
     'The tests try one threshold and a few units.',
     ['src/sink/file/flusher.hpp', 'src/sink/file.cpp'],
     [('flushers', 'src/sink/file/flusher'), ('parse_dunit', 'src/sink/file.cpp')],
     ['size of the file on disk after each event', 'factories'],
     'model-based histories watching the file size from outside')

prop('C15', 'TCP sink delivers every accepted event completely and in order',
     '''Every emit which returns has handed its formatted text to the connection in full and in order, nothing added, for one or many threads;
     texts of different threads never interleave, even when the network accepts them piece by piece. When the peer is away or goes away
     the emit throws rather than silently losing the event once the system reports it, never kills the process, and once a peer listens
     again later events are delivered. A port out of range is refused.''',
     ['inputs', 'histories', 'fault_sequences', 'schedules'], 'all lines, sizes, disconnect points and restarts of the peer',
     'There is no test with a real connection.',
     ['src/sink/socket/tcp.cpp', 'include/blackhole/sink/socket/tcp.hpp', 'src/sink/socket/tcp.hpp'],
     [('connect on demand and write', 'src/sink/socket/tcp.cpp')],
     ['a loopback server'],
     'generated histories against a loopback server')

prop('C16', 'UDP sink sends each event as exactly one datagram',
     '''Every event emitted into a UDP sink is sent as one datagram whose payload is exactly the formatted text, in order, whatever bytes it
     holds, to the configured host and port over IPv4 or IPv6. A text too long for a datagram is refused by an exception rather than
     truncated, later events are sent nonetheless, and a port out of range is refused.''',
     ['inputs', 'histories', 'configurations'], 'all payloads, hosts and ports',
     'There is no test with a real socket beyond construction.',
     ['src/sink/socket/udp.cpp', 'include/blackhole/sink/socket/udp.hpp', 'src/sink/socket/udp.hpp'],
     [('emit', 'src/sink/socket/udp.cpp')], ['a loopback receiver'], 'generated payloads against a loopback receiver')

prop('C17', 'Syslog sink keeps its identity and maps severities as configured',
     '''Every event is passed to syslog once, as data and never as a format, its text whole up to the first NUL, with the priority its
     severity maps to and the default one for severities outside of the mapping. The log is opened once with the configured identity,
     options and facility, the identity stays valid as long as the sink lives however the sink was made, and the log is closed exactly
     once, after the last event.''',
     ['inputs', 'configurations', 'histories'], 'all mappings, severities, texts and ways of construction',
     'The tests inject a mocked back end and never see real syslog calls.',
     ['src/sink/syslog.cpp', 'src/sink/syslog.hpp', 'include/blackhole/sink/syslog.hpp'],
     [('RAII syslog back end', 'src/sink/syslog.cpp')], ['interposed openlog/syslog/closelog'], 'interposed libc calls record what is done')

prop('C18', 'Console sink and developer handler write whole lines to the right stream',
     '''The console sink writes each event its filter accepts as exactly the formatted text and a newline to its stream, in order, whole
     lines even from several threads, and colours a line by its severity mapping only when that stream is a terminal, resetting the
     colour afterwards, whatever integer format the stream has. The developer handler prints every event with its timestamp, severity,
     message and all of its attributes, each on a line of its own, never glued to what is left of an event which failed, an event whole even when several threads write through it and console sinks, and on a terminal with the letter of the severity in its colour (informational green, warning yellow, error red) and the message in the default one.''',
     ['inputs', 'configurations', 'schedules'], 'all texts, severities, mappings, threads and kinds of stream',
     'The tests only check that the factories build.',
     ['src/sink/console.cpp', 'src/sink/console.hpp', 'src/termcolor.cpp', 'src/handler/dev.cpp', 'include/blackhole/sink/console.hpp'],
     [('emit under the stream lock', 'src/sink/console.cpp'), ('termcolor_t', 'src/termcolor.cpp')],
     ['captured stdout/stderr through pipes and pseudo terminals'], 'captured streams, pseudo terminal included')

prop('C19', 'JSON configurations are read faithfully',
     '''For every JSON document the configuration tree gives back the same structure: type tests, numbers, booleans, strings, array elements
     in order and members by name, whatever whitespace, comments, escapes and depth it has, with absent elements reported as absent, every
     access of the wrong type refused by an exception which names its place, and every malformed document refused by an exception rather
     than read as something else.''',
     ['inputs'], 'all JSON documents and access paths',
     'The tests read a few fixed documents.',
     ['src/config/json.cpp', 'src/config/json.hpp', 'src/config/node.cpp', 'src/config/option.cpp', 'src/config/factory.cpp'],
     [('json_t node', 'src/config/json.cpp'), ('option<node_t>', 'src/config/option.cpp')],
     ['config::node_t and option<node_t>'], 'generated documents compared with the generator model')

prop('C20', 'A logger built from a configuration equals the one built by hand',
     '''A logger built by a registry from a configuration has exactly the configured handlers, formatters, sinks and filters with their
     options, so it produces the same output as the same pipeline put together programmatically. Unknown types, missing required fields
     and unknown logger names are refused by an exception without harm to the other loggers of the configuration, and the latest registration of a type is the one used.''',
     ['configurations', 'inputs'], 'all configurations over the registered component types',
     'The tests build one configuration per component.',
     ['src/registry.cpp', 'src/handler/blocking.cpp', 'src/formatter/string.cpp', 'src/formatter/json.cpp', 'src/formatter/tskv.cpp', 'src/sink/console.cpp', 'src/sink/file.cpp', 'src/config/factory.cpp'],
     [('registry_t and builder_t', 'src/registry.cpp')], ['output of both pipelines'], 'differential between configured and hand-made pipelines')

prop('C21', 'The variadic facade logs what it was given',
     '''A call of the variadic facade logs one event with the given severity whose message pattern is the given text and whose formatted
     message is that text with its placeholders replaced by the arguments as the formatting library does, whatever their number and types,
     without reading beyond the text; arguments are printed only if the event is accepted. Without arguments the text is logged verbatim.
     Trailing attributes are attached unchanged, and a pattern split at compile time gives the same message.''',
     ['inputs'], 'all patterns, argument types and attributes',
     'The tests use a few fixed calls.',
     ['include/blackhole/extensions/facade.hpp', 'include/blackhole/extensions/facade.inl.hpp', 'include/blackhole/extensions/metaformat.hpp',
      'include/blackhole/extensions/writer.hpp', 'src/format.cpp'],
     [('facade::log overloads', 'include/blackhole/extensions/facade.hpp')], ['what the wrapped logger receives'],
     'generated calls of 19 argument types against an independent rendering; differential against the formatting library for arbitrary patterns')

prop('C22', 'Blocking handler and severity filters pass each event once and untouched',
     '''A blocking handler formats every event exactly once with its formatter and passes that very text and event to each of its sinks in
     the order they were added, an event which cannot be formatted reaches none of them, and a failure affects no later event. Many threads
     may use the handler at once, with any of the formatters, and get what they would get alone. A severity filter accepts exactly the
     severities at or above its threshold and is refused without one.''',
     ['inputs', 'histories', 'schedules', 'configurations'], 'all events, sinks, thresholds and threads',
     'The tests use a single mocked sink.',
     ['src/handler/blocking.cpp', 'src/handler/blocking.hpp', 'src/filter/severity.cpp', 'include/blackhole/filter/severity.hpp'],
     [('blocking_t::handle', 'src/handler/blocking.cpp')], ['formatter, sink and filter doubles'],
     'generated histories over failing doubles; real formatters under threads with ASan and TSan')

prop('C23', 'String views behave as std::string views of the same bytes',
     '''Every operation of the library's string view (construction, checked element access, substrings, comparison, ordering, hashing,
     copying, conversion and output) gives the result the standard string operation gives on the same bytes, including NULs, bytes over 127
     and empty views, throws where the standard one does, and never reads outside of the viewed bytes.''',
     ['inputs'], 'all byte strings, positions and lengths',
     'The tests use fixed literals.',
     ['include/blackhole/stdext/string_view.hpp'],
     [('basic_string_view', 'include/blackhole/stdext/string_view.hpp')], ['results of operations'], 'differential against std::string')

prop('C24', 'Placeholders with format specs render values as printf would',
     '''An attribute or message value rendered under a format spec of fill, alignment, sign, width, precision and type comes out as the
     corresponding printf conversion (or the Python rule printf has no syntax for) prescribes, for every integer, double and string and
     whatever precedes it in the output, and a spec that does not fit the type or has numbers out of range is refused by an exception.''',
     ['inputs'], 'all values and specs', 'The tests use a few fixed specs.',
     ['src/formatter/string.cpp', 'src/format.cpp', 'include/blackhole/extensions/format.hpp', 'include/blackhole/extensions/writer.hpp'],
     [('spec forwarding to the formatting library', 'src/formatter/string.cpp')], ['formatter output'], 'differential against snprintf')


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['tests'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                            'observe_at': p['observe'], 'hook_needed': None},
            }) + '\n')
    checks, na = [], []
    for p in P:
        for f in p['files']:
            if not os.path.exists(os.path.join('/repo', f)):
                print('no such anchor', p['id'], f)
        if p['id'] in CHECKS:
            checks.append({
                'property': p['id'],
                'quick_cmd': 'python3 check.py %s' % p['id'],
                'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                'technique': 'property-based testing: ' + p['note'],
                'level': 'exploration',
                'level_note': 'Holds on every generated case of the run (counts in the evidence file); sampled, not proved. '
                              'Built with sanitizers and library assertions on. ' + CHECKS[p['id']].get('trust', ''),
            })
        else:
            na.append({'property': p['id'], 'reason': 'not built yet'})
    manifest = {'version': 1, 'setup_cmd': 'python3 check.py --build-all', 'checks': checks, 'not_applicable': na,
                'notes': 'See DESIGN.md. No hooks are needed in /repo: time, sleep and syslog are interposed by the harnesses.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()
