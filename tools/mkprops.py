#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties live here, as Python data)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
R = 'httpolice/'

prop('C01', 'Checking and reporting any exchange terminates without an exception',
 'For every request and response that can be passed to the Python API (any method, target, version, status, reason, header and trailer values, body bytes, any field unknown), checking the exchange and rendering it as text and as HTML completes normally. No value of any header or body, however malformed, deeply nested, large or hostile, makes the linter itself fail.',
 ['inputs'], 'All exchanges constructible through the documented API; header values and bodies are arbitrary bytes, including values that are grammatically valid but semantically extreme (huge numbers, deep nesting, exotic charsets, entity declarations, IP-literal hosts).',
 'The suite replays about 600 recorded exchanges with well-behaved values; a crash needs one specific value in one of some 70 header parsers, 6 body parsers or 170 checks.',
 [R+'exchange.py', R+'request.py', R+'response.py', R+'message.py', R+'header.py', R+'parse.py', R+'reports/text.py', R+'reports/html.py'],
 [('unusable values are wrapped and every check skips them', R+'structure.py Unavailable/okay'), ('decoders and payload parsers catch their errors', R+'message.py decoded_body, json_data, xml_data')],
 ['check_exchange', 'text_report', 'html_report'])

prop('C02', 'Any input file yields a report or a clean diagnosis, never a crash',
 'Whatever bytes are in the input files, and whatever their names, running the command-line tool on them in any input and output format ends with a complete report, or with a one-line "httpolice: ..." message on standard error and exit status 1. The tool never ends with an unhandled exception and never loops forever.',
 ['inputs', 'configurations', 'fault_sequences'], 'All byte contents of stream files, combined files and HAR files (truncated, corrupted, empty, wrong encoding, odd JSON types), missing and unreadable files, all 6 input formats times 2 output formats.',
 'Tests cover a handful of hand-made bad inputs per format; the space of truncations, corruptions and oddly typed JSON is unbounded.',
 [R+'cli.py', R+'inputs/streams.py', R+'inputs/har.py', R+'framing1.py', R+'stream.py'],
 [('errors in input are turned into InputError or notices', R+'inputs/'), ('InputError and EnvironmentError are reported', R+'cli.py run_cli')],
 ['run_cli'])

prop('C03', 'Exit status tells exactly whether a severe enough notice was reported',
 'With the fail-on option set to a severity, the exit status is 1 if and only if at least one notice of that severity or a higher one appears in the report; without the option it is 0 whatever is reported. Notices that were silenced do not count, and notices that belong to no particular message (such as framing errors) do.',
 ['inputs', 'configurations', 'histories'], 'All sequences of exchanges in one run (clean and dirty in any order and number), all severities, any set of silenced notices, both output formats.',
 'Tests run a few fixed files; the claim relates the aggregated counts over arbitrary sequences of exchanges to the text actually printed.',
 [R+'cli.py', R+'notice.py', R+'util/ordered_enum.py', R+'blackboard.py'],
 [('counter over all exchanges and the severity order', R+'cli.py run_cli')], ['run_cli status and stdout'])

prop('C04', 'Silencing is an exact filter',
 'Silencing a set of notices, whether by command-line option, by API on an exchange or on one message, or by the HTTPolice-Silence header (on its own message, or with "resp" in a request on its responses), removes exactly the notices with those numbers on exactly the objects it applies to, in the API, in both reports and in the exit status. All other notices stay the same, and it does not matter whether silencing happens before or after checking.',
 ['inputs', 'configurations', 'histories'], 'All exchanges, all subsets of notice numbers including unknown ones, all four ways of silencing and their combinations, in any order with checking.',
 'Tests silence two or three notices on one exchange each; exactness is a relation between two runs over all exchanges and subsets.',
 [R+'blackboard.py', R+'request.py', R+'response.py', R+'cli.py', R+'syntax/internal.py'],
 [('silenced set consulted on every read', R+'blackboard.py Blackboard.complaints'), ('header of the request applied to request and responses', R+'request.py check_request, '+R+'response.py check_response_in_context')],
 ['notices', 'reports'])

prop('C05', 'Results do not depend on history, caching or repetition',
 'The notices for an exchange are a function of that exchange alone: they are the same in a fresh process and after any number of other exchanges, in any order, whatever the parser remembers from before. Checking the same exchange again or rendering it several times changes nothing, and the objects passed in (lists, bodies) are not modified.',
 ['histories', 'inputs'], 'All sequences of exchanges processed in one process, including ones that overflow the parser memory and ones that share header values between different headers and messages.',
 'Each test checks its exchange in whatever state the process happens to be; none compares results across histories.',
 [R+'parse.py', R+'header.py', R+'blackboard.py', R+'known/__init__.py'],
 [('memoised parse results are never mutated', R+'parse.py parse, '+R+'header.py AltSvcView'), ('identical complaints are reported once', R+'blackboard.py complain')],
 ['check_exchange in one process vs. fresh processes'])

prop('C06', 'Well-formed HTTP/1.x streams are reconstructed exactly',
 'For every pair of correctly framed HTTP/1.x byte streams, the exchanges read from them carry exactly the methods, targets, versions, status codes, reasons, header names and values, trailers and transfer-decoded bodies that were sent, in order, and no framing notice is reported. This holds for every delimitation of bodies (length, chunked with any chunk sizes and extensions, compressed transfer codings, end of connection, statuses and methods without bodies).',
 ['inputs', 'histories'], 'All sequences of messages on a connection, with any number of exchanges, any header values, any chunking, gzip and deflate transfer codings, trailers, pipelining and interim responses.',
 'About 100 recorded files each exercise one framing feature; round-tripping is claimed for all combinations and sizes.',
 [R+'framing1.py', R+'stream.py', R+'codings.py', R+'inputs/streams.py'],
 [('line-oriented HTTP/1.x parser', R+'framing1.py'), ('stream cursor', R+'stream.py')],
 ['inputs.formats on files', 'parse_streams'])

prop('C07', 'Arbitrary bytes are framed as RFC 7230 says, and reading stops in time',
 'On any inbound and outbound bytes, messages are recognised, delimited and decoded exactly as an independent reading of RFC 7230 prescribes; the first unrecoverable problem on a stream is reported once with the number of bytes already used and left, and nothing after it is interpreted as a message. Bytes are neither invented nor lost: bodies and headers come from the stream in order, and whatever was not consumed is accounted for.',
 ['inputs', 'fault_sequences'], 'All byte strings as streams, in particular single and multiple corruptions and truncations, at every offset, of realistic connections.',
 'Tests contain a few dozen broken streams; corruption at every offset of every message kind is out of their reach.',
 [R+'framing1.py', R+'stream.py', R+'codings.py'],
 [('desynchronisation flag and reporting', R+'framing1.py, '+R+'stream.py')], ['exchanges from inputs.formats'])

prop('C08', 'Responses are attributed to the requests they answer',
 'On any connection with pipelined requests, any number of interim responses, HEAD, CONNECT, protocol switches and upgrades, each response (and each interim response before it) is attached to the request it answers, and the absence of a body is decided by that request. Responses without a request and requests without a response still appear, exactly once.',
 ['histories', 'inputs'], 'All sequences of requests and responses on one connection, including surplus and missing responses and a switch of protocol in the middle.',
 'The attribution depends on the whole history of a connection; the tests contain short fixed ones.',
 [R+'framing1.py'], [('pairing loop', R+'framing1.py parse_streams')], ['exchanges from inputs.formats'])

prop('C09', 'Connections in a directory are recombined and ordered correctly',
 'Given captured connection files (tcpflow, tcpick, paired and combined files) in any listing order and naming, every connection is read exactly once with the client side as requests and the server side as responses, one-sided connections are still checked and flagged, and every exchange of every connection is reported exactly once with the order inside each connection preserved. Across connections, exchanges come in the order of their message dates where these are known, so the result does not depend on how the files are listed.',
 ['configurations', 'inputs', 'histories'], 'All sets of connections with any addresses, ports, time stamps, counters and missing sides; all orders of the command-line arguments; files or directories.',
 'Tests have one or two directories per format; permutations of listings and interleavings of dated connections are not explored.',
 [R+'inputs/streams.py', R+'inputs/__init__.py'],
 [('file name patterns and recombination', R+'inputs/streams.py'), ('merge by time', R+'inputs/streams.py _rearrange_by_time')], ['run_cli', 'inputs.formats'])

prop('C10', 'HAR entries are mapped faithfully',
 'For every HAR file, each entry becomes one exchange whose method, request target, scheme, protocol version, status, header entries and bodies are those that the entry describes, and what the file leaves unknown stays unknown instead of being invented. Entries appear in order, none is dropped or duplicated.',
 ['inputs', 'configurations'], 'All HAR documents: any creator (including those with known quirks), any combination of present, absent and negative sizes, text and base64 bodies, HTTP/1.x and HTTP/2, with and without a Host header, CONNECT, aborted requests.',
 'Tests load a dozen browser-made files; the mapping rules interact in ways no recorded file exhibits.',
 [R+'inputs/har.py'], [('mapping rules', R+'inputs/har.py')], ['inputs.formats["har"]'])

prop('C11', 'Content codings, charsets and payload formats are judged correctly',
 'For every body, the content codings that were applied are undone exactly (and a body that does not decode is reported and never guessed at), the character set is honoured, and a body is reported as malformed JSON, XML, multipart or URL-encoded data if and only if it is one according to its media type. Entity-expansion bombs and similar hostile documents are reported without being expanded, and partial, 304 and HEAD responses are not judged.',
 ['inputs'], 'All bodies under all chains of supported, unknown and misapplied codings, all media types and charsets.',
 'Tests contain one or two bodies per format.',
 [R+'message.py', R+'codings.py', R+'response.py'],
 [('lazy derivation of decoded body, charset and parsed payload', R+'message.py'), ('completeness of the representation', R+'response.py content_is_full')],
 ['notices 1036-1040, 1139, 1140, 1275, 1281'])

prop('C12', 'A header value is reported as malformed exactly when its grammar rejects it',
 'For every header that has a defined syntax (and for methods, targets, reasons, field names and nested arguments), and for every byte string as its value, a syntax error is reported if and only if the value does not match the grammar in the RFC that defines it.',
 ['inputs'], 'All byte strings as values of about 70 headers and the arguments inside them.',
 'Tests contain a few good and bad values per header; acceptance is a statement about an infinite language, and the grammars are recursive and ambiguous.',
 [R+'syntax/', R+'parse.py', R+'known/header.csv', R+'header.py'],
 [('grammars transcribed from RFCs', R+'syntax/*.py'), ('Earley parser', R+'parse.py')], ['notice 1000 and friends'])

prop('C13', 'Syntax errors are located and explained exactly',
 'For every grammar and every string it rejects, the reported position is the first one at which no valid continuation exists any more, the octet found there is the one in the input, and the octets listed as expected are exactly those with which the input so far could continue (plus the end of data if it could have stopped there). For strings it accepts, the parse result is that of a derivation of the whole string.',
 ['inputs', 'programs'], 'All grammars that can be built from the parser combinators (alternation, sequence, repetition with bounds, optional and empty parts, recursion, exclusion) and all strings over them.',
 'Tests parse a few strings with a few grammars.',
 [R+'parse.py'], [('Earley chart and error reconstruction', R+'parse.py')], ['parse results and ParseError; explanations in reports'])

prop('C14', 'Header values mean the same however they are split over lines',
 'Splitting a list-valued header over several header lines, adding empty list elements or optional white space, or moving it to a trailer where that is allowed, does not change what the header means to any check, beyond the notices about that form itself. A header that must be single is reported when repeated and its last value is used, a header not allowed in trailers is reported there and its value ignored, and malformed elements do not hide well-formed ones on other lines.',
 ['inputs'], 'All list-valued, single-valued, special and unknown headers; all values; all splittings.',
 'Tests have isolated repeated headers; equivalence of all splittings is a relation between runs.',
 [R+'header.py', R+'known/header.csv'], [('combination rules', R+'header.py SingleHeaderView, MultiHeaderView, UnknownHeaderView')], ['notices'])

_rule = 'The notices of this area reported on the messages of an exchange are exactly those whose documented condition holds'
_why = 'Every notice has one or two positive examples in the suite and almost no negative ones; the condition of each is a conjunction over methods, statuses, versions, headers and bodies that examples do not pin down.'
_q = 'All exchanges: methods, versions, statuses, header combinations and values, bodies, one or more responses.'
prop('C15', 'Message structure and connection rules are reported exactly when broken',
 _rule + ': presence and consistency of Host, Content-Length, Transfer-Encoding, TE, Trailer, Connection, Via, Expect, request target forms, headers on the wrong kind of message, names and X- prefixes, and rules specific to HTTP/1.0, HTTP/1.1 and HTTP/2. None is missed and none is reported when its condition does not hold.',
 ['inputs', 'configurations'], _q, _why, [R+'message.py', R+'request.py', R+'response.py', R+'exchange.py', R+'known/'],
 [('rule functions', R+'message.py check_message, '+R+'request.py, '+R+'response.py')], ['notices'])
prop('C16', 'Method and status code rules are reported exactly when broken',
 _rule + ': bodies with methods and statuses that should or should not have them, required and misplaced response headers per status (Location, Allow, Retry-After, Upgrade and others), statuses that do not fit the request, interim and final responses. None is missed and none is reported when its condition does not hold.',
 ['inputs', 'configurations'], _q, _why, [R+'request.py', R+'response.py', R+'exchange.py', R+'known/method.csv', R+'known/status_code.csv'],
 [('rule functions', R+'request.py, '+R+'response.py')], ['notices'])
prop('C17', 'Conditional and range request rules are reported exactly when broken',
 _rule + ': preconditions, entity tags (strong and weak comparison), modification dates, 304 and 412 responses, Range, If-Range, Content-Range, 206 and 416 responses and multipart/byteranges parts. None is missed and none is reported when its condition does not hold.',
 ['inputs', 'configurations'], _q, _why, [R+'request.py', R+'response.py', R+'syntax/rfc7232.py', R+'syntax/rfc7233.py', R+'structure.py'],
 [('rule functions', R+'request.py, '+R+'response.py'), ('entity tag comparison', R+'structure.py EntityTag')], ['notices'])
prop('C18', 'Caching and date rules are reported exactly when broken',
 _rule + ': Cache-Control directives and their arguments and conflicts, Age, Expires, Date, Last-Modified, Pragma, Warning and Vary, and the inferences whether a response came from a cache, is stale or was heuristically fresh. None is missed and none is reported when its condition does not hold, for all three date formats and whatever the local time zone.',
 ['inputs', 'configurations'], _q, _why, [R+'header.py', R+'message.py', R+'request.py', R+'response.py', R+'syntax/rfc7234.py', R+'syntax/rfc7231.py', R+'known/cache_directive.csv'],
 [('cache inferences', R+'response.py from_cache, stale, heuristic_expiration')], ['notices'])
prop('C19', 'Authentication and transport security rules are reported exactly when broken',
 _rule + ': Basic and Bearer credentials and challenges and their parameters, 401 and 407 responses, tokens in URIs and forms, TLS-only features, Strict-Transport-Security and Referer leaks. None is missed and none is reported when its condition does not hold.',
 ['inputs', 'configurations'], _q, _why, [R+'request.py', R+'response.py', R+'syntax/rfc7235.py', R+'syntax/rfc6749.py', R+'syntax/rfc6797.py'],
 [('rule functions', R+'request.py _check_basic_auth, '+R+'response.py _check_bearer_challenge')], ['notices'])
prop('C20', 'Negotiation, links, preferences and extension rules are reported exactly',
 _rule + ': Accept and similar headers, media types, Link and its parameters, Prefer and Preference-Applied, Content-Disposition, Alt-Svc, Forwarded, PATCH and Accept-Patch, protocol upgrades and HTTP/2. None is missed and none is reported when its condition does not hold.',
 ['inputs', 'configurations'], _q, _why, [R+'request.py', R+'response.py', R+'header.py', R+'syntax/rfc8288.py', R+'syntax/rfc7240.py', R+'syntax/rfc6266.py', R+'syntax/rfc7838.py', R+'syntax/rfc7239.py'],
 [('rule functions and semantic actions', R+'request.py, '+R+'response.py, '+R+'syntax/')], ['notices'])

prop('C21', 'Missing knowledge only silences checks, never adds errors',
 'Replacing a known piece of an exchange with "unknown" (no request, unknown scheme, version, reason or body) never makes a notice appear that was not reported with that piece known. Everything that does not depend on the missing piece is still reported.',
 ['inputs', 'configurations'], 'All exchanges and all subsets of the pieces that can be unknown.',
 'Tests contain no pairs of exchanges that differ only in what is known.',
 [R+'request.py', R+'response.py', R+'message.py', R+'header.py'],
 [('three-valued conditions', R+'structure.py okay; `is True` / `is False` tests in rules')], ['notices'])
prop('C22', 'Irrelevant variation does not change the result',
 'Changing what the protocol says has no meaning does not change the set of notices: the letter case of header names and of case-insensitive tokens, the order of differently named headers, optional white space around values, an unrelated well-formed extension header, text given as bytes or as characters, and the environment (time zone, locale, hash seed).',
 ['inputs', 'configurations'], 'All exchanges and all such transformations, alone and combined.',
 'A relation between runs; tests are single runs.',
 [R+'structure.py', R+'header.py', R+'known/__init__.py', R+'syntax/'],
 [('case-insensitive value classes', R+'structure.py CaseInsensitive, FieldName, ...')], ['notices'])
prop('C23', 'Correct traffic gets no error notices',
 'An exchange that follows the standards, with any method, status, protocol version, caching, conditional, range, negotiation, authentication, preference, link, upgrade or trailer feature used as the RFCs prescribe, is reported without any notice of error severity, whichever way it is read (API, byte streams, HAR).',
 ['inputs'], 'All conforming exchanges.',
 'The suite has few clean exchanges; false alarms come from unforeseen combinations of correct features.',
 [R+'message.py', R+'request.py', R+'response.py', R+'framing1.py', R+'inputs/har.py'],
 [('conditions of the error notices', R+'request.py, '+R+'response.py, '+R+'message.py')], ['notices of severity error'])
prop('C24', 'The text report shows exactly the notices, safely',
 'For every sequence of exchanges, the text report lists in order each exchange that has something to say, with the right request line and status line, and under each message exactly its notices (letter of severity, number and title with the right details filled in), each on one line. It is valid UTF-8 without control characters whatever the input contains, and no input text can forge a line of the report.',
 ['inputs', 'histories'], 'All sequences of exchanges with arbitrary contents.',
 'Tests look at a few lines of a few reports.',
 [R+'reports/text.py', R+'reports/common.py', R+'notice.py', R+'util/text.py'],
 [('rendering of notices', R+'reports/common.py'), ('replacement of non-printable characters', R+'util/text.py printable')], ['text_report output'])
prop('C25', 'The HTML report is complete, well-formed and safe',
 'For every sequence of exchanges, the HTML report is a well-formed UTF-8 document that shows every message with its start line, all its header entries in order with their full values, its body preview and exactly its notices; a reference from a notice to a header entry, method or status of the report leads to the element that shows it, and no identifier is used twice within an exchange. No byte of the input can become markup: names, values, bodies and remarks appear only as text.',
 ['inputs', 'histories'], 'All sequences of exchanges with arbitrary contents, including markup, control characters and non-UTF-8 bytes.',
 'Tests only check that a report is produced.',
 [R+'reports/html.py', R+'reports/common.py', R+'message.py', R+'parse.py'],
 [('document built as a tree', R+'reports/html.py'), ('annotated header values', R+'message.py annotated_header_entries')], ['html_report output'])
prop('C26', 'Notice texts name the right things',
 'In every notice that is reported, the title and the explanation are filled in with the actual culprits of that message (header, directive, method, status, value, character, position), every placeholder resolves, headers that the HTML report highlights as concerned are those that the notice is about, and the same text appears in the text report and in the HTML report.',
 ['inputs'], 'All exchanges that cause any of the 300 notices, for every way to cause it.',
 'Tests check notice numbers, hardly ever their texts.',
 [R+'notices.xml', R+'notice.py', R+'reports/common.py', R+'request.py', R+'response.py'],
 [('placeholders resolved against the complaint context', R+'reports/common.py resolve_reference, expand_piece')], ['text_report, html_report'])
prop('C27', 'Exchanges are processed as a stream within bounded memory',
 'Exchanges are read, checked and written one at a time: a report for any number of exchanges needs memory for a bounded number of them (at most one in waiting per connection whose start time is unknown), output for one exchange is available before later ones are read, and input files are closed as soon as they are used up. What the parser remembers between exchanges is bounded.',
 ['histories', 'inputs'], 'All numbers and sizes of exchanges and input files.',
 'Tests never look at resource use.',
 [R+'reports/text.py', R+'reports/html.py', R+'cli.py', R+'parse.py', R+'inputs/'],
 [('generators throughout', R+'inputs/, '+R+'reports/'), ('bounded memoisation', R+'parse.py MEMO_LIMIT')], ['live objects, open files, memory'])
prop('C28', 'Helpers convert headers without losing or inventing any',
 'Headers taken from a CGI/WSGI environment come out with the right names and values, one per variable and nothing else; HTTP/2 pseudo-headers are separated from regular headers without loss, duplication or reordering, and only they are.',
 ['inputs'], 'All environments and all header lists, byte and character strings, any order and duplication.',
 'Tests have two or three calls.',
 [R+'helpers.py'], [('conversion functions', R+'helpers.py')], ['helpers.headers_from_cgi, helpers.pop_pseudo_headers'])
prop('C29', 'Knowledge of protocol elements is right and uniformly applied',
 'For every header, method, status code, media type, cache directive, warning and other registered element the tool knows, what it assumes about it (on which messages it belongs, whether it is safe, cacheable, deprecated, a precondition, allowed in a trailer or in Connection, how it is combined, what argument it takes) agrees with its specification, for every name in every letter case; for names it does not know it assumes nothing.',
 ['inputs', 'configurations'], 'All entries of the registries (about 1000) and all unknown names.',
 'Tests touch perhaps a tenth of the entries, each in one context.',
 [R+'known/*.csv', R+'known/__init__.py'], [('tables and accessors', R+'known/__init__.py')], ['notices that depend on the element'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
