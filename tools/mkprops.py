#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

L, PA, EV, VA, TK, SY, NA, CT = ["lib/src/%s.rs" % x for x in "lexer parser evaluator value token syntax native context".split()]
H = "lib/src/http/%s.rs"
CM, MN, WR, ST = "cmd/src/command.rs", "cmd/src/main.rs", "lib/src/writer.rs", "lib/src/stat.rs"

p("P01", "Reading any text terminates",
  "For every text given as source, expression, or response body, splitting it into tokens and parsing it end: every repetition consumes at least one token or character, and none waits for a token that the end of the text cannot provide. Every nested construct consumes at least one token before it descends.",
  ["inputs"], "every character sequence, including truncated, unbalanced and operator-only texts",
  "The tests parse a few dozen well-formed snippets; a loop that fails to advance only shows on the one token sequence that reaches it (`1 !2` did), and a test that hits it hangs instead of failing.",
  [L, PA], [("progress of every loop and recursion", "Parser::parse_expr, parse_expr_list, parse_map_literal, parse_block_expr, parse; lexer::segment")])
p("P02", "No text crashes the interpreter",
  "Lexing, parsing, displaying and evaluating any text, and turning any received response into values, returns a value or an error and never aborts the process or thread. (Exhausting memory or the call stack is outside this property.)",
  ["inputs"], "every source text, every expression over every combination of value types, every response",
  "A panic is an indexing, slicing, arithmetic or unwrap whose condition fails for one particular input; the tests run some 150 fixed expressions, none with an overflowing or out-of-range operand.",
  [L, PA, EV, VA, SY, NA, H % "url", H % "request", H % "response"],
  [("guards in front of every partial operation", "all functions reachable from parsing, evaluation, request building and response mapping")])
p("P03", "Arithmetic is exact on integers, promotes to floats, and otherwise errs",
  "Each arithmetic and bitwise operator on two integers gives the exact result of that operator on left and right operand in that order, or an error when it is not representable; when one or both operands of + - * / % are floats it gives the floating-point result of the same operator with operands in that order. Strings only support +, which concatenates left then right; every other combination is an error naming the operator. Prefix `-` negates an integer exactly (or errs when not representable) and a float, and errs on any other value; prefix `!` inverts every bit of an integer, and on any other value is the boolean that is true for false and null only.",
  ["inputs"], "every pair of operand values and types, for each of the ten operators",
  "Tests use small operands of mostly equal types: a swapped operand, a missing promotion or a wrapping operation in one arm of one operator leaves them green.",
  [VA, EV], [("operator implementations of the value type", "impl Add/Sub/Mul/Div/Rem/BitXor/BitOr/BitAnd/Shl/Shr for Value"), ("prefix operators", "eval_unary_expr")])
p("P04", "An operator means the same to lexer, parser, evaluator and assertions",
  "Each operator and keyword spelling of the language is recognised as its own token, longest spelling first; each binary operator that has a precedence is accepted between two operands and evaluated by its own operation. A comparison gives the same answer in an expression and in an assertion.",
  ["programs"], "every operator and keyword of the language, in every position it may occur",
  "Tests sample operators one at a time; the five tables (lexer, precedence, infix acceptance, evaluation, assertions) must agree for all of them, also for operators no test combines.",
  [L, TK, PA, EV], [("five operator tables", "lexer::segment, Token::precedence, Parser::parse_expr, eval_binary_expr, eval_call_expr")])
p("P05", "Operators bind by their documented precedence and to the left",
  "In every expression the binary operators group by the documented precedence (|| && | ^ & ==,!= <,>,<=,>= <<,>> +,- *,/,%), equal precedence grouping to the left; a prefix operator binds tighter than any binary operator, and call, index and field access bind tightest.",
  ["programs"], "every expression, i.e. every pair of adjacent operators",
  "The precedence test has about forty expressions; of the 18x18 ordered pairs of binary operators most never occur.",
  [PA, TK], [("precedence climbing", "Parser::parse_expr, parse_binary_expr, parse_unary_expr; Token::precedence")])
p("P06", "Expressions evaluate in written order, at most once, and errors stop them",
  "Sub-expressions are evaluated left to right in written order and each at most once; `&&`, `||` and `if` evaluate the deciding operand first and then only the operand or branch it selects, and the value of a block is that of its last expression. The first error ends the evaluation, is the result, and nothing after it is evaluated.",
  ["programs", "fault_sequences"], "every program, and every position at which an evaluation may fail",
  "Order and multiplicity only show when sub-expressions have effects (requests, prints, lets) or fail; the tests use pure operands that succeed.",
  [EV], [("recursive evaluation", "eval_expr and its arms, eval_list, eval_block")])
p("P07", "Lexing loses, invents and reorders nothing",
  "Every character of the text outside white space becomes part of exactly one token, tokens appear in text order, string and template literals carry exactly the characters between their quotes, numbers and names exactly their characters; a character that starts no token becomes an illegal token. The token list ends with exactly one end marker.",
  ["inputs"], "every text",
  "One test lexes one fixed text; dropping, duplicating or merging a character in one branch only shows for texts that take it at that point.",
  [L], [("one loop over the characters", "lexer::segment")])
p("P08", "A name evaluates to the value last bound to it",
  "`let` binds its name to exactly the value of its expression and yields that value; a name evaluates to its latest binding and an unbound name is an error. No other construct binds, rebinds or removes a name: in particular a request call leaves the variables of the caller as they were.",
  ["histories"], "every sequence of bindings, uses and calls",
  "Tests bind one or two names and never look at the scope after a request call (which needs a network).",
  [EV, CT], [("variable store", "eval_let_expr, eval_ident_expr, Context::get/set")])
p("P09", "Every assertion of a request is judged once, on the response",
  "A request call yields exactly one outcome per assertion written in its declaration, in that order, each computed by the assertion's own comparison from its own left and right operand (an operand that cannot be evaluated counts as null) and showing those operands. Assertions see the fields of this call's response and nothing of the caller.",
  ["programs", "inputs"], "every list of assertions of every shape, and every response",
  "Evaluating assertions needs a server, so the offline tests never execute this code; the existing network test has one assertion `status == 200`.",
  [EV, CT], [("assertion loop of a request call", "eval_call_expr")])
p("P10", "Placeholders are replaced by the values of their variables, all of them, once",
  "When a request is called, each `{name}` placeholder of its template is replaced by the display form of that variable (null when unbound), the text around the placeholders is unchanged, and replaced text is not scanned again. `format` and `println` replace the placeholders of their first argument one-to-one, in order, by their remaining arguments, or fail when the counts differ.",
  ["inputs"], "every template, every number and position of placeholders, every variable value (also one containing braces)",
  "Tests have at most two placeholders; offset errors show only when an earlier replacement has a different length than the placeholder.",
  [EV, NA], [("replacement from the last placeholder to the first", "eval_call_expr, native::format")])
p("P11", "One request call sends one request and leaves one record",
  "Each evaluation of a request call sends its message exactly once and adds exactly one record, whether or not it succeeds; the record carries the name of the called request and the request, response, times and error of that same exchange. The call itself yields the mapped response.",
  ["histories", "fault_sequences"], "every sequence of calls, and every point at which the exchange may fail",
  "No offline test performs a request call.",
  [EV, CT, H % "client"], [("the call arm of the evaluator", "eval_call_expr"), ("record list", "Context::push, Context::records")])
p("P12", "PASS is reported only for an exchange without error and without failed assertion",
  "A record is reported as PASS exactly if its exchange ended without error and every one of its assertions holds, otherwise as FAIL; each assertion is listed with its own outcome and an error is shown.",
  ["inputs"], "every list of assertion outcomes and every error",
  "There is no offline test of the report; the verdict accumulates over a list of any length.",
  [CT], [("report of a record", "impl Display for Record")])
p("P13", "Comparisons follow the written operator and operand order",
  "`<`, `>`, `<=`, `>=` compare two integers or two strings by their order and numbers of mixed type as floats, left operand against right; values that cannot be ordered compare false. `==` and `!=` hold exactly if the values are equal, respectively not equal, as values of the same type.",
  ["inputs"], "every pair of values of all types",
  "Tests compare a few small integers and booleans; mixed-type and string orderings are hardly sampled.",
  [VA, EV], [("ordering and equality of values", "impl PartialOrd for Value, derived PartialEq")])
p("P14", "Index and field access return the addressed element or null",
  "Indexing an array by an integer yields the element at that position, indexing a map by a value the entry stored under that value's display form, and field access the entry of that name; a missing element, including a negative index, yields null and any other combination is an error.",
  ["inputs"], "every container, index and field name",
  "Tests use arrays of three elements with indices in and just out of range.",
  [EV], [("element access", "eval_index_expr, eval_field_expr, eval_map_literal")])
p("P15", "Built-in functions check their arguments",
  "Each built-in function returns an error, never a wrong value, when the number or the type of its arguments does not fit; `length` is the length of its only argument, `append` yields the array followed by all further arguments in order, and print functions print exactly the formatted text. An unknown function name is an error; a declared request takes precedence over a built-in of the same name.",
  ["inputs"], "every argument list of every built-in",
  "Tests call each built-in with a couple of argument lists.",
  [NA, EV], [("built-ins", "native::{println,print,format,length,append}; eval_call_expr")])
p("P16", "A declaration is registered under its own name with its own parts",
  "Parsing yields, for each request declaration, an entry under its name with exactly its template and its assertions in order, for each test an entry under its name with its block in order, and every other top-level expression in order; a missing name, template, delimiter or separator is an error. No token is skipped without having been checked.",
  ["programs"], "every source text",
  "Parser tests check a dozen well-formed declarations and hardly any malformed one.",
  [PA], [("recursive descent", "Parser::parse and the parse_* functions")])
p("P17", "An expression is shown with all its parts, as it was written",
  "The text shown for an expression, as in the outcome of an assertion, consists of all its parts in written order with the delimiters of its construct: operators, names and strings as they were written, literals by their value, lists element by element with the separator of the construct; nothing is left out, repeated or added.",
  ["programs"], "every expression, i.e. every construct with every number of parts",
  "Tests show a handful of expressions; a swapped operand or a lost element of one construct only appears in the report of an assertion that uses it.",
  [SY, TK], [("display of expressions and tokens", "impl Display for Expr, impl Display for Token")])
p("P18", "A value is shown as exactly what it is",
  "Printing, formatting, templates and reports show a string verbatim, a number and a boolean by its full value, null as null, and a list or map with all of its elements.",
  ["inputs"], "every value",
  "Tests print a few values; a rounded number or a trimmed string leaves them green.",
  [VA], [("display of values", "impl Display for Value")])
p("P19", "An error names what failed",
  "The error of an operator shows its name or sign and the operand values, in written order with the operator between them; the error of an unknown name or function shows that name; the error of an index, field access or prefix operator shows the value it does not apply to; a syntax error shows what was expected and the token found.",
  ["inputs", "programs"], "every failing operation on every combination of operand types, and every token at which parsing can fail",
  "Tests compare the error text of a handful of failures; swapped operands or the text of a neighbouring arm only show for the one combination.",
  [VA, EV, PA], [("error texts", "impl Add..Shr for Value, eval_* of the evaluator, the checks of the parser")])
p("P20", "A request goes out as request line, headers, blank line, body",
  "Every request is written as one request line (method, path, version), all headers in declaration order, one blank line and then the body; parts are separated by CRLF and the whole is flushed before success is reported. A body is announced by a Content-Length equal to the number of body bytes unless the declaration frames it itself, and a multipart body's boundary is in its Content-Type.",
  ["inputs", "fault_sequences"], "every method, path, header list and body, and a failure of any individual write",
  "No offline test looks at the bytes written.",
  [H % "request", H % "content"], [("serialisation", "Request::write, Content::write")])
p("P21", "A template becomes exactly the request it spells out",
  "Method, URL and version come from the first, second and third word of the first line, each following non-blank line up to the first blank line is one header with trimmed name and value split at the first colon, and what follows is the body. The body is encoded by the content type: form fields url-encoded in order, multipart fields and `@` files as parts, anything else verbatim. The body kept for the record has what follows verbatim, or each field line apart from the others.",
  ["inputs"], "every request template",
  "The only offline test of this code parses one two-line GET template.",
  [H % "request"], [("template parsing", "Request::from")])
p("P22", "The connection goes to the host and port the URL names",
  "The scheme is what precedes the first `://`, host and port what follows up to the first `/`, the path everything from there; without a valid port the scheme's default (80, 443) is used; a text without `://`, or none, names `localhost` and the path `/`. The request is sent to exactly this host and port, and the recorded URL names scheme, host, path and any non-default port.",
  ["inputs"], "every URL",
  "Eight tests cover http URLs; none has https, a second `://`, or looks at the connection made.",
  [H % "url", H % "stream", H % "client"], [("URL parsing", "impl From<&str> for Url"), ("connection", "Stream::connect")])
p("P23", "https is always verified TLS and never falls back to plain text",
  "For an https URL every byte is exchanged through a TLS session whose certificate chain is verified by the platform verifier for the URL's host, for an http URL directly; no error path continues an https exchange over the bare connection.",
  ["inputs", "fault_sequences"], "every URL and every failure of name conversion, session set-up, connection or handshake",
  "TLS needs a peer; no offline test reaches it, and a fallback or disabled verification leaves every exchange looking the same.",
  [H % "stream"], [("TLS set-up", "Stream::connect_tls"), ("stream reads and writes", "impl Read/Write for Stream")])
p("P24", "A failed exchange is reported as an error, a successful one is not",
  "Whatever step of an exchange fails (reading a body file, resolving, connecting, TLS, writing, flushing, reading, a connection closed without a response), the exchange ends there with a non-empty error telling what failed and an empty response; without such a failure the error is empty and the response is the received one. No failure is silently dropped or retried. (A peer that ends a TLS connection without notice counts as having closed it.)",
  ["fault_sequences"], "each individual operation that may fail, in every exchange",
  "Faults are not injected by any test.",
  [H % "client", H % "request", H % "response", H % "stream", H % "content", H % "error"], [("error propagation", "Client::send and everything it calls")])
p("P25", "Connecting tries every address and succeeds if any does",
  "Every resolved address is attempted, alternating between IPv6 and IPv4, until one attempt succeeds; the first success is used, and failure is reported only after all attempts have failed. Connecting cannot wait forever for attempts that have all ended.",
  ["schedules", "fault_sequences"], "every number of addresses, and every order in which attempts succeed, fail or hang",
  "Only the alternation helper has tests; the race between attempts depends on timing.",
  [H % "stream"], [("happy eyeballs", "Stream::connect_happy, rotate")])
p("P26", "A response is reproduced as received",
  "Version, status and reason come from the status line, every header line up to the first blank line becomes one header in order with trimmed name and value split at the first colon, and the body is everything after it until the peer closes the connection.",
  ["inputs"], "every byte stream a server may send",
  "One offline test parses one response.",
  [H % "response"], [("response parsing", "Response::from")])
p("P27", "Scripts see all parts of the response, each under its key",
  "After a request call the script sees version, status, reason, headers and body under exactly these names with the received values; repeated headers are collected in order under one name; `json` is present if the body parses as a value and then holds it, including negative numbers and nested arrays and maps.",
  ["inputs"], "every response",
  "One offline test looks at one key of one response.",
  [H % "response", SY], [("mapping", "Response::to_map, Expr::eval")])
p("P28", "The phases of an exchange add up to its total time",
  "For every successful exchange, resolve, connect, write, delay and read time are durations of consecutive, non-overlapping parts of the exchange, each non-negative, and add up exactly to the total; computing them never underflows.",
  ["schedules"], "every timing of the individual steps",
  "Only network tests check the sum, and on a handful of timings.",
  [H % "client", H % "response", H % "stream", H % "time"], [("time stamps", "Client::send, Stream::connect_tcp, Response::from")])
p("P29", "Protocol names read and print the same",
  "Every supported HTTP method, version and scheme is recognised by exactly the spelling it is printed with, all spellings are distinct and those of the HTTP standard, and anything else or nothing falls back to the documented default (GET, HTTP/1.1, http).",
  ["inputs"], "every word in place of method, version or scheme",
  "The tests only print one method and one version.",
  [H % "mod"], [("http_type! tables", "lib/src/http/mod.rs")])
p("P30", "Recorded fields are exactly those of the schema, in its order",
  "Each record is encoded with the fields of the schema in the file header, in that order and with the encoding their types require (arrays counted and terminated), each field holding the value of the record it is named after.",
  ["inputs"], "every record, with any number of headers and assertions",
  "The only test writes one record with empty headers and assertions and does not compare values.",
  [WR], [("schema and encoder", "META, Writer::write, encode_*")])
p("P31", "Every block of a record file is framed correctly",
  "A record file starts with the container header (magic, metadata map, sync marker); each write appends one block whose count is the number of records in it, whose size is the exact length of their encoding, and which ends with the same sync marker as the header. Integers are encoded as zig-zag variable-length numbers for every value.",
  ["inputs", "histories"], "every sequence of writes with any number of records",
  "One write of one record is tested.",
  [WR], [("block framing", "Writer::new, Writer::write, header, encode_long, encode_variable")])
p("P32", "Records are written completely or the failure is reported",
  "The header and every block are handed to the file completely, also when the file accepts them in pieces, and a failing write is reported rather than ignored.",
  ["fault_sequences"], "every short or failing write",
  "Tests write to memory, which never writes short and never fails.",
  [WR], [("file output", "Writer::new, Writer::write")])
p("P33", "A run is never aborted by its own bookkeeping",
  "Loading, distributing iterations, printing, recording and counting never abort the process or a worker, whatever the numbers of threads, iterations and records, the texts recorded, and the environment. Only a refusal by the operating system (unreadable source or missing directory, record file that cannot be created) ends a run, with a message.",
  ["inputs", "configurations"], "every command line, environment, record and response time",
  "Tests run one configuration; a division by a number of threads or a record list that is empty for once aborts only the run that has it.",
  [CM, WR, ST], [("partial operations outside the interpreter", "command::test, command::writer, Writer::write, encode_*, Stat::add")])
p("P34", "Each part touches only what its task needs",
  "Parsing, built-in functions (but for print and println, which write standard output), contexts, displays and statistics have no effect outside the program. Evaluation may write standard output, exchange over the network through the client and read the files named by multipart bodies; the record writer reports on standard error. Nothing removes, renames or overwrites existing files other than the record files being created, starts processes, listens, changes the environment or ends the process; only the command reads the environment, lists directories and creates files.",
  ["inputs", "histories"], "every source, template, argument and run",
  "An extra effect (a file removed, a variable changed) leaves every result the tests compare as it is.",
  [CT, NA, EV, PA, CM, WR, H % "client"], [("calls to the operating system", "every function of the library and the command")])
p("P35", "No unsafe code and no state shared between evaluations",
  "The program has no unsafe code and no mutable static or thread-local state, nor interior mutability hidden in shared values: the result of an evaluation depends only on its source, its context and the outside world, never on evaluations before it or beside it. Only constants may be computed once and kept.",
  ["histories", "schedules"], "every sequence and interleaving of evaluations in one process",
  "A cache or counter shared between evaluations only shows after a particular sequence of evaluations.",
  [EV, CT, NA, H % "client", CM], [("statics and unsafe blocks", "every function of the library and the command")])
p("P36", "Evaluating, exchanging and reporting end",
  "Apart from programs that call themselves, every evaluation ends: loops outside the parser run over something finite or use up something on every turn, recursion descends into parts of the expression or value, reading a response ends at the end of input, whatever the peer sends, and a run ends when its requested runs are done. The assertions of a request never start the request again by themselves.",
  ["inputs", "histories"], "every expression, response, template and run",
  "A loop that does not end on one malformed response or template only shows on that input.",
  [EV, NA, H % "response", H % "request", H % "client", CM, WR], [("loops and recursion", "every function outside the parser")])
p("P37", "A record says when its exchange began and ended",
  "The recorded begin of an exchange is the wall clock (time since 1970) before its first step, whether or not the exchange succeeds; the recorded end of a successful exchange is the wall clock after its response has been read completely, and no exchange is recorded to end before it began.",
  ["schedules", "fault_sequences"], "every timing and outcome of the steps of an exchange",
  "No test looks at these fields, and only an exchange that takes its time in one particular step shows the difference.",
  [H % "client", H % "time"], [("clock readings", "Client::send, Time::default")])
p("P38", "A slow peer is waited for",
  "The only limits on how long an exchange waits are the client's own: an attempt to connect lasts at most its connect limit, each wait for bytes of the response at most its read limit, either without end if it has none, and the client that requests are evaluated with has none. An exchange never fails, or is cut short, because of the time it has taken.",
  ["schedules", "fault_sequences"], "every duration of connecting and of the gaps between the bytes of a response",
  "No test has a peer that is slow, and a limit of half a minute is only noticed with one that is slower.",
  [H % "client", H % "stream", H % "response"], [("limits", "Stream::connect_tcp, Stream::connect_timeout, Client")])
p("P39", "A worker's runs continue from each other",
  "A worker that runs a named test repeatedly evaluates each run with the variables and declarations its previous run left, the first with those that loading the files left; nothing but the runs themselves changes them in between.",
  ["histories", "configurations"], "every number of runs, and every test that binds variables",
  "Tests run a test once at most.",
  [CM, CT], [("the worker loop", "command::test"), ("taking the records", "Context::records")])
p("P40", "Each request made by a test is printed, recorded and counted once",
  "Whether one named test or all tests run, and whether or not an iteration ends with an error, every record of an iteration is printed exactly once, written exactly once to that worker's record file if recording, under the test's name with the worker's and iteration's number, and delivered exactly once to the statistics if requested.",
  ["histories", "fault_sequences"], "every test, iteration and option combination, and every point an iteration may fail",
  "The command tests need a network for any record to exist.",
  [CM, CT], [("worker loops", "command::test"), ("taking the records", "Context::records")])
p("P41", "A named test runs exactly the requested number of times",
  "Without a duration, a named test is run the requested number of times in total over all workers, whatever the number of workers; a worker runs fewer only after its test failed or the run was stopped. When all tests run, each runs exactly once.",
  ["configurations"], "every combination of number and threads",
  "Tests only use the default of one thread and one run.",
  [CM, MN], [("division of the runs", "command::test")])
p("P42", "Workers do not share state",
  "Each worker evaluates in its own copy of the variables and writes to its own, distinctly named record file; nothing one worker binds or records is visible to another, and a worker starts without any records.",
  ["schedules"], "every interleaving of workers",
  "No test runs two workers.",
  [CM, CT], [("per-worker copies", "command::test, impl Clone for Context")])
p("P43", "A run ends when its workers have ended",
  "The command waits for all workers and for the statistics, which are complete when all workers ended; it cannot hang once the workers ended, because nothing else keeps the statistics channel open.",
  ["schedules"], "every interleaving and every way a worker may end",
  "Hanging depends on which handle is dropped last; tests never request statistics.",
  [CM], [("joining and channel closing", "command::test")])
p("P44", "Stopping a run stops every worker before its next iteration",
  "A duration that elapses or an interrupt clears the one flag all workers of a named test check before each iteration; nothing ever sets it again, and a run with a duration is otherwise limited only by the largest number of runs there is (4294967295).",
  ["schedules"], "every moment at which the run is stopped",
  "No test uses a duration or an interrupt.",
  [CM, MN], [("stop flag", "command::test, handle_interrupt")])
p("P45", "The interactive session keeps its state and ends at exit or end of input",
  "Every entered line is evaluated once in a session that keeps all earlier bindings and declarations, also after a line that failed; blank lines are skipped, and the session ends at the line `exit` and at the end of input or a read error. The eval command evaluates its text in the same way in a fresh session.",
  ["histories"], "every sequence of lines",
  "One test enters one line and `exit`.",
  [CM], [("session loop", "command::repl, command::eval")])
p("P46", "Statistics aggregate every record of their name",
  "For each request name, count, sum, maximum and minimum are those of all added durations, average is sum divided by count, and every recorded name is printed once with its own figures.",
  ["histories"], "every sequence of additions",
  "There is no test of the statistics.",
  [ST, CM], [("aggregation", "Stat::new, Stat::add, Stats::add, Display")])
p("P47", "Exactly the .fan files below the path are loaded, in sorted order",
  "All files with extension fan below the given directory, and only those, are read completely in sorted order, separated from each other; a file or directory that cannot be read is a reported failure and not skipped.",
  ["configurations", "fault_sequences"], "every directory tree and every read failure",
  "The command test has one directory with one file.",
  [CM], [("source loading", "read_to_string, read")])
p("P48", "Durations mean what their unit says",
  "A duration argument is a number followed by s, m or h and means that many seconds, minutes or hours; any other unit, a missing number, or a value out of range is an error.",
  ["inputs"], "every argument text",
  "There is no test of durations.",
  [MN], [("argument parsing", "parse_duration")])
p("P49", "Results and failures are told, and an unprepared run does not start",
  "Evaluating a text, as a command or in a session, prints exactly its value or its error. A source that does not parse, or whose top-level expressions fail, is reported with that error and no test is run; a test that does not exist is reported by its name; the error that ends an iteration is printed.",
  ["inputs", "fault_sequences"], "every text, and every step at which preparing or running can fail",
  "Tests call the commands with one good input each and look at no output.",
  [CM], [("evaluation, session and test commands", "command::eval, command::repl, command::test")])
p("P50", "Each option reaches the parameter it names",
  "The commands are eval and test; of test, -t/--threads (default 1), -d/--duration, -n/--number (default 1), -p/--path, -r/--record and -s/--stat each set the parameter of their own name and no other, independently of each other; without a path the current directory is used.",
  ["inputs"], "every command line",
  "No test parses a command line.",
  [MN, CM], [("command line", "Interface, Commands, main")])
p("P90", "Nesting depth does not exhaust the stack",
  "Texts and values nested arbitrarily deep are handled or rejected with an error instead of overflowing the call stack.",
  ["inputs"], "every nesting depth",
  "Tests nest two or three levels.",
  [PA, EV, VA], [("unbounded recursion", "Parser::parse_expr, eval_expr")])
p("P91", "A response body ends where its framing says",
  "The body of a response ends after Content-Length bytes or the last chunk, without waiting for the server to close the connection, and chunked bodies are decoded.",
  ["inputs", "schedules"], "every response framing and every pace at which a server sends",
  "No offline test has a peer.",
  [H % "response"], [("body is read to the end of the stream", "Response::from")])
p("P92", "Workers keep up the requested load",
  "Workers run concurrently and a slow worker does not delay the others; recorded durations measure the exchange and not the harness.",
  ["schedules"], "every scheduling of the workers",
  "Timing cannot be tested by sampling.",
  [CM, H % "client"], [("one thread per worker", "command::test")])
p("P93", "Printed expressions parse back to themselves",
  "The text shown for an expression in an assertion report parses to an expression equal to the one evaluated.",
  ["programs"], "every expression",
  "Tests print few expressions and never parse them back.",
  [SY], [("display of expressions", "impl Display for Expr")])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
