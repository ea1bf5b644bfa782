#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os

P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

WIRE = "bytes written to the transport, as seen by a server that understands only CRLF line ends"
RES = "value returned by the public call"

p("C01", "Message content reaches the server byte-exact and framed once",
  """For every message given to send, a conforming SMTP server (lines end in CRLF only, a leading dot is removed, a
  lone dot ends the data) recovers exactly the given bytes, plus only what is needed to complete an unterminated last
  line. No content can end the data early, and nothing but one end-of-data line follows the content.""",
  ["inputs"], "all byte strings as message content, including empty, leading dots, CR/LF in any arrangement and binary",
  "one codec test over ten fixed chunks; no test sends a message; the property ranges over all byte strings",
  ["src/codec.rs", "src/stream.rs"],
  [("transparency state machine", "src/codec.rs: ClientCodec::encode"), ("end of data", "src/stream.rs: SmtpStream::message")],
  [("escape_count", "how much of CRLF has been matched", "src/codec.rs")], [WIRE])

p("C02", "Any message source is sent whole, or not at all",
  """A message supplied through an asynchronous reader is delivered exactly as the same bytes given directly would be,
  however the reader splits its data or defers readiness. If the reader fails, send returns that error, the server
  never gets an end-of-data for that message, and later sends on the same connection still work.""",
  ["inputs", "schedules", "fault_sequences"], "all contents, all ways a reader can chunk, defer or fail (including at the first and after the last byte)",
  "no test uses a reader or sends anything",
  ["src/types.rs", "src/stream.rs", "src/smtp_client.rs"],
  [("reader adapter", "src/types.rs: impl Read for Message"), ("message is read before the transaction", "src/smtp_client.rs: send")],
  [], [WIRE, RES])

p("C03", "send reports success exactly when the server took the message",
  """send returns success if and only if the server accepted the sender, every recipient and the request to transmit, was
  given the complete message, and then confirmed it with a positive completion reply, which is the response returned.
  If the server refuses any step, send returns the first refusal (first in command order) and the message is not
  delivered; content is transmitted only after the server has asked for it.""",
  ["inputs", "histories", "configurations"], "all envelopes and all accept/refuse/unexpected-class decisions of a server at every step, lock-step and pipelined",
  "no test runs a transaction; the outcome depends on the combination of server decisions",
  ["src/smtp_client.rs", "src/stream.rs"],
  [("reply checks in both send paths", "src/smtp_client.rs: send"), ("positive/negative classification", "src/stream.rs: read_response")],
  [], [WIRE, RES])

p("C04", "The envelope on the wire is exactly the envelope given",
  """A send issues exactly one MAIL with the given sender (or the empty path when there is none), then one RCPT for each
  given recipient, in the given order and with duplicates kept, then DATA. Nothing else is issued for it except at most
  one RSET before the MAIL, which is used only to abort an earlier failed transaction.""",
  ["inputs", "configurations"], "all senders, all recipient lists (1 to several thousand), lock-step and pipelined, with and without extensions",
  "no test sends an envelope; only the rendering of single commands is tested",
  ["src/smtp_client.rs", "src/commands.rs", "src/types.rs"],
  [("command sequence", "src/smtp_client.rs: send"), ("rendering", "src/commands.rs: MailCommand, RcptCommand")],
  [], [WIRE])

p("C05", "Commands are pipelined only when the server offers it and it is enabled",
  """Unless the server advertised PIPELINING and the client has it enabled, no command or message content is written
  before the whole reply to the previous command has been received. When both hold, the commands of a transaction are
  sent without waiting for each reply, and message content still only follows the replies to all of them.""",
  ["configurations", "schedules"], "both client settings, servers with and without the extension, all reply delays and splits",
  "needs an observer of the relative order of writes and replies; no test has a peer",
  ["src/smtp_client.rs", "src/stream.rs"],
  [("pipelining decision", "src/smtp_client.rs: send"), ("one reply per command", "src/stream.rs: command")],
  [("client_info.pipelining", "client setting", "src/smtp_client.rs"), ("server_info.features", "server offer", "src/extension.rs")],
  ["relative order of bytes written and replies released"])

p("C06", "Pipelined and lock-step sending have the same outcome",
  """For the same message, envelope and server decisions, a send over a pipelining connection and one over a lock-step
  connection return the same result (the same reply or the same error) and lead to the same set of delivered messages.""",
  ["histories", "configurations"], "all envelopes and all per-step server decisions, including partial acceptance of recipients",
  "the two code paths are separate and neither is tested; equivalence is a relation over pairs of runs",
  ["src/smtp_client.rs"], [("two branches of the transaction", "src/smtp_client.rs: send")], [], [WIRE, RES])

p("C07", "Over a session every send is delivered exactly once or reported failed",
  """Over any sequence of operations on one connection, the messages the server ends up delivering are exactly those whose
  send returned success, each once, in order, to its own recipients and with its own content. A refused operation never
  changes what a later operation sends, and no later operation takes a reply meant for an earlier one; when the
  connection cannot be used any more, later operations fail without transmitting anything.""",
  ["histories", "configurations"], "all sequences of sends, logins and quits with all server decisions in between, lock-step and pipelined",
  "needs multi-step histories with refusals; no test performs even one step",
  ["src/smtp_client.rs", "src/stream.rs"],
  [("draining of pipelined replies", "src/smtp_client.rs: send"), ("RSET of an open transaction", "src/smtp_client.rs: send"), ("cancelling AUTH", "src/smtp_client.rs: auth")],
  [("outstanding replies", "replies the server owes that have not been read", "connection")], [WIRE, RES])

p("C08", "No operation waits for the server with its own output unflushed",
  """Whenever an operation waits for a reply, everything it has written has been flushed to the transport, so that every
  operation completes over a buffering transport as soon as the server has answered the commands it was sent. When an
  operation returns, none of its output is left unflushed.""",
  ["schedules", "configurations"], "all operations, transports that hold data back until flush, with arbitrary readiness of write, flush and read",
  "unit tests never wait on a peer; a missing flush shows only with a buffering transport",
  ["src/stream.rs"], [("flush after write", "src/stream.rs: write, message")], [], ["transport buffer state at each blocking read and at return"])

p("C09", "Pipelining cannot deadlock on bounded transport buffers",
  """A pipelined send to any number of recipients completes over a transport that can hold 64 KiB in each direction when
  the server handles one command at a time, replies with at most 512 bytes to each, and stops reading while its replies
  are not being taken.""",
  ["inputs", "configurations"], "all recipient counts, all buffer sizes of at least 64 KiB per direction, replies up to 512 bytes",
  "needs a peer with bounded buffers and very many recipients (RFC 2920 section 3.1)",
  ["src/smtp_client.rs"], [("bound on unread replies", "src/smtp_client.rs: send")], [("outstanding", "commands sent whose reply has not been read", "src/smtp_client.rs: send")],
  ["stall of both peers in a deterministic simulation"])

p("C10", "Server replies are understood exactly",
  """Every reply that is well-formed under RFC 5321 (one or more lines, the same code on each, text optional) is accepted
  and yields exactly its code and the text of each of its lines, consuming exactly its own bytes; a CR or LF on its own
  does not end a line (it is text, or makes the reply invalid). Anything else (bad or inconsistent codes, wrong
  separators, missing final line end, text that is not UTF-8) is reported as an error and never as a reply.""",
  ["inputs"], "all byte strings a server can send as replies; all numbers and lengths of lines",
  "a handful of fixed replies are parsed; the grammar is infinite",
  ["src/response.rs", "src/stream.rs"],
  [("reply parser", "src/response.rs: parse_response"), ("line accumulation", "src/stream.rs: read_response")], [], [RES, "Response::from_str", "position of the transport after the reply"])

p("C11", "Refusals are classified by code and carried unchanged",
  """Whatever operation receives it, a 4yz reply is returned as a transient error and a 5yz reply as a permanent error,
  carrying the complete reply (code and all lines), and a 2yz or 3yz reply is never turned into either. Transport
  failures are returned as I/O errors, never as a server reply.""",
  ["inputs", "fault_sequences"], "all operations and steps at which a reply can arrive, all valid codes and texts",
  "only the display of one hand-made error is tested",
  ["src/error.rs", "src/stream.rs", "src/response.rs"],
  [("severity mapping", "src/error.rs: From<Response>"), ("is_positive", "src/response.rs")], [], [RES])

p("C12", "Server capabilities are exactly those advertised in EHLO",
  """The features the client acts on are exactly the supported keywords (PIPELINING, 8BITMIME, SMTPUTF8, STARTTLS and the
  PLAIN, LOGIN, XOAUTH2 mechanisms of AUTH) that start a line after the first line of the EHLO reply, in any order and
  in any letter case of the keyword. Unknown lines, parameters and mechanisms, and text elsewhere, neither add nor remove
  features.""",
  ["inputs"], "all EHLO replies: any subset, order, repetition, case and noise",
  "two fixed replies are parsed",
  ["src/extension.rs", "src/smtp_client.rs"], [("EHLO reply parser", "src/extension.rs: ServerInfo::from_response")],
  [("server_info", "features in force for the connection", "src/smtp_client.rs")], ["ServerInfo", WIRE])

p("C13", "Extension parameters are used only when negotiated",
  """MAIL carries BODY=8BITMIME exactly when the server advertised 8BITMIME, and SMTPUTF8 exactly when the server advertised
  SMTPUTF8 and the client enabled it; it carries no other parameter and RCPT carries none. This holds for every send of
  the connection, lock-step or pipelined.""",
  ["configurations", "histories"], "all combinations of advertised features and client settings",
  "no test builds a transport",
  ["src/smtp_client.rs"], [("mail_options", "src/smtp_client.rs: send")], [], [WIRE])

p("C14", "Addresses can never inject into the SMTP dialogue",
  """An email address is constructed, by any route, exactly when it consists only of printable ASCII other than space, '<'
  and '>', and then appears on the wire verbatim as one bracketed path within one command line. An envelope can never be
  built without a recipient.""",
  ["inputs"], "all strings as addresses, all constructors, all positions in an envelope",
  "eight fixed strings are tried, none goes to the wire",
  ["src/types.rs", "src/commands.rs"], [("character check", "src/types.rs: EmailAddress::new"), ("non-empty check", "src/types.rs: Envelope::new")], [], [RES, WIRE])

p("C15", "Parameter values are encoded as unambiguous xtext",
  """The value of a custom MAIL or RCPT parameter, and any xtext rendering, contains no ASCII control character, space, '=' or
  bare '+': each of these is written as '+' and exactly two upper-case hexadecimal digits, and all other characters are
  kept. Decoding what was written gives back exactly the original string.""",
  ["inputs"], "all strings as values",
  "four fixed strings are encoded; none contains a control character",
  ["src/util.rs", "src/extension.rs"], [("xtext encoder", "src/util.rs: XText"), ("parameter rendering", "src/extension.rs: MailParameter, RcptParameter")], [], ["rendered text"])

p("C16", "Login uses an accepted, offered mechanism and encodes exactly the credentials",
  """Login uses the first mechanism in the caller's order that the server offers, and sends nothing if there is none. What a
  conforming server decodes from the exchange (PLAIN, LOGIN or XOAUTH2) is exactly the given user name and secret, for
  all strings; LOGIN gives the user name only to a user name prompt and the secret only to a password prompt, and nothing
  to any other prompt.""",
  ["inputs", "configurations"], "all credentials (any Unicode, any length, control characters), all mechanism lists, offers and prompts",
  "fixed credentials against the response function; no exchange with a server",
  ["src/authentication.rs", "src/commands.rs", "src/smtp_client.rs"],
  [("mechanism choice", "src/smtp_client.rs: try_login"), ("responses", "src/authentication.rs: Mechanism::response"), ("encoding", "src/commands.rs: AuthCommand")], [], [WIRE])

p("C17", "Authentication succeeds only when the server says so and always ends",
  """Authentication returns success exactly when the server ends the exchange with a positive completion reply, and a refusal
  is returned as such. The client answers at most ten challenges; if it cannot or will not answer one it cancels the
  exchange and returns an error, so that the next operation's commands are never taken as authentication data and still work once the server has rejected the exchange.""",
  ["inputs", "histories"], "all challenge sequences of a server: any number, any text, valid or invalid base64, any final reply",
  "no test runs an exchange; the loop depends on server behaviour",
  ["src/smtp_client.rs", "src/commands.rs"], [("challenge loop", "src/smtp_client.rs: auth"), ("challenge decoding", "src/commands.rs: AuthCommand::new_from_response")],
  [("challenges", "remaining challenges", "src/smtp_client.rs: auth")], [WIRE, RES])

p("C18", "STARTTLS hands over a clean stream, and only when offered and accepted",
  """STARTTLS is sent only if the server advertised it; otherwise the call fails without writing anything. The stream is
  handed back only after a positive reply, positioned exactly after that reply, with the STARTTLS command the last thing
  written and nothing unflushed.""",
  ["inputs", "schedules", "configurations"], "all advertised features, all replies and all data that may follow the reply in the same segment",
  "no test has a peer",
  ["src/smtp_client.rs"], [("starttls", "src/smtp_client.rs: starttls"), ("line reads", "src/stream.rs: read_response")], [], [WIRE, "remaining bytes of the returned stream"])

p("C19", "Connection set-up and shut-down follow the SMTP dialogue",
  """Set-up reads one positive greeting before writing anything (or, when told that there is none, reads nothing first),
  sends exactly one EHLO with the configured name (IP literals in brackets), and yields a connection only if both were
  accepted; after a refusal it writes nothing more. Quit sends exactly QUIT and returns the server's verdict on it.""",
  ["inputs", "configurations"], "all client names and settings, all greetings and EHLO replies, lines and splits",
  "no test constructs a connection",
  ["src/smtp_client.rs", "src/extension.rs", "src/stream.rs"], [("set-up", "src/smtp_client.rs: SmtpTransport::new"), ("client name", "src/extension.rs: ClientId"), ("quit", "src/smtp_client.rs: quit")], [], [WIRE, RES])

p("C20", "Connection loss is always an error and never truncates a delivered message",
  """If the connection ends or fails at any byte, in either direction, every operation that had not yet received its complete
  reply returns an error; none hangs, panics or reports success. The server never receives an end-of-data for a message
  that was not transmitted completely, and nothing is sent twice.""",
  ["crash_points", "fault_sequences"], "every byte offset of both directions, end-of-file and errors, on write, flush and read",
  "no test has a transport that fails",
  ["src/stream.rs", "src/smtp_client.rs"], [("EOF and error handling", "src/stream.rs: read_response"), ("error propagation", "src/stream.rs: write, message")], [], [WIRE, RES])

p("C21", "Behaviour does not depend on how the transport splits or delays data",
  """For the same server decisions, the bytes the client writes and the results it returns are the same however reads and
  writes are split into pieces and whenever the transport reports that it is not ready, for however long.""",
  ["schedules"], "all partitions of both byte streams and all not-ready points",
  "unit tests use no transport at all; schedules are unbounded",
  ["src/stream.rs", "src/codec.rs"], [("whole writes", "src/stream.rs: write"), ("line accumulation across reads", "src/stream.rs: read_response")], [], [WIRE, RES])

p("C22", "Both runtimes behave identically",
  """Built for tokio or for async-std, the client writes the same bytes and returns the same results for the same
  calls, server and transport behaviour.""",
  ["configurations", "inputs"], "all calls, server decisions, transport behaviours and faults, under both runtime features",
  "the same unit tests run on both builds but none compares them or performs I/O",
  ["src/stream.rs", "src/types.rs", "src/codec.rs", "src/smtp_client.rs"], [("cfg-selected I/O traits", "src/stream.rs, src/types.rs, src/codec.rs")], [], [WIRE, RES])

p("C23", "Connections are independent of each other",
  """Any number of connections used at the same time, interleaved on one thread or on several, each behave exactly as if
  they were alone: bytes, capabilities, credentials and results of one never appear in another.""",
  ["schedules", "histories"], "all interleavings of any number of sessions",
  "no test runs a session, let alone two",
  ["src/smtp_client.rs", "src/stream.rs", "src/codec.rs"], [("per-connection state only", "src/smtp_client.rs: SmtpTransport")], [], [WIRE, RES])

p("C24", "Reading a message is memory-safe and respects pinning",
  """Sending a message from any reader, including one that must not be moved once polled, executes no undefined behaviour,
  polls the reader only at one fixed address until it is dropped, and drops it exactly once, also when the send is
  abandoned at any suspension point.""",
  ["schedules", "inputs"], "readers that are not movable once polled, all suspension points at which a send can be dropped",
  "the only unsafe code is not reached by any test",
  ["src/types.rs"], [("pin projection with unsafe", "src/types.rs: impl Read for Message")], [], ["addresses and drops of the reader", "Miri and AddressSanitizer reports"])

p("C25", "No server can make the client panic or spin",
  """Whatever bytes the server sends at whatever time, every operation either completes with a result or waits for more
  input; it never panics, never loops without consuming input, and completes with an error once the server closes the
  connection without completing a reply. This holds with logging at any level.""",
  ["inputs", "schedules"], "all byte streams from a server, all operations, logging on and off",
  "tests parse a few well-formed replies",
  ["src/stream.rs", "src/response.rs", "src/extension.rs", "src/commands.rs"], [("parsers", "src/response.rs, src/extension.rs"), ("read loop", "src/stream.rs: read_response")], [], [RES, "panics", "steps without progress"])

p("C26", "Every command renders as exactly one well-formed line",
  """For arguments without line breaks, each SMTP command renders as its keyword, then its arguments verbatim in
  order (parameters separated by single spaces), then one CRLF and nothing more; the client name renders as the domain
  (of this machine, for ClientId::hostname) or as a bracketed IPv4 or IPv6 literal, an extension as its keyword. What is rendered is what is transmitted.""",
  ["inputs"], "all commands, arguments and parameter lists",
  "one or two fixed values per command are rendered",
  ["src/commands.rs", "src/extension.rs"], [("Display implementations", "src/commands.rs"), ("ClientId, parameters", "src/extension.rs")], [], ["rendered text", WIRE])

p("C27", "Abandoning an operation never corrupts a later one",
  """When the future of an operation is dropped at any suspension point, every later operation on that connection either
  behaves according to the replies to its own commands or fails without transmitting anything, and no message is delivered
  truncated, twice or mixed with another. An operation abandoned before it tried to write anything leaves the connection
  fully usable; dropping the whole connection at any point delivers nothing that was not completely given.""",
  ["schedules", "crash_points", "histories"], "all operations, all suspension points at which their future can be dropped, all operations that follow",
  "no test performs an operation; cancellation (timeouts, select) is how applications bound these operations, and the suspension points depend on the transport's schedule",
  ["src/stream.rs", "src/smtp_client.rs"], [("bookkeeping of replies still owed", "src/stream.rs: SmtpStream"), ("transaction abort", "src/smtp_client.rs: send")],
  [("unanswered / in_sync", "replies still owed to earlier commands; connection usable", "src/stream.rs")], [WIRE, RES])

p("C28", "Operations can be driven by any executor",
  """An operation behaves the same when its future moves to another thread between polls, gets a new waker at every poll, is
  polled when nothing has become ready, or is not polled for any length of time. The futures of all operations can be sent to other threads, and the public types sent to and
  shared between threads, whenever the stream can, and what the library starts is finished by polling alone.""",
  ["schedules"], "all distributions of polls over threads, wakers and needless polls",
  "the tests poll no operation; a work-stealing executor moves tasks at every suspension point",
  ["src/stream.rs", "src/smtp_client.rs", "src/types.rs", "src/authentication.rs"],
  [("async operations", "src/smtp_client.rs, src/stream.rs"), ("boxed reader", "src/types.rs: Message::Reader")], [], [WIRE, RES, "auto traits of the futures and types"])

p("C29", "Credentials and message content do not leak",
  """Passwords and tokens appear nowhere but in the client's answers of the login they were given to, and message content
  nowhere but in the data of its own message. Neither appears in returned errors and their sources, in what Debug prints of
  the connection, or in log records of level info and above.""",
  ["inputs", "histories"], "all credentials and contents (including ones sent by an earlier operation), all server decisions and faults, logging at every level",
  "absence of a leak is a statement about everything that is written, in all histories; no test logs in or sends",
  ["src/smtp_client.rs", "src/stream.rs", "src/authentication.rs", "src/error.rs", "src/commands.rs", "src/codec.rs"],
  [("authentication exchange", "src/smtp_client.rs: auth"), ("error construction", "src/error.rs, src/commands.rs"), ("log statements", "src/stream.rs")], [],
  [WIRE, "Display, Debug and sources of errors", "Debug of SmtpTransport", "log records"])

p("C30", "What is reported reads as what happened",
  """The text of an error names the whole reply which caused it, every line in order, and says whether it is transient or
  permanent, or else names the underlying I/O error, which is also its source. The accessors of replies and server
  information report exactly what was received.""",
  ["inputs"], "all replies (codes, numbers of lines, texts) and all I/O errors",
  "tests read three fixed replies through accessors and no error text",
  ["src/error.rs", "src/response.rs", "src/extension.rs"],
  [("Display and source", "src/error.rs"), ("accessors", "src/response.rs: Response, Code"), ("ServerInfo", "src/extension.rs")], [], [RES, "Display and source of errors"])

p("C31", "What is finished leaves nothing behind",
  """The memory a connection uses does not grow with the number of operations done on it, whether they succeed, are refused, fail
  or are abandoned. Once a connection is over (dropped at rest or in the middle of set-up or of an operation, failed, or
  handed back for STARTTLS), all memory it took is free again and its stream has been dropped exactly once (when handed back: by
  the application).""",
  ["histories", "crash points"], "all operations, outcomes, numbers of repetitions, faults, and points at which the connection is dropped",
  "no test makes a connection; growth and leaks show only over many operations, or on paths of failure",
  ["src/smtp_client.rs", "src/stream.rs", "src/codec.rs", "src/types.rs", "src/error.rs"],
  [("state of a connection", "src/smtp_client.rs: SmtpTransport"), ("owner of the stream", "src/stream.rs: SmtpStream, into_inner"), ("buffers", "src/stream.rs: read_response, message")], [],
  ["bytes allocated and not freed, by thread", "drops of the stream"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
