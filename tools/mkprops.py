#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording stays easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe))))

p("C01", "Chunk invariance of sequences and alternatives",
  "When a message is fed to an incremental parse in any number of pieces, with the unconsumed tail handed back (possibly at a new address) together with the saved parse state, parsers built from sequencing, alternation, optional parts, mapping, value-dependent continuation and backtracking over restartable parts produce the same values and leave the same remaining input as a single parse of the complete input. This holds for every position at which the input is cut, including inside a token, inside a nested element and between an element and its delimiter.",
  ["schedules", "inputs", "programs"],
  "every grammar built from the sequencing/alternation vocabulary, every input, every sequence of chunk sizes (1 byte up to everything at once, empty deliveries included)",
  "The async tests run about thirty hand-written parsers over one fixed input each; a resume bug needs a particular nesting of combinators AND a cut at a particular byte, a product no sample of unit tests covers.",
  ["src/parser/sequence.rs", "src/parser/choice.rs", "src/parser/combinator.rs", "src/parser/mod.rs", "src/parser/error.rs", "src/parser/token.rs"],
  [("sequence state machine saving finished elements and the resume offset", "src/parser/sequence.rs: PartialState*/tuple_parser!"),
   ("alternation state remembering the branch being parsed", "src/parser/choice.rs: slice_parse_mode, tuple choice, Or, Optional"),
   ("end of a partial stream is a committed error", "src/stream/mod.rs: wrap_stream_error")],
  [("PartialState", "what has been parsed so far", "per-parser associated type")],
  ["combine::stream::decode"])

p("C02", "Chunk invariance of repetition",
  "Parsers that repeat an element (zero-or-more, one-or-more, exact and bounded counts, separated and terminated lists, operator chains, repeat-until, iterate over a known list) yield, for every way of cutting the input into pieces, exactly the elements, in the same order and number, that one parse of the complete input yields, and leave the same remaining input. No element is lost, duplicated, merged or split because the data ran out while the repetition was in progress.",
  ["schedules", "inputs", "programs"],
  "every element/separator grammar, every number of elements, every cut (inside an element, inside a separator, exactly between, at the last allowed element of a bounded count)",
  "Existing incremental tests cover a handful of repetitions with single-token elements over a fixed input; collected elements, counters and the commit flag are saved in separate fields whose consistency depends on where the cut falls.",
  ["src/parser/repeat.rs"],
  [("collected elements and counters kept in the parse state", "src/parser/repeat.rs: Many, Many1, CountMinMax, SepBy1, SepEndBy1, Chainl1, RepeatUntil, Iterate"),
   ("element iterator that drives a repetition", "src/parser/repeat.rs: Iter")],
  [("elements/parsed_one/count", "elements collected before the input ran out", "src/parser/repeat.rs")],
  ["combine::stream::decode"])

p("C03", "Chunk invariance of zero-copy and binary parsers",
  "Parsers that hand out slices of the input or decode fixed-size numbers (take, take-while, literal ranges, search for a delimiter, recognized spans, length-prefixed blocks, big/little-endian integers and floats) return the same contiguous slice or number and leave the same rest however the input is cut, for byte input and for text whose multi-byte characters surround the cut. A delimiter that straddles a cut is found at its first occurrence, never missed and never reported early.",
  ["schedules", "inputs", "programs"],
  "every needle, predicate, length and number format, every input (partial needle prefixes, multi-byte text), every cut",
  "Tests use one needle and one input per parser; scan-resume offsets go wrong only when a proper prefix of the needle or a multi-byte character sits exactly at the cut.",
  ["src/parser/range.rs", "src/parser/byte.rs", "src/stream/mod.rs"],
  [("saved scan distance so that scanning resumes where it stopped", "src/parser/range.rs: take_while/take_fn/take_until_range state"),
   ("slice streams that give nothing out before the whole range is available", "src/stream/mod.rs: RangeStreamOnce for &str, &[u8], PartialStream, MaybePartialStream")],
  [("distance state", "how far the current slice has been scanned", "src/parser/range.rs")],
  ["combine::stream::decode"])

p("C04", "Rejection does not depend on chunking",
  "An input that a parser rejects when it is complete is rejected for every way of delivering it in pieces, after producing the same messages before the failure, and an input that it accepts is never rejected because it arrived in pieces. While input may still follow, a proper prefix of an acceptable message is answered with a request for more data, not with an error.",
  ["schedules", "inputs", "programs"],
  "every grammar, every input (valid, truncated, mutated, random), every sequence of chunk sizes",
  "Incremental tests only feed valid input; that corrupt input is still refused after a resume (rather than silently truncated to a shorter success) is untested and depends on the commit status carried across the cut.",
  ["src/parser/sequence.rs", "src/parser/repeat.rs", "src/parser/choice.rs", "src/parser/combinator.rs", "src/stream/mod.rs", "src/error.rs"],
  [("commit status carried across resumption", "src/parser/sequence.rs first_empty_parser, src/parser/repeat.rs committed flags"),
   ("end-of-input classification", "src/stream/mod.rs: decode, is_unexpected_end_of_input")],
  [], ["combine::stream::decode"])

p("C05", "Answers given before the end of input are final",
  "A value returned while more input may still follow is the value that a parse of the complete input returns, whatever bytes follow later: positive and negative look-ahead, end-of-input tests, optional parts and greedy repetition never decide on the assumption that a missing byte does not exist. Once the end of input is announced, the parse decides with what it has.",
  ["schedules", "inputs", "programs"],
  "every grammar with look-ahead, negative look-ahead, optional/greedy parts and end-of-input tests; every prefix of every input; every continuation of that prefix",
  "Needs two continuations of the same prefix, with the cut at the very byte the decision depends on; no test feeds a look-ahead parser incrementally.",
  ["src/parser/combinator.rs", "src/parser/token.rs", "src/parser/choice.rs", "src/parser/range.rs"],
  [("look-ahead and negative look-ahead", "src/parser/combinator.rs: LookAhead, NotFollowedBy"),
   ("end-of-input parser", "src/parser/token.rs: Eof"),
   ("partial flag of a stream", "src/stream/mod.rs: StreamOnce::is_partial, MaybePartialStream")],
  [], ["combine::stream::decode"])

p("C06", "Consumed-byte accounting of incremental decoding",
  "The number of bytes that an incremental decode reports as consumed never exceeds what it was given, and the bytes it does not report are precisely those that must be presented again: discarding exactly the reported bytes after every call, wherever the buffer then lives, loses nothing and re-reads nothing. Summed over a message the reported bytes equal the message's length, so the next message starts exactly at its first byte.",
  ["schedules", "inputs", "programs"],
  "every grammar, input and chunk schedule; buffers that move and whose old storage is overwritten between calls",
  "Tests advance one growing buffer and compare final outputs only; an off-by-some count that is later compensated, or one that is wrong only when a zero-copy parser is interrupted, is not observed.",
  ["src/stream/mod.rs", "src/stream/easy.rs", "src/stream/position.rs", "src/stream/state.rs"],
  [("distance from the start checkpoint", "src/stream/mod.rs: decode, decode_tokio, RangeStreamOnce::distance")],
  [], ["combine::stream::decode", "combine::stream::decode_tokio"])

p("C07", "Resumption loses no progress and repeats no action",
  "Resuming an interrupted parse continues at the point where the data ran out: every user action attached to an element (conversion, predicate-guarded step, value-dependent continuation) runs exactly once per completed element and in input order, for every way of cutting the input, and again only where the grammar asks for a restart (look-ahead, parsers without partial state) or an alternative that has consumed nothing is tried again, and then with the same values. The work spent on a message fed byte by byte therefore stays within a constant factor of the work for the whole message plus a constant per call; only an alternative that has consumed nothing may look at its data again.",
  ["schedules", "inputs", "programs"],
  "every grammar, every input, every cut schedule down to single bytes",
  "The tests count calls of one closure in four parsers; re-running an action or rescanning a prefix leaves the final value unchanged and so passes result-only tests.",
  ["src/parser/combinator.rs", "src/parser/sequence.rs", "src/parser/repeat.rs", "src/parser/range.rs"],
  [("partial state threaded through every combinator", "src/parser/mod.rs: parse_mode!/ParseMode"),
   ("type-erased partial state", "src/parser/combinator.rs: AnyPartialState, AnySendPartialState, AnySendSyncPartialState")],
  [], ["closures supplied by the user"])

p("C08", "Messages of one session do not influence each other",
  "After a message has been delivered, the saved parse state is as good as new: decoding the following message with the same state object gives the result that a fresh state gives, however the earlier messages were cut and whatever alternatives they tried and abandoned. Type-erased, thread-movable and nested forms of the saved state behave like the plain one, and an erased state that served one parser serves another for the next message. All progress of a message is in the saved state: a parser object that a session was dropped from in the middle of a message, or (except for parsers chosen by the input, `factory`) that serves two sessions alternately with a state each, gives each session the result it would have alone.",
  ["histories", "schedules", "inputs"],
  "every sequence of messages through one saved state, every cut schedule, every grammar",
  "Needs multi-message histories where an earlier message leaves an abandoned sub-state behind; tests use one state per fixed input and compare only totals.",
  ["src/parser/combinator.rs", "src/parser/repeat.rs", "src/parser/sequence.rs", "src/parser/choice.rs"],
  [("state reset on completion", "src/parser/repeat.rs mem::take of elements; src/parser/sequence.rs offset reset"),
   ("type-erased state", "src/parser/combinator.rs: AnyPartialState*")],
  [], ["combine::stream::decode"])

p("C09", "Blocking decoder equals one-shot parse under any read schedule",
  "Decoding from a blocking byte source yields the same messages, in order, as parsing all of the source's bytes at once, whatever sizes the source returns per read, and the bytes left in the decoder's buffer plus the bytes not yet read from the source are exactly the bytes after the last message. This holds for the decoder that owns its buffer and for the one that borrows a buffered reader's.",
  ["schedules", "fault_sequences", "inputs"],
  "every read-size schedule (short reads down to 1 byte, reads straddling buffer growth), every message sequence, both buffering modes, all stream adaptors",
  "One test decodes one file with one grammar under random short reads.",
  ["src/stream/mod.rs", "src/stream/decoder.rs", "src/stream/buf_reader.rs"],
  [("decode loop", "src/stream/mod.rs: decode!"), ("buffer refill and advance", "src/stream/decoder.rs: __before_parse, advance; src/stream/buf_reader.rs: extend_buf_sync")],
  [("buffer/state/end_of_input", "decoder-owned bytes, saved parse state, EOF flag", "src/stream/decoder.rs: Decoder")],
  ["decode!"])

p("C10", "Asynchronous decoders equal the blocking one under any poll schedule",
  "Every asynchronous decoder (for each supported runtime interface) yields the same messages and leaves the same bytes as parsing all of the source's bytes at once, for every interleaving of pending results, wake-ups, spurious polls and short reads. It reports pending only when the source did and polls the source with the waker it was given, so no wake-up is lost.",
  ["schedules", "fault_sequences", "inputs"],
  "every sequence of Pending/ready/short-read poll results and spurious wake-ups for the tokio 0.2, 0.3, 1 and futures interfaces, owned and borrowed buffers",
  "Real-runtime tests cover one grammar and one file per runtime; the poll order is whatever the runtime does.",
  ["src/stream/mod.rs", "src/stream/decoder.rs", "src/stream/buf_reader.rs", "src/future_ext.rs"],
  [("async decode loops", "src/stream/mod.rs: decode_tokio!, decode_tokio_02!, decode_tokio_03!, decode_futures_03!"),
   ("poll_extend_buf implementations", "src/stream/buf_reader.rs"), ("poll_fn", "src/future_ext.rs")],
  [], ["decode_tokio!", "decode_tokio_02!", "decode_tokio_03!", "decode_futures_03!"])

p("C11", "I/O errors are surfaced once and lose nothing",
  "When the byte source fails (would-block, interrupted, timed out, reset, any other error) at any read, the decoder reports that very error with its own kind as an I/O error, never as a parse result, and neither the bytes already received nor the progress of the current message are lost: decoding again on the same decoder after the error goes away delivers the same messages as if the error had not happened. An I/O error is never turned into an end of input.",
  ["fault_sequences", "schedules", "histories"],
  "every placement and kind of read errors in every schedule, repeated errors included, for the blocking and all asynchronous decoders, both buffering modes",
  "No test injects anything but would-block, which the async test driver retries itself.",
  ["src/stream/mod.rs", "src/stream/decoder.rs", "src/stream/buf_reader.rs"],
  [("I/O error branch of the decode loops", "src/stream/mod.rs: decode! and async variants"),
   ("error propagation before the buffer is extended", "src/stream/buf_reader.rs: extend_buf_sync, poll_extend_buf, tokio_*_read_buf")],
  [], ["combine::stream::decoder::Error"])

p("C12", "The buffered reader is a faithful byte stream",
  "Reading through the buffered reader, by plain reads, by buffer-then-consume and by decoders that share its buffer, in any interleaving and with any sizes, delivers exactly the source's bytes in order, once each; what is visible in its buffer is always the next unread bytes. Errors and pending results of the source pass through unchanged without disturbing buffered bytes, end of input is reported only when the source reported it and the buffer is empty, and writes reach the underlying object unchanged.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of read/fill/consume/decode/write operations with every source schedule (short reads, errors, pending), blocking and all three tokio interfaces, every initial capacity",
  "The reader has almost no direct tests; hand-over between decoding and raw reading is not tested at all.",
  ["src/stream/buf_reader.rs", "src/stream/decoder.rs"],
  [("Read/BufRead/AsyncRead/AsyncBufRead/AsyncWrite implementations", "src/stream/buf_reader.rs")],
  [("buf", "bytes read from the source and not yet handed out", "src/stream/buf_reader.rs: BufReader")],
  ["std::io::Read, BufRead, AsyncRead, AsyncBufRead, AsyncWrite"])

p("C13", "End of input and demand for data",
  "A decoder asks its source for data only when the bytes it holds cannot complete the current message, at most once per incomplete attempt, and never again once the source has reported its end; a truncated message is then reported as an error of the unexpected-end kind and a message that is complete at that point is delivered. Every decode call ends after a number of source calls bounded by the bytes and errors the source delivers.",
  ["schedules", "fault_sequences", "inputs"],
  "every truncation point of every message sequence, every read schedule, blocking and asynchronous decoders",
  "Tests never truncate input and never count the reads; an extra read on an interactive connection blocks for ever, which a file-backed test cannot show.",
  ["src/stream/mod.rs", "src/stream/decoder.rs"],
  [("end_of_input flag", "src/stream/decoder.rs: __before_parse*"), ("parse before read", "src/stream/mod.rs: decode! and async variants")],
  [("end_of_input", "the source has reported its end", "src/stream/decoder.rs: Decoder")],
  ["calls made on the byte source"])

p("C14", "Framed codec equals one-shot parse",
  "A codec built on the framing helper and driven by a framed reader produces the same frames as parsing all bytes at once, for every arrival schedule, with a clean end of stream when the input ends between frames and an error when it ends inside one. Between frames at the end of input it answers 'no frame' without consuming anything, so the framed reader terminates.",
  ["schedules", "fault_sequences", "inputs"],
  "every frame sequence, every truncation, every arrival schedule including pending and I/O errors between reads",
  "Codec tests run valid inputs only, and end-of-stream inside a frame is never exercised.",
  ["src/stream/mod.rs"],
  [("decode_tokio end-of-input handling", "src/stream/mod.rs: decode_tokio, input_at_eof")],
  [], ["tokio_util::codec::FramedRead over combine::stream::decode_tokio"])

p("C15", "Positions are absolute across refills",
  "With a position-tracking stream, the position a decoder holds after each message, the position given to user code inside the grammar and the position of a reported error (parse or I/O) are those of the same point in the uninterrupted input (byte index, or line and column), for every way the input arrived and for every refill, buffer move and message boundary in between.",
  ["schedules", "inputs", "histories"],
  "every input (newlines and multi-byte text included), every cut schedule, index and line/column positioners, in-memory and reader-based decoding",
  "The position is carried by hand from one refill to the next; tests discard it.",
  ["src/stream/position.rs", "src/stream/mod.rs", "src/stream/decoder.rs", "src/stream/easy.rs"],
  [("position saved per refill and passed to the next stream", "src/stream/mod.rs: decode!"),
   ("incremental positioners", "src/stream/position.rs: SourcePosition, IndexPositioner update_range")],
  [("position", "absolute position of the first unconsumed byte", "src/stream/decoder.rs: Decoder")],
  ["Decoder::position", "position()", "error positions"])

p("C16", "Cancelled and interleaved decodes lose nothing",
  "Dropping an unfinished asynchronous decode at any pending point and starting a new one on the same decoder and reader continues the same message: no received byte and no parse progress is lost or duplicated. Any number of sessions advanced in any interleaving each behave as if run alone.",
  ["schedules", "crash_points", "histories"],
  "every set of cancellation points (each pending poll) and every interleaving of several sessions, each with its own byte source schedule",
  "No test drops a decode future or runs two sessions at once.",
  ["src/stream/mod.rs", "src/stream/decoder.rs", "src/stream/buf_reader.rs"],
  [("all progress lives in the decoder, not in the future", "src/stream/mod.rs: async decode macros; src/stream/decoder.rs: Decoder")],
  [], ["decode futures"])

p("C17", "Bounded look-back over one-shot sources is exact or refused",
  "Wrapping a source that can be read only once, complete or still arriving in pieces, in a look-back buffer of size N parses like an in-memory slice as long as the grammar backtracks over at most N tokens; when more is needed the parse fails with the look-back error and never continues with wrong, missing or repeated tokens. Positions seen while re-reading buffered tokens are those tokens' original positions.",
  ["inputs", "programs", "configurations", "fault_sequences"],
  "every look-back size, every backtracking grammar, every input, sources that end or fail at any token",
  "Tests cover two fixed examples with sizes 1-3.",
  ["src/stream/buffered.rs", "src/stream/mod.rs"],
  [("ring buffer with absolute offsets", "src/stream/buffered.rs: uncons, reset, position")],
  [("offset/buffer_offset", "read cursor and source cursor", "src/stream/buffered.rs: Stream")],
  ["StreamOnce::uncons, ResetStream::reset, Positioned::position"])

p("C18", "Byte-at-a-time reader stream is faithful",
  "Parsing straight from a blocking reader sees exactly the reader's bytes in order; interrupted reads are retried invisibly, the end of the reader is seen as end of input, and any other read error makes the parse fail with that error rather than succeed as if the input had ended there.",
  ["fault_sequences", "schedules", "inputs"],
  "every placement of interrupted, failing and final reads, every grammar",
  "Tests read from in-memory slices that never fail.",
  ["src/stream/read.rs", "src/stream/buffered.rs", "src/stream/easy.rs"],
  [("reader to token conversion", "src/stream/read.rs: Stream::uncons, Bytes"), ("error conversion", "src/stream/read.rs: Error")],
  [], ["combine::stream::read::Stream"])

p("C19", "No panic, hang or foreign result on arbitrary input and schedules",
  "For any bytes, valid or not, delivered on any schedule with any end point, an incremental parse or decode finishes every call in a bounded number of steps with a value, a request for more data or an error; it never panics, never loops without consuming or requesting data, and never hands out bytes that were not in the input.",
  ["inputs", "schedules", "programs", "fault_sequences"],
  "every grammar whose repeated elements consume input, arbitrary bytes, every schedule, internal consistency assertions and overflow checks enabled",
  "Tests feed well-formed input; the internal assertions on saved state fire only for particular interruption histories.",
  ["src/parser/repeat.rs", "src/parser/sequence.rs", "src/parser/range.rs", "src/parser/combinator.rs", "src/stream/mod.rs"],
  [("internal assertions on saved state", "src/parser/repeat.rs, src/parser/sequence.rs debug_assert!; unwrap/expect on saved state")],
  [], ["combine::stream::decode", "decode!"])

p("C20", "A rejection is explained the same way however the input arrived",
  "With a stream that collects errors, the causes listed by the error that ends a session (what was unexpected, what was expected, messages) are those listed by a single parse of the complete input, for every way of cutting the input, every decoder and buffering mode: alternatives and optional parts tried before an interruption still appear, nothing is listed twice or invented because the parse was resumed, and the end of the available data is not listed unless it is the end of the input. (Only a rejection that is settled before the next element is known cannot name that element.)",
  ["schedules", "inputs", "programs"],
  "every grammar, every malformed or truncated input, every cut schedule, with the same parser object used throughout the session",
  "Tests look at the errors of one-shot parses; which expectations survive a resume depends on where the saved state is re-entered, and a lost or duplicated expectation leaves every value unchanged.",
  ["src/parser/sequence.rs", "src/parser/choice.rs", "src/parser/mod.rs", "src/parser/combinator.rs", "src/stream/easy.rs", "src/error.rs"],
  [("errors of parsers tried before are added after the fact", "src/parser/mod.rs: add_error/add_committed_expected_error/parser_count; src/parser/sequence.rs: add_errors"),
   ("merging of errors at the same place", "src/stream/easy.rs: Errors::merge/add_error; src/error.rs: Tracked")],
  [("Tracked.offset", "how many parsers of a sequence the error applies to", "src/error.rs")], ["error returned by decode / the decode macros"])

open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write(
    "".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
