import json
S='src/scanner/'
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
EV=["events returned by event::from_reader / from_reader_with (iteration, next_event)"]
L=[
p("P01","Every input is handled without a panic, a hang or runaway output",
 "For every text, through every reader and with eager or lazy evaluation, reading the event stream never panics, always terminates after a number of events that is bounded by a small multiple of the input length, and yields either a complete stream or one error. Once the stream has ended, by its end or by an error, every further request for an event returns nothing. Evaluating a deferred scalar never panics either.",
 ["inputs","histories"],"all UTF-8 texts x readers x evaluation modes x number of calls after the end",
 "The tests run a few hundred hand-written documents; slicing, index arithmetic, unwrap and loop progress depend on every combination of bytes at every position.",
 [S+"mod.rs",S+"macros.rs",S+"scalar/",S+"tag.rs",S+"anchor.rs",S+"directive.rs","src/event/parser/mod.rs","src/queue.rs","src/reader/"],
 [("cursor arithmetic stays inside the text and on character boundaries",S+"macros.rs: advance!, widthOf!, isBreak!"),("scanner loops consume input or stop",S+"mod.rs: scan_tokens, eat_whitespace"),("done flag of the event stream","src/event/parser/mod.rs: next_event; src/event/mod.rs")],EV),
p("P02","The event stream follows the documented grammar and node roles",
 "Every event stream, complete or cut short by an error, is a prefix of the documented production grammar: one stream start, then documents with balanced, properly nested collections and at most one root node, then one stream end; a stream without error is complete. Mapping contents alternate between key and value. Every node carries the role that its position gives it: root, sequence entry, mapping key or mapping value.",
 ["inputs"],"all UTF-8 texts, well formed or not",
 "The tests compare expected event lists of a few dozen well-formed documents; balance must also hold for every malformed or truncated text and every nesting.",
 ["src/event/parser/mod.rs","src/event/state.rs",S+"mod.rs"],
 [("pushdown of parser states","src/event/state.rs, src/event/parser/mod.rs: state machine"),("block collection start and end tokens",S+"mod.rs: roll_indent, unroll_indent")],EV,
 [("state stack","what follows the current node","src/event/parser/mod.rs: Parser.states")]),
p("P03","Collections are reported exactly as they are laid out",
 "For every tree of sequences, mappings and scalars, written in any mix of block and flow style, indentation, compact nesting, explicit keys or implicit keys that are scalars, and empty nodes, the event stream describes exactly that tree. No node is lost, duplicated, moved to another parent or given a different kind of collection. Empty keys, values and entries appear as empty plain scalars.",
 ["inputs","programs"],"all node trees x all layouts of each tree",
 "The tests fix a few layouts; the relation between indentation, flow context and saved key candidates depends on the whole nesting history.",
 [S+"mod.rs",S+"context.rs",S+"key.rs",S+"entry.rs","src/queue.rs","src/event/parser/mod.rs"],
 [("indentation stack",S+"context.rs: Context"),("retroactive insertion of key and mapping start tokens",S+"mod.rs: fetch_value, save_key; src/queue.rs")],EV,
 [("indents","columns of the open block collections",S+"context.rs"),("saved key","a node that may turn out to be an implicit key",S+"key.rs")]),
p("P04","Quoted scalars carry the text that was quoted",
 "The content of every single or double quoted scalar equals the YAML meaning of its source: doubled single quotes and backslash escapes decoded, a lone line break folded to a space, n further breaks kept as n line feeds, white space around folded breaks dropped, and escaped line breaks joining the text. Everything else is passed through unchanged, in every block or flow context. The scalar is reported with the quoting style it was written in.",
 ["inputs"],"all quoted scalar bodies x all contexts a quoted scalar may appear in",
 "Folding and the borrowed / copied switch depend on every sequence of blanks, breaks and escapes; the tests sample about a dozen.",
 [S+"scalar/flow.rs",S+"scalar/escape.rs",S+"macros.rs"],
 [("line joining and white space dropping",S+"scalar/flow.rs: scan_flow_scalar"),("borrow until the text must change",S+"scalar/flow.rs: set_no_borrow")],EV),
p("P05","Plain scalars carry exactly their text",
 "The content of every plain scalar is the text written, without surrounding white space or trailing comment, with a lone line break folded to a space and n further breaks kept as n line feeds. It begins and ends where the YAML rules for block and flow context say: a colon followed by white space, a hash after white space, flow punctuation inside flow collections, a document marker or a decrease in indentation end it, and nothing else does.",
 ["inputs"],"all plain texts x all block and flow contexts",
 "What ends a plain scalar depends on the pair of neighbouring characters, the context and the indentation; the tests list a handful of examples.",
 [S+"scalar/plain.rs",S+"macros.rs",S+"mod.rs"],
 [("character class of plain text",S+"scalar/plain.rs: is_plain_safe_c"),("folding",S+"scalar/plain.rs: scan_plain_scalar")],EV),
p("P06","Block scalars keep, fold, strip and chomp as their header says",
 "For every literal and folded block scalar, in every context, the content equals the YAML meaning of its header and lines: the stated or detected indentation is removed, literal breaks are kept, folded breaks become spaces except around more-indented lines, and the trailing line breaks are stripped, clipped to one or kept. The scalar ends at the first line that is indented less, and that line is read as the next node.",
 ["inputs"],"all headers x all line sequences x parent indentation x end of input",
 "Chomping, folding and indentation detection interact over arbitrary sequences of lines; tests hold one document per feature.",
 [S+"scalar/block.rs"],
 [("header",S+"scalar/block.rs: scan_headers"),("indentation detection",S+"scalar/block.rs: detect_indent_level, scan_indent"),("chomping and folding",S+"scalar/block.rs: scan_block_scalar")],EV),
p("P07","Escape sequences decode to exactly the characters they name",
 "Each backslash escape in a double quoted scalar decodes to exactly the character YAML assigns it, numeric escapes to the code point of their hexadecimal digits, and percent escapes in tags to the characters whose UTF-8 bytes they spell. An escape that names no character, has too few or wrong digits, or spells invalid UTF-8 is rejected with an error. No other character is altered.",
 ["inputs"],"all escape characters, all code points, all percent escaped byte sequences, all positions",
 "1.1 million code points and every byte sequence are beyond sampled tests.",
 [S+"scalar/escape.rs",S+"tag.rs"],
 [("double quote escapes",S+"scalar/escape.rs: flow_unescape"),("tag percent escapes",S+"scalar/escape.rs: tag_uri_unescape")],EV),
p("P08","Anchors, tags and aliases attach to the right node",
 "An anchor or tag (other than the non-specific tag) written before a node, in either order and on the same or an earlier line, is reported on exactly that node with exactly the name, handle and suffix written, also when the node is empty or a collection; nodes without properties report none. An alias is reported as an alias with its name. A tag whose named handle was not declared in the document is rejected, the two default handles and verbatim tags are always accepted.",
 ["inputs","programs"],"all property combinations x node kinds x positions x declared handles",
 "Attachment depends on the state in which the properties are met (block, flow, key, value, empty node); the tests cover a few combinations.",
 [S+"anchor.rs",S+"tag.rs",S+"mod.rs","src/event/parser/mod.rs"],
 [("node properties","src/event/parser/mod.rs: node, directives"),("tag forms",S+"tag.rs: scan_node_tag")],EV),
p("P09","Directives are reported for their document, and bad ones rejected",
 "Each document start reports exactly the version and tag handles declared for it, with version 1.2 and the two default handles where nothing is declared, and an explicit redefinition replacing a default. Duplicate version or handle declarations, version numbers out of range and directives that are not followed by a document start marker are errors.",
 ["inputs"],"all lists of directives in front of a document",
 "Handle tables, overrides and duplicates depend on the set and order of directives; the tests check single directives.",
 [S+"directive.rs",S+"tag.rs","src/event/parser/mod.rs"],
 [("directive scanning",S+"directive.rs: scan_directive"),("directive table","src/event/parser/mod.rs: directives; src/event/types.rs: Directives")],EV),
p("P10","Lazy evaluation gives the same events as eager evaluation",
 "For every text, the event stream read with deferred scalar evaluation has the same events, positions and ending as the eager one whenever the eager one succeeds, and evaluating each deferred scalar gives the content and style that eager reading reports. Where eager reading fails, lazy reading or the evaluation of one of its scalars fails as well.",
 ["inputs","configurations"],"all texts x both evaluation modes",
 "Both modes use separate scanning code for the extent of a scalar; agreement has to hold for every scalar in every context.",
 [S+"scalar/flow.rs",S+"scalar/plain.rs",S+"scalar/block.rs","src/event/types.rs"],
 [("deferred scanning",S+"scalar/*.rs: *_lazy functions and Deferred"),("evaluation","src/event/types.rs: Slice / ScalarLike")],["Scalar evaluation of lazily read events"]+EV),
p("P11","Events do not depend on how the bytes arrive",
 "Reading a text from memory and from a byte source gives the same events, positions, contents and outcome, however the source splits the bytes over its reads and wherever they fall in the reader's buffer. This includes multi-byte characters, escapes, line breaks and indicators split between two reads.",
 ["inputs","schedules"],"all texts x all partitions into reads",
 "Any token can straddle any chunk boundary; the tests read documents far smaller than one chunk.",
 ["src/reader/owned.rs","src/reader/mod.rs",S+"macros.rs",S+"mod.rs"],
 [("ask for more input at the end of the buffer",S+"macros.rs: cache!, O_EXTENDABLE"),("chunk refill","src/reader/owned.rs: refresh_buffer")],EV,
 [("owned chunks","immutable pieces of the source text","src/reader/owned.rs")]),
p("P12","Errors are reported as what they are, and only after the events before them",
 "A failing byte source is reported as an I/O error with the source's own error kind after exactly the events that precede it, bytes that are not UTF-8 are reported as invalid data, and rejected text is reported as malformed input or, when it is cut short, as an unexpected end. Each error converts to an I/O error of the matching kind, and is never reported as a failure of the source. Events before the error are unaffected.",
 ["inputs","fault_sequences"],"all texts x byte offsets x I/O error kinds x invalid byte sequences",
 "Faults at every offset of a stream are not sampled by the tests, which never inject I/O errors.",
 ["src/error.rs","src/reader/error.rs","src/reader/owned.rs",S+"error.rs","src/event/error.rs"],
 [("conversion and classification","src/error.rs; src/reader/error.rs; src/scanner/error.rs; src/event/error.rs"),("latched source error","src/reader/owned.rs")],["yary::Error classify / conversion to std::io::Error"]+EV),
p("P13","Event positions are ordered, in range and shift with the input",
 "Every event's start is not behind its end, the ends never decrease over the stream, and every position lies inside the input on a character boundary. Putting a comment line in front of a text (without byte order mark) moves the positions of all following events by exactly the length of that line and changes nothing else.",
 ["inputs"],"all texts",
 "Positions are computed by adding up consumed bytes at dozens of places; tests check a few positions of short texts.",
 [S+"stats.rs",S+"macros.rs",S+"mod.rs","src/event/parser/mod.rs"],
 [("byte counters",S+"stats.rs: Stats::update"),("advance macro",S+"macros.rs: advance!")],EV,
 [("stats","bytes, lines and column consumed",S+"stats.rs")]),
p("P14","Documents in one stream do not influence each other",
 "The events of a stream of several documents are the events of the documents read on their own, one after the other, whatever comes before or after and whichever document markers separate them. Directives, tag handles, indentation and open keys of one document never reach the next.",
 ["inputs","histories"],"all pairs and sequences of documents x separators",
 "State left over by a document shows only in combinations of documents; the tests have a few two-document streams.",
 [S+"mod.rs",S+"context.rs","src/event/parser/mod.rs"],
 [("reset at document markers",S+"mod.rs: fetch_document_marker"),("per document directives","src/event/parser/mod.rs: document_start / document_end")],EV),
p("P15","The style of line breaks does not matter",
 "Replacing every line feed of an accepted text, that has no other line breaks, by CR LF or by CR changes neither the events, nor the content of any scalar, nor the success of reading. Line breaks that are part of a scalar's content are reported as line feeds.",
 ["inputs"],"all texts accepted with line feeds x three break styles",
 "Every place that looks for a break or steps over one must treat the two-byte break as one; tests use CR LF in a few scalars only.",
 [S+"macros.rs",S+"scalar/",S+"mod.rs"],
 [("break classification and width",S+"macros.rs: isBreak!, widthOf!, advance!")],EV),
p("P16","Comments and blank lines never change the events",
 "Adding comments, blank lines or trailing white space where YAML allows them between tokens leaves the events of a text unchanged: in front of the first token, after the last one, at line ends and between nodes, at any indentation. Text after a comment sign never appears in an event.",
 ["inputs","programs"],"all texts x all places between tokens x comment and blank forms",
 "The places are as many as the texts; tests place a few comments.",
 [S+"mod.rs",S+"macros.rs",S+"scalar/block.rs"],
 [("white space and comments",S+"mod.rs: eat_whitespace"),("comments behind block headers",S+"scalar/block.rs: scan_headers")],EV),
p("P17","Implicit keys are limited to one line and 1024 bytes",
 "A scalar, quoted, plain or with properties, becomes an implicit mapping key only if it lies on one line and its colon comes at most 1024 bytes after its start; every key within these limits is accepted. A longer or multi-line candidate is never reported as a key of an implicit mapping. The limit counts bytes from the start of the key, wherever in the input it is.",
 ["inputs"],"all key lengths, styles, positions and contexts",
 "The exact limit at every offset and style is not sampled by the tests.",
 [S+"key.rs",S+"mod.rs"],
 [("expiry of key candidates",S+"key.rs; "+S+"mod.rs: expire_stale_saved_key")],EV,
 [("saved key","position of the candidate",S+"key.rs")]),
p("P18","Borrowed content lies in the input, and kept events stay intact",
 "Content that an event borrows instead of copying is a part of the caller's input, in order of appearance, and equals the text at the place it was taken from. Events and evaluated scalars that the caller keeps, clones or edits stay unchanged while the rest of the stream is read, and never affect the events read later.",
 ["inputs","histories"],"all texts x all retention histories of events",
 "Whether a slice is borrowed depends on each scalar's text, and retention needs streams longer than a chunk; tests drop events at once.",
 [S+"scalar/","src/event/types.rs","src/reader/owned.rs","src/queue.rs"],
 [("borrow or copy decision",S+"scalar/*.rs: set_no_borrow, can_borrow"),("chunks are kept alive and never changed","src/reader/owned.rs")],EV),
]
with open('/verif/properties.jsonl','w') as f:
    for x in L: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in L:
    jsonschema.validate(x,sch)
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(L))
