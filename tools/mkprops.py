import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["crates/"+f for f in files],mechanism=[dict(name=a,where="crates/"+b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where="crates/"+c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,title
    assert st.count(". ")<=2,(id,st)
    P.append(d)

AC="apply-changes/src/lib.rs"; TP="text-pos/src/lib.rs"; CM="chain-map/src/lib.rs"; EP="event-parse/src/lib.rs"; RS="event-parse/src/rowan_sink.rs"
PA="paths/src/lib.rs"; PM="pattern-match/src/alg.rs"; PMM="pattern-match/src/matrix.rs"; PMT="pattern-match/src/types.rs"; TS="topo-sort/src/lib.rs"; TG="topo-sort/src/graph.rs"
SG=["syntax-gen/src/lib.rs","syntax-gen/src/kind.rs","syntax-gen/src/token.rs","syntax-gen/src/alt.rs","syntax-gen/src/seq.rs","syntax-gen/src/ast.rs"]

p("C01","Applying edits gives the text an LSP client would have",
 "For every starting text and every list of changes whose ranges lie inside the text as it stands when they are reached, applying the list yields exactly the text obtained by applying the changes one at a time in order, each range being read as zero-based line and UTF-16 column positions in the text left by the changes before it. A change without a range replaces the whole text, so whatever came before it has no influence on the result.",
 ["inputs","histories"],"every text (any Unicode, any line structure) and every sequence of in-range changes of any length, in any order of positions",
 "apply-changes has no tests at all; the stale-index optimisation only matters for particular sequences of edits (same line, moving down, crossing lines) that no fixed example covers",
 [AC,TP],[("last full change wins",AC+" get"),("index_valid: rebuild the line index only when a change reaches lines already edited",AC+" get"),("UTF-16 position lookup",TP+" text_range_utf16")],
 [("index_valid","first line for which the cached line index may be stale",AC)],["the text after get()"])
p("C02","Edits that point outside the text are ignored, never fatal",
 "When a ranged change (start not after end) has an endpoint that is not a position of the current text - a line past the last one, a column past the end of its line, or a column that splits a character - the text is left as it was and the remaining changes are applied as if that change had not been sent. No such change makes the call panic, in debug or release builds, whatever the numbers in it.",
 ["inputs","histories","configurations"],"every text, every sequence mixing in-range and out-of-range changes, positions over the whole u32 range",
 "no tests exist for apply-changes; the out-of-range space is the complement of the positions of each intermediate text",
 [AC,TP],[("None from the position lookup skips the change",AC+" get"),("bounds check of a position",TP+" text_size_utf16")],None,["the text after get()","panics"])
p("C03","Byte offsets and UTF-16 line/column positions convert exactly",
 "For every text and every byte offset on a character boundary (the end included), the position reported is (number of newlines before the offset, number of UTF-16 code units since the last of them), and converting that position back gives the same offset. Ranges convert endpoint by endpoint in both directions.",
 ["inputs"],"every text (mixed 1-4 byte characters, any line lengths, any size) and every boundary offset and range in it",
 "the tests convert a dozen offsets of two ASCII texts, only in one direction and only to UTF-8 columns; no wide character is ever converted",
 [TP],[("PositionDb over line_index::LineIndex",TP),("to_wide / to_utf8 column conversion",TP+" position_to_utf16, position_to_utf8")],None,["position_utf16","text_size_utf16","range_utf16","text_range_utf16"])
p("C04","Nothing outside the text resolves to a position or offset",
 "An offset past the end of the text or inside a character has no position, and a line/column pair that is not the position of any character boundary of the text (line past the last, column past the end of the line, inside a surrogate pair) has no offset: both lookups answer None. Neither panics for any numbers whatever, in debug or release builds.",
 ["inputs","configurations"],"every text; every offset and every (line, column) over the whole u32 range",
 "the tests never ask for anything out of range, although the API documents None for it",
 [TP],[("bounds checks of offset and line/column lookups",TP)],None,["position_utf16","text_size_utf16","range_utf16","text_range_utf16"])
p("C05","Line splitting partitions any range of the text at its newlines",
 "For every text and every range inside it, the lines reported are non-empty, in order, adjacent, start at the start and end at the end of the range, and are cut exactly after each newline inside the range. The reported length is the byte length and the reported end position is the position of that length.",
 ["inputs"],"every text and every sub-range of it, including empty ranges, ranges starting or ending at a newline and texts with no final newline",
 "one test splits three short ASCII texts, always over their full range",
 [TP],[("lines",TP+" lines"),("len, end_position_utf16",TP)],None,["lines","len","end_position_utf16"])
p("C06","A chain map behaves as an ordinary map under every history",
 "After any sequence of insertions, bulk extensions, removals, in-place updates, appends, consolidations and drains, lookups, iteration (each live key exactly once with its latest value), emptiness and the results returned by the operations themselves (whether an inserted key was new, the removed value) are those of an ordinary map given the same operations, with later entries overriding earlier ones and the appended map overriding the one it is appended to. An append or drain leaves its source empty.",
 ["histories"],"every sequence of operations, keys and values, at any chain depth; with both reference-counting configurations",
 "the only test inserts one key; overriding, removal, iteration over several layers and append are never exercised",
 [CM],[("newest layer wins on lookup",CM+" get"),("iteration skips overridden keys",CM+" iter"),("layers are merged before mutation",CM+" consolidate_")],[("stack","layers, oldest first",CM)],["every public operation"])
p("C07","Clones of a chain map are independent snapshots",
 "Once a chain map has been cloned, no operation on one of the copies, including in-place mutation, removal, draining, appending it elsewhere or dropping it, changes what any other copy reports. Each value is dropped exactly once, after the last copy that holds it.",
 ["histories"],"every tree of clones and every interleaving of operations on them",
 "no test clones a chain map, although cheap cloning is what it is for",
 [CM],[("copy on write of shared layers",CM+" consolidate_"),("shared layers are immutable",CM+" insert, extend")],[("stack","layers, some shared between clones",CM)],["every public operation on every live clone"])
p("C08","With the sync feature, chain maps are safe to clone and use across threads",
 "In the sync configuration a chain map of thread-safe keys and values can be sent to and shared with other threads, and threads that clone, read, mutate, consolidate and drop their copies concurrently are free of data races and memory errors, and each sees exactly its own snapshot plus its own changes.",
 ["schedules","histories","configurations"],"every schedule of threads operating on clones of a common ancestor",
 "no test enables the sync feature or starts a thread",
 [CM],[("Arc under cfg(feature = sync)",CM),("copy on write of shared layers",CM+" consolidate_")],[("stack","layers shared across threads",CM)],["every public operation from several threads"])
p("C09","Finishing a parse emits every token exactly once, in order",
 "When a parse whose constructs form one root node has consumed all its non-trivia tokens, finishing it delivers to the sink every token of the input, trivia included, exactly once and in input order, all of them inside the root, between balanced enter and exit calls. Every recorded error that was not backtracked over is delivered exactly once, in order, and after exactly as many non-trivia tokens as had been consumed when it was recorded.",
 ["inputs","programs"],"every token list (any placement of trivia, trivia only, empty) and every well-nested parser program over it",
 "event-parse has no tests that run",
 [EP],[("tokens are replayed from the event list",EP+" finish"),("trivia interleaving",EP+" eat_trivia, token")],[("events","recorded events",EP),("tok_idx","next token",EP)],["the calls the sink receives"])
p("C10","The emitted tree is the one the parser described",
 "Ignoring trivia and nodes that contain no token, the tree the sink receives is exactly the nesting the parser described: a construct's node holds what was parsed between its start and its end, an abandoned construct leaves its contents to its parent, and a construct started before an already completed one (that is not waiting for such a parent already) becomes its parent, any number of times and also after earlier such attempts were abandoned. A parse that emits no token gives one empty node of the root construct's kind.",
 ["programs","inputs"],"every well-nested program of start, finish, abandon, start-before, consume and error calls, over every token list",
 "event-parse has no tests that run; wrapping chains and abandoned wrappers are reachable only by particular multi-step programs",
 [EP],[("Enter events link to the node that precedes them",EP+" precede, finish"),("abandoned slots are skipped",EP+" abandon, finish"),("nodes without tokens are elided",EP+" finish")],[("events","recorded events with parent links",EP)],["the calls the sink receives"])
p("C11","Trivia stays outside the nodes it surrounds",
 "In the emitted tree no node other than the root begins with trivia, and none ends with trivia unless what the parser described inside it after its last token was an empty construct. Trivia between two top-level items and after the last one is a direct child of the root.",
 ["inputs","programs"],"every token list with trivia anywhere and every well-nested parser program",
 "event-parse has no tests that run",
 [EP],[("trivia is eaten before entering and after top-level exits",EP+" finish, eat_trivia")],None,["the calls the sink receives"])
p("C12","Backtracking leaves no trace",
 "Asking whether a speculative parse went well since a save answers false exactly when an error was recorded since then that was not itself backtracked over; in that case the parser continues exactly as if everything since the save had never happened, and otherwise everything since the save is kept. Hence a parse with failed attempts emits the same calls to the sink, and sees the same lookahead, as the same parse without them.",
 ["programs","histories"],"every parser program with arbitrarily nested speculative sections, failing or succeeding, over every token list",
 "event-parse has no tests that run",
 [EP],[("Save / ok_since truncate the event list and rewind",EP+" save, ok_since")],[("events","recorded events",EP),("tok_idx","next token",EP)],["ok_since","lookahead","the calls the sink receives"])
p("C13","Lookahead and consumption see only significant tokens",
 "At every point of every parse the current token, the token n ahead for any n, the kind tests on them and consumption refer to the sequence of non-trivia tokens not yet consumed, no query changes any later answer, consuming an expected kind either returns the current token or records one error and consumes nothing, and a completed construct reports being empty exactly when it contains no consumed token. Inserting or removing trivia anywhere changes none of these answers.",
 ["inputs","programs"],"every token list with trivia anywhere (before, after, between, runs of it) and every interleaving of queries and parsing calls",
 "event-parse has no tests that run",
 [EP],[("peek skips trivia",EP+" peek, peek_n"),("bump, eat, at",EP),("Exited::is_empty",EP+" exit")],[("tok_idx","next token",EP)],["peek","peek_n","at","at_n","eat","bump","is_empty"])
p("C14","Rowan trees reproduce the source and locate every error",
 "Parsing into a Rowan tree gives a tree whose text is the concatenation of all input tokens, with the kinds and texts of the tokens in order. Every recorded error is returned exactly once, in order, with the range and kind of the first non-trivia token emitted after it was recorded or, when there is none, of the last token emitted (an empty range at 0 and no kind when no token was emitted).",
 ["inputs","programs"],"every token list (multi-byte and empty token texts included) and every well-nested program with errors anywhere",
 "event-parse has no tests that run, and nothing builds a Rowan tree",
 [RS,EP],[("pending errors get the next token's range",RS+" token, extend_errors, finish")],[("cur","range and kind of the last token",RS),("no_range","errors awaiting a range",RS)],["RowanSink::finish"])
p("C15","Clean paths are absolute, lexically normalised and stay so",
 "Making a clean path succeeds exactly for absolute paths and yields their lexical normal form: an absolute path without empty, '.' or '..' components, where '..' removes the component before it and stops at the root. Joining or pushing any path gives the normal form of the joined path (an absolute one replaces), parents of clean paths are clean, normalising twice changes nothing, and equality, ordering and hashing agree between owned, borrowed and plain paths.",
 ["inputs"],"every path (any components, repeated slashes, dots, non-UTF-8 bytes) and every sequence of push, join and parent",
 "one test and two doc examples normalise three paths",
 [PA],[("component-wise rebuild",PA+" CleanPathBuf::new_unchecked"),("push re-normalises",PA+" push")],None,["CleanPathBuf::new","push","join","parent","as_path"])
p("C16","Path ids and paths correspond one to one, also after combining stores",
 "Within a store two paths get the same id exactly when they are equal, ids once given out keep meaning the same path, and looking an id up gives back its path, whichever way the path was added. Combining another store reports each of the other store's ids exactly once together with the id that its path has in the combined store, and leaves all existing ids valid.",
 ["histories","inputs"],"every sequence of additions, lookups and combinations of stores with overlapping paths",
 "no test touches the store",
 [PA],[("id_to_path and path_to_id kept in step",PA+" get_id, get_id_owned"),("combine re-adds every path",PA+" combine")],[("id_to_path","path of each id",PA),("path_to_id","id of each path",PA)],["get_id","get_id_owned","get_path","combine"])
p("C17","The in-memory file system answers like the real one",
 "For every tree of UTF-8 files, asking the in-memory file system and the real one (holding the same files) whether a path is a file, for the contents of a path as text or bytes, or for the entries of a directory of the tree gives the same answer (same contents, same set of directly contained entries, failure for the same paths). The real one passes on the bytes, the entries and the failures of the operating system unchanged, and its current directory is clean.",
 ["inputs","configurations"],"every set of file paths and contents, and every queried path in or near the tree",
 "no test uses either file system",
 [PA],[("MemoryFileSystem over an ordered map",PA),("RealFileSystem over std::fs",PA)],None,["is_file","read_to_string","read_to_bytes","read_dir","current_dir"])
p("C18","A match is reported exhaustive exactly when it is, with true witnesses",
 "For every list of well-typed patterns (nested constructors, wildcards, or-patterns, omitted arguments) and every language description that splits constructors faithfully, no missing pattern is reported exactly when every value of the type is matched by some pattern. Each missing pattern that is reported is or-free, fits the type, and describes at least one value that no given pattern matches.",
 ["inputs","programs"],"every type (finite, infinite, recursive, empty, ranges), every list of patterns over it, every faithful splitting strategy",
 "pattern-match has no tests",
 [PM,PMM],[("usefulness of a wildcard against the matrix",PM+" check, useful"),("specialisation",PM+" specialize"),("or-expansion of rows",PMM+" push, expand_or")],None,["Check::missing"])
p("C19","A pattern is reported unreachable exactly when no value reaches it",
 "For every list of well-typed patterns matched top to bottom, alternatives left to right, the set of unreachable pattern indices contains exactly the patterns and sub-patterns (or-alternatives and constructor arguments included) that no value ever reaches and matches, because earlier patterns or earlier alternatives take all the values or because there are no such values.",
 ["inputs","programs"],"every type, every list of patterns over it with sub-patterns individually indexed, every faithful splitting strategy",
 "pattern-match has no tests",
 [PM,PMM],[("indices start unreachable and are removed when useful",PM+" check, useful, get_pat_indices"),("earlier alternatives are added to the matrix",PM+" useful")],[("ac","indices not yet seen useful",PM)],["Check::unreachable"])
p("C20","Topological sorting orders every acyclic graph completely",
 "For every acyclic graph the order returned contains every node that is a key or a neighbour exactly once, and every node comes after all of its neighbours. The same graph always gives the same order, and graphs of any depth or width are handled without exhausting the stack.",
 ["inputs"],"every acyclic graph: any size, density, depth, neighbours that are not keys, any ordered node type",
 "five tests compare the order of fixed graphs of at most nine nodes",
 [TS,TG],[("iterative depth-first search with start and end actions",TS+" Work::run"),("exit appends to the order",TG+" Visitor::exit")],[("actions","pending starts and ends",TS),("done","finished elements",TS)],["graph::get"])
p("C21","Cycles are always detected and the witness lies on one",
 "Sorting fails exactly when the graph has a directed cycle (self-loops included), and the node reported with the failure lies on a directed cycle of the graph.",
 ["inputs"],"every graph with at least one cycle, wherever the cycle is and whatever else hangs off it, and every acyclic graph",
 "three tests use fixed cyclic graphs and discard the witness",
 [TS,TG],[("an element started again while in progress closes a cycle",TS+" Work::run")],[("cur","elements in progress",TS)],["graph::get","CycleError::witness"])
p("C22","The generic sort drives any visitor through a proper traversal",
 "Whatever the visitor skips or adds, each element that is entered and not skipped is processed once and exited once, exits nest inside out with the level counting the elements still in progress, everything an element added is exited (or skipped, or already in progress when a cycle exists) before that element is exited, and the returned set is exactly the elements exited. A cycle is reported exactly when an element was added while reachable from itself through elements in progress, and the reported element is such a one.",
 ["programs","inputs"],"every visitor (skipping any elements, adding any work, repeated elements, generated on the fly) with any of the supported set types, debug and release",
 "the tests only use the built-in graph visitor and check nothing but the order",
 [TS],[("Work::run",TS)],[("level","elements in progress",TS),("cur / done","in progress and finished elements",TS)],["Visitor callbacks","Ret"])
p("C23","Generated token kinds are complete, consistent and convert safely",
 "For every supported grammar the generated kind file compiles and its kinds are exactly the trivia, tokens and node names of the grammar; every keyword text maps to its own kind and nothing else maps to a keyword; the punctuation table holds each punctuation text with its own kind and lists no text after one of its prefixes, so the first match is the longest; descriptions, documentation and trivia tests are those given, and the file names the file that asked for it. Raw numbers order the kinds as the kinds compare; converting a kind to its raw number and back is the identity, and raw numbers of no kind are rejected by a panic.",
 ["programs","inputs","configurations"],"every supported grammar and option set (any keywords, punctuation sharing prefixes, special tokens, docs, any trivia list including none)",
 "syntax-gen has no tests",
 SG[:3],[("token classification",SG[2]+" TokenDb::new"),("sorting by decreasing length",SG[1]),("checked transmute from raw kinds",SG[1])],None,["the generated kind.rs, compiled and run"])
p("C24","Generated syntax accessors return exactly the right children",
 "For every supported grammar the generated syntax file compiles; casting a node succeeds exactly for the kinds of its rule (for an alternatives rule, those of its members, giving the matching variant); and each field accessor returns, on any tree, the children of its kind in source order: the n-th for the n-th field of that kind in the rule, all of them for a repeated field, nothing when absent. Token alternatives report the right kind and text; returned iterators outlive the value asked; pointers to nodes lead back to them; a root is cloned and rendered as its node is; the file names the file that asked for it.",
 ["programs","inputs"],"every supported grammar (sequences, alternatives of nodes or tokens, options, repetitions, labels) and every tree, also malformed ones",
 "syntax-gen has no tests",
 SG[3:],[("field accessors count fields of the same kind",SG[4]+" field, get_idx"),("alternatives",SG[3])],None,["the generated ast.rs, compiled and run"])
p("C25","Code generation is deterministic and writes the tokens faithfully",
 "Generating from the same options writes the same bytes every time, whatever the iteration order of the maps passed in, to exactly two files in the output directory. Writing a token stream to a file stores a formatted Rust file that has the same meaning token for token, replaces any previous contents, touches no other file, and fails loudly when the tokens are not a Rust file or the file cannot be written.",
 ["inputs","programs","configurations"],"every supported grammar and option set under any map order; every token stream that is a valid Rust file",
 "neither syntax-gen nor write-rs-tokens has tests",
 ["syntax-gen/src/lib.rs","syntax-gen/src/kind.rs","syntax-gen/src/token.rs","write-rs-tokens/src/lib.rs"],[("explicit sorts before emission",SG[1]),("write_rs_tokens::go","write-rs-tokens/src/lib.rs")],None,["the files written"])
p("C26","Identifiers never collide and index conversions never truncate",
 "One maker of unique identifiers never returns the same identifier twice (up to the 2^32 it can represent). Converting a size to an index, a text size or a 32-bit number and back gives the same value, preserving order, and a size that does not fit is refused by a panic (or, for the logging conversion in release builds, saturates) instead of being silently truncated.",
 ["histories","inputs","configurations"],"every number of identifiers up to 2^32; every size over the whole 64-bit range; debug and release",
 "one doc test makes two identifiers; the conversions are untested",
 ["uniq/src/lib.rs","idx/src/lib.rs","text-size-util/src/lib.rs","always/src/convert.rs"],[("counter","uniq/src/lib.rs mk"),("checked conversions","idx/src/lib.rs, text-size-util/src/lib.rs, always/src/convert.rs")],None,["UniqMk::mk","Idx::new","mk_text_size","usize_to_u32"])
p("C27","Scanning a string byte by byte never loses or invents input",
 "For every string and every sequence of scanning operations that only advances over bytes that exist, the current byte, the position, prefix tests, conditional advances and the slices taken since a marker are those of a cursor over the string's bytes: a failed prefix test does not move, a conditional advance stops at the first rejected byte, advancing to the next character lands on the next character boundary, and a marker's slice is exactly the bytes advanced over since.",
 ["inputs","histories"],"every string (multi-byte characters anywhere), every sequence of operations",
 "str-process has no tests",
 ["str-process/src/lib.rs"],[("St","str-process/src/lib.rs")],[("idx","byte position","str-process/src/lib.rs")],["every public operation"])
p("C28","Identifier case conversion is invertible on identifiers",
 "Turning a Pascal-case ASCII-letter identifier into snake case and back gives the identifier, and turning a lower or upper snake-case identifier whose words start with letters into Pascal case and back gives it in lower case. On any string, conversion to Pascal case drops the underscores and changes nothing but ASCII letter case (upper after the start and after underscores, lower elsewhere), and conversion to snake case only lowers ASCII letters and puts one underscore before each ASCII capital that is not first.",
 ["inputs"],"every string, ASCII or not",
 "doc tests convert seven words",
 ["identifier-case/src/lib.rs"],[("snake_to_pascal, pascal_to_snake","identifier-case/src/lib.rs")],None,["snake_to_pascal","pascal_to_snake"])
p("C29","The Markdown map loses no line and mixes no sections",
 "For every Markdown text the keys are exactly the code texts of its level-2 code headings (a heading for a backtick written with double backticks included), and each value is the caller's starting text for that key, obtained by exactly one call, followed by every line of that section, each after a newline and otherwise unchanged. Lines before the first heading are dropped, and two headings for the same code make it panic instead of losing one.",
 ["inputs"],"every text: any headings, any line endings, near-miss headings, empty sections, repeated headings",
 "code-h2-md-map has no tests",
 ["code-h2-md-map/src/lib.rs"],[("line loop","code-h2-md-map/src/lib.rs get"),("heading recognition","code-h2-md-map/src/lib.rs code_h2")],None,["get"])
p("C30","Soft assertions stop debug builds and only log in release builds",
 "A soft assertion evaluates its condition exactly once and returns it; when it is false a debug build panics with the given message and a release build logs that message once at error level and goes on; when it is true nothing is logged and the message is not even formatted. The condition's side effects happen in both builds.",
 ["configurations","inputs"],"debug and release builds; conditions with side effects; all message forms",
 "nothing tests always!, and tests run in debug builds only",
 ["always/src/lib.rs"],[("always!","always/src/lib.rs")],None,["panics","log records","the returned condition"])
p("C31","Names are never empty and literal collections never drop duplicates",
 "A name can be made from exactly the non-empty strings, keeps the string unchanged, and is equal, ordered, hashed and displayed as that string, so looking a name up by its text in a map or ordered map works; clones of a long name share its text. A map or set built from a fixed list holds exactly the listed elements, and a list with a repeated key or element is refused by a panic instead of one being dropped.",
 ["inputs"],"every string, including lengths around the inline-storage limit and multi-byte text; every list of keys",
 "str-util and fast-hash have no tests",
 ["str-util/src/lib.rs","fast-hash/src/lib.rs"],[("try_new checks emptiness","str-util/src/lib.rs"),("insert results are asserted","fast-hash/src/lib.rs map, set")],None,["Name","fast_hash::map","fast_hash::set"])
p("C32","Rendering is exact and passes formatter errors on",
 "A separated sequence renders as its elements joined by the separator, asks for each element once, and when the underlying writer fails it returns that failure at once without asking for or writing anything more. Positions, ranges and diagnostics render one-based in the documented order (range, severity, message; the end line omitted when it equals the start line), and every diagnostic code survives being displayed and parsed back while every string that is not a 16-bit number is refused with a descriptive error.",
 ["inputs","fault_sequences"],"every sequence, separator and formatter option, a writer failing at any point; every range, severity, message and code",
 "fmt-util and diagnostic have no tests",
 ["fmt-util/src/lib.rs","diagnostic/src/lib.rs",TP],[("sep_seq","fmt-util/src/lib.rs"),("Display impls","diagnostic/src/lib.rs, "+TP),("Code::from_str","diagnostic/src/lib.rs")],None,["Display output","FromStr"])
p("C33","Timing a call runs it once and measures it truly",
 "Timing runs the call exactly once, returns its result, and reports a duration at least as long as the call itself took and no longer than the whole timing call took. The logging variant does the same, emits exactly one info record that carries the given message, after the call has finished, and lets panics of the call through.",
 ["inputs","schedules"],"every function timed: short, long, returning any value, panicking, nested",
 "elapsed has no tests",
 ["elapsed/src/lib.rs"],[("time, log","elapsed/src/lib.rs")],None,["time","log","log records"])
p("C34","Punctuation names are unambiguous",
 "Every character either has a name that is a capitalised alphanumeric word or is refused (None, or a panic for the insisting form); the ASCII punctuation characters other than quotes and backslash have the established names; no two characters share a name, and the concatenated names of two different punctuation strings are never equal.",
 ["inputs"],"every Unicode character; every pair of punctuation strings",
 "char-name has no tests",
 ["char-name/src/lib.rs"],[("get_opt","char-name/src/lib.rs")],None,["get_opt","get"])
p("C35","Wrong patterns and language errors surface as errors, not verdicts",
 "When the language description reports an error at any point of a pattern check, the check returns that error and no verdict. A wildcard given arguments, or a constructor given more arguments than its type has, makes a check that examines it return an error instead of a verdict or a panic.",
 ["fault_sequences","inputs"],"an error injected at every call into the language description, for every pattern list; every ill-formed pattern position that is examined",
 "pattern-match has no tests",
 [PM,PMT],[("? on every Lang call",PM+" useful, specialize"),("arity checks",PM+" specialize")],None,["the result of check"])
p("C36","Forgotten parse markers are caught",
 "A construct that was started and then dropped without being finished or abandoned makes the program panic at the drop, in every build, and a scanning marker dropped without being used does so in debug builds; a marker that was consumed, even by a call that returned nothing of interest, never does. A drop during another panic does not turn into an abort.",
 ["programs","configurations"],"every way to lose or consume a marker; debug and release; while unwinding",
 "neither event-parse nor str-process has tests that run",
 [EP,"str-process/src/lib.rs"],[("DropBomb in Entered",EP),("DebugDropBomb in Marker","str-process/src/lib.rs")],None,["panics at drop"])
p("C37","Unchecked casts never cause undefined behaviour",
 "No use of the clean-path types through their safe interface, and no conversion of raw syntax kinds in generated code, causes undefined behaviour: borrowed views alias the path they came from, stay valid as long as it does, and every value produced is valid.",
 ["inputs","histories"],"every sequence of safe calls on clean paths and on generated kinds, every raw kind number",
 "the tests run without any undefined-behaviour detector and never convert a raw kind",
 [PA,SG[1]],[("repr(transparent) pointer cast",PA+" CleanPath::new_unchecked"),("transmute after a bounds check",SG[1])],None,["execution under Miri"])
p("C38","The pattern checker asks the language only well-typed questions",
 "Checking well-typed patterns asks the language only questions it can answer: splits get a constructor of the type asked about, and as already seen constructors only ones the patterns have at that type; arguments are asked for only of constructors that a split gave or a pattern has for the type; no two constructors of different types are compared; and the split depth starts at 0 and is greater than 0 below the matched value.",
 ["inputs"],"every type system, pattern list and way the language splits",
 "pattern-match has no tests",
 [PM,PMT],[("useful calls L::split with the first column",PM+" useful"),("what Lang::split is promised",PMT+" Lang")],None,["arguments of the calls into Lang"])
p("C39","Patterns are displayed as they are written",
 "Displaying a pattern gives its constructor followed, if it has arguments, by those in parentheses separated by commas; alternatives are separated by bars, and an empty choice is shown as one that never matches; at any size and depth. Clones display and are indexed alike. A failing writer makes displaying fail, with nothing written after the failure.",
 ["inputs","fault_sequences"],"every pattern, nested and wide without limit; every write that can fail",
 "pattern-match has no tests",
 [PMT],[("Display for Pat, RawPat and ConPat",PMT)],None,["text of displayed patterns and witnesses"])
p("C40","Position tables, positions and ranges compare as the texts they describe",
 "Two position tables are equal exactly when they answer every question alike, and a clone equals its original and answers alike, also after the original is gone. Positions and ranges obtained for a text compare, and hash, like the offsets they stand for: in the order of their places in the text.",
 ["inputs"],"every pair of texts, every pair of positions or ranges in a text",
 "no test compares or clones a table, or orders positions",
 [TP],[("derived comparisons",TP+" PositionDb, PositionUtf16, RangeUtf16")],None,["==, cmp, clone, hash"])
p("C41","Grammars the generator cannot express are refused",
 "For every grammar the code generator takes no faithful code for, generating panics instead of writing code for another grammar: a text that is not a grammar, or leaves a rule undefined, or defines one twice; alternatives that mix rules and tokens or are anything but plain ones; a sequence or alternatives nested in a field; a modifier on a modifier; a second label on a field; a token with a character that has no name, or a keyword that is no word.",
 ["inputs"],"every grammar text",
 "syntax-gen has no tests; what is refused is spread over assertions and panics in five files",
 SG if isinstance(SG,list) else [SG],[("match arms that panic","syntax-gen/src/seq.rs, alt.rs, util.rs, token.rs, lib.rs")],None,["panic instead of generated code"])
p("C42","Cloning a chain map and adding to the clone copies nothing",
 "Under every history of operations: cloning, adding (insert, extend, append), looking up, iterating over and dropping chain maps copies no key and no value; other operations copy every entry in the map at most once, and none at all if the map is consolidated and shares nothing with another one. Cloning a consolidated map takes little memory whatever its size; a lookup in it, or an insertion into a clone of it, hashes and compares only a few keys. All maps together keep no more keys and values than the additions they still share, and consolidating drops the overridden ones.",
 ["histories"],"every history of operations over several maps, every size",
 "the tests neither count copies nor clone a map",
 ["chain-map/src/lib.rs"],[("stack of shared layers","chain-map/src/lib.rs ChainMap"),("try_unwrap and make_mut",'chain-map/src/lib.rs consolidate_')],None,["copies, hashes and comparisons of keys and values; bytes asked for"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s)
print(len(P))
