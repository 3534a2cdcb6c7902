# ---------------------------------------------------------------- heap
P('H01', 'Heap operations agree with a sorted list',
  'After any sequence of construction, append, extend, remove, pop and combined push/pop calls, a heap contains exactly the multiset a sorted list would contain, '
  'and reports it in sorted order. Every pop returns the smallest element then present; popping an empty heap and removing an absent value fail without effect.',
  'histories inputs', 'every operation sequence (bounded length) on every starting content with arbitrary comparable values',
  'The heap order that a bug violates depends on the relative order of all elements over a whole operation history; the tests replay a few fixed sequences.',
  'heap', [('heapq based operations', 'big/heap.py: Heap.append, extend, remove, popleft, append_and_popleft, popleft_and_append, queue')], 'p_heap')
P('H02', 'Heap indexing and slicing equal those of the sorted contents',
  'Reading a heap with any integer index or any slice gives exactly what the same index or slice gives on the sorted list of its contents, including negative, '
  'absent and out-of-range positions and non-unit steps, and never changes the heap.',
  'inputs', 'every index and every start/stop/step against every content',
  'There are several internal fast paths selected by sign and size of the index; tests use a handful of indices on two heaps.',
  'heap', [('fast paths by index size and slice shape', 'big/heap.py: Heap.__getitem__')], 'p_heap')
P('H03', 'Heap iteration is sorted, complete and detects modification; copies are separate',
  'Iterating a heap yields all its elements in sorted order without consuming it. If the heap is modified during the iteration, the next step raises RuntimeError. '
  'A copy compares equal to its original and the two never affect each other afterwards.',
  'histories inputs', 'every content, every point of the iteration at which it is modified, every modifying operation',
  'The modification point and the operation are independent choices over every content; tests modify at one point.',
  'heap', [('version counter and snapshot in the iterator', 'big/heap.py: Heap.HeapIterator'), ('copy', 'big/heap.py: Heap.copy')], 'p_heap')

# ---------------------------------------------------------------- version
P('V01', 'Versions are totally ordered as PEP 440 says, consistent with == and hash',
  'For any two versions, exactly one of less-than, equal and greater-than holds and it is the one PEP 440 prescribes for their epoch, release, pre-release, post-release, '
  'development and local segments. Equal versions hash equally.',
  'inputs', 'every pair of versions: all combinations of segments with arbitrary numbers',
  'Order is a property of all pairs; the tests sort one fixed list.',
  'version', [('comparison key built at construction', 'big/version.py: Version.__init__, __lt__, __eq__, __hash__')], 'p_version')
P('V02', 'Version text round-trips and reports its fields',
  'For any version built from keyword fields (any spelling of the level) or from sys.version_info, parsing its string form gives an equal version with the same hash, the same string form and the same reported epoch, '
  'release, level, serial, post, dev and local fields. Any invalid field value, and a string together with fields, is refused with ValueError.',
  'inputs', 'every combination of fields with arbitrary numeric values',
  'A formatting or parsing slip shows only for particular combinations of segments; tests cover a short list of strings.',
  'version', [('formatting', 'big/version.py: Version.__str__'), ('parsing', 'big/version.py: Version.__init__')], 'p_version')
P('V03', 'Version parsing accepts exactly the PEP 440 grammar and normalizes it',
  'Every string of the PEP 440 grammar (any letter case, any permitted separator, implicit numbers, surrounding whitespace) is accepted with the fields PEP 440 assigns. '
  'Any other text is rejected with ValueError, and every accepted text has an ASCII normal form that parses back to an equal version.',
  'inputs', 'all grammar-derived strings with arbitrary digits and case, and all arbitrary short Unicode strings',
  'The grammar is a product of many optional parts and of Unicode look-alikes; tests try a small list of strings.',
  'version', [('regular expression and normalization', 'big/version.py: Version.__init__ and the module regular expression')], 'p_version')

# ---------------------------------------------------------------- itertools
P('I01', 'Pushback iteration is last-in first-out and loses nothing',
  'Whatever sequence of next, next-with-default, truth tests, pushes and loops is applied, pushed values come back last in first out before any further value of the wrapped iterator, '
  'and no value of the wrapped iterator is lost, repeated or reordered. Truth is false exactly when nothing is left, and an exception raised by the wrapped iterator propagates.',
  'histories inputs fault_sequences', 'every operation history (bounded) over every wrapped iterator, including falsy values, falsy iterators and iterators that raise',
  'The guarantees couple the order of operations with exhaustion and errors of the wrapped iterator; tests follow a few fixed scripts.',
  'itertools', [('stack in front of the wrapped iterator', 'big/itertools.py: PushbackIterator')], 'p_iter')

# ---------------------------------------------------------------- scheduler
P('S01', 'Scheduler yields every event once, in order, never early',
  'Events are yielded exactly once, ordered by time, then priority, then scheduling order, and never before their time. Cancelled events are never yielded; iteration ends only when nothing is '
  'scheduled, and the non-blocking iterator yields exactly the due events without sleeping.',
  'histories inputs schedules', 'every history of scheduling, cancelling, iterating and passing of time with arbitrary times and priorities, including changes made while an iteration sleeps',
  'Order depends on ties among arbitrary times and priorities and on what happens during a sleep; tests use fixed numbers.',
  'scheduler heap', [('event order', 'big/scheduler.py: Event.__lt__'), ('wait loop', 'big/scheduler.py: Scheduler._next'), ('regulator protocol', 'big/scheduler.py: Regulator')], 'p_sched')
P('S02', 'Threads sharing a scheduler lose no event and no wake-up',
  'When several threads use one scheduler with the thread-safe regulator, every scheduled event is delivered exactly once (or is still queued), at the moment it is due, even if it is scheduled or '
  'cancelled while another thread is about to block or is blocked waiting for a later event. No interleaving deadlocks.',
  'schedules inputs', 'every interleaving of two or three threads (bounded preemptions) with arbitrary event times',
  'A lost wake-up needs a preemption between two particular operations; tests with real threads only ever see the common schedule.',
  'scheduler heap', [('lock and sleep/wake handshake', 'big/scheduler.py: ThreadSafeRegulator, Scheduler._next, schedule, cancel')], 'p_sched',
  note='Threads are real threads under a controlled scheduler; threading and time are replaced by models; preemption is considered between source lines and at synchronization operations.')

# ---------------------------------------------------------------- graph
P('G01', 'Topological sorting is complete, ordered, and detects every cycle',
  'For any dependency graph, a cycle is reported exactly when one exists, and the reported nodes form one. Otherwise every node is yielded exactly once and only after all its dependencies, '
  'both by the static order and by the ready/done protocol in whatever order nodes are marked done, and a reset view starts over.',
  'inputs schedules', 'every graph up to a number of arbitrary dependencies, every completion order',
  'Cycle detection and readiness depend on the shape of the whole graph and on the completion order; tests use a dozen shapes.',
  'graph', [('predecessor counts per view', 'big/graph.py: TopologicalSorter.View'), ('cycle search', 'big/graph.py: TopologicalSorter.cycle')], 'p_graph')
P('G02', 'Changing a graph while iterating keeps every view coherent or says so',
  'Nodes and dependencies may be added and removed at any time, from any state of any view: a view that is coherent with the graph goes on to yield exactly the nodes that are ready, each once, '
  'and completes; a view raises RuntimeError exactly while a yielded node depends on one that is not done. Views, copied views and copied graphs do not influence each other.',
  'histories inputs', 'every bounded history of graph changes and view operations with arbitrary nodes',
  'Coherence is a relation between a change and the state of every view; tests cover a few hand-made sequences.',
  'graph', [('conflict tracking', 'big/graph.py: View._add_successor, _remove_node'), ('copy', 'big/graph.py: TopologicalSorter.copy, View.copy')], 'p_graph')

# ---------------------------------------------------------------- state machine, bound inner classes
P('T01', 'State transitions follow the documented sequence and refuse illegal ones',
  'For any sequence of state assignments, the exit hook, every observer registered when the transition starts, and the enter hook run in that order and see the documented current and next state. '
  'A transition to None, to a wrong type, to the very same object, or started while another is in progress raises the documented error and changes nothing; a transition started by an enter hook is legal.',
  'histories programs', 'every bounded assignment history with hooks and observers that themselves start transitions or edit the observer list',
  'Re-entrancy and observer edits combine with every position in the sequence; tests walk one or two scripts.',
  'state', [('state property setter', 'big/state.py: StateManager.state')], 'p_state')
P('T02', 'Dispatched events reach the current state unchanged',
  'A dispatched event method calls the like-named (prefixed and suffixed) method of the current state exactly once with exactly the given arguments and returns its result; '
  'the accessor attribute always reads and writes the state of the manager.',
  'inputs configurations histories', 'every argument list (bounded) of arbitrary values, every prefix and suffix setting, before and after transitions',
  'Argument forwarding must hold for every call shape; tests use one or two shapes.',
  'state', [('dispatch wrapper', 'big/state.py: dispatch'), ('accessor property', 'big/state.py: accessor')], 'p_state')
P('B01', 'Bound inner classes bind the right outer object in every access order',
  'Constructing an inner class through an outer object passes that object to every bound constructor of its family exactly once, together with the caller\'s arguments, whatever inner classes were '
  'accessed before and on whichever outer object. Repeated access gives the same class, different outer objects different ones, and instances belong to every base, both unbound and as bound to the same object.',
  'programs histories inputs', 'every bounded sequence of accesses and constructions over a family with single, multi-level and diamond inheritance',
  'The bound classes are created lazily and cached, so the result could depend on the access history; tests try permutations of three classes on one object.',
  'boundinnerclass', [('descriptor creating and caching the bound subclass', 'big/boundinnerclass.py: _Worker.__get__, _wrap')], 'p_bic')

# ---------------------------------------------------------------- builtin
P('B02', 'A bound inner class presents itself as the class it wraps',
  'The class obtained through an outer object has the name, module, qualified name, documentation, annotations, attributes and methods of the class it wraps; its instances keep a __repr__ the class or its parents define, '
  'and otherwise (if bound) name the outer object. The wrapped class itself is unchanged.',
  'inputs configurations', 'with and without documentation, annotations and __repr__ at each of up to three levels, any access order, bound and unbound',
  'Each descriptive attribute is copied by its own statement, in two places; tests look at the name only.',
  'binding', [('wrapper construction', 'big/boundinnerclass.py: BoundInnerClass, UnboundInnerClass, _Worker.__get__')], 'p_bic')
P('N01', 'Number conversions succeed exactly when Python does, else give the default',
  'For any object, get_int and get_float return what int() and float() return, and the default (the object itself if none is given) exactly when that conversion fails (with TypeError, ValueError or OverflowError); the try_ '
  'functions say which. get_int_or_float prefers an int, keeps fractions, infinities and nan as floats, and never raises; a pure virtual method always raises and never runs its body.',
  'inputs', 'every short text, every integer, and the special floats and conversion failures of every kind',
  'Which conversion fails and how (type, value, overflow) depends on the input; tests use a dozen literals.',
  'builtin', [('conversion chain', 'big/builtin.py: get_int, get_float, get_int_or_float, try_int, try_float'), ('wrapper', 'big/builtin.py: pure_virtual')], 'p_builtin')

# ---------------------------------------------------------------- text
P('X01', 'multisplit cuts exactly at the separators, under every combination of options',
  'For any text and separators, multisplit yields the pieces between the separators found greedily (longest first) in scan order, with separators grouped, kept, stripped, limited and scanned from '
  'the right as the options say. Joining kept pieces recreates the text; the default whitespace and linebreak tables split and strip exactly as Python\'s own str and bytes methods do.',
  'inputs configurations', 'every text (bounded length) with every combination of keep, maxsplit, reverse, separate and strip',
  'The options interact (reversal, stripping and counting each rearrange the list); tests cover a sample of combinations on ASCII words.',
  'text', [('splitting engine', 'big/text.py: multisplit, _multisplit_reversed, __separators_to_re'), ('whitespace tables', 'big/text.py: str_whitespace, str_linebreaks, bytes_linebreaks')], 'p_split')
P('X02', 'multipartition and multistrip find separators exactly, on either side',
  'multipartition always returns 2*count+1 parts: the text partitioned at the first count separators found greedily from the chosen side (grouped if asked), padded with empty strings on the far side; '
  'multirpartition is its mirror. multistrip removes separators and nothing else from the chosen sides, and leaves none there.',
  'inputs configurations', 'every text (bounded length) against separator collections with overlaps, prefixes, and special characters',
  'Overlapping separators interact with direction and count; tests use a few separators on a few words.',
  'text', [('partition', 'big/text.py: multipartition, multirpartition'), ('strip', 'big/text.py: multistrip')], 'p_partition')
P('X03', 'Regular-expression partitioning splits where the pattern matches',
  're_partition splits at the first count non-overlapping matches, re_rpartition at the last count matches found from right to left (rightmost end first); both return 2*count+1 parts that join to the '
  'original text, with None and empty strings for missing matches. reversed_re_finditer yields exactly those right-to-left matches.',
  'inputs configurations', 'every text (bounded length) against patterns with overlapping alternatives, empty matches, groups and look-around',
  'Right-to-left search is reconstructed from forward matches and depends on how all candidate matches overlap; tests compare a table of examples.',
  'text', [('reverse search', 'big/text.py: reversed_re_finditer'), ('partition', 'big/text.py: re_partition, re_rpartition')], 'p_partition')
P('X04', 'Word functions change exactly the word boundaries they promise',
  'gently_title capitalizes exactly the first letter of each word (also after an opening quote or parenthesis and after O\' and D\') and nothing else; split_title_case cuts only before capitals as documented. '
  'normalize_whitespace turns every run of separators into one replacement and keeps the rest; combine_splits cuts exactly where some split array cuts.',
  'inputs configurations', 'every text (any Unicode characters or bytes, bounded length) with default and custom tables, every set of cut positions',
  'These are small state machines whose errors show only for particular neighbouring characters; tests use English sentences.',
  'text', [('state machines', 'big/text.py: gently_title, split_title_case'), ('fast path', 'big/text.py: normalize_whitespace'), ('heap of split lengths', 'big/text.py: combine_splits')], 'p_words')
P('X05', 'wrap_words keeps every word, in order, within the margin',
  'The wrapped text contains every word unchanged and in order, separated by one space (two after the end of a sentence unless disabled) or a line break. '
  'A line exceeds the margin only if it is a single word longer than the margin, and a line is broken only when the next word would not fit.',
  'inputs configurations', 'every short sequence of words and breaks, every margin, both settings of two_spaces',
  'The margin arithmetic couples word lengths, gaps and breaks; tests compare a few paragraphs at one margin.',
  'text', [('greedy wrapping', 'big/text.py: wrap_words')], 'p_words')
P('Q01', 'Quoted segments end at the next unescaped occurrence of their quote',
  'split_quoted_strings alternates unquoted and quoted segments: a quote opens a segment that ends at the next occurrence of the same quote that is not escaped, or at the end of the text. '
  'Joining all yielded strings recreates the text. A line break inside a non-multiline quote raises SyntaxError; the initial state continues an open quote.',
  'inputs configurations', 'every text (any Unicode characters or bytes, bounded length) for many quote, multiline and escape sets and every initial state',
  'Quote, escape and line-break tokens interact for particular adjacent characters; tests parse a few example strings.',
  'text', [('tokenizing and joining', 'big/text.py: split_quoted_strings')], 'p_quotes')
P('Q02', 'split_delimiters nests delimiters correctly and loses no text',
  'split_delimiters reports every opening and closing delimiter that the innermost open delimiter allows, each closing one matching the innermost open one, and joining all strings recreates the text. '
  'A wrong closing delimiter, a line break in a single-line quote and a trailing escape raise SyntaxError; the initial state continues an open nesting.',
  'inputs configurations', 'every text (bounded length) for several delimiter sets including overlapping multi-character ones, every initial nesting',
  'Overlapping delimiters, escapes and re-splitting interact for rare character sequences; tests parse a few example strings.',
  'text', [('state tables', 'big/text.py: _delimiters_to_state_and_tokens'), ('parser', 'big/text.py: split_delimiters')], 'p_quotes')
P('L01', 'Lines and their modifiers account for every character and position',
  'For any text, lines yields each line once with consecutive numbers, its line break and the original line. After any chain of clipping modifiers, leading + line + trailing + end is the original line, '
  'the line is exactly the documented remainder, column_number is where it starts, and a line clipped completely goes to trailing.',
  'inputs configurations', 'every text (any Unicode characters or bytes, bounded length), chains of modifiers, starting positions and tab widths',
  'The bookkeeping couples line breaks, tabs, separators and several modifiers; tests use a few hand-written texts.',
  'text', [('splitting into lines', 'big/text.py: lines'), ('clipping', 'big/text.py: LineInfo.clip_leading, clip_trailing'), ('modifiers', 'big/text.py: lines_rstrip, lines_strip, lines_strip_indent, lines_strip_line_comments')], 'p_lines')
P('L02', 'Line filters yield exactly the matching lines, unchanged and in order',
  'lines_containing, lines_grep, lines_filter_empty_lines and lines_filter_line_comment_lines yield exactly the lines they document (or exactly the others when inverted), in order, unchanged, with their line information. '
  'lines_sort yields every line once in stable order and lines_convert_tabs_to_spaces expands tabs to tab stops.',
  'inputs configurations', 'every text (bounded length), every filter and chains of two, any number of comment markers in any iterable',
  'Filters must be right for every line content, including breaks, whitespace and overlapping markers; tests filter a few texts.',
  'text', [('filters', 'big/text.py: lines_containing, lines_grep, lines_filter_empty_lines, lines_filter_line_comment_lines'), ('sorting, tabs', 'big/text.py: lines_sort, lines_convert_tabs_to_spaces')], 'p_lines')
P('L03', 'Line comments are cut at the leftmost marker outside quotes',
  'lines_strip_line_comments yields every line, truncated at the leftmost comment marker that is not inside a quoted string, and puts the rest into trailing; lines without one are unchanged. '
  'Quoted strings may span lines only with multiline quotes; an unterminated quote raises SyntaxError.',
  'inputs configurations', 'every text (bounded length) over several sets of markers, quotes, multiline quotes and escapes',
  'Quotes, escapes, markers and the state carried across lines interact; tests use a few example texts.',
  'text', [('quote state across lines', 'big/text.py: lines_strip_line_comments')], 'p_lines')
P('L04', 'Indent levels equal the number of enclosing indents',
  'lines_strip_indent removes the leading whitespace of every line and reports as indent the number of enclosing indentation columns, zero at the left margin. '
  'A dedent to a column that is not an enclosing indent raises IndentationError; blank lines take the indent of the next non-blank line, or zero at the end.',
  'inputs histories', 'every sequence of lines (bounded number) with spaces, tabs and blank lines',
  'Levels depend on the whole history of columns; tests indent and dedent one text.',
  'text', [('stack of columns', 'big/text.py: lines_strip_indent')], 'p_lines')

P('X06', 'split_text_with_code keeps every word of text and every line of code',
  'split_text_with_code yields, in order, the words of the text, one item per line of code with its inner whitespace preserved (tabs expanded to tab stops unless disabled), a paragraph break wherever text paragraphs or '
  'text and code meet, and a line break per line between lines of code. A line is code exactly when its text starts at or after code_indent.',
  'inputs configurations', 'every text (bounded length), every filling of the line starts of a longer text, tab widths, indents and switches',
  'A character-level state machine: errors show only for particular sequences of blank, code and text lines; tests use a few texts.',
  'text', [('state machine', 'big/text.py: _column_wrapper_splitter, split_text_with_code')], 'p_layout')
P('X07', 'merge_columns puts every line of every column in its place',
  'Every line of every column appears once, in order, with each column starting at the same place on every line. Later columns pause beside lines that do not fit, and the requested number of extra lines before and after them '
  '(DELAY_ALL: until after the last of them); RAISE raises OverflowError exactly when a line does not fit.',
  'inputs configurations', 'texts of letters, spaces and newlines (bounded length) in any column, widths, separators, strategies and extra lines',
  'Overflow intervals of several lines, padding and exhausted columns interact; tests compare a few layouts.',
  'text', [('layout', 'big/text.py: merge_columns')], 'p_layout')
P('X08', 'Reflowing a text keeps its words and code, and reflowing again changes nothing',
  'wrap_words(split_text_with_code(s), margin) gives every word of every paragraph of s in order, lines within the margin (a longer word stands alone) broken only where the next word does not fit, code lines as they were, '
  'and blank lines exactly between paragraphs and around code. Doing it again to the result changes nothing, and merging two reflowed texts keeps every line of both.',
  'inputs configurations', 'every text of tabs, newlines, spaces, letters and dots (bounded length) and such characters at given places of longer texts; several margins, with and without code',
  'The splitter and the wrapper are two state machines joined by a format of their own (empty words, line and paragraph breaks): errors show where one misreads what the other means; tests look at each alone.',
  'text', [('splitter', 'big/text.py: split_text_with_code, _column_wrapper_splitter'), ('wrapper', 'big/text.py: wrap_words'), ('columns', 'big/text.py: merge_columns')], 'p_reflow')
P('N02', 'int_to_words spells the number it is given',
  'For every whole number below 10**75 in absolute value, the words name each nonzero group of digits once with its scale, from the largest down, with the documented separators; '
  'ordinal=True gives the ordinal of the same number, negative numbers start with "negative". Larger numbers are given as digits.',
  'inputs', 'whole numbers with two nonzero groups of digits of any value at any scale and any last two digits; counts by induction',
  'There are 10**75 inputs and the scales are a hand-written table; tests look at some numbers.',
  'text', [('scales and spacing', 'big/text.py: int_to_words')], 'p_layout')
P('E01', 'Every text function treats ASCII bytes as it treats the same text',
  'For every function that accepts str or bytes, calling it with the ASCII encoding of its string arguments gives the ASCII encoding of the result for the strings, with bytes in every place (line numbers, columns and exceptions the same).',
  'inputs configurations', 'every text (bounded length) over the characters each function reacts to, a few arguments each',
  'Every function has a second set of constants for bytes; an error there shows only for some inputs, and tests use few bytes examples.',
  'text', [('bytes branches', 'big/text.py: multisplit, multistrip, multipartition, re_partition, reversed_re_finditer, gently_title, split_title_case, normalize_whitespace, combine_splits, split_quoted_strings, split_delimiters, lines, lines_strip_indent, wrap_words, split_text_with_code, merge_columns')], 'p_encode')
P('E02', 'encode_strings encodes every string in any nesting and changes nothing else',
  'encode_strings replaces every str in nested lists, tuples, dicts and sets (and subclasses) by its encoding, keeps bytes, order and container types, raises TypeError for any other type and UnicodeEncodeError for text outside the encoding.',
  'inputs configurations', 'strings of arbitrary characters in many container shapes, four encodings',
  'The recursion has one branch per container and role (key, value, element); tests encode a few fixed objects.',
  'text', [('recursion', 'big/text.py: encode_strings')], 'p_encode')
P('E03', 'The whitespace and line-break tables hold exactly what Python recognises',
  'whitespace and linebreaks (and their str_, unicode_, ascii_, bytes_, _without_crlf and deprecated forms) contain exactly the characters Python treats as whitespace or line breaks, each once, '
  'minus the ASCII separators 0x1c to 0x1f for unicode_ and ascii_, plus the pair CR LF unless the name says otherwise.',
  'inputs', 'every character and pair of characters of Unicode, every byte and pair of bytes',
  'Every splitting function depends on hand-written tables; over a million characters must be absent.',
  'text', [('tables', 'big/text.py: str_whitespace, str_linebreaks, bytes_linebreaks')], 'p_encode')
P('E04', 'Text functions refuse mixed, empty or repeated markers and accept all others',
  'A text function given separators, quotes, delimiters, apostrophes or comment markers that are not of the type (str or bytes) of the text, in any position of the collection, raises TypeError. '
  'No markers, an empty marker, a quote given twice or in two roles, a delimiter that both opens and closes, an unknown initial state or a negative count raises ValueError wherever documented; every other collection of markers is accepted. A Delimiter reports what it was given, and equals exactly another one given the same.',
  'inputs configurations', 'every collection of up to three arbitrary markers, any of them of the wrong type, empty, repeated or in two roles, in every kind of collection',
  'The checks are written separately in each function and for each string type; a missed one silently splits at the wrong places. Tests pass a handful of wrong arguments.',
  'text', [('checks', 'big/text.py: multisplit, multistrip, normalize_whitespace, gently_title, split_quoted_strings, split_delimiters, Delimiter, LineInfo')], 'p_args')
P('E05', 'Text functions take subclasses of str and bytes and give back plain ones',
  'A text function given an instance of a subclass of str or bytes, as the text or as another argument, does what it does for the plain text, and every string it returns is a plain str or bytes, '
  'also where it has nothing to do: no separator or match, nothing to strip, a count of zero, an empty text.',
  'inputs configurations', 'every short text over the characters each function reacts to, counts and switches',
  'The subclass leaks out through the paths that return the argument itself; which those are depends on the text and the options.',
  'text', [('early returns', 'big/text.py: multisplit, multistrip, re_partition, re_rpartition, gently_title, normalize_whitespace')], 'p_encode')
P('U01', 'Text functions keep nothing from one call to the next',
  'The result of a text function depends on its arguments alone: it is the same whatever was called before, in whatever order lazily computed results are consumed, with text and bytes mixed between calls, and the arguments are left unmodified.',
  'inputs histories', 'pairs of calls of each function with different arguments, text or bytes, run after each other and interleaved in every order',
  'Compiled patterns and parser tables are cached and results are computed lazily; a wrong cache key or shared buffer shows only for particular pairs of calls.',
  'text', [('caches', 'big/text.py: __separators_to_re, _delimiters_to_state_and_tokens'), ('lazy results', 'big/text.py: multisplit, split_quoted_strings, split_delimiters, lines')], 'p_pure')
P('F01', 'fgrep and grep return exactly the matching lines of a file',
  'For every file content, fgrep returns the lines containing the text (ignoring case if asked) and grep the lines the pattern matches, in order, unchanged, without their line breaks; with enumerate, each with its line number counted from one.',
  'inputs configurations', 'every file (bounded length), every short text, several patterns, encodings, kinds of path',
  'Numbering and case folding must hold for every content; tests search one fixed file.',
  'file', [('searching', 'big/file.py: fgrep, grep')], 'p_file')
P('F02', 'Directory and file helpers leave the file system as promised',
  'If safe_mkdir returns, a directory exists at the path; safe_unlink removes a file and nothing else; touch leaves an existing path with the current modification time and its contents, or an empty new file. '
  'After a pushd block, however it is left, the directory that was current when it was entered is current again; file_size, file_mtime and file_mtime_ns report the size and modification time of the file.',
  'inputs histories', 'every state of the path and its parent, every history of nested pushd blocks, chdir calls and exceptions (bounded length)',
  'Links, pipes, missing parents and nested or reused context managers interact; tests use a few states.',
  'file', [('helpers', 'big/file.py: safe_mkdir, safe_unlink, touch'), ('current directory', 'big/file.py: pushd')], 'p_file')
P('F03', 'Translated file names are legal and keep their legal characters',
  'translate_filename_to_unix and translate_filename_to_exfat return a nonempty name in which every character that the file system allows is kept and every other one is replaced by allowed characters; an empty name raises ValueError.',
  'inputs', 'every name (any Unicode characters, bounded length)',
  'Replacements interact (colon and space); tests translate a few names.',
  'file', [('translation tables', 'big/file.py: translate_filename_to_exfat, translate_filename_to_unix')], 'p_file')
P('P01', 'The event log reports every event with its times and nesting',
  'Iterating over a Log yields, for any history of events, entered and left subsystems and resets, every event since the last reset once, in order, with its start relative to the start of the log, the time until the next event, and its nesting depth. '
  'print shows the same events and times, in seconds and fractions of a second.',
  'inputs histories', 'every history (bounded length), every nondecreasing clock, widths and headings',
  'Times are symbolic and histories arbitrary; tests look at one history below one second.',
  'log', [('recording', 'big/log.py: Log.__call__, enter, exit, reset'), ('reporting', 'big/log.py: Log.__iter__, print')], 'p_log')
P('D01', 'Time stamps show the instant they were given',
  'timestamp_3339Z shows the given instant in UTC and timestamp_human in the local zone, for numbers of seconds, struct_time and datetime objects in any zone; microseconds are shown exactly when asked for, or by default when the argument can carry them. '
  'datetime_set_timezone and datetime_ensure_timezone change nothing but the zone, the latter only if there is none. parse_timestamp_3339Z reads a stamp back as the instant it shows.',
  'inputs configurations', 'every instant, local zone, zone of the argument and kind of argument within the bounds',
  'A missed conversion shows only in another zone than the one tests run in; tests look at the epoch.',
  'time', [('time stamps', 'big/time.py: timestamp_human, timestamp_3339Z'), ('reading', 'big/time.py: parse_timestamp_3339Z'), ('zones', 'big/time.py: datetime_set_timezone, datetime_ensure_timezone')], 'p_time')
P('Z01', 'The deprecated parsers still account for every character',
  'The deprecated split_quoted_strings and parse_delimiters split every text at the quotes or delimiters documented, and joining all strings recreates the text; parse_delimiters raises ValueError exactly when delimiters do not match. '
  'lines_strip_comments cuts each line at the leftmost comment marker outside quotes and keeps the rest in trailing.',
  'inputs configurations', 'every text (bounded length) of quotes, delimiters, markers, escapes and letters',
  'Adjacent quotes and escapes interact, also at the end of the text; tests parse a few example strings.',
  'deprecated', [('quotes', 'big/deprecated.py: split_quoted_strings'), ('delimiters', 'big/deprecated.py: parse_delimiters'), ('comments', 'big/deprecated.py: lines_strip_comments')], 'p_deprecated')
