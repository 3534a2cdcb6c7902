"""One line per property for DESIGN.md: what the real code is compared with."""
ORACLE = {
 'H01': 'a reference list kept sorted by the harness; after every operation length, membership, minimum and the multiset of values must agree.',
 'H02': 'indexing and slicing of the sorted list of the values (values symbolic, index and slice fields symbolic or every small value).',
 'H03': 'a version counter of the reference: iteration either yields the snapshot in order or raises RuntimeError exactly when an operation changed the heap.',
 'V01': 'a PEP 440 comparison written from the specification (not from the code) on the field values.',
 'V02': 'the field values the version was built from; parsing is done by the real parser.',
 'V03': 'templates derived from the PEP 440 grammar, and for arbitrary text the round trip and ASCII normal form.',
 'I01': 'a stack in front of a list.',
 'S01': 'linear search for the first event by (time, priority, sequence) over the live events; a model regulator whose clock and sleeps are symbolic.',
 'S02': 'as S01, over all interleavings: every event delivered once, at model time not later than needed, no deadlock.',
 'G01': 'reachability over the symbolic edge set; node identities are symbolic, so aliasing of nodes is decided by the solver.',
 'G02': 'a naive reference view recomputed from scratch from the edge set, the yielded and the done set.',
 'T01': 'a reference state machine written from the documentation that records the expected log.',
 'T02': 'the recorded call.',
 'B01': 'the class tree written down once in the harness: expected constructor chain, identity and isinstance relations.',
 'N01': "Python's own int() and float() (modelled symbolically for text), with the documented preference.",
 'X01': "a naive left-to-right (or right-to-left) scanner written from the documentation; Python's own split, splitlines and strip (modelled symbolically).",
 'X02': "the same naive scanner; Python's partition and rpartition for one separator; strip conditions stated directly on the result.",
 'X03': "a quadratic right-to-left search over all start positions and, forwards, Python's own finditer (both through the symbolic model of re).",
 'X04': "declarative rules on neighbouring characters (which positions are capitalized, which are cuts), Python's isspace, isupper, islower and upper modelled for all of Unicode.",
 'X05': 'a greedy wrapper written from the documentation, plus the margin condition stated directly on the result.',
 'Q01': 'a character-by-character quote scanner written from the documentation.',
 'Q02': 'a character-by-character stack parser written from the documentation.',
 'L01': 'a naive line cutter, one documented remainder function per modifier composed along the chain, and a column counter.',
 'L02': 'one predicate per filter on the text of each line; order and stability stated directly on the result.',
 'L03': 'a character-by-character scanner with a quote state, written from the documentation.',
 'L04': 'a stack of columns.',
 'X06': 'a line-by-line parser written from the documentation.',
 'X07': 'a layout simulation written from the documentation: which lines do not fit, which lines pause the later columns.',
 'X08': 'a second splitter into paragraphs and a reader of the wrapped lines, both written from the README; the function itself applied twice.',
 'N02': 'a speller of numbers from groups of digits; the words of the counts are symbolic tokens, so one step covers every count (induction on the size of the number).',
 'F01': 'lines cut from the decoded contents by the harness, membership by naive search; the file itself is a model with symbolic contents (a real file when replaying).',
 'F02': 'a model file system in which the kind of path and parent is symbolic (a real scratch directory when replaying), and the directory current at entry.',
 'F03': 'the lists of allowed characters of each file system; replacement must be character by character.',
 'P01': 'the list of events the harness recorded with the same symbolic clock; times formatted from quotient and remainder by 10**9.',
 'D01': 'arithmetic on the symbolic instant and offsets; datetime, time and calendar are replaced by a model that keeps them (the real ones when replaying, with TZ set to the local zone).',
 'Z01': 'character-by-character scanners written from the documentation.',
 'E01': 'the same function on the str form of the same symbolic text: results must be equal after encoding, with bytes everywhere.',
 'E02': 'the object with each string replaced by str.encode of it, built by the harness.',
 'E03': 'str.isspace, bytes.isspace and splitlines of a symbolic character (pair).',
 'B02': 'the attributes of the wrapped class itself, compared one by one.',
 'E04': 'the documented conditions, written as one formula over the symbolic markers (some marker is empty, two are equal, an opener equals a closer) or over the position of the wrong type.',
 'E05': 'the same function on the plain text (whose results the other properties pin), and the exact type of every string in the result.',
 'U01': 'the same call made first in a fresh copy of the module.',
}
