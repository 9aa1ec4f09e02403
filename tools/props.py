#!/usr/bin/env python3
"""The property list; writes /verif/properties.jsonl."""
import json, os

P = []


def p(id, title, statement, over, text, tests, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    for f in files:
        assert os.path.exists("/repo/" + f), f
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})


NOE2E = "The unit tests cover helper functions on hand-written values; nothing runs the pipeline on a PDF (the end-to-end tests need TensorFlow and data that are not there), "

p("P01", "Every drawn glyph reaches the text output exactly once",
  "Every visible glyph that is drawn on a page and lies outside of separately clipped (figure) regions belongs to exactly one word, one text line and one text block of that page. The plain text output consists of exactly these glyphs' texts plus separators: no glyph is lost, duplicated, altered or invented, except that an accent drawn onto a base glyph is merged with it and the hyphen at a line end is dropped by dehyphenation.",
  ["inputs"], "all page contents: any positions, overlaps, rotations, font sizes, fonts, columns, page counts and drawing orders of the glyphs",
  NOE2E + "and glyph loss needs particular layouts (overlaps, rotated text, empty regions, mixed rotations).",
  ["src/PdfParsing.cpp", "src/WordsDetection.cpp", "src/PageSegmentation.cpp", "src/TextLinesDetection.cpp", "src/TextBlocksDetection.cpp", "src/ReadingOrderDetection.cpp", "src/serializers/PlainTextSerializer.cpp"],
  [("each stage re-partitions the elements of the page", "src/PdfToTextPlusPlus.cpp:process")],
  ["words/lines/blocks of the processed document", "output of --format txt"])

p("P02", "Extracted glyph attributes follow the PDF text state",
  "For each glyph shown by a page's content stream, the extracted text, position, bounding box, font, font size, rotation (0, 90, 180, 270 degrees) and stroking color are those that the PDF imaging model defines for the text state and transformation at that point, in device coordinates with one decimal. Glyphs are numbered (rank) in strictly increasing drawing order, with characters, shapes and images sharing one numbering that runs through the whole document, and only whitespace glyphs are skipped.",
  ["inputs", "programs"], "all sequences of text, font, matrix, save/restore, page rotation and color operators",
  NOE2E + "so the mapping from operator sequences to glyph attributes is never exercised.",
  ["src/PdfParsing.cpp", "src/PdfParsing.h"],
  [("drawChar computes the attributes from the graphics state", "src/PdfParsing.cpp:drawChar"), ("font infos are cached per font", "src/PdfParsing.cpp:updateFont")],
  ["characters of the processed document", "JSONL characters"])

p("P03", "Shapes, images and figures have the right boxes and grouping",
  "Each stroke or fill operation on a path that has points inside the clip yields exactly one shape whose box is the hull of these points, and each image whose area meets the inside of the clip yields exactly one graphic whose box is that area cut to the clip; others yield none, and all boxes are finite with minimum before maximum. Glyphs, shapes and images painted under a clip smaller than the page are collected into one figure per distinct clip box and do not enter the running text; everything else belongs to the page itself.",
  ["inputs", "programs"], "all sequences of path, paint, clip, image, save/restore and text operators",
  NOE2E + "so no test paints a path or an image or sets a clip.",
  ["src/PdfParsing.cpp", "src/PdfParsing.h"],
  [("stroke/fill/drawGraphic compute the boxes", "src/PdfParsing.cpp"), ("figures are keyed by their clip box", "src/PdfParsing.cpp:drawChar")],
  ["figures, shapes and graphics of the processed document"])

p("P04", "Glyphs are joined into words exactly by the documented word rules",
  "Taken in drawing order, a glyph starts a new word if and only if it is the first of the page, its rotation or writing mode differs from the previous glyph's, the horizontal gap on the page between it and the current word exceeds 0.15 times the largest font size in the word, or their vertical overlap is less than half the height of the lower one of both; otherwise it extends the current word. A word's text is the concatenation of its glyphs' texts in that order, and its font, size and box are those of its glyphs (the most frequent font and size).",
  ["inputs"], "all sequences of glyphs: positions, gaps, overlaps, sizes, rotations, writing modes, pages",
  "The unit tests feed a few hand-made glyph pairs to the overlap/gap helpers (and are not among the tests that build here); sequences, rotations and word attributes are not covered.",
  ["src/WordsDetection.cpp", "src/WordsDetection.h", "src/utils/WordsDetectionUtils.cpp"],
  [("word boundary decision", "src/WordsDetection.cpp:startsWord"), ("word attributes", "src/utils/WordsDetectionUtils.cpp:createWord")],
  ["words of the processed document"])

p("P05", "Accents are merged with the base glyph they are drawn on",
  "A diacritical mark glyph that overlaps neighbouring glyphs horizontally is merged into the one it overlaps most among the nearest non-mark glyphs before and after it in drawing order (in doubt, the following one): that base glyph then carries the composed character (base letter plus combining mark, in Unicode composed form) with a box that covers both, and the mark no longer appears by itself. A mark that overlaps no such glyph stays in the text as it is, and no glyph other than marks and their bases is changed.",
  ["inputs"], "all glyph sequences mixing letters and any diacritical marks, in any order and overlap",
  "There is no test of the merging; order of mark and base, ties and missing bases are combinatorial.",
  ["src/DiacriticalMarksMerging.cpp", "src/DiacriticalMarksMerging.h"],
  [("base selection and composition", "src/DiacriticalMarksMerging.cpp:process")],
  ["text of the words of the processed document"])

p("P06", "Page segmentation partitions the page along real gaps",
  "The segments of a page partition its words: each word outside of figures lies in exactly one segment and no segment is empty. Two neighbouring columns or stacked regions are separated only along straight horizontal or vertical gaps that no (or only the documented number of overlapping) elements cross, and words that follow each other on a line closely (a gap of at most the usual word distance) are never torn apart by a cut.",
  ["inputs"], "all arrangements of words, figures, images and shapes on a page",
  "The unit tests of the segmentation only check the creation of a segment from given elements.",
  ["src/PageSegmentation.cpp", "src/PageSegmentation.h", "src/utils/PageSegmentationUtils.cpp", "src/utils/XYCut.cpp"],
  [("recursive XY-cut with choice rules", "src/PageSegmentation.cpp:chooseXCuts/chooseYCuts")],
  ["segments of the processed document"])

p("P07", "Text lines collect exactly the words that stand on one line",
  "Within a segment, words of the same rotation that overlap vertically by at least the documented ratio (with a lower ratio for words that are close to each other horizontally) form one text line and others do not, so that each word is in exactly one line. For upright and upside-down text, the words of a line are ordered along the page's x-axis, the lines of a segment from top to bottom, and each line's text, box, font data, base line and previous/next links are derived from its words and that order.",
  ["inputs"], "all sets of words in a segment: positions, heights, rotations, superscripts, fractions, gaps",
  "Unit tests cover only helpers on hand-made lines; the grouping itself is not tested.",
  ["src/TextLinesDetection.cpp", "src/TextLinesDetection.h", "src/utils/TextLinesDetectionUtils.cpp"],
  [("clustering by rotation and lower y, merging by overlap", "src/TextLinesDetection.cpp")],
  ["text lines of the processed document"])

p("P08", "Sub- and superscripts are flagged by size and base line",
  "A glyph is flagged as subscript (superscript) if and only if its font size is smaller than the document's most frequent font size by more than the tolerance and its base line lies below (above) the base line of its text line by more than the tolerance. No glyph is flagged as both, and glyphs of the usual size are never flagged.",
  ["inputs"], "all lines with any mix of glyph sizes and base lines, for all rotations",
  "There is no test of the detection.",
  ["src/SubSuperScriptsDetection.cpp", "src/SubSuperScriptsDetection.h"],
  [("size and base comparison", "src/SubSuperScriptsDetection.cpp:process")],
  ["sub/superscript flags of the glyphs of the processed document"])

p("P09", "Text blocks are contiguous runs of lines split by the documented rules",
  "The text blocks of a segment partition its text lines into contiguous runs in line order, and each block's text, box, font data, margins and emphasis flag are derived from exactly its lines. A line starts a new block exactly when the documented rules say so: different rotation or writing mode, clearly different font size, a line distance clearly larger than expected or than the preceding one, the start of a new list item, a change of emphasis or of centering, or an indentation that signals a new paragraph, while lines of the same figure or continuing paragraphs stay together.",
  ["inputs"], "all sequences of text lines in a segment",
  "Unit tests cover the helper predicates on hand-made lines and blocks; the combination of rules and the resulting blocks are not tested.",
  ["src/TextBlocksDetection.cpp", "src/TextBlocksDetection.h", "src/utils/TextBlocksDetectionUtils.cpp"],
  [("rules for the start of a block", "src/TextBlocksDetection.cpp"), ("block attributes", "src/TextBlocksDetection.cpp:createTextBlock")],
  ["text blocks of the processed document"])

p("P10", "Blocks are put into natural reading order without losing any",
  "Determining the reading order permutes the text blocks of each page: none is lost, duplicated, changed or moved to another page. Columns that are separated by a vertical gap are read completely from left to right, blocks within a column from top to bottom, and content spanning the columns (title, wide figures and headings) is read before what lies below it and after what lies above it.",
  ["inputs"], "all arrangements of text blocks, roles, figures and shapes on a page",
  NOE2E + "and there is no unit test of the reading order (it does not even build here without TensorFlow).",
  ["src/ReadingOrderDetection.cpp", "src/ReadingOrderDetection.h", "src/utils/XYCut.cpp"],
  [("primary cuts, then recursive XY-cut", "src/ReadingOrderDetection.cpp")],
  ["order of the blocks in the plain text and JSONL output"])

p("P11", "Dehyphenation joins a hyphenated line end with the next line only",
  "When the last word of a text line ends with a hyphen and has more than one character, it is joined, without the hyphen, with the first word of the next non-empty line in reading order, and the plain text shows the joined word once, in place of the first part. No other word changes, no other text is lost, and nothing is joined when dehyphenation is disabled.",
  ["inputs", "configurations"], "all sequences of lines and words with hyphens in any position, across blocks and pages",
  "There is no test of dehyphenation.",
  ["src/WordsDehyphenation.cpp", "src/WordsDehyphenation.h", "src/serializers/PlainTextSerializer.cpp"],
  [("joining of hyphenated words", "src/WordsDehyphenation.cpp:process")],
  ["plain text output"])

p("P12", "Plain text output format",
  "The plain text output contains the text of the blocks in reading order: the words of a block separated by single blanks, the (possibly empty) texts of the blocks separated by one blank line, and a single newline at the end. It consists of nothing else, whatever the number of pages, blocks and lines and whatever the words contain; an accented glyph is written once, as its composed character.",
  ["inputs"], "all documents (pages, blocks, lines, words, joined words)",
  "No test covers the serializers.",
  ["src/serializers/PlainTextSerializer.cpp", "src/serializers/Serializer.cpp"],
  [("serializeToStream", "src/serializers/PlainTextSerializer.cpp")],
  ["plain text output"])

p("P13", "Extended plain text output format",
  "In the extended text format each block is preceded by its semantic role in capitals and square brackets and a blank, emphasized blocks then by the control character ^A, each page is followed by a line end and a form feed, and blocks are separated as in plain text (also across pages). Apart from these markers the text is that of the plain text format.",
  ["inputs"], "all documents (pages, blocks, roles, emphasis, joined words)",
  "No test covers the serializers.",
  ["src/serializers/PlainTextExtendedSerializer.cpp"],
  [("serializeToStream", "src/serializers/PlainTextExtendedSerializer.cpp")],
  ["output of --format txt-extended"])

p("P14", "JSONL output is valid JSON and complete",
  "Every line of the JSONL output is one syntactically valid JSON object, whatever characters, font names, coordinates and colors the document contains. For each requested unit there is exactly one line per element, in document order, carrying that element's page, box, text, font, size, color, role and rank values, and nothing of units or roles that were not requested.",
  ["inputs", "configurations"], "all documents and all selections of units and roles; any text and font name",
  "No test covers the serializers, and escaping faults need unusual characters.",
  ["src/serializers/JsonlSerializer.cpp", "src/serializers/JsonlSerializer.h", "src/utils/TextUtils.cpp", "src/PdfDocumentSerialization.h"],
  [("one serialize function per unit", "src/serializers/JsonlSerializer.cpp"), ("JSON escaping", "src/utils/TextUtils.cpp:escapeJson")],
  ["output of --format jsonl"])

p("P15", "Role and unit filters select exactly the requested content",
  "Restricting the output to a set of semantic roles outputs exactly the text of the blocks having one of these roles, in unchanged order and with unchanged content, in every output format, and an unfiltered run outputs all blocks; a word joined from two hyphenated parts counts to the block of its first part. Any two filtered outputs over complementary role sets together contain every block exactly once.",
  ["inputs", "configurations"], "all subsets of roles and units, for all documents",
  "No test covers filtering; there are 2^14 role sets.",
  ["src/serializers/PlainTextSerializer.cpp", "src/serializers/PlainTextExtendedSerializer.cpp", "src/serializers/JsonlSerializer.cpp", "src/PdfDocumentSerialization.cpp"],
  [("role test per block", "src/serializers/PlainTextSerializer.cpp")],
  ["outputs with --output-roles / --output-units"])

p("P16", "The result goes to the requested file or the run fails visibly",
  "If an output file is given, the complete result is written to exactly that path (its missing parent directories are created, an existing file is replaced) and to nothing else, whatever characters the path contains, and standard output stays empty; without one (or with \"-\") it goes to standard output. A run that could not read its input or could not write its output ends with a non-zero exit status and a message, never with success.",
  ["inputs", "fault_sequences", "configurations"], "all output paths (blanks, quotes, shell metacharacters, missing or unwritable directories), full devices, unreadable or damaged inputs",
  "No test runs the command line program or a serializer.",
  ["src/serializers/Serializer.cpp", "src/pdftotext++.cpp", "src/PdfDocumentVisualization.cpp"],
  [("opening of the output", "src/serializers/Serializer.cpp:serialize"), ("exit status", "src/pdftotext++.cpp:main")],
  ["files written", "exit status", "standard output and error"])

p("P17", "Command line options do what the help text says",
  "Every option is accepted in all its documented spellings and has exactly its documented effect, independent of the position and order of options, and options that are not given have their documented defaults (the reports and marks an option asks for are complete). Unknown options, invalid values and missing arguments are rejected with a message and a failure status without producing output; help and version requests succeed without an input file.",
  ["configurations"], "all combinations of options and values up to a bounded number of options",
  "No test runs the command line program.",
  ["src/pdftotext++.cpp", "src/Validators.cpp", "src/Config.h"],
  [("option table", "src/pdftotext++.cpp:main"), ("validators", "src/Validators.cpp")],
  ["exit status, standard output and error of the program"])

p("P18", "Output depends on the PDF only: not on logging, timing or earlier runs",
  "Processing the same PDF with the same options always gives byte-identical output, independent of log levels, log page filters and running-time reports, of documents processed before in the same process, of memory layout and contents, and of the environment (variables, working directory, name of the file).",
  ["histories", "configurations"], "all orders of processing several documents in a process, all log settings, all sets of skipped modules, layouts of memory, environments",
  "No test processes a document, let alone two.",
  ["src/PdfToTextPlusPlus.cpp", "src/PdfParsing.cpp", "src/utils/Log.cpp", "src/pdftotext++.cpp"],
  [("all state lives in the document", "src/PdfToTextPlusPlus.cpp:process")],
  ["output of repeated runs"])

p("P19", "Document and page statistics are those of the elements",
  "The statistics the layout rules rely on (most frequent font and font size, average glyph sizes, most frequent word height and distances between words and lines measured on the page, most frequent indentation, expected line distance per font size) equal the values computed from the document's glyphs, words and lines by their definition, over exactly the documented elements. They are defined and finite for every document, including ones with empty pages.",
  ["inputs"], "all documents, including empty pages, single elements, mixed sizes and rotations",
  "There is no test of the statistics.",
  ["src/GlyphsStatisticsCalculation.cpp", "src/WordsStatisticsCalculation.cpp", "src/TextLinesStatisticsCalculation.cpp"],
  [("process", "src/GlyphsStatisticsCalculation.cpp")],
  ["statistics fields of the processed document"])

p("P20", "Each block gets the role the prediction model rates highest",
  "For each page's blocks the model is given one feature row per block and fixed-size token rows, with values as defined for the features, in block order; each block gets a role with the highest score in its own answer row, for every answer the model can give, and the roles of several documents do not influence each other. The features are finite for every document, and the order of the tensors' rows is that of the pages and blocks.",
  ["inputs", "fault_sequences"], "all block configurations and all answers of the model",
  "The prediction does not build here without TensorFlow, so no test runs it.",
  ["src/SemanticRolesPrediction.cpp", "src/SemanticRolesPrediction.h"],
  [("feature tensors and arg max", "src/SemanticRolesPrediction.cpp:predict")],
  ["roles of the blocks", "tensors passed to the model"])

p("P21", "Byte pair encoding is the greedy merge encoding of the vocabulary",
  "Encoding a word appends the word delimiter and then repeatedly merges, at all of its occurrences, the leftmost adjacent pair of tokens whose concatenation is in the vocabulary, until there is none; the result is the sequence of the vocabulary indices of the resulting tokens, with unknown ones mapped to the unknown index, and a text's encoding is that of its whitespace-separated words, cut or padded to the target length. The result for a word does not depend on which words were encoded before.",
  ["inputs", "histories"], "all words over an alphabet, all vocabularies of bounded size, all orders of encoding words",
  "The unit test has a few fixed words (and is not run); merge order and caching are combinatorial.",
  ["src/utils/BytePairEncoder.cpp", "src/utils/BytePairEncoder.h"],
  [("encodeWord with cache", "src/utils/BytePairEncoder.cpp")],
  ["encodings"])

p("P22", "Embedded fonts never crash the program and give correct font data",
  "For every embedded Type 1 font program, well-formed or damaged at any byte, extraction finishes without crash, memory error or endless loop and the glyphs are still extracted. For well-formed ones the reported font name (without subset tag), weight (100 to 900: that of the font program's or the name's weight, else of the bold flag or the descriptor), bold, italic and type-3 classification are those of the font, and the boxes of its glyphs enclose the outlines that their charstrings draw.",
  ["inputs", "fault_sequences"], "all byte-level damages (truncations, byte changes) of small font programs, all charstring programs up to a length, all font names",
  "No test parses a font program.",
  ["src/utils/PdfFontInfoParser.cpp", "src/utils/PdfFontInfoParser.h", "src/PdfParsing.cpp"],
  [("Type 1 font file parser", "src/utils/PdfFontInfoParser.cpp")],
  ["processing result, font infos of the document"])

p("P23", "Log messages appear exactly when level and page filter admit them",
  "A log message is printed if and only if its level is at or above the logger's level and, when a page filter is set and the message belongs to a page, that page equals the filter; a printed message appears once, completely and in order, with its prefix. Changing level, filter or output affects later messages only.",
  ["histories", "configurations"], "all sequences of level, filter and output changes and messages up to a depth",
  "The unit tests check single messages at fixed settings.",
  ["src/utils/Log.cpp", "src/utils/Log.h"],
  [("stream selection", "src/utils/Log.cpp")],
  ["log output"])

p("P24", "The visualization is the input PDF plus one mark per requested element",
  "The visualization PDF has the pages of the input PDF, is a valid PDF that leaves the input file untouched, and shows the original content plus, for each requested kind of mark (units such as characters or blocks, reading order, cuts), exactly one mark per element at the element's position. It is only written when a path for it is given.",
  ["inputs", "configurations"], "all documents and selections of units and roles, all page sizes and origins",
  "No test creates a visualization.",
  ["src/PdfDocumentVisualization.cpp", "src/PdfDocumentVisualization.h"],
  [("drawing into the copied PDF", "src/PdfDocumentVisualization.cpp")],
  ["the written PDF file"])

p("P25", "Text helpers are exact for every string",
  "Stripping, splitting, escaping, delimiter and hyphen tests, shortening (bytewise) and wrapping (content-preserving, into lines no longer than the width unless a word is) of text return exactly the defined result for every string, including empty strings, strings of separators only and strings at length limits, without reading outside of the string. Escaped text can be restored to the original by a JSON parser.",
  ["inputs"], "all strings over a critical alphabet up to a length",
  "The unit tests have a handful of fixed strings.",
  ["src/utils/TextUtils.cpp", "src/utils/TextUtils.h"],
  [("text functions", "src/utils/TextUtils.cpp")],
  ["results of the functions", "JSONL strings"])

p("P26", "Frequency counters and their statistics are exact",
  "For every history of insertions, a counter's counts, total, most frequent value, least and greatest value and average are those of the multiset inserted so far, including negative and equal values; ties are broken consistently and queries on an empty counter are rejected as documented.",
  ["histories", "inputs"], "all sequences of insertions and queries up to a depth over a small alphabet",
  "The unit tests have fixed sequences.",
  ["src/utils/Counter.cpp", "src/utils/Counter.h"],
  [("counters", "src/utils/Counter.cpp")],
  ["results of the queries"])

p("P27", "Geometry, comparison and arithmetic primitives are exact and symmetric",
  "Overlap lengths and ratios, signed gaps (positive between disjoint boxes, negative for overlapping ones, along the reading direction of the rotation), containment, tolerant comparisons, rounding and the element orderings give the values of their definitions for every pair of boxes (touching, nested, disjoint, empty, any rotation). Symmetric notions are symmetric, orderings are strict weak orders, and ratios lie between 0 and 1.",
  ["inputs"], "all pairs (triples) of boxes on a grid, all rotations, all values around tolerances",
  "The unit tests have single examples per function.",
  ["src/utils/PdfElementsUtils.cpp", "src/utils/MathUtils.cpp", "src/utils/MathUtils.h", "src/utils/Comparators.h"],
  [("overlap functions", "src/utils/PdfElementsUtils.cpp"), ("comparators", "src/utils/Comparators.h")],
  ["results of the functions"])

p("P28", "Damaged PDF files never crash or hang the program",
  "For every truncation and every local damage of a PDF file, processing ends, without crash or memory error, either with an error code and no result or with a result that is consistent in itself. Intact pages before the damage of one page keep their text when the file can still be opened.",
  ["fault_sequences", "inputs"], "truncation at every byte, deletion, duplication or replacement at every position of small PDF files; empty and non-PDF files",
  "No test opens a PDF file.",
  ["src/PdfToTextPlusPlus.cpp", "src/PdfParsing.cpp", "src/pdftotext++.cpp"],
  [("error code of the PDF library", "src/PdfToTextPlusPlus.cpp:process")],
  ["exit status", "result"])

p("P29", "The extracted document is a consistent hierarchy",
  "In every result, each element refers to its page and to the line, block or segment that contains it, boxes are finite and each element's box encloses those of its parts. Previous/next links of lines (within a block) and of blocks (within a page) are inverse to each other and follow the order in which they were detected, and ranks and page numbers count up without gaps.",
  ["inputs"], "all documents",
  NOE2E + "so the invariants of results are never checked.",
  ["src/Types.h", "src/utils/WordsDetectionUtils.cpp", "src/TextLinesDetection.cpp", "src/TextBlocksDetection.cpp", "src/PageSegmentation.cpp", "src/utils/PageSegmentationUtils.cpp"],
  [("element creation in each stage", "src/TextBlocksDetection.cpp:createTextBlock")],
  ["processed document"])

p("P30", "Limits of sums, products and the like are attached to their operator",
  "A word whose font size is smaller by more than the tolerance, drawn directly before or after (in a contiguous run) an operator word (sum, product, sup, lim and the like) and overlapping it horizontally, becomes part of the operator's word, so that it does not form a word or line of its own. All other words stay words of their own, each word belongs to at most one operator, and no glyph is duplicated or lost.",
  ["inputs"], "all sequences of operator words and neighbours with any sizes and overlaps",
  "There is no test of it.",
  ["src/WordsDetection.cpp", "src/TextLinesDetection.cpp"],
  [("merging of stacked symbols", "src/WordsDetection.cpp:mergeStackedMathSymbols")],
  ["words and lines of the processed document"])

p("P31", "Line and block layout features are those of the layout",
  "A line's indents, margins and its parent and sibling lines, and a block's features (centered, emphasized, hanging indent, list items) are determined by the positions, fonts and texts of the lines involved exactly as documented. Features do not depend on absolute position on the page, on other blocks, or on the order of queries.",
  ["inputs"], "all small arrangements of lines in a block: indents, capacities, item labels, fonts",
  "The unit tests have one or two hand-made examples per predicate.",
  ["src/utils/TextLinesDetectionUtils.cpp", "src/utils/TextBlocksDetectionUtils.cpp"],
  [("predicates", "src/utils/TextBlocksDetectionUtils.cpp")],
  ["features of the lines and blocks of the processed document"])

p("P32", "XY-cuts separate elements along maximal gaps",
  "Cutting a set of boxes vertically or horizontally yields groups that partition the set: each element is in exactly one group, groups are ordered in cut direction, and a cut is made exactly at the gaps of at least the given width that are offered to and accepted by the choice function, where at most the given number of overlapping elements may cross. Cutting terminates and, when no overlapping elements are allowed, gives the same groups for every input order of the elements.",
  ["inputs"], "all sets of up to a few boxes on a grid, all thresholds and all answers of the choice function",
  "There is no test of the cuts.",
  ["src/utils/XYCut.cpp", "src/utils/XYCut.h"],
  [("xCut, yCut, xyCut", "src/utils/XYCut.cpp")],
  ["groups"])

p("P33", "Named glyphs and ligatures are written out as the characters they stand for",
  "A glyph whose name is in the program's table of special symbols (big delimiters, operators, arrows, ...) is output as the character it stands for, even when the font maps it to a different single character. A glyph that the font maps to several characters (such as a ligature) is output as all of them in order, and every other glyph as the Unicode text the font defines.",
  ["inputs"], "all glyph names, encodings and ToUnicode maps of small fonts",
  NOE2E + "and the table has more than a hundred entries.",
  ["src/utils/CharMap.h", "src/PdfParsing.cpp"],
  [("name table", "src/utils/CharMap.h")],
  ["text of the glyphs"])

p("P34", "The fixed-capacity queue keeps and delivers exactly the documented values",
  "For every sequence of insertions and removals, the bounded priority queue never holds more than its capacity, delivers its values in its order, and, when it is full, an insertion replaces exactly the value at the top; nothing else is ever lost.",
  ["histories"], "all sequences of operations up to a depth, all capacities up to a bound",
  "The unit tests have fixed sequences.",
  ["src/utils/FixedCapacityPriorityQueue.h"],
  [("push with replacement", "src/utils/FixedCapacityPriorityQueue.h")],
  ["results of top and pop"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
    print(len(P))
