#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

p("C01", "Visible width counts screen cells and ignores ANSI sequences",
  "The visible width the library gives a text (seen as the amount of padding and as column widths) is the sum of the cell widths of the user-perceived characters left after removing every ANSI sequence, capped at 65535. An ANSI sequence is ESC or U+009B, any of the characters [ ( ) # ; ?, optional semicolon-separated numbers of up to four digits, and one final character (a digit, A-O, R, Z, c, f-n, q, r, y, =, >, <); it counts as zero wherever it stands, and ordinary text always counts in full. The width never wraps around or becomes negative.",
  ["inputs", "configurations"], "every text over every code point, escape sequence, position of the sequence and text length, in both East Asian width settings",
  "Test_visualWidth samples 25 strings, all SGR sequences introduced by ESC at simple positions, all short; it says nothing about other sequences, the C1 introducer, long texts, marks next to sequences or East Asian mode",
  ["width.go", "runewidth/runewidth.go"],
  [("visualWidth / escape regexp", "width.go"), ("StringWidth", "runewidth/runewidth.go")],
  ["AlignmentLeft/Right/Center result", "Table.FormatItem followed by Table.Width"])
p("C02", "Alignment adds exactly the missing spaces on the correct side",
  "Aligning a text to a width yields the text unchanged, byte for byte, with max(0, width - visible width) spaces added: all after it for left, all before it for right, and split for center with the odd space in front. A text at least as wide as the target is returned as it is, whatever its length.",
  ["inputs"], "every text and every target width from 0 to 65535",
  "TestAlign uses one target width (11) and one visible width; other widths, parities, zero-width and over-long texts are unsampled",
  ["alignment.go", "width.go"], [("AlignmentLeft/Right/Center", "alignment.go")], ["return value of the alignment functions"])
p("C03", "Measured width depends on the text only, never on earlier measurements",
  "While the width configuration is unchanged, the visible width of a text is the same every time, whatever other texts were measured before, in whatever order and number, through any table or alignment function. In particular it is the same the first time, on repetition, and after more than ten thousand other distinct texts, and two different texts never share a result by accident.",
  ["histories", "inputs"], "every sequence of measurements, including ones long enough to fill and overflow any internal cache",
  "tests measure each string once from an almost empty cache; no test repeats, evicts, or mixes similar strings",
  ["width.go"], [("width cache in front of the measurement", "width.go")], ["alignment results", "Table.Width"],
  [{"name": "width cache", "meaning": "process-wide LRU of measured widths, capacity 10000", "where": "width.go"}])
p("C04", "A column's width is the running maximum of what it was given",
  "At any point a table's width for a column name equals the largest visible width among all cells it formatted successfully for that name and all widths merged into it explicitly, 0 if none, and never decreases. Widths belong to one table: other tables, including ones that share its column specification, neither see nor affect them. Cells produced before a later column of the same item failed may or may not count; nothing else does.",
  ["histories"], "every interleaving of formatting, failing, width merging and read-only operations on one or more tables",
  "no test constructs a table at all", ["table.go"], [("FormatItem, UpdateWidth, Width", "table.go")], ["Table.Width", "Table.FormatItem"],
  [{"name": "per-table column widths", "meaning": "map from column name to width", "where": "table.go"}])
p("C05", "Formatting an item yields one cell per column, in order, or the first error",
  "Formatting an item returns exactly one text per column, in column order, each obtained by that column's own getter from that item (the formatted form of the value it returned, or for basic formatting its plain string requested under the column's name, joined by the separator). If any getter step fails, the call returns the error of the first failing column and no cells. An item is never changed and no column is skipped, duplicated or given another column's value.",
  ["inputs", "fault_sequences"], "every number of columns and every combination of succeeding and failing getter steps",
  "FormatItem and FormatItemBasic have no tests", ["table.go", "table_iface.go"], [("FormatItem, FormatItemBasic", "table.go")], ["return values of FormatItem and FormatItemBasic", "arguments the getters receive"])
p("C06", "Aligning a formatted row pads each cell by its own column's rule and width",
  "Aligning a formatted row applies to each cell its own column's alignment with that column's current width, and leaves cells of columns without an alignment as they are. A row whose number of cells differs from the number of columns is rejected with an error and left untouched. Widths of the table are not changed by it.",
  ["inputs", "histories"], "every number of columns and cells, every mix of alignments (none, built in, custom), every width state",
  "AlignFormattedItem has no tests", ["table.go", "alignment.go"], [("AlignFormattedItem", "table.go")], ["return value of AlignFormattedItem", "arguments a custom alignment receives"])
p("C07", "The header fits its columns and shows the best title that fits",
  "The header line is, for each column in order, a cell followed by the separator, and then one newline. For a column of known width (above zero) the cell is exactly that many screen cells wide and holds, centered, the title if it visibly fits, else the short title if that fits, else nothing. For a column of width zero the cell is the bare title.",
  ["inputs", "histories"], "every combination of title, short title (any script, with or without ANSI sequences), column width and separator",
  "FormatHeader has no tests", ["table.go", "alignment.go"], [("FormatHeader and column header padding", "table.go")], ["return value of FormatHeader"])
p("C08", "Merged output contains every item exactly once, in reading order",
  "Merging rows writes every item of the list exactly once and nothing twice, with all its cells in column order. Horizontally, items run left to right and then line by line; vertically, they run down each group of lines and then to the next group on the right. With g items on the first line, every line but the last has g items horizontally and there are ceil(n/g) lines; vertically every line holds the items i, i+L, i+2L, ... for L lines; an empty list writes nothing.",
  ["inputs"], "every list length, column count, cell widths, separator, maximum width, both directions, compact or not",
  "MergeRowsHorizontal and MergeRowsVertical have no tests", ["horizontal.go", "vertical.go"], [("index arithmetic of the two merge functions", "horizontal.go, vertical.go")], ["bytes written to the output"])
p("C09", "Merged output is a grid: groups start at the same screen column on every line",
  "In merged output every cell is padded by its column's alignment (left if none) to one width per group and column, cells of an item are joined by one space, and groups on a line by exactly the separator; a line with fewer groups than the layout has ends in one separator. Not compact, these widths are the table's column widths; compact, they are either the table's column widths or, for each group and column, the widest cell that group really contains. So each group begins at the same screen column on every line.",
  ["inputs"], "every list, alignment mix, width state, separator, maximum width, both directions, compact or not",
  "no test renders a merged table", ["horizontal.go", "vertical.go", "alignment.go"], [("cell padding and joining", "horizontal.go, vertical.go"), ("per-group width computation", "horizontal.go, vertical.go")], ["bytes written to the output"])
p("C10", "Merged lines never exceed the maximum width when one row fits",
  "If the list was formatted by the table and a single row padded to the table's column widths fits the maximum width, no written line is wider than the maximum width in screen cells. Otherwise the layout puts one row on each line, unless compact mode finds one whose lines all fit. The limit is the given one, at least 0 and at most 65535.",
  ["inputs"], "every list, column widths, separator (including empty and multi-byte), maximum width up to and beyond the limits, both directions, compact or not",
  "no test renders a merged table; the failures live at arithmetic corners (separator shorter than the space between cells, 16-bit limits)", ["horizontal.go", "vertical.go", "table.go"], [("group count computation", "horizontal.go, vertical.go"), ("TableWidth", "table.go")], ["width of each written line"])
p("C11", "Merging packs as many rows per line as the width allows",
  "With a separator of plain ASCII text and not compact, the layout has the largest number of groups (at least one) whose padded rows and separators fit the maximum width. Compact starts from that number and adds groups one at a time while the groups, each only as wide as its own content, together with their separators still fit; it stops at the first number that does not fit or, vertically, would leave the last group without an item. Compact output therefore never has more lines than plain output.",
  ["inputs"], "every list, column widths, separator, maximum width, both directions",
  "no test renders a merged table", ["horizontal.go", "vertical.go"], [("group count computation", "horizontal.go, vertical.go"), ("compactCalcH, compactCalcV", "horizontal.go, vertical.go")], ["number of lines and items per line in the output"])
p("C12", "Merging always terminates and never crashes on its own",
  "With a working output, merging the rows of any table and any list whose rows have one cell per column returns after a bounded amount of work and does not panic: including tables without columns, columns of width zero or of the largest width, empty lists, empty cells, empty separators, and maximum widths that are zero, negative or beyond the largest. It then has written at most one line per item, each ended by a newline.",
  ["inputs", "configurations"], "every table shape, list and argument, including the extreme ones",
  "no test calls the merge functions; divisions by zero and endless searches appear only at the extremes", ["horizontal.go", "vertical.go", "table.go"], [("group count division, compact search loops", "horizontal.go, vertical.go")], ["return, panic or non-termination of the merge functions"])
p("C13", "A failing output is reported, never swallowed, and nothing is written after it",
  "If the output rejects a write at any point, the merge call does not return normally: it panics with the error the output gave, and makes no further write. The bytes accepted until then are a prefix of the bytes a working output would have received.",
  ["fault_sequences", "inputs"], "every position at which the output can fail, with or without accepting part of the data, both directions, compact or not",
  "no test uses a failing output", ["horizontal.go", "vertical.go"], [("error check after each line", "horizontal.go, vertical.go")], ["panic value", "writes made to the output"])
p("C14", "Rendering only reads: it changes no item, table, column or later result",
  "Merging rows, producing the header, basic formatting, aligning a text and asking for widths leave the list, the cells, the column specification and the table's widths as they were, and repeating any of them gives identical bytes, whichever of them ran in between. Formatting the same item again also yields the same cells.",
  ["histories"], "every sequence of rendering operations on every reachable table state",
  "tests never call two operations on the same table", ["horizontal.go", "vertical.go", "table.go", "alignment.go"], [("no writes to shared slices or maps on the rendering paths", "horizontal.go, vertical.go, table.go")], ["output bytes", "items and table state before and after"])
p("C15", "Separate tables and width functions are safe to use concurrently",
  "Goroutines that each use their own table, or only render from a shared one, or call the alignment, rune width, string width and segmentation functions, may run at the same time without synchronisation of their own. Every call returns what it would return alone: there is no data race, crash or deadlock under any schedule.",
  ["schedules"], "every interleaving of two or three goroutines performing such operations",
  "all tests are single-goroutine and none runs under a race detector with shared state", ["width.go", "table.go", "runewidth/runewidth.go"], [("process-wide width cache", "width.go")], ["results, data races, crashes and deadlocks"],
  [{"name": "width cache", "meaning": "process-wide, shared by all tables", "where": "width.go"}])
p("C16", "Every code point has one defined width, with or without the lookup table",
  "For every code point and each of the four settings (East Asian width, strict emoji) the rune width is 0, 1 or 2 as given by the published Unicode 13 data (control, formatting and combining characters 0; wide and fullwidth 2; ambiguous 2 in East Asian setting; neutral emoji 2 there when not strict; all else 1), and 0 for values that are no code point. Building the lookup table never changes an answer: after any sequence of setting changes and rebuilds that ends with a rebuild, and without any table, answers are those of the current settings, and one condition never affects another.",
  ["inputs", "configurations", "histories"], "all 1,114,112 code points, all settings, every sequence of setting changes and lookup table builds",
  "checksums cover strict mode from a fresh condition only; the not-strict setting, rebuild sequences and several conditions side by side are not covered", ["runewidth/runewidth.go", "runewidth/runewidth_table.go"], [("RuneWidth, CreateLUT", "runewidth/runewidth.go"), ("width tables", "runewidth/runewidth_table.go")], ["Condition.RuneWidth"])
p("C17", "Texts split into Unicode grapheme clusters, losing and inventing no byte",
  "Iterating over any string, valid UTF-8 or not, yields non-empty clusters whose concatenation is the string, split exactly where the Unicode 14 extended grapheme cluster rules GB1-GB13 and GB999 put a boundary. An invalid byte counts as one replacement character.",
  ["inputs"], "every string, every code point in every context",
  "the repository has no test of the segmentation package; a few emoji sequences are tested only through their width", ["runewidth/uniseg/graphemerules.go", "runewidth/uniseg/grapheme.go", "runewidth/uniseg/step.go", "runewidth/uniseg/graphemeproperties.go"], [("state machine over grapheme properties", "runewidth/uniseg/graphemerules.go"), ("property table and search", "runewidth/uniseg/properties.go")], ["Graphemes.Next and Graphemes.Runes", "StepString"])
p("C18", "A string's width is the sum of its clusters' widths",
  "For every string and setting the string width is the sum over its grapheme clusters of the width of the first code point in the cluster that has a non-zero width, or 0 if none has. The package-level function gives the answer of the default condition, and a lookup table changes nothing.",
  ["inputs", "configurations"], "every string over every combination of cluster class and rune width, all settings, with and without lookup table",
  "tests sample about a dozen strings", ["runewidth/runewidth.go"], [("StringWidth", "runewidth/runewidth.go")], ["Condition.StringWidth", "StringWidth"])
p("C19", "The environment decides East Asian width by one precedence and one rule",
  "RUNEWIDTH_EASTASIAN decides if it is not empty (on exactly for \"1\"); otherwise the first non-empty of LC_ALL, LC_CTYPE, LANG is the locale. A locale is East Asian exactly if its character set is one of jis, eucjp, euckr, euccn, sjis, cp932, cp51932, cp936, cp949, cp950, big5, gbk, gb2312, or UTF-8 (utf-8, utf8) with a language starting ja, ko or zh; the C and POSIX locales and any @cjk_narrow modifier are never East Asian, other modifiers are ignored, and case of the character set does not matter. (A locale is a language of two or three lower-case letters, an optional territory, a dot, a character set and an optional modifier; or a bare character set; or a language alone, which is never East Asian; any other text is read as a bare character set.) No other environment variable plays a part. At start-up the package setting, the default condition and the widths of ambiguous characters all follow this decision.",
  ["configurations"], "every combination of the four variables over every language, territory, character set and modifier form",
  "tests sample nine locale strings, never LC_ALL, never precedence between the variables, and never start-up", ["runewidth/runewidth.go", "runewidth/runewidth_posix.go"], [("handleEnv", "runewidth/runewidth.go"), ("IsEastAsian", "runewidth/runewidth_posix.go")], ["IsEastAsian", "EastAsianWidth and DefaultCondition after start-up", "string width of ambiguous characters"])
p("C20", "Stepping through a string can be resumed and reports each cluster's width",
  "Stepping cluster by cluster, passing on the returned rest and state, yields the same clusters as the iterator, and starting afresh at any cluster boundary yields the same remaining clusters and widths. The monospace width reported with a cluster is: for one code point 0 for control, CR, LF, extending characters and joiners, 2 for regional indicators, emoji-presentation pictographs, wide and fullwidth characters, 3 and 4 for the two- and three-em dash, else 1; for a longer cluster that of its first code point for Hangul leading consonants and regional indicators, for pictographs 2 (1 if its last member is the text selector U+FE0E), otherwise the sum over its code points, where U+FE0F sets the total so far to 2. An empty string yields nothing.",
  ["inputs", "histories"], "every string, every code point and every point of resumption",
  "the segmentation package has no tests", ["runewidth/uniseg/step.go", "runewidth/uniseg/width.go", "runewidth/uniseg/eastasianwidth.go", "runewidth/uniseg/emojipresentation.go"], [("StepString state packing", "runewidth/uniseg/step.go"), ("per-code-point monospace width", "runewidth/uniseg/width.go")], ["StepString"])
p("C21", "A specification keeps its columns in order, and the total width adds up",
  "After any sequence of additions a specification has exactly the added columns in order of addition, counts them, knows exactly their names, and finds under each name the column added last with it; tables on the specification see each addition at once, and a table made without one starts empty and usable. The total width of a table for a margin is the sum of its columns' widths plus one margin between neighbours, 0 without columns, capped at 65535.",
  ["histories", "inputs"], "every sequence of additions (repeated names included) and width updates, every margin",
  "no test builds a specification", ["table.go"], [("AddColumn, HasColumn, ColumnCount, TableWidth", "table.go")], ["TableSpec and Table methods"])

p("C22", "Every platform build decides by its own rule and then behaves the same",
  "On Windows the text setting is East Asian exactly if the console's output code page is 932, 51932, 936, 949 or 950 (not if it is unknown); other code pages and the locale variables play no part. In js and appengine builds it never is. On all of them RUNEWIDTH_EASTASIAN, if not empty, decides instead (on exactly for \"1\"). Given the same decision, every build (Windows, js, appengine, 64-bit and 32-bit) yields the same rune and string widths, clusters, alignment, table widths and rendered output.",
  ["configurations", "inputs"], "every code page, every value of the variables, every platform variant, every input",
  "the tests run on one platform only; the Windows, js and appengine files are not even compiled by them", ["runewidth/runewidth_windows.go", "runewidth/runewidth_js.go", "runewidth/runewidth_appengine.go", "runewidth/runewidth.go"], [("IsEastAsian of each platform", "runewidth/runewidth_windows.go, runewidth_js.go, runewidth_appengine.go"), ("handleEnv", "runewidth/runewidth.go")], ["IsEastAsian, EastAsianWidth and widths after start-up of each build", "results of the same calls in each build"])
p("C23", "A new condition copies the package settings and is independent from then on",
  "A condition made by NewCondition has the values the package variables EastAsianWidth and StrictEmojiNeutral have at that moment, and answers accordingly. Later changes to those variables do not affect it or the default condition, changing or building the table of one condition affects no other, and creating conditions changes no setting. Only the default condition decides the package-level string width.",
  ["histories", "configurations"], "every sequence of setting changes, creations and table builds on several conditions",
  "tests create a condition or change a variable once per test and never look at two conditions after a change", ["runewidth/runewidth.go"], [("NewCondition, DefaultCondition, package variables", "runewidth/runewidth.go")], ["Condition.RuneWidth, Condition.StringWidth, StringWidth, the exported fields and variables"],
  [{"name": "package settings and conditions", "meaning": "EastAsianWidth, StrictEmojiNeutral, DefaultCondition; flags and lookup table of each condition", "where": "runewidth/runewidth.go"}])
p("C24", "Cluster iterators keep their protocol and do not disturb each other",
  "An iterator gives no runes before the first Next and after the end; Next returns true exactly once for each cluster and false ever after; between two calls of Next asking for the runes any number of times gives the same. The runes handed out belong to the caller: they do not change later, and changing them changes nothing else. Iterators over the same or other texts, used in any interleaving, do not affect each other.",
  ["histories", "inputs"], "every interleaving of calls on several iterators over every text",
  "the segmentation package has no tests", ["runewidth/uniseg/grapheme.go", "runewidth/uniseg/step.go"], [("Graphemes.Next, Graphemes.Runes", "runewidth/uniseg/grapheme.go")], ["Graphemes.Next, Graphemes.Runes"],
  [{"name": "iterator state", "meaning": "position, current cluster, parser state", "where": "runewidth/uniseg/grapheme.go"}])
p("C25", "Header cells and aligned row cells stand in the same screen columns",
  "After any items have been formatted, for a table whose columns use the built-in alignments: each cell of an aligned row is exactly as wide, in screen cells, as its column, still holds its text, and for a column of width above zero the header's cell is exactly as wide too, whatever the titles. So a header and rows joined by the same separator line up column by column, however the formatting was interleaved with headers, merges and width updates.",
  ["inputs", "histories"], "every list of items, titles, alignments and separator, in both East Asian width settings",
  "no test prints a header next to a row", ["table.go", "alignment.go", "width.go"], [("FormatItem, AlignFormattedItem, FormatHeader agree on column widths", "table.go")], ["return values of FormatHeader and AlignFormattedItem"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
