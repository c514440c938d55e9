"""the properties: one entry per line of properties.jsonl, plus what MANIFEST.json says about the check"""


def A(files, mech, observe=None):
    d = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        d["observe_at"] = observe
    return d


PARSER = "layout/src/gv/parser/parser.rs"
LEXER = "layout/src/gv/parser/lexer.rs"
AST = "layout/src/gv/parser/ast.rs"
BUILDER = "layout/src/gv/builder.rs"
RECORD = "layout/src/gv/record.rs"
SVG = "layout/src/backends/svg.rs"
VG = "layout/src/topo/layout.rs"
DAGF = "layout/src/adt/dag.rs"
MAPF = "layout/src/adt/map.rs"
SHAPES = "layout/src/std_shapes/shapes.rs"
RENDER = "layout/src/std_shapes/render.rs"
COLOR = "layout/src/core/color.rs"
PLACE = "layout/src/topo/placer/place.rs"
BK = "layout/src/topo/placer/bk.rs"
SIMPLE = "layout/src/topo/placer/simple.rs"
UTILS = "layout/src/core/utils.rs"
CLI = "src/bin/layout.rs"
EFIX = "layout/src/topo/placer/edge_fixer.rs"
AI = "abstract interpretation of the compiler's MIR"

PLT = AI + " on lowered graphs with symbolic sizes, halos and gaps; coordinates proved with max-plus bounds"
PLN = "Bounded in the graphs (about 150, including random ones of up to seven nodes) and, for the alignment pass, in the places it starts from; complete in the sizes. Floats are treated as reals, and the outcome of the edge fixer's intersection tests is scripted. Only a valuation of the sizes that breaks the bound raises an alarm."

PROPS = [
    {"id": "P01", "title": "Every text is answered: parsing ends, with a graph or an error, and never fails",
     "statement": "For every text, DotParser::new and process return, either a Graph or an Err; they never panic (no index outside the text, no unwrap of nothing, no parsing on after an error or after the end of the text) and never go on for ever: each loop and each recursion of the lexer and the parser reads on in the text before it comes back to where it was. "
                  "After an Err, print_error can show the error without failing, wherever in the text it is (an error on the first character, on the last line, or at the end of the text included).",
     "quantifier": {"over": ["inputs"], "text": "all texts, cut off anywhere; all token sequences; every position of the error (the depth of nesting is bounded by the stack, which is not part of the statement)"},
     "why_tests_cant": "The tests parse well-formed files. A text that is cut off inside a comment, a string, an attribute list or after an escape character is met by the first user who saves a half-written file, and there is one such text per position of every file.",
     "anchors": A([LEXER, PARSER], [("one character of look-ahead, NUL as end of the text", LEXER), ("lex() refuses to go on after an error or the end", PARSER), ("print_error walks the text to the line of the error", LEXER)], ["return of DotParser::process and print_error"]),
     "technique": AI + " with every panic edge and every return to an earlier state (loop or recursion without reading) as an alarm",
     "level_note": "All paths of the lexer over arbitrary text and of the parser over arbitrary tokens, to a fixpoint, for panics; endless loops are found where a loop or recursion comes back to exactly the state it was in (unrolled two to forty times), which is a bug finder and not a termination proof. Arithmetic that overflows only for texts of more than 2^63 characters is ignored."},
    {"id": "P02", "title": "Parsing accepts the supported DOT grammar and loses nothing of it",
     "statement": "Parsing a text succeeds exactly when its token sequence is derivable in the DOT subset that the parser documents (graph header, statement list, node, edge, attribute and subgraph statements, attribute lists, ports). "
                  "The syntax tree of an accepted text contains every statement, node id, port, arrow kind, attribute name and value of the text, in the order of the text and nested as in the text, and nothing else.",
     "quantifier": {"over": ["inputs"], "text": "all token sequences, of any length and nesting"},
     "why_tests_cant": "The tests parse some twenty hand-written graphs; the language is infinite, and the interesting cases are combinations (a port before a chain before an attribute list inside an anonymous scope) that no test holds.",
     "anchors": A([PARSER, AST], [("recursive-descent parser with one token of lookahead", PARSER), ("syntax tree constructors", AST)], ["the Graph returned by DotParser::process"]),
     "technique": AI + " in lock-step with a reference pushdown automaton (fixpoint over loops, induction over nesting)",
     "level_note": "Every path of the parser over an arbitrary token stream is compared with a reference grammar that also builds the tree; trusts the MIR export, the abstract interpreter and its model of the standard library. Constructs outside the model are listed as undecided in the evidence and do not raise alarms."},
    {"id": "P03", "title": "Lexing yields exactly the documented tokens with their exact text",
     "statement": "For every text, the sequence of tokens is the one of the reference tokenisation: white space and comments (to the end of the line, or to the closing star-slash) separate tokens and produce none, punctuation, arrows and keywords yield their own token, and names, numbers and quoted strings yield an identifier with exactly their text, with escapes in quoted strings replaced. "
                  "A character that starts no token, and a quoted string that is never closed, yield an error token; the end of the text yields end-of-file.",
     "quantifier": {"over": ["inputs"], "text": "all texts (sequences of Unicode scalar values other than NUL), tokens at every position"},
     "why_tests_cant": "The lexer has no tests of its own besides a few graphs that happen to parse; comments ending at the end of the file, doubled escapes, stars inside comments or digits after a minus are each one of infinitely many texts.",
     "anchors": A([LEXER], [("next_token dispatch, skip_whitespace, skip_comment, read_identifier, read_number, read_string", LEXER)], ["the tokens returned by Lexer::next_token"]),
     "technique": AI + " in lock-step with a reference tokeniser automaton, to a fixpoint",
     "level_note": "Every path of the tokeniser over an arbitrary text is compared with a reference automaton, loops to a fixpoint; trusts the MIR export, the abstract interpreter and its model of the standard library (undecided paths are listed in the evidence and raise no alarm)."},
]

SVGA = lambda *m: A([SVG], [(x, SVG) for x in m], ["SVGWriter::finalize and the RenderBackend methods of SVGWriter"])
LN = "trusts the MIR export, the abstract interpreter and its model of the standard library; floats are treated as reals in linear comparisons. Constructs outside the model are listed as undecided in the evidence and raise no alarm."
PROPS += [
    {"id": "P04", "title": "A parse error is shown at its place",
     "statement": "After process has returned an Err, print_error prints the text up to the end of the line on which reading stopped, and below it exactly one marker (^), and nothing after it. "
                  "The marker stands under the first token that the grammar does not allow there (under its last character, or right before it), whatever line and column that is: on the first line and any later one, at the end of a line, on a last line that has no line end, and at the end of the text.",
     "quantifier": {"over": ["inputs"], "text": "all texts that do not parse; every line and column at which reading can stop"},
     "why_tests_cant": "The tests call print_error and look at nothing: it had printed its marker at the end of the line, or not at all, and every test passed. Which line and column are meant differs with every text.",
     "anchors": A([LEXER, PARSER], [("print_error walks the text and counts columns", LEXER), ("read_char keeps one character of look-ahead", LEXER), ("to_error is returned before the wrong token is stepped over", PARSER)], ["standard output of DotParser::print_error"]),
     "technique": AI + ", with standard output as a string of the abstract domain",
     "level_note": "Bounded: every pattern of line ends and arbitrary letters of up to four characters (longer ones at random) with every place, and some thirty whole texts with arbitrary letters in their names; complete in the letters. Columns are counted in characters."},
    {"id": "T01", "title": "The printed tree shows the whole tree",
     "statement": "dump_ast prints every part of a syntax tree once and in the order of the tree: the name of each graph and scope, each node name with its port, each arrow with its kind, the target of each attribute statement, each attribute name with its value. "
                  "The line of an inner scope stands further to the right than the one of the scope around it. print_record likewise prints every field of a record with its port behind it, and brackets around each group. Neither fails, however deep and long the tree.",
     "quantifier": {"over": ["inputs"], "text": "all syntax trees"},
     "why_tests_cant": "No test looks at what is printed; a tree is what a user reads to see how the text was understood, and a part that is left out or shown twice matters for exactly the trees that have it.",
     "anchors": A(["layout/src/gv/parser/printer.rs", RECORD], [("print_record", RECORD), ("dump_ast and the function per kind of statement", "layout/src/gv/parser/printer.rs")], ["standard output of dump_ast"]),
     "technique": AI + ", with standard output as a string of the abstract domain",
     "level_note": "Bounded in the shape of the trees (over two hundred random ones, scopes nested up to twenty-one deep), complete in their strings; the wording and the exact indentation are free."},
    {"id": "C01", "title": "The work does not double with each part of the input",
     "statement": "The work done for an input grows with a small power of its size, and never exponentially: reading and parsing a text, building a graph from nested scopes, searching and checking the graph for paths and cycles, ranking and lowering it, parsing, measuring and drawing nested records, finding the place of a port in them, printing a tree. "
                  "So a chain of diamonds of a hundred nodes, or a record nested thirty deep, is answered at once and does not hang the program.",
     "quantifier": {"over": ["inputs"], "text": "all texts and graphs; in particular those with exponentially many paths, and deeply nested ones"},
     "why_tests_cant": "The graphs of the tests are small: a search that walks every path separately takes no time on them (it was so here: twenty-five diamonds in a row took minutes, and every test passed).",
     "anchors": A([DAGF, PARSER, RECORD, RENDER], [("is_reachable_inner marks what it has seen", DAGF), ("topological_sort", DAGF), ("get_record_size, visit_record", RENDER)], ["return of each of these functions"]),
     "technique": AI + ", counting the basic blocks on the path of a call",
     "level_note": "Not a proof of a bound: each function is interpreted on one family of shapes that makes naive recursion double, at two sizes (4 and 12), and the growth of the work must stay below a power of 3.3 (lowering: 4.1). The placement is not included, and the optimiser of crossings only with narrow rows. Lengths of library calls (copies, insertions) count as one."},
    {"id": "S01", "title": "Label text is escaped and appears in the SVG exactly as given",
     "statement": "For every label, the text the SVG writer emits for it (node text, lines of multi-line text, arrow labels) decodes, under the XML rules, to exactly the characters of the label in their order: `<`, `>`, `&` and quotes never reach the document as markup, nothing is dropped and nothing is added, and escaping is applied once.",
     "quantifier": {"over": ["inputs"], "text": "all label strings, for every drawing call that takes one"},
     "why_tests_cant": "No test draws a label with a markup character; escaping must be right for every string, in every place a label is emitted.",
     "anchors": SVGA("escape_string, draw_text, draw_arrow"),
     "technique": AI + "; emitted markup parsed with symbolic holes, escaper compared with a reference transducer to a fixpoint",
     "level_note": "Every path of the drawing calls over an arbitrary label; " + LN},
    {"id": "S02", "title": "The SVG document is well-formed and holds every drawn piece once",
     "statement": "For every sequence of drawing calls the finalized text is one well-formed XML document whose root is an svg element: every element is closed, no attribute occurs twice in a tag, attribute values are quoted, and all text is in element content. "
                  "The pieces the drawing calls emitted appear in the document once, in the order of the calls, and the definitions they need (styles, clips, arrow markers) appear with them. (The raw `properties` string is the caller's, and is trusted to be attributes.)",
     "quantifier": {"over": ["inputs", "histories"], "text": "all sequences of drawing calls with any finite arguments"},
     "why_tests_cant": "No test parses the output; a branch that leaves a tag open, or forgets the definitions when there is no text, shows only for that sequence of calls.",
     "anchors": SVGA("draw_rect, draw_circle, draw_line, draw_text, draw_arrow, create_clip, finalize"),
     "technique": AI + "; what each call appends to an arbitrary writer is parsed as an XML fragment with symbolic holes",
     "level_note": "One call on an arbitrary writer plus finalize of an arbitrary writer (induction over the history); " + LN},
    {"id": "S03", "title": "SVG ids are unique and every reference and class resolves",
     "statement": "In every finalized document the ids of elements are unique, every url(#id) or href=\"#id\" reference names an id that is defined in the document and is of the right kind (a clip path for clip-path, a path for textPath, a marker for marker-start/-end), a clip handle refers to the clip it was returned for, and every class an element uses has a style rule that carries the font size of the call that used it.",
     "quantifier": {"over": ["inputs", "histories"], "text": "all sequences of drawing calls"},
     "why_tests_cant": "A reused id or a missing rule needs two particular calls in one document (the second clip, the second label of another size); no test has them.",
     "anchors": SVGA("create_clip, draw_arrow (arrow ids), get_or_create_font_style, finalize"),
     "technique": AI + "; symbolic difference of the writer before and after each call, references resolved on the parsed fragments",
     "level_note": LN},
    {"id": "S04", "title": "Everything drawn lies inside the SVG view box",
     "statement": "After every drawing call, the view box of the finalized document contains the geometry the call emitted (corner and size of rectangles, centre and radii of ellipses, both ends of lines, every on-curve and control point of arrows, the anchor of text), and everything the earlier calls emitted: the view box never shrinks.",
     "quantifier": {"over": ["inputs", "histories"], "text": "all sequences of drawing calls with coordinates in the non-negative quadrant"},
     "why_tests_cant": "No test looks at the view box; the bound must hold for whichever call has the extreme coordinate.",
     "anchors": SVGA("grow_window, the drawing methods, finalize"),
     "technique": AI + "; view box and drawn coordinates compared as maxima of exact linear forms",
     "level_note": LN},
    {"id": "S05", "title": "Each SVG element carries the requested geometry and style",
     "statement": "Each drawing call emits its one element with exactly the requested position, size, path, fill and line colour, line width, corner radius, clip, dash pattern, arrow heads, label and caller properties: in no combination of arguments is one of them dropped, doubled or taken from another argument.",
     "quantifier": {"over": ["inputs"], "text": "all arguments of all drawing calls, from an arbitrary writer state"},
     "why_tests_cant": "The combinations (dashed and both heads and properties; rounded and clipped and unfilled) are many, numbers and colours unbounded, and no test reads the markup.",
     "anchors": SVGA("draw_rect, draw_circle, draw_line, draw_text, draw_arrow"),
     "technique": AI + "; exact symbolic terms of every emitted attribute compared with the call's arguments",
     "level_note": LN},
]

BW = AI + " of the builder on families of syntax trees with symbolic names and values, compared with a reference reading"
BN = "Bounded in the shape of the statement list (nesting to three or four scopes, lists of a few statements), unbounded in names and values; " + LN
BA = lambda *m: A([BUILDER, MAPF], [(x, MAPF if "Scoped" in x else BUILDER) for x in m], ["the elements and arrows of the VisualGraph that GraphBuilder::get returns"])
PROPS += [
    {"id": "S06", "title": "Drawing never fails, whatever the numbers and texts",
     "statement": "For every state of the SVG writer and all arguments (positions and sizes of any value, font sizes, line widths and corner radii over the whole range of their type, empty, multi-line and special texts, arrows of two or more points), each drawing call, create_clip and finalize return: they do not panic, and no integer arithmetic on a number of the caller leaves the range of its type (which panics in debug builds and gives a wrong picture in release builds).",
     "quantifier": {"over": ["inputs"], "text": "all writer states, all arguments of the drawing calls; texts of up to three characters of every class"},
     "why_tests_cant": "The font size comes from the DOT text and may be any 64-bit number; the tests use the default one.",
     "anchors": A([SVG], [("draw_rect, draw_circle, draw_line, draw_text, draw_arrow, create_clip, finalize", SVG)], ["return of the drawing call"]),
     "technique": AI + " on symbolic arguments; interval analysis of checked integer operations", "level_note": "Paths of all calls; overflow is decided by intervals (caller's numbers over their type, lengths and counters below 2^40). Texts are sampled by character class. Trusts the model of the standard library."},
    {"id": "B01", "title": "Attribute statements are scoped like the DOT text says",
     "statement": "An attribute statement applies to the nodes and edges stated after it in its scope and in the scopes nested in it, inner values win over outer ones and later ones over earlier ones, and nothing of a scope remains after its end. A node or edge stated before the statement is not changed by it.",
     "quantifier": {"over": ["inputs"], "text": "all statement lists (any nesting and order of scopes, attribute, node and edge statements)"},
     "why_tests_cant": "Two unit tests exercise the scoped map alone; leaks out of a scope, or over to an earlier node, need particular orders of statements over several scopes.",
     "anchors": BA("visit_graph, visit_stmt, visit_att", "ScopedMap push, pop, flatten, insert"),
     "technique": BW, "level_note": BN},
    {"id": "B02", "title": "Attributes reach only the kind of object they were stated for",
     "statement": "Values of a `node` statement reach nodes only, those of an `edge` statement edges only, those of a `graph` statement the graph only; the attribute list of a node or edge statement applies to that node, or to all hops of that edge chain, and to nothing else, and wins over the defaults.",
     "quantifier": {"over": ["inputs"], "text": "all statement lists with attributes of all three targets"},
     "why_tests_cant": "No test builds a graph with the three targets and own lists together and looks at what each element received.",
     "anchors": BA("visit_att, visit_node, visit_edge, get"),
     "technique": BW, "level_note": BN},
    {"id": "B03", "title": "One element per distinct node name, in order of first mention",
     "statement": "The visual graph holds exactly one element per distinct node name mentioned anywhere in the text (node statement, edge end, nested scope), created in the order of first mention, however often and wherever the name recurs; its label is the label attribute or else the name.",
     "quantifier": {"over": ["inputs"], "text": "all statement lists, all repetitions of names"},
     "why_tests_cant": "No test repeats nodes over statements and scopes and counts the elements; order follows a hash map if the code is careless, which shows only in some runs.",
     "anchors": BA("init_node_with_name, get"),
     "technique": BW + "; hash maps walked in opposite orders", "level_note": BN},
    {"id": "B04", "title": "Every hop of every edge statement becomes one arrow with its ends",
     "statement": "Each hop of each edge statement, self loops and repeated edges included, becomes exactly one arrow, in order, from the element of the left name to that of the right name, with the port written at each of the two mentions, a head exactly for `->`, and the attributes of the statement.",
     "quantifier": {"over": ["inputs"], "text": "all edge chains, ports and arrow kinds"},
     "why_tests_cant": "A chain whose middle node has a port, or the same edge twice, is in no test, and no test looks at the arrows of the visual graph.",
     "anchors": BA("visit_edge, get, get_arrow_from_attributes"),
     "technique": BW, "level_note": BN},
    {"id": "B05", "title": "Each attribute sets the documented field and malformed values are ignored",
     "statement": "label, shape, color, style, fillcolor, fontsize, width, penwidth and rankdir set the documented part of the element, arrow or graph (with the documented defaults and combinations), any other attribute changes nothing, and a number that does not parse leaves the default: no value makes the builder fail.",
     "quantifier": {"over": ["inputs"], "text": "all attribute names and values, and pairs of them"},
     "why_tests_cant": "The attributes interact in pairs (style and fillcolor, shape and label) and the values are arbitrary strings; no test checks the resulting element.",
     "anchors": BA("get_shape_from_attributes, get_arrow_from_attributes, normalize_color"),
     "technique": BW, "level_note": BN},
    {"id": "R01", "title": "Record labels parse to their nested fields, and never fail",
     "statement": "A record label with balanced braces yields exactly its fields in order, nested as its braces nest, each with its trimmed text and its `<port>`; blank fields are dropped. No label, balanced or not, makes the record parser fail.",
     "quantifier": {"over": ["inputs"], "text": "all label strings"},
     "why_tests_cant": "The test-suite parses two record labels and asserts nothing about ports; an opening angle bracket without its partner or nested empty braces are among infinitely many labels.",
     "anchors": A([RECORD], [("RecordParser::parse, split_label_to_text_and_port, finalize_label", RECORD)], ["the RecordDef of parse_record_string"]),
     "technique": AI + " over every pattern of structural characters with symbolic text, compared with a reference grammar",
     "level_note": "Bounded in the length of the pattern (five positions and longer samples), unbounded in the characters of the text; " + LN},
    {"id": "K01", "title": "Colour names and web colours give the CSS colour",
     "statement": "Each of the 148 CSS colour names gives its CSS colour, opaque; `#rrggbb` and `#rrggbbaa` give the number of their hex digits in either case; any other text gives no colour (black through Color::fast); and a colour prints as `#` and the eight hex digits of its red, green, blue and alpha.",
     "quantifier": {"over": ["inputs"], "text": "all names and all web colours"},
     "why_tests_cant": "The one test reads four colours; a wrong digit in a table of 148 rows, or a nibble lost for some digits, is invisible to it.",
     "anchors": A([COLOR], [("KNOWN_COLORS, from_name, fast, to_web_color", COLOR)], ["Color::from_name, Color::fast and Color::to_web_color"]),
     "technique": AI + " with symbolic hex digits of every class, exact linear forms, and the CSS table",
     "level_note": "Every name; every digit value at every position, over representative patterns of digit classes; " + LN},
]

GW = AI + " of VisualGraph on families of edge sequences (cycles, self loops, repeated and long edges) with symbolic elements, arrows and labels, compared with a reference reading"
GN = "Bounded in the number of nodes and edges (exhaustive for small graphs, seeded samples of larger ones), unbounded in elements, labels, looks and sizes; " + LN
DW = AI + " of the dag operations on families of operation sequences, compared with a reference graph"
DN = "Bounded in the number of nodes and operations (every short sequence, seeded samples of longer ones); " + LN
OPTI = "layout/src/topo/optimizer.rs"
MOVE = "layout/src/topo/placer/move_between_rows.rs"
GA = lambda *m: A([VG, DAGF], [(x, DAGF if x.startswith("DAG") else VG) for x in m], ["the calls of Element::render and render_arrow made by VisualGraph::do_it"])
PROPS += [
    {"id": "V01", "title": "Every added edge is drawn once, with its own ends, ports and look",
     "statement": "For every sequence of add_node and add_edge calls, VisualGraph::do_it draws exactly one arrow per added edge, whatever cycles, self loops, repeated or long edges there are. The arrow runs from the element it was added from to the one it was added to, through connectors of that edge only, and it has the heads, ports, look, properties and line style of the added arrow; where it is drawn the other way round, ends, heads and ports are all turned together.",
     "quantifier": {"over": ["histories"], "text": "all sequences of nodes and edges added, with any arrows"},
     "why_tests_cant": "The tests add up to four edges and look at none of the arrows drawn; a lost, doubled or half-reversed edge needs a back edge, a self loop or a long edge in a particular order.",
     "anchors": GA("to_valid_dag, split_long_edges, expand_self_edges, render, add_edge"),
     "technique": GW, "level_note": GN},
    {"id": "V02", "title": "Every element is drawn exactly once, and lowering never fails",
     "statement": "For every sequence of add_node and add_edge calls (the empty graph included), VisualGraph::do_it completes and draws each added element exactly once, with its own shape, look and orientation, and before any arrow; the connectors it inserts for long edges, self edges and labels are drawn once each, and no other element is drawn.",
     "quantifier": {"over": ["histories"], "text": "all sequences of nodes and edges added"},
     "why_tests_cant": "No test looks at what is drawn, and an out-of-bounds handle in the lowering needs a particular graph.",
     "anchors": GA("do_it, lower, render, add_node"),
     "technique": GW, "level_note": GN},
    {"id": "V03", "title": "Each edge label is drawn once, on its own edge, with the edge's look",
     "statement": "For every sequence of nodes and edges, the label of each added edge is drawn exactly once: on one connector of that edge (or on its arrow) and in the look of that edge, also when the layout moves the label to the connector of another row or swaps the direction; an edge without label gets no text.",
     "quantifier": {"over": ["histories"], "text": "all sequences of labelled edges, all outcomes of the size comparisons of the layout"},
     "why_tests_cant": "A label that is dropped or doubled, or that takes the font of a neighbour, shows only for a long, reversed or self edge with a label, and no test draws one.",
     "anchors": A([VG, MOVE], [("split_text_edges, split_long_edges, expand_self_edges", VG), ("do_it, move_label", MOVE)], ["the calls of Element::render and render_arrow made by VisualGraph::do_it"]),
     "technique": GW, "level_note": GN},
    {"id": "D01", "title": "Successor and predecessor lists mirror each other and the added edges",
     "statement": "After every sequence of DAG operations, the successors of a node are exactly the ends of the edges added from it and not removed (repeated edges counted), and its predecessors exactly the starts of those added to it; single_pred and single_succ give the one neighbour when there is just one, remove_edge removes one edge and tells whether there was one. In the graph that the layout produces the two lists mirror each other as well.",
     "quantifier": {"over": ["histories"], "text": "all sequences of new_node, add_edge, remove_edge and the rank operations"},
     "why_tests_cant": "Three unit tests make a handful of calls; a list that goes stale needs a removal of one of two equal edges, or an operation between others.",
     "anchors": A([DAGF], [("add_edge, remove_edge, successors, predecessors, single_pred, single_succ", DAGF)], ["DAG::successors, DAG::predecessors"]),
     "technique": DW, "level_note": DN},
    {"id": "D02", "title": "Rows hold every node exactly once, in the row that level names",
     "statement": "After every sequence of DAG operations and in every graph that the layout produces, the rows contain each node exactly once and nothing else, level(node) is the index of the row that holds it, is_first_in_row and is_last_in_row tell its place, and update_node_rank_level puts a node in the row it was told (before the given node, or at the end) and leaves the order of all other nodes alone.",
     "quantifier": {"over": ["histories"], "text": "all sequences of dag operations, all graphs lowered"},
     "why_tests_cant": "Two unit tests move one node; stale levels or a node in two rows need particular histories.",
     "anchors": A([DAGF, VG], [("ranks, levels, update_node_rank_level, add_element_to_rank, recompute_node_ranks", DAGF), ("lower", VG)], ["DAG::row, DAG::level"]),
     "technique": DW, "level_note": DN},
    {"id": "D03", "title": "Reachability is exact, and the laid out graph has no cycle",
     "statement": "is_reachable(a, b) is true exactly when there is a path from a to b (a itself included), on every directed graph, cyclic or not; and for every sequence of nodes and edges added to a visual graph, the dag it is lowered to has no cycle.",
     "quantifier": {"over": ["histories"], "text": "all directed graphs, all sequences of edges added"},
     "why_tests_cant": "A test asks four reachability questions on one graph; a wrong answer leaves a cycle, or reverses an edge for nothing, for particular edge orders only.",
     "anchors": A([DAGF, VG], [("is_reachable", DAGF), ("to_valid_dag", VG)], ["DAG::is_reachable, the dag of the visual graph"]),
     "technique": DW, "level_note": DN},
    {"id": "D04", "title": "Ranks follow the edges: longest paths, then neighbouring rows",
     "statement": "After recompute_node_ranks each node of an acyclic graph is in the row whose index is the length of the longest path that leads to it, so every edge goes down. After a visual graph is lowered, every edge of its dag leads from one row to the very next.",
     "quantifier": {"over": ["histories"], "text": "all acyclic graphs, in all orders of adding the edges"},
     "why_tests_cant": "One unit test ranks one small graph; nodes with predecessors of different depth, added in an unlucky order, are not in it.",
     "anchors": A([DAGF, VG], [("recompute_node_ranks, topological_sort", DAGF), ("lower, split_long_edges", VG)], ["DAG::level after recompute_node_ranks, and after lowering"]),
     "technique": DW, "level_note": DN},
    {"id": "D05", "title": "Edges point down, except those that close a cycle",
     "statement": "For every sequence of nodes and edges added, with and without labels and optimisations, the graph that is laid out puts the start of an edge in an earlier row than its end; only an edge that closes a cycle with edges added before it points up instead. So in a graph without cycles every edge leads from an earlier row to a later one, and the edges stated first give the direction of a cycle.",
     "quantifier": {"over": ["histories"], "text": "all sequences of nodes and edges added"},
     "why_tests_cant": "The tests compare no rows with the direction of the edges; an edge that is turned without need only shows in the picture of particular graphs.",
     "anchors": A([VG, DAGF, OPTI], [("to_valid_dag, split_long_edges", VG), ("is_reachable, recompute_node_ranks", DAGF), ("RankOptimizer::optimize", OPTI)], ["DAG::level of the ends of each edge after VisualGraph::do_it has lowered the graph"]),
     "technique": GW, "level_note": GN},
    {"id": "O01", "title": "Edge-crossing optimisation only permutes rows, and never adds crossings",
     "statement": "EdgeCrossOptimizer::optimize leaves every edge and the set of nodes of each row as it was, never fails, and the number of crossings between neighbouring rows afterwards is at most what it was before: of the orders it tries it keeps one with the fewest crossings.",
     "quantifier": {"over": ["inputs"], "text": "all ranked dags"},
     "why_tests_cant": "The unit tests check one or two small graphs that improve; whether some other graph gets worse, or loses the best order found, is open.",
     "anchors": A([OPTI, DAGF], [("EdgeCrossOptimizer::optimize, swap_crossed_edges, count_crossed_edges, rotate_rank", OPTI)], ["the rows of the dag after EdgeCrossOptimizer::optimize"]),
     "technique": AI + " of the optimiser on families of ranked dags, compared with a crossing count of our own", "level_note": DN},
    {"id": "O02", "title": "Rank optimisation keeps edges pointing down and never lengthens them",
     "statement": "RankOptimizer::optimize leaves nodes and edges as they were, never fails, leaves every edge leading from a row to a lower one (a greater row index), and the sum of the lengths of the edges (in rows) is at most what it was before.",
     "quantifier": {"over": ["inputs"], "text": "all ranked dags"},
     "why_tests_cant": "The optimiser has one test with one graph; a node sunk past one of several successors needs a graph with such successors.",
     "anchors": A([OPTI, DAGF], [("RankOptimizer::optimize, try_to_sink_node", OPTI)], ["the rows of the dag after RankOptimizer::optimize"]),
     "technique": AI + " of the optimiser on families of ranked dags", "level_note": DN},
]

GEOM = "layout/src/core/geometry.rs"
SW = AI + " with the drawing backend replaced by a recorder, all geometry symbolic"
SN = "Bounded in the kinds of shapes, records and the number of elements an arrow passes; the geometry, texts and looks are arbitrary. " + LN
PROPS += [
    {"id": "V06", "title": "Each element is drawn at its place, in its size, with its label and look",
     "statement": "Drawing an element gives the backend exactly the figure of its shape (rectangle for a box, ellipse for a circle, two concentric ones for a double circle, nothing for none or a connector) at the position and in the size of the element, with the look and properties of the element, followed by its label at the centre point with the same look. A labelled connector gives its label only. Debug mode adds markers, and takes nothing away.",
     "quantifier": {"over": ["inputs"], "text": "all elements: every shape kind, orientation, position, size, label, look"},
     "why_tests_cant": "No test records what a shape draws; a label at the corner, or a figure with the halo's size, needs an off-centre element or a halo to be seen.",
     "anchors": A([RENDER], [("Element::render", RENDER)], ["the RenderBackend calls made by Element::render"]),
     "technique": SW, "level_note": SN},
    {"id": "V07", "title": "Each arrow is drawn through its elements, from its port to its port",
     "statement": "render_arrow makes one draw_arrow call (none for an invisible line), with the look, text and properties of the arrow, dashed exactly when the line is not solid, and with exactly the heads of the arrow. Its path has one point and one control point per element, in the order of the elements: the first and last on the outlines of the first and last element at the source and target port, the others on the connectors between, each leaving towards the next element and arriving from the point before.",
     "quantifier": {"over": ["inputs"], "text": "all arrows and element chains"},
     "why_tests_cant": "No test looks at the path of an arrow; swapped ports, heads or control points need an asymmetric arrow over a particular number of connectors.",
     "anchors": A([RENDER], [("render_arrow, generate_curve_for_elements", RENDER)], ["the RenderBackend calls made by render_arrow"]),
     "technique": SW, "level_note": SN},
    {"id": "R02", "title": "The fields of a record tile its outline, and ports lead to their field",
     "statement": "For every record, the boxes drawn for its fields partition the outline of the element: the fields of an array follow each other without gap or overlap along the direction of the array, which alternates with the nesting depth starting from the direction of the graph, each fills the array in the other direction, and together they end where the array ends. Each field's text is in the middle of its own box; rounded records clip every box, itself with square corners, to the outline; an edge that names a port is tied to the box of the field with that port, and one without to the whole record.",
     "quantifier": {"over": ["inputs"], "text": "all records of any nesting, at all positions and sizes"},
     "why_tests_cant": "No test looks at the geometry of a record; an error in the direction or offset shows only with nested fields of different sizes.",
     "anchors": A([RENDER], [("visit_record, render_record, get_record_port_location", RENDER)], ["the RenderBackend calls of a record; Element::get_connector_location with a port"]),
     "technique": SW, "level_note": SN},
    {"id": "A01", "title": "Reversing an arrow turns all of it round; constructors keep what is given",
     "statement": "Arrow::reverse swaps the two heads and the two ports and keeps everything else, so that reversing twice gives the same arrow; the constructors of arrows and elements set every field to the argument given for it, and the documented default (no label, no port, no properties, one head, a solid line) where there is none.",
     "quantifier": {"over": ["inputs"], "text": "all arrows, all constructor arguments"},
     "why_tests_cant": "Arguments of the same type in a constructor (two heads, two ports) can be swapped with every test passing, since no test builds an asymmetric arrow.",
     "anchors": A([SHAPES], [("Arrow::reverse, Arrow::new, Arrow::simple, Arrow::invisible, Element::create, create_connector", SHAPES)], ["the fields of the values returned"]),
     "technique": SW, "level_note": LN},
    {"id": "G01", "title": "Positions keep their invariants under moving, aligning and transposing",
     "statement": "For every position (middle, size, centre offset, halo): bbox, left, right, top, bottom, size, centre and the distances agree with each other with and without halo; move_to, set_x, set_y, translate and the align methods put the centre or the named edge (with halo) exactly where told, and leave the other coordinate, the size, the offset and the halo alone; transpose swaps x and y of every part, and the orientation of an element with it; do_boxes_intersect is true exactly for boxes that overlap.",
     "quantifier": {"over": ["inputs"], "text": "all positions and arguments (as real numbers)"},
     "why_tests_cant": "No unit test covers Position; a sign or a forgotten halo or offset shows only with a shape whose centre is off its middle, or with a particular halo.",
     "anchors": A([GEOM], [("Position", GEOM), ("do_boxes_intersect", GEOM)], ["the methods of Position"]),
     "technique": AI + " of the geometry on symbolic reals; linear-form equality, identity testing of extracted path terms for comparisons", "level_note": LN},
    {"id": "G02", "title": "Every shape is sized to hold its text",
     "statement": "get_shape_size returns, for every text and font size, a width that covers the longest line (in characters times the font size) and a height that covers the number of lines, with positive padding; a record is at least as long as its fields together and as wide as the widest; make_xy_same gives a square that is no smaller.",
     "quantifier": {"over": ["inputs"], "text": "all texts, fonts and records"},
     "why_tests_cant": "No test checks a size; byte lengths instead of characters, or a lost last line, show only for particular texts.",
     "anchors": A([RENDER, GEOM], [("get_shape_size, get_record_size", RENDER), ("get_size_for_str, make_size_square, pad_shape_scalar", GEOM)], ["get_shape_size"]),
     "technique": AI + " on concrete texts with symbolic font size; linear-form comparison", "level_note": "Bounded in the texts and records; " + LN},
    {"id": "G03", "title": "Arrow ends lie on the outline of the shape, on the side facing the arrow",
     "statement": "For every shape position, size and origin outside of it, the end point of an arrow lies on the outline (rectangle or ellipse) of the shape, on the side that faces where the arrow comes from (never in the half that looks away from it, across or down), and the control point lies at the given distance in the direction of that origin. Boxes use the rectangle, circles and double circles the ellipse, with the centre and size of the element.",
     "quantifier": {"over": ["inputs"], "text": "all positions, sizes and directions (as real numbers, non-degenerate)"},
     "why_tests_cant": "No test checks an end point; a sign error shows for one of the quadrants, or for vertical edges only.",
     "anchors": A([GEOM, RENDER], [("get_connection_point_for_box, get_connection_point_for_circle, create_vector_of_length", GEOM), ("get_connector_location", RENDER)], ["Element::get_connector_location"]),
     "technique": AI + " of the geometry on symbolic reals; path terms checked by linear forms and polynomial identity testing", "level_note": "The outline equations are decided by identity testing of the extracted path terms at random rational points, not by a symbolic proof; " + LN},
    {"id": "G04", "title": "Edges pass through the middle of their connectors, smoothly and without failing",
     "statement": "For all places of a connector and of the two ends next to it (ends that coincide with the connector or with each other included), the path through the connector is computed without failing, passes exactly through the connector's centre, and its control point is at most the given distance away. "
                  "When the edge comes from and goes back to the same direction, the control point is square to it at that distance; otherwise its direction is the mean of the direction to where the edge comes from and the one opposite to where it goes, the nearer end weighing more, and exactly the direction of a line that is vertical or horizontal.",
     "quantifier": {"over": ["inputs"], "text": "all positions of the three points (as real numbers) and all positive distances"},
     "why_tests_cant": "No test looks at a path; the special cases (points that coincide, an edge that comes back, exactly aligned boxes) depend on coordinates that only the placement of a whole graph produces.",
     "anchors": A([GEOM, RENDER], [("get_passthrough_path_invisible", GEOM), ("Element::get_passthrough_path", RENDER)], ["the pair of points returned"]),
     "technique": AI + " of the geometry on symbolic reals; extracted path terms checked by identity testing", "level_note": "Decided by identity testing of the extracted path terms at random small rational points, so that coincident and aligned points occur on every path; " + LN},
    {"id": "G05", "title": "Geometric primitives compute what they say",
     "statement": "Vector sum, difference, multiple, opposite, transposition, rotation, length, distance, interpolation and normalisation are the mathematical ones; two boxes overlap exactly when their interiors share a point; in_range is the closed interval; a segment that crosses the inside of a rectangle is reported as crossing, and one that stays clear of it is not (vertical segments above or below the rectangle excepted, which may be reported); "
                  "weighted_median of a non-empty list is its median, whatever the order of the list, and does not fail.",
     "quantifier": {"over": ["inputs"], "text": "all finite numbers; lists of one to four numbers in every order"},
     "why_tests_cant": "One test tries six segments; the placement passes rely on these functions for every pair of boxes and every edge of a graph.",
     "anchors": A([GEOM], [("Point, interpolate, do_boxes_intersect, in_range, segment_rect_intersection, weighted_median", GEOM)], ["the returned value"]),
     "technique": AI + " on symbolic reals; linear forms, and identity testing of path terms", "level_note": "Linear results are compared exactly; comparisons, roots and intersections by identity testing of the extracted path terms; " + LN},
    {"id": "L01", "title": "Ranks are centred on parallel lines, one below the other",
     "statement": "After placement, for every graph and all sizes of its nodes, the nodes of one rank have their middle on one line (horizontal for top-to-bottom graphs, vertical for left-to-right ones), and every node of a rank lies entirely beyond (below, or right of) every node of the rank before it, halos included, whether or not the layout passes are disabled.",
     "quantifier": {"over": ["inputs"], "text": "all graphs, both orientations, all node sizes and halos"},
     "why_tests_cant": "The verifier that runs under debug assertions compares only the first box of a row; a tall node in the middle of a rank, or a size taken without its halo, overlaps the next rank only for those sizes.",
     "anchors": A([BK, SIMPLE, EFIX, PLACE], [("assign_y_coordinates", SIMPLE), ("Placer::layout", PLACE)], ["the positions in the VisualGraph after Placer::layout"]),
     "technique": PLT, "level_note": PLN},
    {"id": "L02", "title": "Boxes of a rank keep their order and never overlap",
     "statement": "After each placement pass (first placement, alignment of blocks, edge fixing) and after all of them, the nodes of a rank stand in the order of the rank and apart from each other, halos included, and an edge's connector has its middle between its neighbours in the rank; placement never panics.",
     "quantifier": {"over": ["inputs"], "text": "all graphs, both orientations, all node sizes and halos, all placements a pass can start from"},
     "why_tests_cant": "Overlaps depend on particular sizes, gaps and block alignments; the tests place a handful of graphs and check nothing but that nothing panics.",
     "anchors": A([BK, SIMPLE, EFIX, PLACE], [("BK::do_it, the vertical alignment and its scheduler", BK), ("edge_fixer::do_it", EFIX), ("assign_x_coordinates", SIMPLE)], ["the positions in the VisualGraph after Placer::layout"]),
     "technique": PLT, "level_note": PLN},
    {"id": "V04", "title": "Placement moves elements and changes nothing else about them",
     "statement": "Placement changes only where elements are: the shape, label, look, orientation, properties, size, centre offset and halo of every element, and the graph itself (its rows, edges and their order), are the same after it as before, also for left-to-right graphs, which are placed transposed and turned back.",
     "quantifier": {"over": ["inputs"], "text": "all graphs, both orientations, all node sizes"},
     "why_tests_cant": "No test looks at elements after placement; a transposition that is not undone (of the halo, or of the orientation of a record) shows only in left-to-right graphs of particular shapes.",
     "anchors": A([PLACE, BK, EFIX], [("Placer::layout, Position::transpose", PLACE)], ["the elements of the VisualGraph after Placer::layout"]),
     "technique": PLT, "level_note": PLN},
    {"id": "L03", "title": "Nodes are placed in the non-negative quadrant, from its corner on",
     "statement": "After placement, no node (halo included) lies left of or above the origin, whatever the graph and the sizes, with and without the layout passes: the SVG view box, which starts at the origin, cuts off none. Where no edge needs a connector, the leftmost and the topmost node touch the edges of the drawing (up to the rounding gap, for drawings narrower than 10000).",
     "quantifier": {"over": ["inputs"], "text": "all graphs, both orientations, all node sizes and halos"},
     "why_tests_cant": "The alignment pass works with coordinates of both signs and relies on one last shift; a shift that forgets the halo, or is done before the last pass that moves nodes, shows for particular sizes only.",
     "anchors": A([BK, SIMPLE, EFIX, PLACE], [("align_to_left, assign_y_coordinates", SIMPLE), ("edge_fixer::do_it", EFIX), ("BK::do_it", BK)], ["the positions in the VisualGraph after Placer::layout"]),
     "technique": PLT, "level_note": PLN},
    {"id": "L04", "title": "The left-to-right layout is the top-to-bottom layout turned",
     "statement": "For every graph and all sizes, the left-to-right layout places every element where the top-to-bottom layout of the same graph with all widths and heights exchanged places it, with the two coordinates exchanged: rankdir=LR changes the direction and nothing else about the layout.",
     "quantifier": {"over": ["inputs"], "text": "all graphs, all node sizes and halos, with and without the layout passes"},
     "why_tests_cant": "No test compares the two directions; a pass that runs after the transposition is undone, or looks at the orientation by itself, places some left-to-right graphs differently.",
     "anchors": A([PLACE, BK, EFIX, SIMPLE], [("Placer::layout", PLACE), ("VisualGraph::transpose", VG), ("Position::transpose", GEOM)], ["the positions in the VisualGraph after Placer::layout"]),
     "technique": PLT + "; terms of the two directions compared", "level_note": PLN},
    {"id": "F01", "title": "Laying out a graph touches nothing but memory",
     "statement": "The library has no effect on the outside world and no hidden state: only save_to_file touches files, only the functions made for it (dump and print functions) write to the standard streams, and nothing opens sockets, starts processes or threads, or reads the environment or the clock; there is no global state that a run could change, so that two layouts in one process do not influence each other.",
     "quantifier": {"over": ["inputs", "histories"], "text": "all inputs, all sequences of calls"},
     "why_tests_cant": "A test sees the effects of the path it takes; a counter shared between layouts, or a debugging line on stdout that ends up in piped output, appears only on some path or in a second run.",
     "anchors": A(["layout/src/lib.rs", UTILS, CLI], [("the call graph of the crates", "layout/src/lib.rs"), ("save_to_file", UTILS)], ["calls into the standard library"]),
     "technique": "effect analysis: whole-program call graph of the compiler's MIR against an effect table", "level_note": "The table of effects names modules of the standard library; no other crates are linked but log and clap (trusted)."},
    {"id": "M01", "title": "All of the code is memory safe: no unsafe code anywhere",
     "statement": "No input, however malformed, can cause undefined behaviour (an out-of-bounds access, a dangling reference, a data race): the library and the command line tool contain no unsafe code of their own, so that the compiler's guarantees cover all of it.",
     "quantifier": {"over": ["inputs"], "text": "all inputs and uses of the API"},
     "why_tests_cant": "Undefined behaviour can pass every test; an unchecked index in place of a checked one is invisible until a particular graph.",
     "anchors": A(["layout/src/lib.rs", CLI], [("the compiler's safety checks", "layout/src/lib.rs")]),
     "technique": "type-level witness: the crates compile with unsafe_code forbidden", "level_note": "Trusts the compiler, the standard library, log and clap."},
    {"id": "E01", "title": "Saving reports every failure, and Ok means the whole text is in the file",
     "statement": "save_to_file creates or truncates exactly the file it is given and returns Ok only when the complete content has been handed to the operating system; if creating, writing or flushing fails at any point, it returns an error.",
     "quantifier": {"over": ["inputs", "fault_sequences"], "text": "all contents, and a failure of any file operation"},
     "why_tests_cant": "No test makes the disk fill up; an error that is swallowed, a partial write or a file that is not truncated shows only then.",
     "anchors": A([UTILS], [("save_to_file", UTILS)], ["the result of save_to_file, and the calls it makes"]),
     "technique": AI + " with fault injection at every file operation", "level_note": "Failures that only appear after write(2) are outside of it; " + LN},
    {"id": "X01", "title": "The command line does what its usage says",
     "statement": "The tool reads the given file, parses it, prints the tree exactly when --ast is given, lays the graph out with debug mode, crossing optimisation and layout each controlled by its own flag and no other, and saves the SVG under the -o path, by default /tmp/out.svg; a file that cannot be read or parsed is reported with its position and nothing is written; a failed save is not reported as a success. In the library, each flag of VisualGraph::do_it turns off exactly its passes.",
     "quantifier": {"over": ["inputs", "fault_sequences"], "text": "all combinations of flags, all files, read and write failures"},
     "why_tests_cant": "The tool has no tests; two flags of the same type that are swapped, or an error branch that goes on, pass every test.",
     "anchors": A([CLI, VG], [("main", CLI), ("VisualGraph::do_it, optimize", VG)], ["the calls of main into the library"]),
     "technique": AI + " of main with the argument parser modelled", "level_note": "The clap crate is modelled: its matches are arbitrary, options are identified by their long name. " + LN},
    {"id": "N01", "title": "The same text always gives the same bytes",
     "statement": "The SVG is a function of the text and the options alone: it is the same in every run and process. No result depends on the iteration order of a hash table, on addresses, time, threads, environment or random numbers.",
     "quantifier": {"over": ["inputs", "schedules"], "text": "all inputs, all orders of hash tables"},
     "why_tests_cant": "Two runs of a test usually agree; the order of a hash table differs between processes and shows only when two entries that matter meet.",
     "anchors": A([SVG, BUILDER, BK], [("emit_svg_font_styles", SVG), ("init_node_with_name, get", BUILDER), ("EdgeSet", BK)], ["SVGWriter::finalize; the VisualGraph"]),
     "technique": "effect analysis of the MIR call graph, and " + AI + " with hash tables walked in two opposite orders", "level_note": "Sources of nondeterminism: complete, from the effect table. Orders of hash tables: two opposite orders, on a family of runs that reaches every walk (one that is not reached is listed as undecided)."},
    {"id": "Q01", "title": "The layout has as few crossings and as short edges as possible",
     "statement": "Among the orders of the nodes in their rows, the optimiser finds one with the fewest crossings, and among the ranks one with the shortest edges.",
     "quantifier": {"over": ["inputs"], "text": "all graphs"},
     "why_tests_cant": "Minimality compares with all other layouts of every graph.",
     "anchors": A([VG], [("EdgeCrossOptimizer, RankOptimizer", "layout/src/topo/optimizer.rs")]),
     "na": "The optimisers are greedy local searches without a stated bound; the property is false for some graphs by design, and no static argument bounds the distance from the optimum. What they do guarantee is claimed as O01 and O02."},
    {"id": "Q02", "title": "Deep nesting never exhausts the stack",
     "statement": "Parsing, building and drawing work for scopes and record fields nested to any depth.",
     "quantifier": {"over": ["inputs"], "text": "all depths of nesting"},
     "why_tests_cant": "The depth that fails depends on the stack and on the sizes of frames the compiler chooses.",
     "anchors": A([PARSER, RECORD, BUILDER], [("recursive descent", PARSER), ("recursion over fields", RECORD)]),
     "na": "The code recurses once per level, so the property is false for any fixed stack; the depth at which it fails is a quantity of the machine and the compiler (frame sizes after optimisation) that the MIR does not determine."},
    {"id": "Q03", "title": "Rounding errors never change what is drawn",
     "statement": "With 64-bit floats every node, label and edge is where exact arithmetic would put it, up to a stated distance.",
     "quantifier": {"over": ["inputs"], "text": "all graphs and sizes"},
     "why_tests_cant": "Rounding differs with every coordinate.",
     "anchors": A([PLACE, BK], [("alignment and fixing passes", BK)]),
     "na": "The passes iterate sums of differences a number of times that depends on the graph, and no error bound is documented to compare with. An interval analysis over the loops would need a bound on the number of rounds, which is not there. Claimed over the reals instead (L01 to L04)."},
]
