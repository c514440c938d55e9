"""property id -> analyses that decide it"""
CHECKS = {
    "P01": {"run": [("total", "run_total")], "level": "other",
            "rule": "the lexer over arbitrary text, the parser over arbitrary tokens and print_error over an arbitrary lexer are interpreted abstractly; no path may reach a panic (to a fixpoint), and no loop or recursion may come back to the state it was in without having read anything"},
    "P02": {"run": [("parser", "run")], "level": "proof",
            "rule": "abstract interpretation of the parser's MIR over an arbitrary token stream in lock-step with a reference pushdown parser that also builds the syntax tree; Ok/Err and every field of the accepted tree must agree on every path; loops to a fixpoint, nested statement lists by induction on the nesting depth"},
    "P03": {"run": [("lexer", "run")], "level": "proof",
            "rule": "abstract interpretation of the lexer's MIR in lock-step with a reference tokeniser automaton; every returned token and identifier text must equal the reference's on every path, to a fixpoint over all inputs"},
    "P04": {"run": [("shown", "run_error")], "level": "other",
            "rule": "print_error is interpreted abstractly on a lexer that has read k characters of a text (every pattern of line ends and arbitrary letters of up to four characters, longer random ones, every k), and after process on texts that break the grammar at a known token; what is printed must be the text up to the end of that line and one marker under the place"},
    "T01": {"run": [("shown", "run_tree"), ("shown", "run_record")], "level": "other",
            "rule": "dump_ast is interpreted abstractly on random trees whose names, ports, keys and values are arbitrary strings; the strings, arrows and targets in the printed text must be those of the tree, in order, once, and an inner scope must stand further to the right; print_record likewise on random records (texts, ports, brackets)"},
    "C01": {"run": [("growth", "run_growth")], "level": "other",
            "rule": "each function is interpreted on an input of a shape that makes a naive recursion double (chains of diamonds, nested scopes, nested record fields, long lists) of size 4 and of size 12; the blocks on its path may grow at most 40-fold (a power of 3.3; 90-fold for the whole lowering), where doubling per part would grow them 256-fold"},
    "S01": {"run": [("svg", "run_escape")], "level": "proof",
            "rule": "every path of draw_text and draw_arrow on symbolic labels is run abstractly; the appended markup is parsed with holes, entities are decoded and the characters compared with the label; the escaping function itself is compared with a reference transducer over every text, loop to a fixpoint"},
    "S02": {"run": [("svg", "run_wellformed")], "level": "proof",
            "rule": "from an arbitrary writer state, what each drawing call appends is parsed as an XML fragment with holes (numbers, escaped text, raw properties); finalize is parsed as a whole document and must hold every piece the calls collected, once and in a legal place"},
    "S03": {"run": [("svg", "run_refs")], "level": "proof",
            "rule": "ids appended by a call must be a prefix and a number whose value strictly grows with the call (symbolic difference of the writer before and after); every reference must resolve to an id of the call, of create_clip (through the returned handle) or of the final document; every class must have a style rule with the font size of the call"},
    "S04": {"run": [("svg", "run_view")], "level": "proof",
            "rule": "the view box terms of finalize are evaluated on the writer after each call and compared, as maxima of linear forms, with every coordinate the call draws and with the previous view"},
    "S05": {"run": [("svg", "run_faithful")], "level": "proof",
            "rule": "the one element each call appends must carry, as exact terms, the requested position, size, path, colours, widths, corner radius, clip, dash pattern, arrow heads and properties on every path"},
    "S06": {"run": [("svg", "run_total")], "level": "other",
            "rule": "every path of each drawing call and of finalize is interpreted abstractly on symbolic arguments; none may panic, and each checked integer operation on a number of the caller must stay in range over the whole range of its type (interval analysis of the operands)"},
    "B01": {"run": [("builder", "run_scoping")], "level": "other",
            "rule": "new, visit_graph and get of GraphBuilder are interpreted abstractly on every statement list of the family (attribute statements, nodes, edges, nested scopes; names and values symbolic strings, hash maps walked in two orders); the label of every element and arrow handed to VisualGraph must be the one of the innermost enclosing attribute statement that precedes it"},
    "B02": {"run": [("builder", "run_routing")], "level": "other",
            "rule": "as B01, with attribute statements of all three targets and own attribute lists; labels must come from the own list, else from the statements of the right target"},
    "B03": {"run": [("builder", "run_registry")], "level": "other",
            "rule": "as B01, with repeated mentions of the same nodes in node, edge and nested statements; the elements handed to VisualGraph::add_node must be one per distinct name in the order of first mention"},
    "B04": {"run": [("builder", "run_edges")], "level": "other",
            "rule": "as B01, on every chain of two to four ends with repeated nodes, arrow kinds and ports, and pairs of edges; the arrows handed to VisualGraph::add_edge must be one per hop, in order, with ends, ports and heads"},
    "B05": {"run": [("builder", "run_table")], "level": "other",
            "rule": "as B01, on every attribute, value pattern (symbolic characters, boundary numbers) and pair of attributes of the table; every field of the element or arrow must be the documented one on every path"},
    "R01": {"run": [("record", "run_record")], "level": "other",
            "rule": "parse_record_string is interpreted abstractly on every label pattern of up to five positions over braces, bar, angle brackets, space and an arbitrary other character (and longer ones); no path may panic, and the tree of a balanced label must be that of the reference grammar"},
    "K01": {"run": [("record", "run_color")], "level": "other",
            "rule": "Color::from_name, fast and to_web_color are interpreted abstractly on each of the 148 CSS names, on an arbitrary other name, and on web colours with symbolic digits of every digit class; the resulting number must be the CSS value, or the linear form of the digits"},
    "V01": {"run": [("graph", "run_edges")], "level": "other",
            "rule": "VisualGraph::new, add_node, add_edge and do_it are interpreted abstractly on every edge sequence of the family (elements and arrows symbolic, every label empty or not); each arrow handed to render_arrow must join its two ends with its own heads, ports, look and line style (or turned round as a whole), through connectors of its own that are joined in the final graph"},
    "V02": {"run": [("graph", "run_drawn")], "level": "other",
            "rule": "as V01; the elements handed to Element::render must be all elements of the final graph, once, unchanged, before every arrow, and no path may panic"},
    "V03": {"run": [("graph", "run_labels"), ("graph", "run_moved")], "level": "other",
            "rule": "as V01, with the pass that moves labels between rows on all outcomes of its size comparisons; the label of each edge must be on exactly one connector of its chain (or the arrow), with the look of the edge, and an edge without label must carry none"},
    "D01": {"run": [("graph", "run_mirror")], "level": "other",
            "rule": "DAG operations are interpreted abstractly on every operation sequence of the family and compared with a reference graph; predecessor and successor lists must be those of the reference after each operation, and mirror each other after lowering"},
    "D02": {"run": [("graph", "run_ranks")], "level": "other",
            "rule": "as D01; after each operation and after lowering the rows must partition the nodes, level must name the row of the node, and a moved node must be where it was told"},
    "D03": {"run": [("graph", "run_acyclic")], "level": "other",
            "rule": "is_reachable is interpreted on every small directed graph (cyclic ones included) and compared with reachability; the graph after lowering any edge sequence must be acyclic"},
    "D04": {"run": [("graph", "run_levels")], "level": "other",
            "rule": "as D01; after recompute_node_ranks each node must be in the row of its longest path from a source; after lowering each edge of the graph must lead from a row to the next one"},
    "D05": {"run": [("graph", "run_down")], "level": "other",
            "rule": "as V01; in the final graph each edge must lead from a row to a later one, unless the edges added before it (and not turned) lead from its end to its start, in which case it must lead to an earlier one"},
    "O01": {"run": [("graph", "run_cross")], "level": "other",
            "rule": "EdgeCrossOptimizer::optimize is interpreted abstractly on layered dags; it must permute each row, keep all edges, and leave no more crossings than there were"},
    "O02": {"run": [("graph", "run_sink")], "level": "other",
            "rule": "RankOptimizer::optimize is interpreted abstractly on every dag of four nodes and on larger ones; every edge must still go down, the edges and nodes must be the same, and the edges not longer in sum"},
    "V06": {"run": [("shapes", "run_elements")], "level": "other",
            "rule": "Element::render is interpreted abstractly for each kind of shape and orientation, all fields of the element symbolic; the recorded backend calls must be the shape's figure at the position and size of the element and its label at the centre, with its look and properties, as exact terms"},
    "V07": {"run": [("shapes", "run_arrow")], "level": "other",
            "rule": "render_arrow is interpreted abstractly on two to five symbolic elements for each line style and pair of heads; the one draw_arrow call must get the arrow's look, text, properties, dash and heads, and a path with one point pair per element, each computed for that element, its port, and in the right direction"},
    "R02": {"run": [("shapes", "run_records")], "level": "other",
            "rule": "Element::render and get_connector_location are interpreted abstractly on records of many shapes at a symbolic position and size; the drawn boxes must tile the outline exactly along the record's direction, alternating with depth, as linear forms; each field's text is in the middle of its box, and a port leads to the box of its field"},
    "A01": {"run": [("shapes", "run_reverse")], "level": "other",
            "rule": "Arrow::reverse and the constructors of arrows and elements are interpreted abstractly on symbolic arguments; every field of the result must be the right term"},
    "G01": {"run": [("shapes", "run_position")], "level": "other",
            "rule": "every method of Position is interpreted abstractly on a symbolic position; results and the fields left behind are compared with the definition as linear forms (comparisons: identity testing of the extracted path terms)"},
    "G02": {"run": [("shapes", "run_sizes")], "level": "other",
            "rule": "get_shape_size is interpreted abstractly for each shape kind on texts with lines of all lengths and a symbolic font size; the size as a linear form must cover the text with positive padding"},
    "G03": {"run": [("shapes", "run_outline")], "level": "other",
            "rule": "every path of the connection-point functions on symbolic geometry is extracted as terms with its conditions; the end point must satisfy the outline's equation, face where the arrow comes from, and the control point lie in that direction (exact forms, or identity testing of the extracted terms)"},
    "G04": {"run": [("shapes", "run_through")], "level": "other",
            "rule": "every path of get_passthrough_path on symbolic points is extracted as terms with its conditions; the exit point must be the centre, the control point the weighted direction of the two ends within the given distance, and no path to a panic may have inputs (identity testing of the extracted terms, on inputs where points coincide and align)"},
    "G05": {"run": [("shapes", "run_helpers")], "level": "other",
            "rule": "each geometric primitive is interpreted abstractly on symbolic numbers; its result must be the defining form (linear forms exactly; comparisons, roots and intersections by identity testing of the extracted path terms)"},
    "L01": {"run": [("place", "run_rows")], "level": "other",
            "rule": "Placer::layout is interpreted abstractly on lowered graphs whose boxes have symbolic sizes, halos and places; the final coordinates are max-plus terms, from which it is proved that the nodes of a rank share their centre line and the next rank lies below (refuted only by a valuation of the sizes)"},
    "L02": {"run": [("place", "run_order")], "level": "other",
            "rule": "as L01; it is proved on the terms that neighbours in a rank stay in order and apart, halos included, after each pass, and that placement has no path to a panic"},
    "V04": {"run": [("place", "run_kept")], "level": "other",
            "rule": "as L01; every field of every element but its place must be the same term after placement, and the graph unchanged"},
    "L03": {"run": [("place", "run_corner")], "level": "other",
            "rule": "as L01; left and top of each node, halo included, must be proved non-negative on the final terms, and a drawing without connectors must begin at both edges (identity testing of the extracted terms)"},
    "L04": {"run": [("place", "run_turned")], "level": "other",
            "rule": "each graph of the family is laid out in both directions with symbolic sizes; every coordinate term of the left-to-right layout, its inputs turned, must equal the other coordinate's term of the top-to-bottom layout (as a form, or on every sampled valuation of both paths)"},
    "F01": {"run": [("effects", "run_effects")], "level": "proof",
            "rule": "every call and every mention of a function in the MIR of the two crates is resolved; those of the effect table (files, sockets, processes, environment, clock, threads, streams, random numbers, foreign code, thread-local state) may be reached only through save_to_file, the dump and print functions, and main; no static may be mutable"},
    "M01": {"run": [("effects", "run_safe")], "level": "proof",
            "rule": "compile witness: both crates are compiled from the current tree with unsafe_code forbidden; any unsafe block, function or implementation is a build error naming the place"},
    "E01": {"run": [("effects", "run_save")], "level": "proof",
            "rule": "save_to_file is interpreted abstractly with every file operation succeeding or failing; Err must be returned on each path on which an operation failed, and Ok only when the whole content was written (and flushed, if buffered) to the one truncated file of the given name"},
    "X01": {"run": [("effects", "run_cli"), ("effects", "run_flags")], "level": "proof",
            "rule": "main is interpreted abstractly with every flag, the file and the parser on all outcomes; the order and the arguments of the calls of reader, parser, tree dump, layout, SVG writer and save_to_file must be those of the usage text; VisualGraph::do_it must run or skip each pass as its flags say"},
    "N01": {"run": [("determ", "run_determ")], "level": "other",
            "rule": "no function of the library may use a source that differs from run to run (clock, random hasher, environment, thread, address); each walk over a hash table is listed from the MIR and run abstractly in two opposite orders, after which the results must be the same terms"},
}
