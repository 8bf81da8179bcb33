PARSER = 'pylib/uxml/parser.py'
prop('C02', 'Parsing reports exactly the content of a well-formed document',
     "Feeding a complete well-formed MicroXML document to the parser in one piece is never rejected, and delivers exactly one start event per element (with its name, all its attributes with decoded values, and its enclosing elements), one matching end event, and the character data between tags with references decoded and line ends normalised, in document order. Nothing is invented, lost, repeated or altered, and no collection handed over with an event changes afterwards.",
     ['inputs'], 'every well-formed document without comments, processing instructions, self-closing tags or colons in names',
     'The tests parse a few dozen literal documents; the guarantee ranges over every text, nesting depth, attribute set and character.',
     [PARSER], [('handle_cdata', PARSER), ('parser coroutine state machine', PARSER)],
     AI + ' in product with a reference automaton over character classes', 'other',
     'Every path of the parser is covered up to the abstraction (character classes, symbolic names, summarised ancestor and attribute collections); an alarm is a path whose events differ from the automaton. Trusts the modelled bytecode and builtin semantics and the automaton.')
prop('C03', 'Events do not depend on how the input is split into fragments',
     "However a document is cut into successive fragments handed to the incremental parser, a well-formed one is accepted and delivers the same element structure, attributes and (concatenated) character data that its whole text prescribes, and a malformed or incomplete one is rejected. Fragment boundaries may fall anywhere, including inside names, references, tags, attribute values and line ends.",
     ['inputs', 'schedules'], 'every document and every way of cutting it into consecutive fragments, including empty ones',
     'The number of split points times inputs is unbounded; tests exercise a handful of splits of a handful of documents.',
     [PARSER], [('backtracking on incomplete input (need_input, backtrackpos)', PARSER), ('handle_cdata returning no result', PARSER)],
     AI + ' with arbitrary fragment boundaries, in product with a reference automaton', 'other',
     'Covers all fragmentations of an unbounded number of fragments up to the abstraction. The quick run covers three overlapping restrictions of the input grammar (kinds of reference, quoting, white space); the thorough run more.')
prop('C04', 'Malformed or truncated input is never accepted',
     "A text that is not a well-formed document (mismatched or missing end tags, illegal characters, bad or unknown references, duplicate attributes, unquoted values, content outside the single document element, or a premature end) always makes the parser fail with an error; it never finishes as if the document were complete.",
     ['inputs'], 'every text that is not a well-formed document, outside the constructs left unspecified',
     'Malformed texts are unbounded in kind and position; tests try a few.',
     [PARSER], [('syntax errors raised by the parser coroutine', PARSER), ('final flag of the last fragment', PARSER)],
     AI + ' in product with a reference automaton over character classes', 'other',
     'An alarm is a path that ends without error while the automaton is in a rejecting state. Constructs left unspecified are listed in DESIGN.md.')
prop('C05', 'The parser always makes progress',
     "Given any input in any number of fragments, the parser either asks for more input, finishes or fails; it never loops without consuming input.",
     ['inputs', 'schedules'], 'every text and every cut into fragments, well-formed or not',
     'A hang needs the one input state that stops advancing; tests cannot show there is none.',
     [PARSER], [('window/position loop of the parser coroutine', PARSER)],
     AI + ': repetition of a loop-head state with no input consumed', 'other',
     'A repeated abstract loop-head state with unchanged input position is reported as a loop; absence of one over the explored product is the evidence of progress.')
TREE = 'pylib/uxml/tree.py'
UTIL = 'pylib/uxml/treeutil.py'
WRITER = 'pylib/uxml/writer.py'
LAZY = 'abstract interpretation of the bytecode over lazily materialised tree shapes, compared with a reference interpreted on the same abstract state'
LNOTE = 'Names, texts and attribute values are symbolic; shapes are explored up to a bound on the number of nodes a path may look at (cut paths are counted in the evidence). Trusts the modelled bytecode and builtin semantics and the reference in drivers/.'
prop('C06', 'Encoding a tree gives markup that says exactly what the tree holds',
     "xml_encode and xml_write of an element produce its start tag with every attribute, its children in order and the matching end tag, recursively. Characters that would be read differently (ampersand, less-than, the enclosing quote, and tab and line feed in attribute values) are always replaced by a MicroXML reference for that very character, so names, attribute values and texts parse back unchanged; with indentation only white space is added between tags. Encoding does not change the tree.",
     ['inputs'], 'every element tree whose names are XML names, and whose attribute values and texts consist of MicroXML characters (so no carriage return)',
     'Escaping must hold for every character combination at every place of every tree; tests encode a few sample documents.',
     [TREE], [('element.xml_encode', TREE), ('text.xml_encode', TREE)], LAZY, 'other', LNOTE)
prop('C07', 'The stream writer writes exactly the events it is given',
     "Whatever sequence of properly nested start_element, text and end_element calls (with attributes, or empty=True) is made on a raw writer, the output is the corresponding markup: names and nesting as given, attribute values and texts escaped so that they parse back unchanged, nothing omitted, repeated or reordered. write() of a tree element produces the markup of that tree; an indenting writer only adds white space next to tags.",
     ['inputs', 'histories'], 'every properly nested sequence of writer calls and every element tree',
     'Sequences of calls and values are unbounded; tests write a handful of documents.',
     [WRITER], [('raw.write', WRITER), ('raw.start_element', WRITER), ('write', WRITER)], LAZY, 'other', LNOTE)
prop('C08', 'The namespace writer applies the prefix mapping to exactly the mapped names',
     "A namespacer writes the same markup as the raw writer except that each element name found in the mapping is written with its prefix in both its tags, each attribute whose name is mapped under '@name' is written with its prefix, all other names are left alone, and the namespace declarations of the given prefixes appear exactly once, on the document element (also when it is empty or has attributes). Values and texts are escaped as by the raw writer.",
     ['inputs', 'histories'], 'every element tree, mapping and set of prefixes',
     'The mapping has to be consulted at every name of every tree; tests check one document.',
     [WRITER], [('namespacer.write', WRITER), ('namespacer.start_element', WRITER)], LAZY, 'other', LNOTE)
prop('C09', 'Editing an element keeps children, order and parent links consistent',
     "After any sequence of xml_append, xml_insert (default position, or an index between 0 and the number of children) and xml_remove calls, an element has exactly the expected children in the expected order: the inserted node itself (or a text node with the value of a given string) at the requested position, a removed node gone and all others untouched. Each child reports the element as its parent and a removed node reports none. Removing a node that is not a child raises ValueError and changes nothing, also when an equal text is among the children.",
     ['inputs', 'histories'], 'every element, every child and every sequence of these operations on nodes not currently in another tree',
     'Edit histories are unbounded and errors need equal texts or particular positions.',
     [TREE], [('element.xml_insert', TREE), ('element.xml_remove', TREE), ('node.xml_parent', TREE)], LAZY, 'other', LNOTE)
prop('C10', 'The string value of a node is all its text, in document order',
     "xml_value and strval of an element are the concatenation of every text below it at any depth, in document order, and nothing else (no attribute values); those of a text node are its text. They reflect the tree at the time of the call, so they follow later edits, and computing them changes nothing.",
     ['inputs', 'histories'], 'every element tree, also after edits',
     'Ranges over all tree shapes; tests look at shallow samples.',
     [TREE], [('element.xml_value', TREE), ('strval', TREE)], LAZY, 'other', LNOTE)
prop('C11', 'Tree selection functions yield exactly the specified nodes, in order',
     "descendants, select_elements, select_name, select_name_pattern, select_value, select_attribute, following_siblings and select_pattern yield exactly the nodes their documentation specifies, by identity, each once and in document order, for an element as source or any iterable of nodes where documented. In select_pattern a name matches one step, '*' any one element, a tuple of names any of them, and '**' any number of levels including none.",
     ['inputs'], 'every element tree, names, values and patterns',
     'Omissions and duplicates depend on the shape of the tree and on equal texts or names; tests use fixed documents.',
     [UTIL], [('select_pattern', UTIL), ('following_siblings', UTIL), ('select_attribute', UTIL)], LAZY, 'other', LNOTE)
prop('C12', 'Pretty-printing changes white space only',
     "make_pretty keeps every element and every text that is not entirely white space: same nodes, same order, same parents and values, at every depth. What it adds or replaces are white-space-only texts consisting of a line break and the given indentation for the depth, one of them directly before each element child (unless a text with content precedes it), and it returns the element it was given.",
     ['inputs'], 'every element tree and indentation string',
     'Mixed content, adjacent texts and nesting depth interact; tests prettify one document.',
     [UTIL], [('make_pretty', UTIL)], LAZY, 'other', LNOTE)
XML = 'pylib/uxml/xml.py'
TITER = 'pylib/uxml/treeiter.py'
XITER = 'pylib/uxml/xmliter.py'
SNOTE = 'The parser (MicroXML parser, or expat) is replaced by a stand-in which delivers the events of an arbitrary small document with symbolic names and values; references the code holds only weakly are treated as collected. Trusts the modelled bytecode semantics and the reference in drivers/build.pysrc.'
prop('C13', 'The tree built equals the parsed document, however parsers are reused',
     "parse, uxml.parse and treebuilder.parse hand the whole text to the parser and return the document element of exactly the parsed document: every element with its name and attributes, its children in order (texts with their character data), each child reporting its element as its parent, the document element reporting none. This also holds for later parses by the same treebuilder or function, after earlier successful or failed ones, and does not change trees returned earlier. A parse error of the parser is raised to the caller.",
     ['inputs', 'histories'], 'every document, and every sequence of parses',
     'Depends on the document shape and on state left by earlier, possibly failed, parses; tests parse sample documents with fresh objects.',
     [TREE, 'pylib/uxml/__init__.py'], [('treebuilder._handler', TREE), ('treebuilder.parse', TREE)], LAZY, 'other', SNOTE)
prop('C14', 'XML read through expat gives the same events and trees as MicroXML',
     "xml.parse sends its handler one start, end or characters event per element and text expat reports, in order, with local names (whatever the namespace name, including one with spaces), attribute values unchanged and the names of the enclosing elements. xml.treebuilder.parse returns the tree of the document, also when the builder is reused, even after a failed parse. xmliter.sender sends the outermost elements matching its pattern, complete and in order. A document which ends too early is reported as an error by xml.parse and xml.treebuilder. ns_expat_callbacks sends the same start, end and characters events.",
     ['inputs', 'histories'], 'every XML document, with or without namespaces, and every sequence of parses with one builder',
     'Depends on document shape, namespace names and state left by earlier parses.',
     [XML, XITER], [('expat_callbacks.start_element', XML), ('treebuilder.parse', XML), ('sender', XITER)], LAZY, 'other', SNOTE)
prop('C15', 'treeiter.sender sends each outermost matching element once, complete',
     "For every document, treeiter.sender sends to the sink of each pattern exactly the outermost elements whose path of names from the document element matches the pattern (a name matches one step, '*' one step of any name, '**' any number of steps including none), each once, in document order and only when complete, as an element with all its attributes and descendants and without a parent. Several patterns do not influence each other; a sender can be used for further documents; a different number of patterns and sinks is refused with ValueError.",
     ['inputs', 'histories'], 'every document and pattern, several patterns at once, several documents',
     'Partial matches, nested matches and several patterns interact; tests send a few flat documents.',
     [TITER], [('sender', TITER), ('sender._handler', TITER)], LAZY, 'other', SNOTE)
XAST = 'pylib/uxml/uxpath/xast.py'
XFUN = 'pylib/uxml/uxpath/functions.py'
XPR = 'pylib/uxml/uxpath/parserules.py'
XLEX = 'pylib/uxml/uxpath/lexrules.py'
XINIT = 'pylib/uxml/uxpath/__init__.py'
XNOTE = 'Expressions are built from the AST classes. ' + LNOTE.replace('drivers/.', 'drivers/xp.pysrc.')
prop('C16', 'XPath axes select exactly the specified nodes, in axis order',
     "For every tree and context node (root node, element, text, also attribute), each step selects exactly the nodes of its axis that pass the node test, by identity, once each, in axis order: forward axes (self, child, descendant, descendant-or-self, following-sibling, following) in document order, reverse axes (parent, ancestor, ancestor-or-self, preceding-sibling, preceding) nearest first. The root node is the parent of the topmost element and the last ancestor of every node. Name tests and * pass elements only, text() texts, node() every node. The attribute axis yields one attribute node per attribute passing the test, with its name, value and parent; an attribute has no siblings and no children. The steps . and .. yield the context node and its parent.",
     ['inputs'], 'every tree, context node, axis and node test',
     'Depends on where the context node lies, on equal sibling texts and on the depth; tests query a few documents.',
     [XAST], [('step.compute', XAST), ('name_test.compute', XAST), ('node_type_test.compute', XAST), ('abbreviated_step.compute', XAST)], LAZY, 'other', XNOTE)
prop('C17', 'XPath paths, unions, sequences, variables compose by their definitions',
     "For any operands: left/right evaluates right once for each item of left, in order and with that item as context item (also for empty or false items), and yields the concatenated results; left//right does so for each node of left and each of its descendants (with a child step: the descendants passing its test, in document order). Absolute paths start at the one root node of the context node's current tree, // at it and each of its descendants. A union yields each node of both sides once, in document order, also for attributes and equal texts. A sequence yields its items' results one after another. Variables, functions, lookup tables and extras stay available in nested evaluations. Functions get the context and their argument expressions; an unknown one raises RuntimeError. qquery evaluates at the root node if given the top of a tree, otherwise at the given node.",
     ['inputs'], 'every tree, context item and operand expression',
     'Composition must hold for all operand results, including empty texts, repeated and equal nodes; tests run a few fixed queries.',
     [XAST, XINIT], [('binary_expression.compute', XAST), ('absolute_path.compute', XAST), ('root_node.get', XAST), ('index_docorder', XAST), ('Sequence.compute', XAST), ('context.copy', XINIT), ('qquery', XINIT)], LAZY, 'other',
     XNOTE.replace('xp.pysrc', 'xq.pysrc') + ' Operands are extension functions yielding arbitrary items and recording their context.')
prop('C18', 'XPath predicates filter successively, by position or truth',
     "Each predicate is evaluated once for each item of the sequence it filters, in order, with that item as context item and its 1-based place in that sequence as context position. An item is kept if the first value of the predicate is a number equal to the position, or otherwise counts as true (true, a non-empty string, any node); a predicate without a value drops it. Each further predicate filters, and counts positions in, what the one before left over. Variables stay available in predicates.",
     ['inputs'], 'every sequence, number of predicates and predicate value',
     'Depends on values, positions and earlier predicates together; tests use single predicates on fixed documents.',
     [XAST], [('predicated_expression.compute', XAST), ('to_boolean', XAST)], LAZY, 'other',
     XNOTE.replace('xp.pysrc', 'xq.pysrc') + ' Sequences of up to three items, one or two predicates; values by type with representatives.')
prop('C19', 'XPath comparisons, and, or, unary minus convert and quantify as in XPath',
     "A comparison of two sequences without booleans is true exactly if it is true of some item of one side and some item of the other; for = and != a number on either side compares numbers, otherwise strings are compared; <, <=, > and >= compare numbers. Nodes count by their string value. With = and !=, compared with a boolean a sequence counts as false if it is empty or its only item is false as by boolean(). and, or combine their operands' boolean values, an empty operand being false, and unary minus negates the operand's number (NaN if it has none). Each yields exactly one value, of type boolean (comparisons, and, or) or number.",
     ['inputs'], 'every combination of operand types and sequences',
     'The rules depend on the types and numbers of items on both sides, with NaN and texts that are not numbers; tests compare a few.',
     [XAST], [('binary_expression.compute', XAST), ('_compare', XAST), ('unary_expression.compute', XAST)], LAZY, 'other',
     XNOTE.replace('xp.pysrc', 'xq.pysrc') + ' Strings are symbolic for equality; numbers and numeric strings are representatives of each class (integers, fractions, NaN, infinities, malformed).')
prop('C20', 'XPath conversions and string functions follow the definition for all types',
     "string(), number(), boolean() and not() convert booleans, numbers, strings, nodes (by their string value), sequences (by their first item) and empty sequences as XPath does: numbers print without a trailing .0, booleans as true and false, strings which are not XPath numbers become NaN, a node is true even if its text is empty. Without an argument string(), number(), string-length() use the context item. concat, starts-with, contains, substring-before, substring-after, substring and string-length convert their arguments to strings (an empty sequence to the empty string) and give exactly the characters XPath specifies (substring positions 1-based, rounded, possibly outside the string, infinite or NaN). count gives the number of items, name the name of an element or attribute, lookup the entry of the named table or nothing, for-each the results of its expression text for each item of its sequence in turn, that item being the context item.",
     ['inputs'], 'every argument type, string and position',
     'Each function has cases per argument type and boundary positions; tests call most functions once or not at all.',
     [XFUN, XAST], [('to_string', XAST), ('to_number', XAST), ('to_boolean', XAST), ('substring', XFUN), ('string_arg', XFUN), ('lookup_', XFUN)], LAZY, 'other',
     XNOTE.replace('xp.pysrc', 'xq.pysrc') + ' Strings are symbolic where the function treats all alike, otherwise all words over two letters up to length three, and boundary positions.')
prop('C21', 'XPath expressions are parsed with the specified precedence and structure',
     "Operators bind, weakest first, as: or; and; =, !=; <, <=, >, >=; +, -; div, mod; unary minus; |; then paths and predicates. Binary operators are left-associative. Predicates and /, // after an operator belong to the nearest operand, and a predicate after a path filters the result of that whole path. Names spelled like operators (or, and, div, mod) can be element, attribute, variable and function names, told apart by their place; text() and node() are node tests wherever a step may stand. String literals have exactly the characters between their quotes, numbers their value, an integer without a point an int. @ is the attribute axis, no axis is child, . and .. are the abbreviated steps, / alone is the root. Sequences and function arguments keep number and order. A name takes in all MicroXML name characters except a colon, and white space between tokens is irrelevant. A text which is no expression raises an exception.",
     ['inputs'], 'every expression text',
     'Precedence and token boundaries show up only for particular operator pairs, names and positions; tests parse some dozen expressions.',
     [XPR, XLEX], [('p_expr_binary', XPR), ('lexer rules', XLEX)], 'Fixed table of expressions and lexemes per token class',
     'other', 'PLY is taken to be an LALR(1) generator with its documented conflict resolution; its tables are recomputed from the source. Expressions up to two binary operators with all atoms, prefixes and postfixes (about 20000).')
prop('C22', 'A serialized XPath expression is the same expression',
     "serialize() writes, for the syntax tree of any expression that the parser gives, a text which the parser reads again as the same expression: same operators and operands in the same structure, same axes, node tests, names, predicates, function names and arguments, sequence items, and literals with the same value and type (string or number). The exception are expressions which continue a bare / by another path separator.",
     ['inputs'], 'every expression text',
     'Whether two neighbouring tokens run together, or an operand is regrouped, depends on the pair; no test serializes expressions.',
     [XAST], [('serialize', XAST), ('_serialize methods', XAST)], 'Fixed table of expressions per production and operator',
     'other', 'PLY is taken to be an LALR(1) generator with its documented conflict resolution. The family of C21 is used, expressions of up to seven tokens at the quick tier. Literals holding both kinds of quotes, which no text denotes, are not covered.')
prop('C23', 'Evaluating XPath changes nothing and can be repeated',
     "Evaluating an expression leaves the tree (nodes, their order, parents, names, texts, attributes) and the given context unchanged. Evaluating the same parsed expression again on the same tree and an equal context gives the same result: also when it was evaluated with other context items in between, when such an evaluation was given up after its first item, and when two evaluations are taken by turns.",
     ['inputs', 'histories'], 'every expression, tree, and sequence of evaluations',
     'Shared state between evaluations shows only in particular histories and interleavings; tests evaluate each expression once.',
     [XAST, XFUN, XINIT], [('compute methods', XAST), ('context.copy', XINIT)], LAZY, 'other',
     XNOTE.replace('xp.pysrc', 'xq.pysrc') + ' The expressions are one or two of each kind of syntax tree node and of the functions.')
