#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that wording and anchors are edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=state or [],
                               observe_at=observe or [], hook_needed=None)))

prop('C01', 'Parsing does not depend on how the input is split into fragments',
 'Feeding a MicroXML document to the parser in any sequence of fragments (including empty ones, and splits inside a tag, an attribute value or a character reference) gives the same events as feeding it whole, once adjacent character events are joined. A document that is rejected whole is rejected for every split, and vice versa, and no split makes the parser hang.',
 ['inputs', 'schedules'], 'all documents and all ways to cut each into fragments',
 'The tests cut a few fixed documents at a few fixed points; every text and every cut position is a different parser suspension point.',
 ['pylib/uxml/parser.py'], [('window / pos / backtracking on IndexError', 'parser.parser'), ('handle_cdata returns None when more input is needed', 'parser.handle_cdata'), ('parsefrags', 'parser.parsefrags')], ['events received by the handler coroutine'],
 [dict(name='window,pos,curr_state', meaning='unread input and automaton state kept across fragments', where='parser.parser')])
prop('C02', 'Accepted documents yield exactly the events they denote',
 'For every well-formed MicroXML document made of start tags, end tags, character data and character references (optional white space around it) parsing yields exactly its start, character and end events in document order: names and attributes (in document order) as written, with character references replaced by their characters, and text complete and unaltered but for line endings, which are read as line feeds (a literal tab or line break in an attribute value is read as a space). Nothing is added, lost, repeated or reordered.',
 ['inputs'], 'all well-formed documents: any Unicode names, attribute values, text, references, nesting and white space in tags',
 'Tests compare a handful of ASCII documents; name classes, reference decoding and quoting depend on every code point and every nesting.',
 ['pylib/uxml/parser.py'], [('character-class regular expressions', 'parser.NAMESTARTCHAR, NAMECHAR, DATACHAR, ATTRIBVALCHAR_*'), ('handle_cdata', 'parser.handle_cdata'), ('state machine', 'parser.parser')], ['events from parse()'])
prop('C03', 'Ill-formed input is always rejected with an error, and parsing always ends',
 'Every input that is not a well-formed MicroXML document of tags, character data and references (mismatched, unclosed or extra tags, bad names, missing or unquoted attribute values, duplicate attributes, bad or unknown character references, forbidden characters, text outside the document element, truncated input) makes parsing raise an error; it is never silently dropped, repaired or accepted. White space right after "<" or "</" is tolerated; comments, processing instructions and empty-element tags are not supported and are rejected. Parsing any input terminates.',
 ['inputs'], 'all character strings', 'Tests sample a few malformed documents; the claim is about every string that is outside the grammar.',
 ['pylib/uxml/parser.py'], [('RuntimeError at each state', 'parser.parser'), ('element_stack check', 'parser.parser'), ('reference decoding errors', 'parser.handle_cdata')], ['exception or completion of parse()'])
prop('C04', 'Event streams are balanced, carry true ancestor lists, and stay fixed once sent',
 'In every event stream each end event matches the most recent open start event and carries the list of the names still open; each start event carries the names of its ancestors, outermost first. Events already delivered (their attribute mapping and ancestor list) never change, whatever is parsed afterwards or however a consumer alters another event, and nothing that is not an event is delivered.',
 ['inputs', 'histories'], 'all documents, fed whole or in fragments, all consumers',
 'Tests look at finished lists of events for fixed documents, not at aliasing between events or at every nesting.',
 ['pylib/uxml/parser.py', 'pylib/uxml/xml.py'], [('element_stack.copy(), attribs.copy()', 'parser.parser'), ('expat_callbacks._elem_stack', 'xml.expat_callbacks')], ['events received by the handler coroutine'])
prop('C05', 'A parsed tree mirrors its document, and every parse starts afresh',
 'Parsing a document gives a tree with exactly its elements, attributes and text in document order, every node linked to its real parent and the document element without a parent. A builder used for several parses, including after a failed or incomplete one, gives each time the tree a new builder would give and leaves earlier trees untouched.',
 ['inputs', 'histories'], 'all documents and all sequences of documents given to one builder',
 'Tests use a fresh builder or one valid sequence; state carried from one parse to the next shows only for particular sequences.',
 ['pylib/uxml/tree.py', 'pylib/uxml/__init__.py'], [('treebuilder._handler', 'tree.treebuilder'), ('reset of _root/_parent', 'tree.treebuilder.parse')], ['tree returned by parse()'])
prop('C06', 'Tree edits keep parent and child links consistent',
 'After any sequence of append, insert and remove operations on a tree, every child listed by an element (node objects and strings given as text alike) reports that element as its parent, inserted nodes stand at the requested position in order, and a removed node has no parent and is exactly the node object that was asked for, not an equal-looking sibling. Removing something that is not a child raises ValueError and changes nothing.',
 ['histories'], 'all sequences of edits, positions and node kinds, including equal text siblings',
 'Tests make one or two edits on one tree; identity versus equality and index handling depend on the history.',
 ['pylib/uxml/tree.py'], [('xml_insert / xml_append / xml_remove', 'tree.element'), ('weak parent reference', 'tree.node')], ['xml_children, xml_parent after each step'])
prop('C07', 'String value is the concatenated text of all descendants',
 'For every tree the string value of an element (by attribute or by function) is the concatenation in document order of all text under it at any depth, the string value of a text node is its text, and an element with no text has the empty string. Computing it changes nothing.',
 ['inputs'], 'all tree shapes and texts', 'Tests take one or two trees; nesting, empty elements and adjacent text vary without bound.',
 ['pylib/uxml/tree.py'], [('element.xml_value, text.xml_value', 'tree.element'), ('strval', 'tree.strval')], ['xml_value, strval()'])
prop('C08', 'Serialising a tree and parsing it back gives the same tree',
 'For every tree built of legal MicroXML names and characters, the text produced by encoding the tree (without indentation) is a well-formed document which, parsed by this library, yields an equal tree: same names, same attributes with the same values in the same order, same text. The same holds for what writing the tree to a file object produces. Asking for indentation adds nothing but white space between tags and texts.',
 ['inputs'], 'all trees: any legal names, attribute values (quotes, tabs, newlines, ampersands, any Unicode) and text',
 'Escaping tests cover a few characters; the round trip must hold for each character in each position and quote combination.',
 ['pylib/uxml/tree.py', 'pylib/uxml/parser.py'], [('xml_encode with escape/quoteattr', 'tree.element.xml_encode'), ('reference decoding', 'parser.handle_cdata')], ['xml_encode() then parse()'])
prop('C09', 'The writer emits the document that was fed to it',
 'For every sequence of balanced start, text and end calls, the raw writer emits a well-formed document which parses back to exactly the elements, attributes and text given, and writing a tree through it gives the same document as encoding the tree. Asking for indentation adds only white space outside the texts and tags that were given.',
 ['inputs', 'histories'], 'all balanced call sequences, attribute values and texts, with and without indentation or empty-element tags',
 'Writer tests compare a few literal outputs; escaping, token order and indentation state depend on the call history.',
 ['pylib/uxml/writer.py'], [('raw.start_element/end_element/text/write', 'writer.raw'), ('write(elem, writer)', 'writer.write')], ['text written to the file object'])
prop('C10', 'The namespace-adding writer adds exactly the requested declarations and prefixes',
 'Writing a tree through the namespacing writer gives the raw writer\'s output plus one declaration, with its value intact, for each requested prefix on the document element only, and the mapped prefix in front of exactly those element and attribute names that have one. A namespace-aware XML parser reading the result sees the original local names, values and texts, each in its mapped namespace.',
 ['inputs', 'configurations'], 'all trees, prefix tables and name mappings',
 'One fixed mapping is tested; declarations interact with attributes, nesting and escaping.',
 ['pylib/uxml/writer.py'], [('namespacer.write', 'writer.namespacer'), ('_first_element/_ns_handled', 'writer.namespacer')], ['text written to the file object'])
prop('C11', 'Pretty-printing changes only ignorable white space',
 'Making a tree pretty keeps every element with its attributes and order, and every text that is not entirely white space unchanged and in place; it only adds or replaces all-white-space text, and every text it adds is a line break followed by the requested indent repeated for its depth. The same element object is returned, links stay consistent, and pretty-printing again changes nothing.',
 ['inputs', 'configurations'], 'all trees, mixed content and indent strings', 'One document with one indent is tested; mixed content and depth vary without bound.',
 ['pylib/uxml/treeutil.py'], [('make_pretty', 'treeutil.make_pretty')], ['tree after make_pretty'])
prop('C12', 'Selection helpers return exactly the matching nodes in document order',
 'Selecting the elements, the elements of a given name or name pattern, value or attribute (with or without a value) from an element\'s children or from any iterable returns exactly those items that match, each once, in their original order, and nothing else. Listing descendants gives every element below a node exactly once in document order, and listing following siblings gives exactly the nodes after the very node asked about.',
 ['inputs'], 'all trees, names, values, attribute tables and start nodes, including equal text siblings',
 'Tests query a single tree with names chosen to be unambiguous.', ['pylib/uxml/treeutil.py'],
 [('select_* filters', 'treeutil'), ('descendants', 'treeutil.descendants'), ('following_siblings', 'treeutil.following_siblings')], ['list of returned nodes'])
prop('C13', 'Pattern selection returns every descendant whose path matches the pattern',
 'Selecting with a pattern of names, "*" (any one element) and "**" (any number of levels, including none) returns exactly the descendants whose chain of names from below the start node matches the whole pattern, each once and in document order.',
 ['inputs'], 'all trees and patterns', 'Tests use a few patterns on trees in which a greedy match happens to be right.',
 ['pylib/uxml/treeutil.py'], [('_prep_pattern state functions', 'treeutil'), ('select_pattern', 'treeutil.select_pattern')], ['list of returned nodes'])
prop('C14', 'Streaming delivers exactly the matching subtrees, complete and in order',
 'Parsing a document with a streaming sender gives each sink, in document order, exactly the outermost elements whose path of names from the document element matches that sink\'s pattern of names, "*" and "**", each delivered once, after it is complete and equal to the same subtree of a full parse. Several patterns and sinks on one sender act independently of each other. An unfinished or ill-formed document raises an error; what was complete before it broke off has been delivered.',
 ['inputs', 'configurations'], 'all documents and all lists of patterns', 'Tests run one pattern on two documents; interference between patterns and nested matches are never exercised.',
 ['pylib/uxml/treeiter.py'], [('_match_state over event stacks', 'treeiter.sender'), ('building depth per pattern', 'treeiter.sender._handler')], ['values received by each sink'])
prop('C15', 'XML input gives the MicroXML tree of its local names',
 'Parsing namespace-well-formed XML gives a tree of the same elements and attributes with namespace parts removed from the names (declarations dropped), and the same text, independent of how the XML parser chops text into chunks and of what the namespace names look like (as long as the local names of an element\'s attributes stay distinct). Ill-formed or truncated XML raises an error, and each parse with a reused builder gives the tree of its own document.',
 ['inputs', 'histories', 'schedules'], 'all sequences of XML parser callbacks for well-formed documents, and all sequences of documents given to one builder',
 'No test parses XML; name splitting and chunking depend on every name and callback sequence.',
 ['pylib/uxml/xml.py'], [('expat_callbacks', 'xml.expat_callbacks'), ('treebuilder.parse', 'xml.treebuilder')], ['tree returned by parse(), events sent to the handler'])
prop('C16', 'Streaming from XML matches streaming from MicroXML',
 'Feeding the XML streaming sender the equivalent XML document, in one or several pieces or from a file, delivers to the sinks the same subtrees as the MicroXML streaming sender does for the document with namespaces removed. Ill-formed XML, and a file that breaks off, raise an error, after the subtrees complete before that have been delivered.',
 ['inputs', 'schedules'], 'all documents, patterns and ways of feeding', 'The XML streaming sender has no test.',
 ['pylib/uxml/xmliter.py', 'pylib/uxml/xml.py', 'pylib/uxml/treeiter.py'], [('sender.parse / parse_file', 'xmliter.sender')], ['values received by each sink'])
prop('C17', 'XPath axes select exactly the nodes they are defined to',
 'For every tree, context node and node test, a single XPath step along any supported axis (child, descendant, self, parent, ancestor, their -or-self forms, following, preceding, their sibling forms, attribute) returns exactly the nodes on that axis which pass the node test, each once, reverse axes nearest first and forward axes in document order.',
 ['inputs'], 'all trees, context nodes, axes, names and node tests', 'Tests use three small documents; several axes have no test at all.',
 ['pylib/uxml/uxpath/xast.py'], [('step.compute', 'xast.step'), ('name_test/node_type_test', 'xast')], ['list yielded by xml_xpath()'])
prop('C18', 'XPath paths and abbreviations mean their composition of steps',
 'A path a/b selects, for each node of a in turn, the nodes of b from it; "//" stands for descendant-or-self::node() between its neighbours, "." and ".." for self and parent, "@" for the attribute axis, and a leading "/" starts at the root of the tree, the node above its top element, whatever the context node. An abbreviated path selects the same nodes as its expansion. (node() right after a leading "/" or "//" selects the root as well.)',
 ['inputs', 'programs'], 'all trees, context nodes and path expressions', 'Tests check about forty fixed expressions on small fixed trees.',
 ['pylib/uxml/uxpath/xast.py', 'pylib/uxml/uxpath/parserules.py'], [('binary_expression / and //', 'xast.binary_expression'), ('absolute_path', 'xast.absolute_path'), ('abbreviated_step', 'xast.abbreviated_step')], ['list yielded by xml_xpath()'])
prop('C19', 'XPath predicates keep exactly the items that satisfy them',
 'A predicate keeps an item of the sequence before it exactly if it evaluates to a number equal to the item\'s position (counting from 1 in the sequence left by the previous predicates) or to a non-number that is true; order is preserved, nothing is duplicated, and the items are evaluated with themselves as the context.',
 ['inputs', 'programs'], 'all trees, positions and predicate lists', 'Tests have a few single predicates.',
 ['pylib/uxml/uxpath/xast.py'], [('predicated_expression.compute', 'xast.predicated_expression'), ('to_boolean', 'xast.to_boolean')], ['list yielded by xml_xpath()'])
prop('C20', 'XPath comparisons and boolean operators follow existential semantics',
 'Comparing with =, !=, <, <=, > or >= yields exactly one boolean: true if and only if some item of the left and some item of the right compare so. For = and !=, a pair is compared as booleans if either is a boolean, else as numbers if either is a number, else as strings, nodes standing for their string values; the order comparisons compare as numbers. An empty sequence compares false. "and", "or" and not() yield the boolean combination of their operands\' truth values (of their first items), "and" binding tighter than "or".',
 ['inputs', 'programs'], 'all pairs of sequences of nodes, strings, numbers and booleans', 'Tests use = with single matching values in about ten expressions.',
 ['pylib/uxml/uxpath/xast.py', 'pylib/uxml/uxpath/functions.py'], [('binary_expression comparison branches', 'xast.binary_expression')], ['list yielded by xml_xpath()'])
prop('C21', 'XPath conversions and core functions compute their documented values',
 'string, number, boolean, not, true, false, name, count, concat, starts-with, contains, substring-before, substring-after, substring and string-length return exactly one value, the one their documentation (and XPath 1.0 where it refers to that) gives, for every argument kind: string, number, boolean, node, empty sequence, or omitted argument where allowed. Of an argument of several items the first counts, except that concat joins and count counts them all; the name of a text node is "#text".',
 ['inputs', 'programs'], 'all strings, numbers, positions, nodes and argument kinds', 'Tests call each function with one or two literals.',
 ['pylib/uxml/uxpath/functions.py', 'pylib/uxml/uxpath/xast.py'], [('to_string/to_number/to_boolean', 'xast'), ('BUILTIN_FUNCTIONS', 'functions')], ['value yielded by the function'])
prop('C22', 'XPath union returns the set of nodes in document order',
 'The union of two node sequences returns every node of either exactly once, in document order of the tree as it is now, for any mix of elements, text and attribute nodes.',
 ['inputs', 'histories'], 'all trees, operand pairs and edits between evaluations', 'One union of two element names is tested.',
 ['pylib/uxml/uxpath/xast.py'], [('binary_expression |', 'xast.binary_expression'), ('docorder_key', 'xast.docorder_key')], ['list yielded by xml_xpath()'])
prop('C23', 'XPath evaluation has no memory',
 'Evaluating an expression does not change the tree or the parsed expression, and evaluating the same expression again, also after other evaluations and after any edit of the tree, gives what a freshly parsed expression gives on a fresh copy of the current tree.',
 ['histories'], 'all sequences of evaluations and edits over all trees and expressions', 'Tests evaluate each expression once on a tree that is never edited.',
 ['pylib/uxml/uxpath/xast.py', 'pylib/uxml/uxpath/__init__.py'], [('root_node cache', 'xast.root_node'), ('context.copy', 'uxpath.context'), ('axis rewriting', 'xast.binary_expression')], ['results of repeated evaluation; tree before and after'])
prop('C24', 'Serialising a parsed XPath expression keeps its meaning',
 'Serialising any parsed expression gives an expression text which parses again and evaluates, on every tree, to the same result as the original.',
 ['programs', 'inputs'], 'all expressions: literals with any characters, names, operators, nesting', 'Serialisation is only reached through repr in tests.',
 ['pylib/uxml/uxpath/xast.py'], [('_serialize methods', 'xast'), ('serialize', 'xast.serialize')], ['serialize(parse(x)) evaluated'])
prop('C25', 'Trees built through the HTML adapter stay consistent and lose nothing',
 'For any sequence of the tree operations an HTML parser performs (create, append, insert text or node before, remove, clone, move or assign children, set attributes) the adapter\'s tree has exactly the children, in order, that the operations define, every child reports its real parent, removed nodes have none, clones keep name, namespace and attributes independently of the original, and adjacent text is not lost.',
 ['histories'], 'all bounded sequences of adapter operations on nodes with arbitrary names, texts and attributes', 'Tests parse a few fixed HTML files and read a few nodes.',
 ['pylib/uxml/html5.py'], [('node.appendChild/insertBefore/removeChild/insertText', 'html5.node'), ('element.cloneNode, attributes', 'html5.element')], ['adapter tree after each operation'])
prop('C26', 'The XML sniffing function classifies every byte string safely',
 'For every byte string, isxml returns true if and only if the bytes start with one of the recognised XML encoding signatures, or decode (after any byte-order mark) to text whose first character that is not XML white space is "<". It never reads outside its argument, never leaks or over-releases the result, and leaves no pending exception.',
 ['inputs'], 'all byte strings up to the bound', 'The extension has no test.',
 ['clib/xmlstring.c'], [('string_isxml', 'clib/xmlstring.c')], ['return value, memory accesses'])
prop('C27', 'The microx command prints exactly the query results',
 'For every source document, the command prints, one per line and in order, exactly the results of the expression: with --expr evaluated once from the root of each document, with --match on every element in document order. An element or text is printed as its markup, the root as the whole document, an attribute as its value, anything else as its string. --foreach prints, instead of each result, what that expression gives with the result as context. --limit N keeps the first N results of the run. --partition NAME queries each outermost element of that name as a document of its own. --find-text prints for each text containing the string the path of names down to the element holding it, with the values of the attributes asked for. Several sources are processed each on its own, in turn. The sources are MicroXML, or with --html or --lax the HTML read by html5.parse or html5.parse_lax_xml; -o writes the same output to a file.',
 ['inputs', 'configurations'], 'all documents, options and expressions', 'The command has no test.',
 ['exec/microx'], [('run', 'exec/microx')], ['standard output of run()'])
prop('C28', 'HTML text parses to the tree the HTML algorithm defines',
 'Parsing HTML text with html5.parse, whatever tags, misnesting, missing or extra ends, tables, forms, frames, SVG and MathML it has, gives the tree that html5lib\'s tree construction defines for it, reduced to elements (name after the last colon), attributes (attributes of a namespace by their local name; attributes called xmlns... are outside of the claim) and text; with use_xhtml_ns or without. parse_lax_xml gives the first element of the body of that tree, detached, if the body starts with an element, and raises ValueError if it is empty. markup_fragment gives the body of that tree, or None without one. Text, bytes and files are read alike; bytes are decoded with the encoding given. Parents and children of the tree agree.',
 ['inputs'], 'all HTML texts', 'Tests parse a few fixed HTML documents; misnested formatting, foster parenting, foreign content and colons each go through the tree builder differently.',
 ['pylib/uxml/html5.py', 'pylib/uxml/tree.py'], [('treebuilder, parse', 'html5'), ('element names and namespaces kept for html5lib', 'html5.treebuilder'), ('parse_lax_xml', 'html5.parse_lax_xml'), ('markup_fragment', 'html5.markup_fragment')], ['tree returned by html5.parse() and parse_lax_xml()'])
prop('C29', 'XPath expression text is read by the grammar and anything else is rejected',
 'Every text that is an expression of the XPath grammar is accepted and means what the grammar makes of it: "or" binds loosest, then "and", then = and !=, then the order comparisons, + and -, div and mod, unary minus, union, and tightest predicates and "/"; operators group to the left; parentheses group; white space between tokens changes nothing; a name that spells an operator is a name wherever an operator cannot stand. Every other text raises an error, and an error leaves nothing behind for the next text.',
 ['programs'], 'all expression texts up to the bound: arbitrary characters, every combination of operators and operands',
 'Tests parse about fifty fixed expressions; precedence and tokenising depend on every combination and every character.',
 ['pylib/uxml/uxpath/lexrules.py', 'pylib/uxml/uxpath/parserules.py', 'pylib/uxml/uxpath/__init__.py'], [('token rules', 'lexrules'), ('grammar and precedence table', 'parserules'), ('parse', 'uxpath.parse')], ['parse() accepting or raising; evaluation of the parsed expression'])
prop('C30', 'An XPath query uses exactly the document, variables and functions it is given',
 'A query evaluates over the node, document text or UTF-8 bytes it is given. $name stands, at any place in an expression (operands, arguments, predicates, inside for-each), for the very object given under that name, and a name that was not given raises an error. A call of a function runs the one given under that name (the built-in ones if no functions are given; otherwise the given ones take their place), with the context item and position of the place it stands at and with the variables and functions of the query, passes its arguments as expressions in order, and yields all that it yields; an unknown function raises an error. lookup() gives, at any place in an expression, the very object that the table of that name in the context has under that key, or nothing. for-each evaluates its expression text once for each item, in order, with the item as context, and yields all results. What was given is not changed.',
 ['inputs', 'programs'], 'all expressions, variable values, functions, lookup tables and contexts',
 'Tests pass one or two variables and functions in a few fixed expressions.',
 ['pylib/uxml/uxpath/xast.py', 'pylib/uxml/uxpath/__init__.py', 'pylib/uxml/uxpath/functions.py', 'pylib/uxml/tree.py'], [('variable_reference, function_call', 'xast'), ('context.copy', 'uxpath.context'), ('qquery', 'uxpath.qquery'), ('foreach_', 'functions.foreach_'), ('xml_xpath', 'tree.node.xml_xpath')], ['items yielded by xml_xpath(), qquery() and compute()'])
prop('C31', 'Pieces of work in progress at the same time do not disturb each other',
 'Parsers fed in pieces, event iterators, tree builders, streaming senders (from MicroXML or XML), writers, queries and selections, each with its own objects, give what each gives alone, however their steps are interleaved and when one is run from inside the handler, sink, function or file of another; an error in one leaves the others unharmed. Patterns, prefixes, mappings and parsed expressions used by several are not changed. A sink may change what it is given without any other sink of the same sender seeing it.',
 ['schedules', 'inputs'], 'all pairs of pieces of work, all interleavings of their steps, all documents',
 'Tests run one thing at a time.',
 ['pylib/uxml/parser.py', 'pylib/uxml/treeiter.py', 'pylib/uxml/xmliter.py', 'pylib/uxml/xml.py', 'pylib/uxml/writer.py', 'pylib/uxml/uxpath/__init__.py'], [('coroutine state', 'parser.parser'), ('per-pattern state', 'treeiter.sender'), ('shared lexer and parser', 'uxpath')], ['what each piece of work delivers'])
prop('C32', 'Trees and streaming hold no more than what is in use',
 'Nothing in the library keeps a tree alive: once the caller drops its references (and the reader that built it), every element goes, without help of the cyclic collector except for the XML reader\'s own callbacks, whatever was done with the tree before (edits, queries, serialising, selections). Holding an element keeps what is below it, links intact, and nothing above it: its parent is then None. While streaming, no elements exist but those of the subtrees being built or delivered last.',
 ['histories', 'inputs'], 'all trees, uses, edits and documents', 'One test looks at the reference counts of one streamed document.',
 ['pylib/uxml/tree.py', 'pylib/uxml/treeiter.py', 'pylib/uxml/uxpath/xast.py'], [('weak parent links', 'tree.node'), ('_roots, _parents', 'treeiter.sender'), ('root_node.get', 'xast.root_node')], ['weak references to elements'])
prop('C33', 'Namespaces set aside while reading XML describe the document and restore it',
 'Reading XML with the namespace-tracking callbacks gives the same tree and events as without, and sets aside: the prefixes (in streaming mode exactly the declarations in scope at each event, an inner declaration hiding an outer one only until it ends, nothing left at the end; otherwise every prefix declared so far, with its latest namespace); and, for the name of every element and (after @) attribute of the document, and no other, its namespace (of several elements of one name the first counts; of several attributes any) with a prefix that stands for it: none for no namespace, xml for the xml namespace, for attributes never the default. Writing the tree back with these through the namespace-adding writer gives a document in which every element and attribute has its expanded name again, if in the original each prefix stands for one namespace, each element and attribute name is in one namespace, and no element is outside of every namespace once a default is declared.',
 ['inputs', 'histories'], 'all XML documents and declarations', 'No test uses the tracking callbacks.',
 ['pylib/uxml/xml.py', 'pylib/uxml/xmliter.py', 'pylib/uxml/writer.py'], [('prefixes, ns_portfolio', 'xml.ns_expat_callbacks'), ('declarations and prefixes', 'writer.namespacer')], ['prefixes and ns_portfolio at each event', 'expanded names of the document written back'])
prop('C34', 'Streaming from HTML delivers exactly the matching elements of the parsed HTML',
 'html5iter.sender gives each sink exactly the outermost elements that match its pattern in the tree HTML parsing gives for the document (implied elements included, misnested content where the HTML rules put it), each complete, the root of a tree of its own, in document order, and for several patterns in the order the elements end; from text or a file, for one document after the other, with sinks primed or not. What was delivered does not change later.',
 ['inputs', 'programs'], 'all HTML texts, all patterns', 'No test uses html5iter.',
 ['pylib/uxml/html5iter.py', 'pylib/uxml/treeiter.py', 'pylib/uxml/html5.py', 'pylib/uxml/tree.py'], [('sender', 'html5iter'), ('_handler and pattern matching', 'treeiter.sender'), ('treebuilder', 'html5')], ['elements sent to sinks'])
prop('C35', 'A tree parsed from HTML works as any other tree',
 'Whatever HTML a tree was parsed from: encoding it, writing it to a file and through the writer all give the same well-formed text, which parses back to the same elements, attributes and text; the value of an element is the text below it; comments count as zero-length texts in all of this. XPath queries from any node, traversal, selection by name, value and pattern, siblings and pretty-printing find exactly what the lists of children say, and leave the tree as it is but for pretty-printing. Nodes can be edited, added, removed and moved within it and to and from trees built otherwise, keeping parent and child links consistent, and attributes set on one element show on that element alone.',
 ['inputs', 'histories'], 'all HTML texts, queries and edits', 'Tests encode one or two parsed documents.',
 ['pylib/uxml/html5.py', 'pylib/uxml/tree.py', 'pylib/uxml/writer.py', 'pylib/uxml/treeutil.py', 'pylib/uxml/uxpath/xast.py'], [('node, element, comment', 'html5'), ('cloneNode', 'html5.element.cloneNode')], ['encodings, values, query results and links of parsed trees'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
for p in P: assert len(p['title']) <= 80, p['title']
print(len(P), 'properties')
