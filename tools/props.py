PROPS = []
NOT_APPLICABLE = {}
NOTES = ("All checks are one static analyser (checker/, Go, golang.org/x/tools vendored) that loads and type-checks /repo's current "
         "tree on every run, builds SSA and judges it; nothing of /repo is executed.")

def P(id, title, statement, over, quant, why, files, mech, technique=None, level=None, note=None, observe=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, level=level, note=note, observe=observe))
    if na:
        NOT_APPLICABLE[id] = na

P('X01', 'Callback table dispatches each event to its own handler, faithfully',
  'For every event of the callback interface, the callback table calls exactly the handler registered for that same event, once, with the arguments it was given, in the same order, and returns what the handler returned. When no handler is registered for an event, nothing is called and the documented "handler unspecified" error (and no other value) is returned. That sentinel never changes.',
  ['inputs', 'configurations'], 'every event method, every set of registered handlers, every argument list',
  'Tests register most handlers at once and look at a text log of a few documents; a swapped argument or a handler delegating to a sibling of the same type compiles and shows only for the one event and values involved.',
  ['sax/sax2.go', 'sax/interface.go'],
  [('one method per event that tests and calls its own field', 'sax/sax2.go: SAX2.* methods'), ('sentinel', 'sax/sax2.go: ErrHandlerUnspecified')],
  'path enumeration over SSA (symbolic terms, no solver), one obligation per interface method',
  'proof', 'All paths of all 25 methods are enumerated and compared with the specification; the method list comes from the interface type.',
  observe=['calls of the registered callbacks', 'returned error'])

P('N01', 'Encoding names select the decoder they name, whatever their letter case',
  'Every supported encoding name selects the decoder for exactly that encoding, regardless of the letter case it is written in. Names that are not supported select nothing. The choice depends on nothing but the name.',
  ['inputs'], 'every encoding name',
  'The test loads one or two names; a wrong row of the table is only visible for documents in that encoding that use the bytes in which the two decoders differ.',
  ['encoding/encoding.go'],
  [('table of names', 'encoding/encoding.go: Load')],
  'partial evaluation of the lookup over SSA into a table, compared with an independently written table',
  'proof', 'The complete decision tree (or map literal) is extracted and every row is compared with the oracle; trusted: that the x/text variables are the decoders their names say.')

PSAI = 'path-sensitive abstract interpretation over SSA from the parse entry point (character sets, error classes, parser states; functions summarised per abstract input)'

P('C05', 'A handler error stops the parse and is reported',
  'When a registered handler returns an error of its own for an event (an error other than the "handler unspecified" sentinel), no handler is called for any later event of that parse. The parse then returns an error. Handler calls that answer a lookup (such as fetching an entity) are questions, not events, and are outside this guarantee.',
  ['inputs', 'fault_sequences'], 'every input, every event at which a handler can fail, every handler error',
  'There are more than twenty places where handlers are called and dozens of callers above them; a test fails one handler at one place in one document, while a single caller that drops the error on one path goes unnoticed.',
  ['parserctx.go', 'parser.go'],
  [('handler calls and the switch on their result', 'parserctx.go: all calls of ctx.sax methods'), ('error propagation', 'parserctx.go: parse* functions')],
  PSAI + '; rule: after a failing handler call no path reaches another handler call or leaves the parser without error', 'proof',
  'Every path class of every function reachable from Parse is explored to a fixpoint.', observe=['sequence of handler calls', 'error of Parse'])

P('C06', 'Declining an event changes nothing',
  'If the handler of an event answers with the "handler unspecified" sentinel, as when no handler is registered for it, the parse goes on exactly as if the handler had accepted the event. The sentinel is never returned by the parse, nor wrapped in an error it returns. Handler calls that answer a lookup (such as fetching an entity) are outside this guarantee.',
  ['inputs', 'configurations'], 'every input, every set of registered handlers, every event',
  'Tests register either all handlers or the tree builder; each event has its own switch on the result, and treating the sentinel differently at one of them shows only for applications that leave out that handler.',
  ['parserctx.go', 'sax/sax2.go'],
  [('switch on handler results', 'parserctx.go: case nil, sax.ErrHandlerUnspecified')],
  PSAI + '; differential rule: the set of continuations after a declined event equals the set after an accepted one', 'proof',
  'The continuations (next handler call, next routine, error, end of parse) of both outcomes are compared for every handler call site.', observe=['sequence of handler calls', 'error of Parse'])

P('C07', 'An error found in any construct fails the whole parse',
  'Whenever part of the document turns out to be malformed after some of that part has already been consumed, or the replacement text of an entity is malformed, the parse returns an error, however deeply the part is nested. No enclosing construct drops the error and goes on.',
  ['inputs'], 'every input',
  'Each of the parsing routines has several callers; dropping the error at one of them accepts malformed documents of one shape only, and the tests contain few malformed documents.',
  ['parserctx.go', 'parser.go'],
  [('error propagation', 'parserctx.go: parse* functions')],
  PSAI + '; rule: a callee that failed after consuming input (or on a piece of text) makes every caller return a non-nil error', 'proof',
  'Decided for every call site on every abstract path; look-ahead failures that consumed nothing are exempt.', observe=['error of Parse'])

P('C08', 'Events follow the document grammar',
  'Handlers see the document start first, then exactly one root element, then the document end, with every element start matched by an element end inside it. Character data, CDATA, ignorable whitespace and references are announced only inside the root element, and declarations only after the DTD was announced and before the root element starts. Nothing is announced after the document end, and a parse that succeeds has announced both ends of the document and of its root element.',
  ['inputs', 'histories'], 'every input, every sequence of events it produces',
  'Handlers (the tree builder first of all) rely on this order; tests compare the event log of a handful of documents, and a path that announces an event in the wrong place needs an unusual combination of constructs.',
  ['parserctx.go', 'parser.go'],
  [('handler calls', 'parserctx.go: all calls of ctx.sax methods'), ('document structure', 'parserctx.go: parseDocument, parseContent, parseElement')],
  PSAI + '; typestate automaton over the handler calls', 'proof',
  'Every abstract path; nesting depth of elements is abstracted by a saturating counter relative to each call.', observe=['sequence of handler calls'])

P('C09', 'Every construct of a document is announced, once',
  'When a parse succeeds, each run of character data, comment, processing instruction, CDATA section that is not empty, character reference, reference to a declared entity, start and end of an element, document type declaration, and element, attribute and entity declaration it read was announced to the handlers. None was passed over, whatever surrounds it, and none was announced twice.',
  ['inputs'], 'every construct of every input, in every state of the parser in which it can occur',
  'What is not announced is missing from the tree without any error. Each construct is read by a routine of its own with several ways out (empty, blank, in the prolog, in an entity), and tests compare the events of a handful of documents.',
  ['parserctx.go'],
  [('routines of the constructs', 'parserctx.go: parseCharData, parseComment, parsePI, parseDocTypeDecl, parseElementDecl, parseEntityDecl, parseStartTag, parseEndTag'), ('attribute definitions, references', 'parserctx.go: parseAttributeListDecl, parseReference')],
  PSAI + '; rule: between the start of the routine for a construct and each of its ways out without an error, exactly one event of its kind', 'proof',
  'Every abstract path. Which routine reads which construct is given by name; a routine of that name that announces nothing any more leaves the rule undecided if another one announces it. Entities without any text need not be announced; a conditional section, a notation declaration and an external identifier always fail.', observe=['sequence of handler calls'])

P('C10', 'The text delivered is the text of the document',
  'Character data, CDATA sections, comments, names, and the target and data of processing instructions reach the handlers as exactly the piece of the document between their opening mark and the first closing mark: every character once and in order, nothing added, cut off or taken from elsewhere, only a carriage return before a line feed dropped from text, CDATA and comments. An attribute value is what stands between its quotes, white-space characters as blanks and references replaced by what they stand for; an entity keeps its literal as written. A character reference stands for the character with the number its digits give, all of them.',
  ['inputs'], 'every piece of text of every input, of any length',
  'Each construct has its own scanning loop with a look-ahead counter, a buffer and a final step that has to agree with both; being off by one, stopping at the wrong mark or losing a character shows only for particular text, and tests compare a few documents.',
  ['parserctx.go'],
  [('scanning loops', 'parserctx.go: parseCharData, parseCDSect, parseComment, parsePI, parseAttributeValueInternal, parseEntityValue'), ('names', 'parserctx.go: parseName, parseNCName, parseNmtoken, parsePITarget, parseQName'), ('references', 'parserctx.go: parseCharRef, parseReference; white space: skipBlanks')],
  'Relational dataflow analysis (Scribe) over go/ssa: positions in the input are linear terms, texts are pieces of the input between two positions, loops are joined into one symbolic turn; rule: the text announced or returned is the one piece of the input the construct consists of, and the routine ends behind its closing mark', 'proof',
  'All paths of the listed routines with what they call, loops of any number of turns; a routine judged by itself is taken at its word by the others. The cursor is taken to be correct. Collapsing of white space in attributes of tokenized types is not judged. Code that is not understood leaves the rule undecided, without alarm.', observe=['text and name arguments of handler calls', 'names and values of attributes'])

P('C12', 'Only legal XML characters and name characters are accepted',
  'The parser never accepts a character that XML forbids, neither literally anywhere in the document nor through a character reference. Element, attribute and other names consist of name characters only (letters, digits, combining marks, extenders, period, hyphen, underscore, colon).',
  ['inputs'], 'every character at every place of every input',
  'There are about twenty scanning loops, each with its own character test; a test cannot try each of the 1.1 million characters at each of them.',
  ['parserctx.go', 'document.go'],
  [('character tests', 'parserctx.go: isChar, isNameStartChar, scanning loops'), ('character references', 'parserctx.go: parseCharRef, parseStringCharRef')],
  PSAI + '; rule: the set of characters consumed at each place is a subset of the legal ones', 'proof',
  'Exact sets of code points are propagated through peeks, tests and loops; every consumption and every computed character is checked.', observe=['error of Parse', 'text of nodes and events'])

P('S02', 'Serialised markup says what the node says',
  'Writing a document or node as XML produces, for every kind of node, the markup XML prescribes for it: the XML and document type declarations, entity, element and attribute declarations with their keywords, identifiers, occurrence operators and grouping of content models, elements with their full names, namespace declarations, attributes and children in order, comments, processing instructions and references. Nothing the node holds is left out and nothing is added.',
  ['inputs'], 'every document tree, every combination of the fields that shape the markup of a node',
  'Each node kind has its own writer with a branch for every optional part; tests compare the output of a few documents, and a wrong branch (parentheses of a nested content model, the keyword of one attribute type) shows only for that combination.',
  ['dump.go'],
  [('writers of the node kinds', 'dump.go: Dumper.dumpNode, dumpDTD, dumpEntityDecl, dumpElementDecl, dumpElementContent, dumpAttributeDecl, dumpNs')],
  'abstract interpretation of the serialiser over SSA in a domain of output templates (constant text and placeholders of node fields), compared with templates derived independently from the XML grammar, per node kind and valuation of the shaping fields',
  'proof', 'All paths for all enumerated valuations (empty/non-empty strings, enumerated codes, lists of up to two); longer lists repeat the same loop iteration..',
  observe=['bytes written by the serialiser'])

P('S03', 'A failing destination makes serialising fail',
  'If the destination of a serialisation fails at any point, the serialising call returns an error, and the command-line tool ends with a nonzero status; it is never reported that a document was written when part of it was not. A tree that cannot be written because it holds something of unknown kind is refused with an error too.',
  ['fault_sequences', 'inputs'], 'every point at which a write can fail, every document tree',
  'There are some 150 write operations, and most of their results are ignored in favour of an error remembered by the destination wrapper; tests write to memory, where nothing fails.',
  ['dump.go', 'document.go', 'element.go', 'cmd/helium-lint/helium-lint.go'],
  [('error-latching writer and its users', 'dump.go: errWriter.Write, Dumper.DumpDoc, Dumper.DumpNode'), ('callers', 'document.go: Document.XML; element.go: Element.XML; cmd/helium-lint: _main')],
  'interprocedural error-propagation dataflow over SSA: each operation on a destination leaves a pending item that only a nil test, the returned error or an error-latching writer discharges; lost errors propagate to call sites',
  'proof', 'All paths of all functions that operate on a destination; latching wrappers are recognised and judged, not assumed.',
  observe=['error of the serialising call', 'exit status'])

P('C01', 'Every operation ends',
  'Parsing ends, with a document or an error, on every input: no malformed, truncated or self-referential document makes it loop or recurse forever. Building, walking and serialising a document end too.',
  ['inputs'], 'every input, every document tree',
  'There are some sixty loops; one that does not move on for one unexpected character at one place hangs the caller, and tests feed mostly well-formed documents.',
  ['parserctx.go', 'document.go', 'node.go', 'element.go', 'dump.go', 'tree.go', 'valid.go'],
  [('scanning loops', 'parserctx.go'), ('entity expansion', 'parserctx.go: parseBalancedChunkInternal, decodeEntitiesInternal; document.go: stringToNodeListInternal'), ('walks along the links of a tree', 'node.go, element.go, dump.go')],
  'termination analysis: ' + PSAI + ' shows that loops and recursive calls consume input; the other loops get ranking functions from a relational analysis of every way around the loop over SSA; cycles of the call graph need input consumption, a depth counter or descent in the tree',
  'proof', 'Every loop and every call-graph cycle of the library; trusted: library calls end, and linked lists of a tree are acyclic.',
  observe=['return of Parse, of the serialiser and of tree operations'])

P('C04', 'Nesting is limited, so input cannot exhaust the stack',
  'However deeply a document nests elements, content-model groups or entities in one another, parsing refuses it with an error beyond a fixed limit instead of recursing further. The limits also hold for nesting that is split over several entities.',
  ['inputs'], 'every input, every depth of nesting',
  'Stack exhaustion kills the whole program; the limits are far beyond what tests nest, and dropping one of the counters, or counting anew inside an entity, changes nothing for ordinary documents.',
  ['parserctx.go', 'parser_interface.go', 'document.go'],
  [('depth counters and limits', 'parserctx.go: parseElement, parseBalancedChunkInternal, parseElementChildrenContentDeclPriv, decodeEntitiesInternal; document.go: stringToNodeListInternal')],
  'call-graph cycle analysis: every cycle among the functions parsing reaches is cut by a counter that is increased, compared with a constant limit before every recursive call, and inherited by nested contexts',
  'proof', 'All cycles of the class-hierarchy call graph; recursion along a finished tree is bounded by the depth of the tree.',
  observe=['error of Parse', 'stack use'])

P('S01', 'Text and attribute values are written so that they read back the same',
  'Every character of text and of an attribute value is written in order, either as itself or as a reference that denotes exactly that character, and whatever would be taken for markup or changed by the normalisation a reader applies (angle bracket, ampersand, the quote, carriage returns, newlines and tabs in attribute values) is written as a reference. Characters XML does not allow and invalid UTF-8 are replaced by U+FFFD; nothing is left out, repeated or added.',
  ['inputs'], 'every text and every attribute value',
  'The escaping loops cut the text into pieces between escaped characters; an off-by-one or a forgotten character shows only for particular neighbours, and tests serialise a few words.',
  ['dump.go'],
  [('escapers', 'dump.go: escapeText, escapeAttrValue, isInCharacterRange')],
  'abstract interpretation of the escaping loops over SSA: the text is a sequence of characters and runs drawn from sets of code points, states are joined at loop headers, and every write is compared with what may be written for the characters next in line',
  'proof', 'Texts of every length; the exploration ends because states are finite after joining.',
  observe=['bytes written by the serialiser'])

P('S04', 'Quoted literals are closed by the quote they were opened with',
  'Identifiers, entity values and default values in a written document type definition stand between two equal quotes, and the quote does not occur inside: occurrences are replaced by references to it. Everything else of the literal is written unchanged and complete, except for percent signs of entity values, which are written as references.',
  ['inputs'], 'every literal: every mix of quotes, ampersands and percent signs',
  'The choice of quote and the replacement depend on which quotes the literal holds and where; tests write literals without quotes in them.',
  ['dump.go'],
  [('literal writers', 'dump.go: dumpQuotedString, dumpEntityContent, dumpAttrDefault')],
  'abstract interpretation of the literal writers over SSA in the domain of S01, with the opening quote as part of the state',
  'proof', 'Literals of every length; a system or public literal that holds both quotes has no valid representation, the double quotes are then references.',
  observe=['bytes written by the serialiser'])

P('D01', 'The links of a tree always agree with one another',
  'After adding a child or a sibling, replacing a node, setting the root element, adding an attribute or creating the internal subset, the list of siblings is exactly the one intended: the new node stands where it belongs, no node is lost, repeated or left linked, and parent, first, last, next and previous links agree in both directions. Text that is added next to text may be joined to it instead, with its content appended. An attribute whose name the element already has is refused and changes nothing.',
  ['histories', 'inputs'], 'every kind of node, every list of children, every position in it, every sequence of these operations',
  'Every operation updates up to seven links, partly in callees shared by all kinds of nodes; a link that is not updated is not noticed until somebody walks backwards, appends after the replaced node, or removes the only child, and tests print small trees forwards.',
  ['node.go', 'element.go', 'document.go', 'text.go', 'comment.go', 'attr.go', 'dtd.go', 'entity.go', 'reference.go', 'pi.go'],
  [('link primitives', 'node.go: addChild, addSibling, replaceNode, SetNextSibling, SetPrevSibling, SetParent'), ('operations of the node kinds', 'AddChild, AddSibling, Replace of every node type; document.go: SetDocumentElement, CreateInternalSubset, CreateAttribute, stringToNodeList; element.go: SetAttribute')],
  'shape analysis over SSA: abstract heaps with nodes and segments (well-formed parts of sibling lists of any length) that are opened when walked into and closed at loop headers; every concrete node type, every branch; the links are compared with the list intended at every return',
  'proof', 'Complete for lists of any length, starting from well-formed trees, by induction for every history of these operations; the node added is not yet part of a tree.',
  observe=['links of the tree'])

P('T01', 'The tree mirrors the events',
  'When a document is parsed into a tree, every event adds exactly the node it announces, with the announced name, namespace, namespace declarations, attributes (in order, with their values) and content, as the last child of the innermost open element, or of the document or the subset being read when no element is open. Ending an element makes its parent the open one again. Events that stand for no node change nothing.',
  ['inputs', 'histories'], 'every sequence of events, every state of the tree built so far',
  'The builder has a method per event with branches for the place the event happens in (prolog, subset, content, after the root); tests parse a few documents and compare the printed result, so that a node hung in the wrong place, or a field that is dropped, shows only for one combination.',
  ['tree.go', 'document.go', 'node.go', 'element.go', 'dtd.go', 'parserctx.go'],
  [('event handlers that build', 'tree.go: TreeBuilder methods'), ('constructors', 'document.go: NewDocument, CreateElement, CreatePI, CreateComment, CreateReference, CreateInternalSubset; dtd.go: AddEntity, AddElementDecl; parserctx.go: addAttributeDecl')],
  'shape analysis over SSA (as for D01) of every handler of the tree builder from every kind of state of the builder; the heap at every return is compared with the one the event stands for',
  'proof', 'Lists of children of any length; up to two namespaces and attributes per element (the loops treat them alike); what the parser announces is the subject of C08 and others.',
  observe=['tree returned by Parse'])

P('T02', 'Going through a tree takes every node once, in order',
  'Walking a tree calls the function for every node exactly once, a node before its children and siblings in their order, and ends with the first error, which it reports. The attributes of an element are listed completely and in order, and the content of a node is the content of its children, completely and in order, or its own text.',
  ['inputs', 'fault_sequences'], 'every tree, every node at which the function fails',
  'A walk that skips the last child, or goes on after an error in a deeper level, gives the right result for most trees a test builds.',
  ['node.go', 'element.go', 'text.go', 'comment.go', 'reference.go', 'entity.go'],
  [('walks', 'node.go: Walk, docnode.Content; element.go: Attributes'), ('own text', 'text.go, comment.go, reference.go, entity.go: Content')],
  'shape analysis over SSA with marks on the nodes taken, by induction over the depth of the tree (recursive calls are replaced by the property itself)',
  'proof', 'Lists of any length; the tree is well formed (D01).',
  observe=['calls of the walk function', 'results'])

P('G01', 'Separate parses share no state',
  'Parses that run at the same time, or one inside a handler of another, do not influence each other, even when they use the same parser or default tree builder: no parse changes anything outside its own document. Parsing does not change the parser. What was delivered to a handler or put into a tree does not change when later parses run.',
  ['schedules', 'histories'], 'every interleaving of parses, every sequence of parses in one process',
  'A data race or a buffer given back too early only shows when two parses overlap in the right way, or when a result is looked at after another parse; tests run one parse at a time and look at the result at once.',
  ['parserctx.go', 'parser.go', 'tree.go', 'entity.go', 'interface.go', 'encoding/encoding.go'],
  [('package-level state', 'interface.go: predefined entities; encoding/encoding.go: Load; parserctx.go: bufferPool'), ('pooled buffers', 'parserctx.go: bufferPool, releaseBuffer and its users'), ('the parser object', 'parser.go: Parser.Parse; tree.go: TreeBuilder')],
  'interprocedural flow analysis over SSA of everything that may point into package-level memory or into the parser (no write may go through it), and typestate and escape analysis of every pooled buffer',
  'proof', 'Flow-insensitive and over-approximating for writes to shared memory; standard library objects documented as safe for concurrent use are trusted; writes under a lock are reported as undecided.',
  observe=['documents and handler arguments of other parses', 'the parser', 'package-level values'])

P('G02', 'The same input gives the same result on every run',
  'Parsing the same document with the same options and handlers delivers the same events in the same order, builds the same tree and gives the same result on every run, and writing the same tree writes the same bytes. Nothing depends on chance: not on the order in which the entries of a map happen to come, on time, random numbers, addresses of objects or the scheduling of goroutines.',
  ['inputs', 'histories'], 'every document, every tree, any two runs',
  'Whether a list taken from a map happens to be in the right order in a test run is a matter of luck, and with one entry it always is; default attributes were in random order once.',
  ['parserctx.go', 'tree.go', 'dump.go', 'document.go', 'dtd.go', 'valid.go'],
  [('maps of the parser', 'parserctx.go: parseStartTag (default attributes), cleanSpecialAttributes, parseEnumerationType'), ('tables of the subsets', 'dtd.go')],
  'effect analysis over SSA: no source of chance is consulted, and every loop over a map only does what commutes, or collects entries that are sorted before anything else looks at them (followed through results of helpers)',
  'proof', 'All functions of the library; handlers, readers and writers of the application are taken to be deterministic themselves.',
  observe=['sequence of handler calls', 'tree returned by Parse', 'bytes written by the serialiser'])

P('C02', 'No input makes a parse panic',
  'Whatever the input, the options and the set of handlers given, a parse returns a document or an error: it does not end in a run-time panic. It never reads or cuts a text or list outside its bounds, never uses an object that is absent, and never takes an object for one of a different kind.',
  ['inputs', 'configurations'], 'every byte sequence as input, every combination of options, every handler set in which any callback may be missing',
  'A panic needs the one malformed or truncated document that reaches the unguarded spot, often with a handler missing; tests use documents that are complete.',
  ['parserctx.go', 'parser.go', 'tree.go', 'entity.go', 'attr.go', 'dtd.go', 'node.go', 'encoding/encoding.go', 'sax/sax.go'],
  [('positions and lengths', 'parserctx.go: parseQuotedText, parseAttributeValueInternal, parseEntityValueInternal, parseCharRef, parseStringCharRef'), ('lookups that may find nothing', 'parserctx.go: parseReference, parseEntityRef, attribute and namespace lookups; tree.go'), ('handlers that may be missing', 'sax/sax.go')],
  'relational dataflow over SSA (linear facts on integers, lengths and nilness; loop invariants; callee summaries; preconditions asked of all callers), backward analysis of dynamic types, and path-sensitive reachability of panic calls',
  'other', 'Proved per obligation except for the obligations reported as undecided (40 on this tree, listed in DESIGN.md); a violation is reported only where all that is involved is understood. Stack overflow is C04; endless parses are C01; panics inside library code and in handlers of the application are outside.',
  observe=['return of Parse, ParseReader, ParseFile'])

P('R01', 'Writing and parsing again gives the same document',
  'Parsing what was written for a document gives a document with the same content.',
  ['inputs'], 'every document that can be built',
  'Tests compare a few files.', ['dump.go', 'parserctx.go'], [('writer', 'dump.go'), ('parser', 'parserctx.go')],
  na='needs the functional equivalence of two unbounded computations (writer and parser) over unbounded text; no static argument in reach relates them as a whole. The parts that can be decided statically are claimed separately (S01 to S04 for the writer, C08, C12, T01 for the parser and tree builder).')
P('W01', 'Exactly the well-formed documents are accepted',
  'The parser accepts a document if and only if it is well-formed.',
  ['inputs'], 'every input', 'Tests sample a few documents.', ['parserctx.go'], [('grammar', 'parserctx.go')],
  na='deciding language equality between a hand-written parser and the XML grammar (with entity expansion it is not even context-free) is out of reach of a sound static argument; the parser is also known to be incomplete (external subsets, notations). Single constraints are claimed separately (C06, C07, C08, C12).')
P('E01', 'Documents in a declared encoding are decoded to the right characters',
  'The characters delivered are the ones the bytes denote in the declared encoding.',
  ['inputs'], 'every encoding and byte sequence', 'Tests sample a few documents.', ['encoding/encoding.go', 'parserctx.go'], [('decoders', 'encoding/encoding.go')],
  na='the decoders are tables and code of golang.org/x/text, outside this repository; that the right one is chosen is claimed as N01.')
P('A01', 'Work and memory grow at most in proportion to the input',
  'The time and memory a parse takes are bounded by a fixed multiple of the size of its input.',
  ['inputs'], 'every input', 'Tests use small inputs.', ['parserctx.go'], [('entity expansion', 'parserctx.go: parseReference')],
  na='a quantitative bound over run-time sizes (lengths of names, number of attributes, repeated entity expansion) that no static argument in reach establishes, and it does not hold for nested entities (each reference parses the replacement text again); termination and bounded recursion are claimed as C01 and C04.')
