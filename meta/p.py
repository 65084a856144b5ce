L = 'legacy/Fierro_V0/src/Yaml-Serializable/'
A = 'apps/multiphysics/src/input/'
SRC = [L + 'src/Yaml.cpp', A + 'Yaml.cpp']
HDR = [L + 'include/Yaml.hpp', A + 'Yaml.hpp']
WHY = 'The tests parse and write a few well-formed documents through the serializer; '
NOTE = 'Decided for both copies of the YAML library in the repository on every abstract path; trusts the models of the standard containers and streams. '
AI = 'path-sensitive abstract interpretation of the library sources (AST facts)'


def d(id, title, statement, over, qt, why, mech, tech, note='', files=SRC):
    return dict(id=id, title=title, statement=statement, over=over, qt=qt, why=WHY + why, files=files, mech=mech, tech=tech, note=NOTE + note)


P = [
d('P01', 'A failed YAML parse leaves an empty document and no memory behind',
  'Whenever parsing a YAML text fails, with whatever exception, the given document node ends up empty rather than half filled, and the exception reaches the caller unchanged. All lines the reader allocated are freed and a temporary reader is deleted, on success and on failure alike.',
  ['inputs', 'fault_sequences'], 'every text, every point at which parsing can fail and every exception type', 'a failure in the middle of a nested block is not among them.',
  [('entry points', 'Yaml.cpp: Parse overloads'), ('line ownership', 'Yaml.cpp: ParseImp::ClearLines')], AI + '; last-effect and release rules with exceptional edges'),
d('P02', 'Parsing replaces the previous content of the document node',
  'Parsing a text into a node first discards whatever the node held, so nothing of an earlier document survives into the result. This holds for every way of giving the text: stream, string, buffer and file.',
  ['histories'], 'every previous content of the node and every entry point', 'each uses a fresh node.',
  [('entry points', 'Yaml.cpp: Parse overloads')], AI + '; first-effect rule'),
d('P03', 'YAML files are read and written whole, or refused before any change',
  'Parsing a file opens exactly the named file and parses exactly its bytes; writing a file writes exactly the text of the document to exactly the named file. When the file cannot be opened an operation error is raised and neither document nor file has been changed.',
  ['inputs', 'fault_sequences'], 'every file name, every file size, open failures', 'no test uses a file that cannot be opened.',
  [('files', 'Yaml.cpp: Parse(Node&, const char*), Serialize(const Node&, const char*)')], AI + '; provenance of the bytes'),
d('P04', 'Serialization with an indentation below two is refused before any output',
  'Writing a document with an indentation setting below two raises an operation error before anything is written and before a file is created or truncated; an indentation of two or more is never refused. Every way of writing hands exactly the given document and settings to the writer once, starting at the outermost level.',
  ['inputs'], 'every setting and every entry point', 'they only use the default settings.',
  [('entry points', 'Yaml.cpp: Serialize overloads')], AI + '; guard-before-effect rule'),
d('P05', 'Copying or assigning a node gives an independent, equal document',
  'A node copied or assigned from another holds the same tree: every list entry in order, every map entry under its own key, every text, and nothing else. The source is not changed and shares nothing with the copy, even when a node is assigned from itself or from one of its own descendants or ancestors.',
  ['inputs', 'histories'], 'every tree and every aliasing between the two sides', 'they never assign nodes that overlap.',
  [('copy', 'Yaml.cpp: CopyNode, Node copy constructor and operator=')], AI + '; effect order and per-entry (induction) rule'),
d('P06', 'Iterating a node visits exactly its own entries in order',
  'Iterating a list or map node from Begin to End visits each of its entries exactly once in order and yields that entry and its key; a node without entries is finished at once. Iterators copied, assigned (also to themselves), compared, incremented or decremented keep denoting the position they should.',
  ['inputs', 'histories'], 'every node kind, every iterator state and both const and non-const iterators', 'only loops over non-empty nodes are exercised.',
  [('iterators', 'Yaml.cpp: Iterator, ConstIterator, Node::Begin/End')], AI + '; per-kind operation correspondence', files=SRC + HDR),
d('P07', 'Document nodes own their content: nothing is freed twice or leaked',
  'Every operation on a node deletes the content it replaces exactly once and keeps no reference to it, and content that stays is not deleted. Every entry made ends up owned by exactly one node and is deleted with it; the reader likewise deletes each line once.',
  ['histories'], 'every sequence of operations on a node', 'double frees and leaks go unnoticed without such a sequence.',
  [('ownership', 'Yaml.cpp: NodeImp, SequenceImp, MapImp destructors and Node operations'), ('lines', 'Yaml.cpp: ParseImp line list')], AI + '; ownership (typestate) rule per operation and node kind'),
d('P08', 'A node is exactly one of empty, text, list or map, and its operations agree',
  'At every moment exactly one of IsNone, IsScalar, IsSequence and IsMap holds, Type names the same kind, Size is the number of entries and AsString is the text of a text node and empty otherwise. List operations turn a node into a list, map operations into a map, assigning text into a text and Clear into an empty node; a node of the right kind keeps its content and all other operations never change the kind.',
  ['histories'], 'every sequence of operations, every kind of node before it', 'kinds are rarely changed on a live node.',
  [('kind switch', 'Yaml.cpp: NodeImp::InitSequence/InitMap/InitScalar, Node operations')], AI + '; kind typestate per operation'),
d('P09', 'List nodes keep positions 0..n-1 with entries in the order inserted',
  'Appending, inserting, prepending and erasing entries of a list node leave positions 0 to n-1 with every other entry in its previous order, and the new entry at exactly the requested position, or at the end when that lies beyond it. Reading a position returns the entry there, or an empty stand-in when there is none, and never changes the list.',
  ['histories'], 'every sequence of list operations and every index', 'only appending is used by the serializer tests.',
  [('list operations', 'Yaml.cpp: SequenceImp, Node::Insert/PushFront/PushBack/Erase/operator[]')], AI + '; index arithmetic with loop induction'),
d('P10', 'Map nodes hold exactly one entry per key',
  'Looking up a key of a map node returns the entry of exactly that key; a missing key gets exactly one new, empty entry under exactly that key. Erasing a key deletes exactly that entry, and erasing a missing key changes nothing.',
  ['histories'], 'every sequence of lookups and erasures and every key', 'no test erases or looks up a missing key on a live node.',
  [('map operations', 'Yaml.cpp: MapImp, Node::operator[](key), Node::Erase(key)')], AI + '; container effect rule'),
d('P11', 'Each YAML line becomes exactly one entry in the collection it belongs to',
  'While a block is parsed every line starts exactly one entry, a map entry under exactly the key written on the line, and the value that follows is parsed into exactly that entry by the rules for its kind. The block ends at the first line with a smaller indent or at the end; a deeper line or a line of another kind at the same indent, and any line left over, is a parse error rather than silently dropped or merged.',
  ['inputs'], 'every sequence of lines, indents and line kinds', 'misindented and mixed blocks are not among them.',
  [('block parsers', 'Yaml.cpp: ParseImp::ParseSequence, ParseMap, ParseRoot')], AI + '; per-iteration rule over one symbolic turn of each parser loop'),
d('P12', 'The YAML reader keeps every line, its number, indent and text',
  'The reader turns each physical line into one line with its own number, its indent being the number of leading blanks and its text the line without comment, carriage return and indent. Only comment or blank lines before any text and document markers are dropped; a tab in the indent or a character outside the printable range is a parse error that names that line.',
  ['inputs'], 'every text: any bytes, any line endings, any document markers', 'control characters, tabs, CR line ends and several documents are not among them.',
  [('line reader', 'Yaml.cpp: ParseImp::ReadLines')], AI + '; interval analysis of the accepted characters and term evaluation of number, indent and text'),
d('P13', 'Serialization writes every non-empty entry once, in order, nested by indent',
  'Writing a document writes each non-empty entry of each list and map exactly once, in order, under its own key or dash, and indents nested blocks deeper than what holds them. A block below a key starts on a line of its own, and a text of several lines is written as a block that records whether it ends with a line break.',
  ['inputs'], 'every document tree and every setting', 'they only write shallow maps of single-line values.',
  [('writer', 'Yaml.cpp: SerializeLoop')], AI + '; per-iteration output rule over one symbolic turn of each loop'),
d('P14', 'Quoting protects special characters in keys and values',
  'A key or text that holds a character YAML would misread (\" : # - | > among them) is written between quotes, with backslashes and quotes in it escaped so that unescaping restores it exactly. While parsing, a separator inside a double-quoted part is never taken for a separator.',
  ['inputs'], 'every key and text, any number and order of special characters and quoted parts', 'special characters in keys and several quoted parts on a line are not among them.',
  [('quoting', 'Yaml.cpp: ShouldBeCited, AddEscapeTokens, RemoveAllEscapeTokens, FindNotCited')], AI + '; escape/unescape pairing and interval rule for separators',
  'The value-escape part is a known finding.'),
d('P15', 'Typed access to a node converts its text faithfully or gives the default',
  'As<T>() of a number node returns the number its text starts with, and a defined value when there is none; with a default the default is returned exactly when the text is not a number. A switch is true exactly for true, yes and 1 in any letter case, a text is returned unchanged, and for both the default is returned exactly for an empty text.',
  ['inputs'], 'every node text, with and without a default', 'they convert well-formed values only.',
  [('conversion', 'Yaml.hpp: impl::StringConverter, Node::As')], AI + '; provenance of the result and definite initialisation', files=HDR),
d('P16', 'Texts over several lines keep every line, their quotes and their ending',
  'A plain text over several lines is its lines joined by single blanks, a folded block (>) joins its lines by blanks and a literal block (|) by line breaks, blank lines being line breaks; a deeper line keeps its extra indent and, in a folded block, starts on a line of its own. Quotes are removed exactly from a text that is not a block and starts with one. A block ends with a line break exactly when its header does not say -, whatever comment follows the header.',
  ['inputs'], 'every text over any number of lines, every header and indent', 'they hold no block texts and no text over several lines.',
  [('texts', 'Yaml.cpp: ParseImp::ParseScalar'), ('headers', 'Yaml.cpp: ParseImp::IsBlockScalar')], AI + '; per-turn output rule over one symbolic turn of each loop'),
]
N = [
dict(id='PN1', title='Every document written is read back as an equal document',
  statement='Writing any document node and parsing the text gives an equal document, for every tree and every setting.',
  over=['inputs'], qt='every document and every writer setting', why=WHY + 'the round trip is sampled only.', files=SRC,
  mech=[('writer and parser', 'Yaml.cpp: Serialize, Parse')],
  reason='Equality of the round trip is a property of the composition of two string transducers over unbounded texts; no static argument in reach relates them. The parts that are decidable (entry order, nesting, quoting, escaping, line handling) are claimed as P11 to P15; known to be false for texts with quotes (finding under P14), trailing line breaks and keys with outer blanks.'),
]
