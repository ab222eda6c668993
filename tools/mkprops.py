"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['pdfsyntax/'+f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None)))

prop('C01', 'Serialising an object and parsing it back yields the same object',
 'For every PDF object value the library can hold (booleans, null, integers, reals, names, literal and hexadecimal strings, indirect references with any object and generation number, arrays and dictionaries nested in each other), serialising it and parsing the bytes back gives an equal value. The serialised text is legal PDF: in particular a real number is never written with an exponent and a reference keeps its generation number.',
 ['inputs'], 'every object value: every leaf value and every nesting of containers',
 'tests serialise one list and one dictionary and never parse the result back; leaf bytes, digits, nesting and generation numbers are unbounded',
 ['objects.py'], [('serialize / to_str', 'objects.py'), ('parse_obj / next_token / replace_ref / dedicated_type', 'objects.py')], ['pdfsyntax.serialize', 'pdfsyntax.parse_obj'])
prop('C02', 'String and comment contents never disturb the structure around them',
 'A literal string (any bytes, with parentheses balanced or escaped by a backslash), a hexadecimal string or a comment that sits inside an array or dictionary is a single opaque item: the strings come back verbatim, comments disappear, and the enclosing containers have exactly the elements and the extent they would have if the string were trivial. This holds whatever bytes they contain, including brackets, ">>", "%", "stream", escaped backslashes and nested parentheses.',
 ['inputs'], 'every byte content of strings and comments, every position inside containers',
 'tests hold one bracket-in-string example; the interaction of escapes, nesting and delimiters is combinatorial',
 ['objects.py'], [('next_token state machine', 'objects.py'), ('parse_obj', 'objects.py')], ['pdfsyntax.parse_obj', 'pdfsyntax.next_token'])
prop('C03', 'The parse does not depend on how tokens are separated',
 'Between the tokens of an array or dictionary any non-empty run of PDF white-space characters (NUL, TAB, LF, FF, CR, SPACE) and comments may be used, and the separator may be left out wherever one of the neighbouring characters is a delimiter; the parsed value is the same in all these cases. Tokens are reported with the exact start and end positions of their text.',
 ['inputs'], 'every choice of separators between tokens, every token character',
 'tests use single spaces and a few compact forms; separators are a combinatorial space',
 ['objects.py'], [('next_token', 'objects.py'), ('parse_obj', 'objects.py')], ['pdfsyntax.parse_obj', 'pdfsyntax.next_token'])
prop('C04', 'A stream survives a write and a read, whatever its data',
 'A stream object built from a dictionary (with or without a direct integer /Length, which writing makes exact) and arbitrary data, serialised (alone or as an indirect object) and parsed back, has the same dictionary entries and exactly the same data bytes, also when the data ends with or contains end-of-line characters or the word endstream. A direct integer /Length in what is written equals the number of data bytes.',
 ['inputs'], 'every stream data content and length',
 'tests parse two fixed streams; they never write one, and no test has data ending in CR/LF or containing endstream',
 ['objects.py'], [('serialize (stream branch)', 'objects.py'), ('forge_stream / update_internal_stream_length', 'objects.py'), ('parse_obj (STREAM branch) / next_token', 'objects.py')], ['pdfsyntax.forge_stream', 'pdfsyntax.serialize', 'pdfsyntax.parse_obj'])
prop('C05', 'Stream filters are inverse to each other and accept standard encodings',
 'For every data and every supported filter or chain of filters (FlateDecode, ASCIIHexDecode, ASCII85Decode, alone, as a one-element array or chained), decoding what the library encoded gives the original data back, filters being applied in the order the PDF specification demands. Standard encodings are accepted as well: hexadecimal data in either case, with white space, with an end-of-data marker and with an odd number of digits.',
 ['inputs', 'configurations'], 'every data content, every filter chain',
 'no test calls a filter except for the identity case',
 ['filters.py'], [('decode_stream', 'filters.py'), ('encode_stream', 'filters.py'), ('asciihex', 'filters.py')], ['pdfsyntax.encode_stream', 'pdfsyntax.decode_stream'])
prop('C06', 'Predictor decoding inverts the PNG Up predictor',
 'Data predicted row by row with the PNG Up algorithm for any number of columns and rows is restored exactly by decoding with the matching /Predictor and /Columns parameters, also when the last row is incomplete. When the parameters state that no predictor is used, the data comes out untouched.',
 ['inputs'], 'every data content, column count and row count',
 'no test decodes a predicted stream',
 ['filters.py'], [('decode_predictor', 'filters.py'), ('decode_stream', 'filters.py')], ['pdfsyntax.decode_stream'])
prop('C07', 'A cross-reference table that is written reads back to the same map',
 'For every set of in-use and deleted objects with any object numbers, generation numbers and byte offsets, the cross-reference table written for it, read back, gives for each in-use object the same offset and generation and no others. Every entry is exactly 20 bytes, subsections are maximal runs of consecutive numbers, and the deleted objects form the circular free list starting and ending at object 0 with their next generation number.',
 ['inputs'], 'every set of object numbers, generations, offsets and deletions',
 'tests read one fixed three-entry table; none writes one',
 ['filestruct.py', 'objects.py'], [('format_xref_table / circular_deleted', 'filestruct.py'), ('parse_xref_table / parse_xref_table_raw', 'filestruct.py, objects.py')], ['pdfsyntax.format_xref_table', 'pdfsyntax.parse_xref_table'])
prop('C08', 'A cross-reference stream that is written reads back to the same map',
 'For every set of plain, embedded and deleted objects with any object numbers, container numbers, positions and byte offsets (including those around each byte-width boundary), the cross-reference stream written for it, read back, gives for each object the same location, and its /Index and /W describe exactly the data written. Reading honours any legal /W column widths, including an omitted type column, and any /Index subsections.',
 ['inputs'], 'every set of object numbers, offsets, containers and column widths',
 'tests only expand three /Index arrays; no test reads or writes a cross-reference stream',
 ['filestruct.py', 'objects.py'], [('format_xref_stream', 'filestruct.py'), ('parse_xref_stream / parse_xref_stream_raw / expand_xref_index', 'filestruct.py, objects.py')], ['pdfsyntax.format_xref_stream', 'pdfsyntax.parse_xref_stream'])
prop('C09', 'Loading resolves every object to its newest definition',
 'For a file made of an original and any number of incremental updates, whether its sections are cross-reference tables or streams, loading finds all revisions through the chain of previous sections, and each object number resolves to its definition in the newest section that mentions it. An object freed by a newer section is not in use any more, objects never mentioned are absent, and earlier revisions remain as they were.',
 ['inputs', 'histories'], 'every number of revisions and every assignment of objects (updated, added, freed, untouched) to revisions',
 'tests load a file with one update and look at the number of revisions only',
 ['filestruct.py', 'docstruct.py', 'api.py'], [('build_xref_sequence', 'filestruct.py'), ('build_index_from_xref_sequence', 'filestruct.py'), ('memoize_obj_in_cache', 'docstruct.py')], ['pdfsyntax.loads', 'pdfsyntax.get_object', 'pdfsyntax.in_use'])
prop('C10', 'Writing only appends to the original file',
 'Whatever incremental modifications are made to a loaded document (updating, adding, deleting objects, editing, rotating, removing and annotating pages, committing; concatenating, squashing, compressing and rewinding into the loaded revisions rewrite it), the file written starts with the bytes of the original file, unchanged, up to its last end-of-file marker and the end-of-line characters that follow; all modifications come after it. Loading and writing without modification reproduces exactly that part, and cutting the appended part off gives back a file that loads as the original.',
 ['inputs', 'histories'], 'every original content after the marker, every sequence of modifications',
 'no test writes a file',
 ['api.py', 'docstruct.py', 'filestruct.py'], [('writefile', 'api.py'), ('eof_cut', 'filestruct.py'), ('commit / revision_index', 'docstruct.py')], ['pdfsyntax.writefile'])
prop('C11', 'A written document reloads as the document that was written',
 'After any sequence of object updates, additions, deletions and commits, writing the document and loading the file gives a document with the same objects in use, each with an equal value, the same deleted objects, the same trailer root and one more revision per commit that changed something.',
 ['histories', 'inputs'], 'every sequence of update, add, delete and commit operations with every value',
 'no test writes or reloads a document',
 ['api.py', 'docstruct.py', 'filestruct.py'], [('commit / changes / update_object / add_object', 'docstruct.py'), ('build_revision_byte_stream', 'filestruct.py'), ('writefile / loads', 'api.py')], ['pdfsyntax.writefile', 'pdfsyntax.loads', 'pdfsyntax.get_object'])
prop('C12', 'Every offset written in a file designates what it should',
 'In every file the library writes, each startxref value is the position of a cross-reference section, each in-use entry for a plain object is the position of that very object header ("number generation obj"), each /Prev is the position of the preceding section, /Size is one more than the highest object number and /Root refers to an in-use object. This is judged by an independent reader that follows the offsets alone.',
 ['histories', 'inputs'], 'every sequence of modifications and commits, table and stream sections',
 'no test inspects a written file',
 ['filestruct.py', 'docstruct.py', 'api.py'], [('build_revision_byte_stream', 'filestruct.py'), ('commit', 'docstruct.py')], ['bytes written by pdfsyntax.writefile'])
prop('C13', 'Rewinding returns to the previous revision',
 'Rewinding a document gives back the document as it was when the previous revision was being made: all its objects have the values, and the deleted objects the state, they had then, and the revision count is one less; rewinding at the first revision does nothing. Modifications made after a commit disappear, and writing after a rewind gives a file equivalent to that revision.',
 ['histories'], 'every sequence of modifications, commits and rewinds',
 'no test rewinds',
 ['docstruct.py'], [('rewind / copy_doc / build_cache', 'docstruct.py')], ['pdfsyntax.rewind', 'pdfsyntax.get_object', 'pdfsyntax.in_use'])
prop('C14', 'Operations never change the document or the values they are given',
 'Every document operation (updating, adding, deleting, rotating, removing or keeping pages, annotating, concatenating, squashing, compressing, forcing cross-reference streams, committing, rewinding, writing) returns a new document and leaves its argument as it was: all objects, the trailer, the pending changes and the pages of the original are unaffected. Modifying a value obtained from a document does not modify the document.',
 ['histories', 'inputs'], 'every operation, applied to every document state',
 'no test looks at the original after an operation',
 ['docstruct.py', 'api.py', 'filestruct.py'], [('copy_doc', 'docstruct.py'), ('get_object deepcopy', 'docstruct.py'), ('force_xref_stream', 'docstruct.py'), ('format_xref_stream', 'filestruct.py')], ['Doc values before and after each call'])
prop('C15', 'Results depend only on the document asked about',
 'Asking the same question (pages, layouts, objects, text, fonts, change list) about the same document gives the same answer every time, no matter which other documents or operations were processed before or between. In particular nothing inherited by the pages of one document shows up in another.',
 ['histories', 'inputs'], 'every interleaving of queries on two or more documents',
 'each test class works on one document and asks each question once',
 ['docstruct.py', 'api.py'], [('flat_page_tree inherited accumulator', 'docstruct.py'), ('memoize_obj_in_cache', 'docstruct.py')], ['pdfsyntax.pages', 'pdfsyntax.flat_page_tree', 'pdfsyntax.page_layouts'])
prop('C16', 'Objects inside object streams are as reliable as plain ones',
 'Objects embedded in object streams have the values written there whatever the layout of the stream (separators, number and order of objects) and whatever the order in which objects are accessed. An object of such a stream that was replaced or deleted, by a newer revision or by a pending modification, keeps its newest state even after its former neighbours are read.',
 ['inputs', 'histories'], 'every stream layout, every access order, every set of replaced objects',
 'no test reads an object stream',
 ['docstruct.py', 'objects.py'], [('memoize_obj_in_cache', 'docstruct.py'), ('parse_object_stream', 'objects.py')], ['pdfsyntax.get_object', 'pdfsyntax.parse_object_stream'])
prop('C17', 'The page list follows the page tree with inherited attributes',
 'For every page tree, the list of pages contains exactly the leaf pages in tree order; each inheritable attribute (/Resources, /MediaBox, /CropBox, /Rotate) of a page is its own value if it has one, otherwise that of its nearest ancestor having one, and is otherwise absent. Asking for at most n pages gives the first n.',
 ['inputs'], 'every tree shape, every placement of attributes on nodes and every value',
 'tests list the single page of a one-page document',
 ['docstruct.py'], [('flat_page_tree / pages', 'docstruct.py')], ['pdfsyntax.flat_page_tree', 'pdfsyntax.pages', 'pdfsyntax.page_layouts'])
prop('C18', 'Rotating turns exactly the chosen pages relative to their orientation',
 'Rotating by any number of degrees gives each chosen page (all pages by default) an orientation equal to its effective orientation before, own or inherited, plus that number modulo 360. All other pages and all other attributes of the document are unchanged.',
 ['inputs'], 'every angle, page selection, tree shape and previous orientation',
 'no test rotates',
 ['api.py'], [('rotate', 'api.py')], ['pdfsyntax.rotate', 'pdfsyntax.page_layouts'])
prop('C19', 'Removing or keeping pages yields exactly the remaining pages, intact',
 'After removing a set of pages, keeping a set, indexing or slicing with brackets, or iterating, the document has exactly the remaining pages in their original order, its page counts are right at every level of the tree and its length matches. Every object the remaining pages or the rest of the document (from the catalog) need, directly or through other objects and streams, keeps its value; objects that only the removed pages used are not in use any more.',
 ['inputs', 'histories'], 'every tree shape, every set of pages, every sharing of objects between pages',
 'no test removes a page',
 ['docstruct.py'], [('remove_pages / keep_pages / Doc.__getitem__ / DocIterator', 'docstruct.py'), ('dependencies', 'docstruct.py')], ['pdfsyntax.remove_pages', 'pdfsyntax.keep_pages', 'Doc.__getitem__', 'len(doc)'])
prop('C20', 'Concatenating gives the pages of both documents in order',
 'Concatenating two documents gives a document whose pages are those of the left followed by those of the right, each with the same content, resources and effective attributes as before, and a matching page count; pages of the result can be removed or rotated like those of any document. Apart from the catalog of the added document, no object of either document is lost, overwritten or confused with one of the other.',
 ['inputs'], 'every pair of documents, numbering, generation numbers, sharing and tree shape',
 'no test concatenates',
 ['docstruct.py', 'objects.py'], [('concat', 'docstruct.py'), ('deep_ref_retarget', 'objects.py'), ('squash / defragment_map', 'docstruct.py')], ['pdfsyntax.concat', 'doc1 + doc2'])
prop('C21', 'Squashing keeps the document and only drops history',
 'Squashing produces a single-revision document with the same pages and the same object graph reachable from the trailer (root and document information): every reference, including those inside stream dictionaries, designates the counterpart of its former target. Deleted objects leave no gaps in the numbering and all generation numbers become 0.',
 ['inputs', 'histories'], 'every set of deleted objects, generation numbers, reference structure',
 'no test squashes',
 ['docstruct.py', 'objects.py'], [('squash / defragment_map', 'docstruct.py'), ('deep_ref_retarget', 'objects.py')], ['pdfsyntax.squash'])
prop('C22', 'Compressing is lossless',
 'The compressed document, written and loaded again, has the same pages and the same object graph as the original: all values, all references and all decoded stream data are equal, also for streams with filters the library cannot decode, which are kept as they are. It declares at least version 1.5.',
 ['inputs'], 'every document content, stream filter and stream data',
 'no test compresses',
 ['api.py', 'docstruct.py', 'filestruct.py'], [('compress / apply_filter', 'api.py'), ('group_obj_into_stream / force_xref_stream', 'docstruct.py'), ('append_to_stream_fragment / finalize_stream', 'filestruct.py')], ['pdfsyntax.compress', 'pdfsyntax.writefile', 'pdfsyntax.loads'])
prop('C23', 'Data providers deliver the requested bytes in every mode',
 'A provider of file data, in memory or continuous from an open file, or composed when updates are committed, answers each request for a position (possibly counted from the end) and a length with a buffer, an index into it, the file offset of the buffer and a count such that the designated bytes are exactly those of the file at that position, cut at the end of the file. A document loads identically in both modes.',
 ['inputs'], 'every file content, position and length, every mode',
 'tests read three fixed ranges in memory and only the total length in continuous mode',
 ['filestruct.py', 'docstruct.py'], [('bdata_provider', 'filestruct.py'), ('merge_fdata / bdata_dummy', 'docstruct.py, filestruct.py')], ['pdfsyntax.bdata_provider', 'pdfsyntax.load'])
prop('C24', 'Text strings decode to the text they represent',
 'A PDF text string decodes to its text for every content: PDFDocEncoding code points map as the specification tables say, strings starting with the UTF-16BE mark decode as UTF-16BE, in literal and hexadecimal notation (any case, white space, odd digit count). In literal strings the escape sequences, octal codes of one to three digits, line continuations and end-of-line normalisation are honoured.',
 ['inputs'], 'every byte sequence in both notations',
 'tests decode eight fixed strings',
 ['text.py'], [('text_string / unescape_literal_string / decode_pdfdoc', 'text.py')], ['pdfsyntax.text_string'])
prop('C25', 'Shown text maps to Unicode as the font prescribes',
 'For every character map made of single mappings, ranges and range arrays over one- or two-byte codes, and for every string shown in literal or hexadecimal notation, the extracted text is the concatenation of the mapped values in order, and unmapped codes contribute nothing. Without a character map the simple-font encoding applies to each byte of either notation.',
 ['inputs'], 'every character map structure and content, every shown string',
 'no test maps a shown string',
 ['text.py'], [('apply_tounicode / tokenize_string / apply_encoding / text_element_to_unicode', 'text.py')], ['pdfsyntax.apply_tounicode', 'pdfsyntax.apply_encoding'])
prop('C26', 'Glyph widths come from the font arrays',
 'For every /W array mixing lists and ranges, every default width and every /Widths array with its first character, the width used for a code is the one the arrays assign to it, and the default otherwise. The displacement of shown text is the sum of the widths of its codes less the adjustments, in thousandths.',
 ['inputs'], 'every width array and every code',
 'no test reads a width',
 ['docstruct.py', 'text.py'], [('prepare_w / prepare_widths', 'docstruct.py'), ('text_element_to_unicode', 'text.py')], ['pdfsyntax.prepare_w', 'pdfsyntax.prepare_widths', 'pdfsyntax.text_element_to_unicode'])
prop('C27', 'Graphics and text state follow the operators',
 'Matrix products follow the algebra of PDF transformation matrices for all operands, and after any sequence of state operators the current transformation matrix, the text matrix and line matrix and the text parameters are those the specification defines: nesting of saved states, relative moves, leading, and the composition into the text rendering matrix.',
 ['inputs', 'histories'], 'every operand value and every operator sequence',
 'no test applies an operator',
 ['graphics.py'], [('multiply_matrices / apply_command / trm', 'graphics.py')], ['pdfsyntax.apply_command', 'pdfsyntax.multiply_matrices', 'pdfsyntax.trm'])
prop('C28', 'A content stream is broken down into exactly its commands',
 'Parsing a content stream gives one command per operator, in order, each made of the operands that precede its operator, in order, followed by the operator; nothing is lost, merged or repeated. This holds for all operand kinds and for operators without operands.',
 ['inputs'], 'every sequence of operators and operands',
 'tests parse one stream of three commands whose first has no operand',
 ['graphics.py'], [('parse_stream_content', 'graphics.py')], ['pdfsyntax.parse_stream_content'])
prop('C29', 'The file map describes the whole file in order',
 'The sequential map of a well-formed file lists its regions (comments, objects, tables, startxref, blank space) in file order, each starting where the previous ended, the first at the start and the last at the end of the file; every indirect object and every cross-reference entry of the file is listed with its right number, generation, position and value, objects of object streams included. Mapping terminates on every input.',
 ['inputs'], 'every file content built from such regions with any separators, and any bytes for termination',
 'no test maps a file',
 ['filestruct.py', 'objects.py'], [('file_object_map', 'filestruct.py'), ('parse_region / parse_indirect_obj / parse_xref_table_raw / parse_object_stream', 'objects.py')], ['pdfsyntax.file_object_map'])
prop('C30', 'The index check reports exactly the wrong entries and unindexed objects',
 'For every file, checking the index against the sequential map reports an in-use entry as wrong exactly when no object with that number and generation is at that position (or in that container at that rank), and reports an object as unindexed exactly when no section designates it.',
 ['inputs'], 'every combination of right and wrong offsets, numbers and generations',
 'a sample with a wrong entry exists but no test uses it',
 ['filestruct.py'], [('check_index_targets / check_not_indexed_objects', 'filestruct.py')], ['pdfsyntax.check_index_targets', 'pdfsyntax.check_not_indexed_objects'])
prop('C31', 'The HTML view never lets document content become markup',
 'Whatever bytes the inspected file contains (in strings, names, dictionary values, comments, stream contents, header) and whatever its file name, the HTML view produced from it contains them only as text: no "<", ">", "&" or quote coming from the document reaches the page unescaped where it could open a tag or an attribute.',
 ['inputs'], 'every content of every displayed part of the file',
 'no test produces the HTML view',
 ['display.py', 'graphics.py', 'cli.py'], [('follow_obj / add_comment / build_nav_objects / build_header', 'display.py'), ('printable_stream_content', 'graphics.py')], ['pdfsyntax.display.build_html'])
prop('C32', 'The hex dump shows exactly the bytes asked for',
 'The hex dump of a file or of a range has one line per ten bytes; each line gives its offset, the hexadecimal value of each byte in order, and the printable ASCII rendering with a dot for every other byte. Together the lines cover the requested range.',
 ['inputs'], 'every content and every range',
 'no test dumps',
 ['filestruct.py', 'filters.py'], [('hexdump', 'filestruct.py'), ('ascii_hexdump_printable', 'filters.py')], ['pdfsyntax.hexdump'])
prop('C33', 'The pending changes are exactly the modifications made',
 'At any time the list of pending changes of a document contains an object exactly once if it was added, updated or deleted since the last commit, classified accordingly, and nothing else; the objects in use are those defined and not deleted. Committing without pending changes does nothing, and after a commit no change is pending. The changes listed for an earlier revision are those that revision made.',
 ['histories'], 'every sequence of add, update, delete and commit',
 'no test looks at pending changes',
 ['docstruct.py'], [('changes / in_use / update_object / add_object / commit', 'docstruct.py')], ['pdfsyntax.changes', 'pdfsyntax.in_use'])
prop('C34', 'Annotating a page adds exactly that annotation',
 'Adding a text annotation with any ASCII text and rectangle to any page adds one annotation to that page, after the existing ones, whether the page had none, a direct or an indirect annotation array. Once written and reloaded its contents decode to exactly the given text, and nothing else of the document has changed.',
 ['inputs'], 'every text, rectangle, page and kind of existing annotation array',
 'no test annotates',
 ['api.py'], [('add_text_annotation', 'api.py')], ['pdfsyntax.add_text_annotation', 'pdfsyntax.text_string'])
prop('C35', 'Spatial text layout loses no text',
 'Laying out the text fragments of a page puts every fragment text in the result, fragments on distinct lines in order from top to bottom and fragments of one line in order from left to right, for all positions, sizes and texts, including pages with no text or only single characters.',
 ['inputs'], 'every set of fragments and positions',
 'no test lays out text',
 ['layout.py', 'api.py'], [('basic_spatial_layout / simplify_horizontal_text_elements / typical_*', 'layout.py')], ['pdfsyntax.basic_spatial_layout'])
prop('C36', 'The dependencies of an object are all it refers to',
 'The dependencies of an object are exactly the references found in it and, transitively, in the objects these designate, links to the page tree (/Parent, /P) excepted, including references held in stream dictionaries. The computation terminates on every reference graph, cyclic ones included.',
 ['inputs'], 'every reference graph',
 'tests follow an acyclic four-object graph',
 ['docstruct.py', 'objects.py'], [('dependencies', 'docstruct.py'), ('deep_ref_detect', 'objects.py')], ['pdfsyntax.dependencies'])
prop('C37', 'The reverse index lists exactly the users of each object',
 'For every file, the reverse index used by the HTML view tells for each object of the newest revision exactly which objects and trailers of the newest revision refer to it, once each, and relates each region of the file to its object number and revision.',
 ['inputs', 'histories'], 'every reference graph spread over every number of revisions',
 'no test builds the reverse index',
 ['api.py', 'objects.py', 'cli.py'], [('cross_map_index / find_abs_pos_in_index / find_xref_table_pos_in_index', 'api.py'), ('deep_ref_detect', 'objects.py')], ['pdfsyntax.cross_map_index', 'pdfsyntax.file_map'])
prop('C38', 'Document information is reported as stored',
 'The version reported is the later of the header and the catalog entry, raising the version never lowers it, and the metadata reported are the decoded values of the document information entries, absent ones being reported as none. The page count, revision count, encryption and linearisation flags and paper size reported are those of the file; a blank document has a single page of the size it was asked for.',
 ['inputs'], 'every header and catalog version, every information dictionary and page size',
 'no test reads the version or metadata',
 ['docstruct.py', 'api.py'], [('version / update_version / info / encrypted / number_pages', 'docstruct.py'), ('metadata / structure / paper', 'api.py')], ['pdfsyntax.version', 'pdfsyntax.update_version', 'pdfsyntax.metadata', 'pdfsyntax.structure'])
prop('C39', 'Every hyperlink of the HTML view leads to what it names',
 'In the HTML view of any file, anchors are unique and the markup is balanced, and each link has a target in the view that is what the link names: a reference leads to the version of the object that is valid in that revision, a cross-reference entry to the object at its offset, /Prev, /XRefStm and startxref to the section they point to, a page number to the page object; a reference whose object does not exist is not a link.',
 ['inputs', 'histories'], 'every revision history, table or stream, linearised or not, with any references and entries',
 'no test renders a file with several revisions; where a link leads depends on the whole history of the file',
 ['display.py', 'cli.py', 'api.py'], [('build_html / build_html_xref / recent_ref / follow_ref', 'display.py'), ('browse / file_map', 'cli.py'), ('cross_map_index', 'api.py')], ['pdfsyntax.cli.browse', 'pdfsyntax.display.build_html'])
prop('C40', 'The disassembly lists everything once and flags exactly what is wrong',
 'The disassembly of a file has one line for each region of the file in order, for each embedded object and for each cross-reference entry, with its exact position, size, kind, object and generation number and compression ratio; a question mark marks exactly the cross-reference entries that point to no object of that number and the objects that no entry refers to.',
 ['inputs', 'histories'], 'every file layout, every offset of the entries',
 'no test prints the disassembly; the marks depend on every offset and position in the file',
 ['cli.py', 'api.py', 'filestruct.py'], [('print_disasm / disasm_* / file_map', 'cli.py'), ('cross_map_index', 'api.py')], ['pdfsyntax.cli.disasm'])
prop('C41', 'The list of fonts tells each font once, with its attributes and its pages',
 'For every document the list of fonts has each font object used by a page exactly once, with its base name, type, encoding, presence of a character map, and the pages that use it, each once, whether resources are own or inherited, direct or indirect. The table on the command line shows the same values.',
 ['inputs'], 'every assignment of fonts to pages through own and inherited resources, every font attribute',
 'no test lists fonts; resources come in a combinatorial number of forms',
 ['api.py', 'docstruct.py', 'cli.py'], [('fonts', 'api.py'), ('prepare_font / get_page_fonts / flat_page_tree', 'docstruct.py'), ('print_fonts', 'cli.py')], ['pdfsyntax.fonts', 'pdfsyntax.cli.print_fonts'])
prop('C42', 'Chained page operations keep contents, text, attributes and notes of pages',
 'Whatever operations are chained — rotation, concatenation, slicing, removal of pages, squash, compression, filters of streams, grouping into object streams, text annotations, commits, going back, writing and reloading — each page of the result has the content streams, text, box, rotation, annotations and resource objects (also those that streams refer to) that the operations call for, in the document at hand and in the file written and reloaded.',
 ['inputs', 'histories'], 'every chain of operations on documents of every structure',
 'tests apply one operation at a time to one or two sample files',
 ['api.py', 'docstruct.py', 'objects.py', 'filters.py'], [('rotate / remove_pages / concat / compress / add_text_annotation', 'api.py'), ('squash / apply_filter / group_obj_into_stream / rewind / commit', 'docstruct.py'), ('deep_ref_retarget', 'objects.py')], ['pdfsyntax.Doc', 'pdfsyntax.squash', 'pdfsyntax.compress', 'pdfsyntax.concat'])
prop('C43', 'Commands show or write what the file holds; files are read and written whole',
 'Each command of the command line works on the named file only: overview prints the structure and metadata of the file (encrypted values are masked), text prints the text of every page in order, compress writes a file with the same pages to the named output or to the standard output and leaves the source as it is, browse, disasm, fonts and hexdump print what their functions print. readfile and writefile lose nothing: writing an unchanged file gives the same bytes, a changed one begins with the original bytes, and the document that writefile returns has nothing pending and goes on from there.',
 ['inputs'], 'every document, choice of output, number of revisions and pending changes',
 'no test runs the command line or writes files',
 ['cli.py', 'api.py'], [('main / overview / spatial / compress_file', 'cli.py'), ('readfile / writefile', 'api.py')], ['python3 -m pdfsyntax', 'pdfsyntax.readfile', 'pdfsyntax.writefile'])
prop('C44', 'What the prompt shows of a document is what it holds',
 'For every document and after every sequence of operations: the summary of a document tells its revision and its number of modified objects, the map of objects tells which are added, updated or deleted, the history tells the end of each revision and the size of the data added, the index tells where each revision puts each object, the page hierarchy tells the nodes and pages of the tree in order, the contents of a page are displayed stream after stream, and methods of documents are the functions of the same name.',
 ['inputs', 'histories'], 'every history of revisions and pending changes, every page tree',
 'no test calls these displays',
 ['docstruct.py', 'api.py'], [('Doc.__repr__ / pprint_cache / pprint_data_history / pprint_page_hierarchy / pprint_index', 'docstruct.py'), ('pprint_page_contents', 'api.py')], ['repr(doc)', 'pdfsyntax.pprint_cache', 'pdfsyntax.pprint_index'])
prop('C45', 'The HTML view shows the whole content of the file',
 'For every file, the HTML view has one block for each region of the file in order, which shows its position (or its place in its object stream), its object and generation numbers and its value in full, every key and item once (long lists and strings and binary data may be cut), the text of a stream, and every entry of every cross-reference section with its number, generation, position and use; the panel tells the version, the numbers of pages and revisions, the kind and the size of the file.',
 ['inputs', 'histories'], 'every value of every shape, every history of revisions',
 'no test looks at the page that is produced',
 ['display.py', 'cli.py'], [('build_html / follow_obj / build_obj_header / build_xref_table / build_xref_stream / build_nav_info / build_nav_objects', 'display.py'), ('browse', 'cli.py')], ['pdfsyntax.cli.browse', 'pdfsyntax.display.build_html'])
prop('C46', 'The documentation generator keeps every text and closes every element',
 'Rendering a Markdown text made of paragraphs, headings (prefixed or underlined), bulleted and numbered lists, tables, fenced and indented code, quotes, hard line breaks, and inline code, emphasis, links and images gives the HTML elements of these constructs in order, each one closed, with the text of each whole and in its place, also when a block follows another one directly or is the last line of the file. Code is verbatim, with its special characters escaped; words of consecutive lines stay apart; addresses and descriptions are those written, and a link to a .md page leads to the .html page.',
 ['inputs'], 'every sequence of blocks and inline elements and every text in them',
 'no test renders a Markdown text',
 ['markdown.py'], [('render_html / parse_markdown / assemble_html', 'markdown.py'), ('style / link / entities', 'markdown.py'), ('parse_code_block / parse_title / parse_list / parse_table', 'markdown.py')], ['pdfsyntax.markdown.render_html'])
if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    import jsonschema
    try:
        sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for p in P: jsonschema.validate(p, sch)
        print(len(P), 'ok')
    except FileNotFoundError:
        pass
