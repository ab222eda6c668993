"""Writes DESIGN.md: tools/design_head.md, then one section per property, then the planted bugs."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.environ.get('PDFSYNTAX_REPO', '/repo'))

T = {
'C01': ('The text of an object belongs to the grammar of PDF (checked byte by byte) and parsing it gives an equal object of the same type; references keep number and generation, reals their exact value, dictionaries their keys.', 'Names with bytes above 127 cannot be held by the library; a scalar alone needs a delimiter after it.'),
'C02': ('The bytes between the delimiters come back verbatim and the neighbours are those that were put there.', ''),
'C03': ('The value must be that of the canonical spelling (one blank between tokens), for every separator allowed by the grammar.', ''),
'C04': ('Data and length after write and read equal the data given; the extent of the stream ends at endstream.', 'An indirect /Length together with data that contains endstream.'),
'C05': ('Decoders invert encoders; encodings of other writers (hexadecimal in either case and with white space, ASCII85 groups, chains, null parameters) decode as the specification says. The zlib module is a pair of inverse stubs with an arbitrary encoding for symbolic data and the real one for concrete data.', 'The correctness of zlib itself.'),
'C06': ('A reference implementation of the Up predictor, row by row.', 'Predictors the library does not support.'),
'C07': ('An independent reader of tables: object numbers, generations and offsets.', ''),
'C08': ('An independent reader of cross-reference streams.', '/Index with huge counts.'),
'C09': ('A model of the revisions: the last definition of each number, wherever its section and container are.', 'Malformed chains beyond loops.'),
'C10': ('The original bytes are a prefix of the written bytes, whatever the operations.', ''),
'C11': ('The document reloaded has the values of the document that was written, revision by revision.', ''),
'C12': ('A strict reader that trusts offsets only (no search): startxref, /Prev, table rows, stream rows, containers, /Size, the free list.', ''),
'C13': ('A document rewound equals the document of the previous revision and can be changed, written and reloaded.', 'Rewinding opens the previous revision with its changes pending, as documented by the code.'),
'C14': ('Deep snapshots of the document, its index, data and the values given, before and after every operation.', ''),
'C15': ('Answers about one document are the same whatever was asked of others before, compared with a fresh interpreter state.', ''),
'C16': ('Values and revisions of embedded objects equal those of a model; independent of the order of access.', ''),
'C17': ('A reference walk of the tree with inheritance.', 'Cyclic trees (they end with RecursionError).'),
'C18': ('Model: (old + degrees) mod 360 of exactly the chosen pages; nothing else changes, also when written.', ''),
'C19': ('The list of pages and all that is reachable from them and from the catalog, compared by graph isomorphism.', 'Attributes of tree nodes may stay; removed pages that kept pages link to stay as objects; keep_pages with negative numbers.'),
'C20': ('Graph isomorphism of every page with the source page, both directions of target.', 'The catalog of the added document is dropped by design.'),
'C21': ('Graph isomorphism of all that is reachable, one revision, no free numbers, no history.', 'Dangling references become null.'),
'C22': ('Graph isomorphism with streams compared after decoding; versions at least 1.5; streams that cannot be decoded unchanged.', 'Encrypted documents.'),
'C23': ('Slices of the contents, whatever the mode, the updates and the bounds.', ''),
'C24': ('Tables of PDFDocEncoding and UTF-16 from the specification; escapes and hexadecimal by the grammar.', 'Undefined codes, lone surrogates, odd numbers of bytes in UTF-16.'),
'C25': ('Reference application of mappings and tables of the encodings.', 'Overlapping mappings; codes a codec does not define.'),
'C26': ('Reference widths; displacement as a rational polynomial.', 'Character and word spacing are applied once per string by the library.'),
'C27': ('Matrix algebra over the reals, decided by polynomial identities; a stack of states.', 'Marked content, inline images.'),
'C28': ('The list of commands that was serialised.', 'Inline images.'),
'C29': ('The list of regions that were laid out; positions are contiguous and cover the file; no endless loop on any bytes.', 'Exceptions on malformed bytes count as termination; indirect /Length with data that contains endstream.'),
'C30': ('Set comparison with the known positions of objects and containers.', ''),
'C31': ('Tokenizer of the page: the tags are those of a page whose contents are letters only; text decodes to what the file holds.', 'Cut positions of truncated lists; Python repr escapes of strings.'),
'C32': ('A reference dump.', ''),
'C33': ('A model of what was live at the last commit and what was touched since.', 'A redefined deleted object may be an addition or an update; update of a number that was never defined is a user error.'),
'C34': ('A model of the annotation arrays; values and texts as given; nothing else changes.', 'An array shared by several pages; documents without pages.'),
'C35': ('Every fragment appears; order by line and by column as exact rationals.', 'Lines that are blank; heights in columns of three are concrete.'),
'C36': ('Transitive closure of references without links back to the tree.', ''),
'C37': ('The set of users by the newest revision.', ''),
'C38': ('A model of header, catalog, information dictionary, paper table, flags.', 'Missing MediaBox, information values that are not strings.'),
'C39': ('For each link the position of the object it should mean in the revision the link stands in; each target exists once.', 'References to objects that do not exist lead nowhere; entries beyond the last section of malformed files.'),
'C40': ('The regions, entries and objects laid out, one line each with all columns.', 'The ratio is compared within 1 %.'),
'C41': ('The assignment of fonts that was laid out; columns of the table.', 'The order of the fonts.'),
'C42': ('A model of the pages: text, streams, box, rotation, notes, form objects.', ''),
'C43': ('The printed lines are those of the model; a disk of files by name stands for the file system.', ''),
'C44': ('A model of revisions and changes; the tree laid out.', 'Loaded or not (x, -) is free for unchanged objects; generation and version cells of the index.'),
'C45': ('The text of each block, read word by word against the regions, values and entries that were laid out.', 'Order of keys, case of booleans, keys of 20 characters or more, where long lists and strings are cut.'),
'C46': ('The page is read back into elements and texts and compared with those of the blocks and spans that were laid out.', 'Constructs the documentation does not use: horizontal rules, nested emphasis, reference links, images inside links, tabs, raw HTML, brackets in link texts, ampersands in prose, quotes and lists that run on without a blank line (only their texts are judged), the depth of nested lists. The experimental `transform` (unused, prints traces) is out of scope.'),
}
def params(ks):
    """The numbers a case is run with."""
    if type(ks) is not dict:
        ks = {'quick': ks}
    res = []
    for t in ks:
        keys = {}
        for k in ks[t]:
            for a, b in k.items():
                if type(b) is int:
                    keys.setdefault(a, set()).add(b)
        x = ', '.join(f"{a} = {'/'.join(map(str, sorted(b)))}" for a, b in keys.items())
        if x:
            res.append((t + ': ' if len(ks) > 1 else '') + x)
    return f" [{'; '.join(res)}]" if res else ''


WHY = {p['id']: p for p in map(json.loads, open(os.path.join(V, 'properties.jsonl')))}
man = {c['property_id'] if 'property_id' in c else c.get('property'): c for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']}
import glob
cost = json.load(open(os.path.join(V, 'tools', 'cost.json'))) if os.path.exists(os.path.join(V, 'tools', 'cost.json')) else {}
for f in sorted(glob.glob(os.path.join(V, 'evidence', 'C*.json'))):
    e = json.load(open(f))
    v = e['coverage']
    cost.setdefault(e['property'], {})[e['tier']] = dict(paths=v['states'], queries=v['solver_queries'], solver=v['solver_seconds'], wall=e['wall_s'])
json.dump(cost, open(os.path.join(V, 'tools', 'cost.json'), 'w'), indent=0, sort_keys=True)
out = [open(os.path.join(V, 'tools', 'design_head.md')).read()]
det = json.load(open(os.path.join(V, 'tools', 'detect.json')))
for i in sorted(WHY):
    p = WHY[i]
    m = importlib.import_module('props.' + i.lower())
    out.append(f"### {i} {p['title']}\n")
    out.append(p['statement'] + '\n')
    out.append('Oracle: ' + T[i][0] + '\n')
    out.append('Cases and bounds (for all values within them):\n')
    for case in m.CASES:
        out.append(f"- {case[0]}: {case[3] or (case[1].__doc__ or '').strip()}{params(case[2])}")
    out.append('')
    if T[i][1]:
        out.append('Outside: ' + T[i][1] + '\n')
    c = cost.get(i)
    if c:
        out.append('Cost: ' + '; '.join(f"{t} {c[t]['paths']} paths, {c[t]['queries']} queries ({c[t]['solver']:.0f} s solver), {c[t]['wall']:.0f} s" for t in ('quick', 'thorough') if t in c) + '.\n')
    mine = [k for k, v in det.items() if v[0] == i]
    if mine:
        out.append('Planted bugs: ' + ', '.join(f"{k} ({'caught' if det[k][1] else 'MISSED'})" for k in mine) + '.\n')
out.append('## Planted bugs\n')
out.append('Each is in `seeded/` with a demonstration (those that change no line of the original repository are kept in `tools/bugs` only). Exit codes are those of the quick check of the property the bug was written for.\n')
out.append('| bug | needs | breaks | check |\n|---|---|---|---|')
for k, v in det.items():
    out.append(f"| {k} | {v[2]} | {v[3]} | {v[0] + ' reports it' if v[1] else 'MISSED'} |")
out.append('')
tail = os.path.join(V, 'tools', 'design_tail.md')
if os.path.exists(tail):
    out.append(open(tail).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
