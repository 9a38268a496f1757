#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe,hook_needed=None)))
RT='packedrtree/packedrtree.go'; HI='packedrtree/hilbert.go'; BX='packedrtree/box.go'
FR='flatgeobuf/file_reader.go'; FW='flatgeobuf/file_writer.go'; ST='flatgeobuf/stateful.go'
FB='flatgeobuf/flatbuffers.go'; SP='flatgeobuf/spec.go'; PR='flatgeobuf/prop_reader.go'; PW='flatgeobuf/prop_writer.go'
SG='flatgeobuf/stringers.go'; NL='packedrtree/native_littleendian.go'

prop('P01','In-memory index search returns exactly the intersecting references',
 'For every non-empty list of references with NaN-free boxes, every node size >= 2 and every query box, searching the packed tree returns each reference whose box intersects the query (touching edges count; the empty box meets no bounded box) exactly once, with its own offset and its own position in the list, and returns nothing else. The tree keeps its own copy of the references, reports the right reference count and node size, and reports as its bounds the smallest box containing all references.',
 ['inputs','configurations'],'all reference lists (any size, duplicates, degenerate, empty and infinite boxes), node sizes, query boxes',
 'Tests use one diagonal layout of at most 11 boxes and node sizes 2-5; levels that are only partly filled, overlapping boxes, more than three levels and boundary-touching queries are barely sampled.',
 [RT,BX],[('tree construction: parent boxes and first-child pointers',RT+':New'),('level layout',RT+':levelify'),('search loop over pending tickets',RT+':search'),('box intersection/expansion',BX)],
 ['New','PackedRTree.Search','PackedRTree.Bounds','PackedRTree.NumRefs','PackedRTree.NodeSize'],
 [('nodes','all tree nodes, root first',RT),('levels','node index range of each level',RT)])

prop('P02','Streaming index search equals in-memory search and leaves the cursor at data',
 'For every serialized index and query, searching it directly from a seekable stream returns the same matches as loading it and searching in memory, in the order of their position in the serialized list (hence in ascending order of offset whenever the list is in offset order), each with its own offset and position. On success the stream is left exactly at the first byte after the index, wherever in the stream the index started, and bytes outside the index are never read.',
 ['inputs','configurations'],'all trees, node sizes, queries, index positions in the stream, and leaf orders',
 'The streaming search has only mocked error tests and one four-element example; no test compares it with the in-memory search on multi-level trees, shuffled offsets or a non-zero start position.',
 [RT],[('node fetching by relative seek',RT+':Seek'),('min-heap of pending nodes',RT+':ticketBag'),('skip to end of index',RT+':Seek')],
 ['Seek','io.ReadSeeker position after Seek'],
 [('offset','tracked stream position',RT+':Seek')])

prop('P03','Serialized index has the FlatGeobuf layout and round-trips exactly',
 'Serializing a tree writes exactly the number of bytes given by the size calculation: 40-byte little-endian nodes (on machines of either byte order), root level first and leaves last in list order, each internal node holding the union of its children\'s boxes and the node index of its first child. Loading those bytes consumes exactly that many bytes and yields a tree that serializes to the same bytes and answers every search identically; loading from a stream that ends early or fails gives an error. The size calculation is exact for every count and node size whose size is representable and reports an error, never a wrapped value, otherwise.',
 ['inputs','configurations'],'all reference lists, node sizes and reference counts up to the integer limits',
 'Tests check the layout for at most 11 references and size for five parameter pairs, and only compare the code with itself, never with the on-disk layout.',
 [RT,NL],[('size arithmetic with overflow checks',RT+':size'),('level layout',RT+':levelify'),('Marshal/Unmarshal as raw node bytes',RT+':Marshal'),('byte order',NL)],
 ['Size','PackedRTree.Marshal','Unmarshal'],
 [('nodes','node array serialized verbatim',RT)])

prop('P04','Hilbert sort is a permutation in descending Hilbert-curve order',
 'Hilbert-sorting any list of references yields exactly the same references (none lost, duplicated or altered), ordered by non-increasing position of their box centres on the order-16 Hilbert curve over the given bounds. The curve is the standard one: every grid cell has a distinct position, and consecutive positions are neighbouring cells. An index which the writer builds itself lists the features in that order, over the bounds of all of them.',
 ['inputs'],'all reference lists and bounds, including degenerate (zero width or height) bounds and centres in every grid cell',
 'Tests sample a handful of curve points and sort data that was already sorted by another implementation; 2^32 grid cells and arbitrary lists are out of reach.',
 [HI,FW],[('indexing by the writer',FW+':IndexDataPtr'),('centre to grid cell',HI+':hilbertOfCenter'),('grid cell to curve position',HI+':hilbertOfXY'),('in-place sort',HI+':HilbertSort')],
 ['HilbertSort','FileWriter.IndexData'])

prop('P05','Files written are read back identically',
 'Whatever header and sequence of features the writer accepts - with no index, with a caller-built index, or with an index it builds itself, with a known or an unknown feature count - reading the produced file returns the same header contents and exactly the accepted features, byte for byte, in the order they were written. The produced bytes are precisely magic number, size-prefixed header, index when declared, then the size-prefixed features with nothing between them, and every reported byte count equals the bytes emitted.',
 ['inputs','histories'],'all headers, feature sequences, index modes and read call patterns',
 'No test writes a file at all: the writer has no test, and read tests only look at reference files.',
 [FW,FR,FB],[('write state machine',FW),('size-prefixed table output',FB+':writeSizePrefixedTable'),('feature framing on read',FR+':readFeature'),('header framing on read',FR+':Header')],
 ['FileWriter.Header','FileWriter.Index','FileWriter.IndexData','FileWriter.IndexDataPtr','FileWriter.Data','FileReader.Header','FileReader.Data','FileReader.DataRem'])

prop('P06','Spatial search of a file returns exactly the matching features',
 'For a file whose index was built by this library, a spatial search returns exactly the features having a bounding box - over all coordinates, including those in nested geometry parts - that intersects the query, in file order, each being the complete right feature. The answer is the same for seekable and non-seekable input, for a fresh reader, for a reader that loaded the index earlier, and after rewinding; an index built by another conforming writer is honoured likewise, whatever the order of features in the file.',
 ['inputs','configurations','histories'],'all feature sets, geometry nestings, node sizes, queries, input kinds, and reader histories before the search',
 'The only test of file search needs a data file that is missing, so nothing exercises it; even with the file, one seekable reader and two queries would be sampled.',
 [FW,FR,RT],[('feature bounds and offsets when indexing',FW+':IndexDataPtr'),('search and skip over unneeded features',FR+':IndexSearch'),('ascending offsets',RT+':Seek')],
 ['FileWriter.IndexData','FileReader.IndexSearch','FileReader.Index'])

prop('P07','Reader answers depend only on its logical position, for every call history',
 'For every sequence of reader calls on a well-formed file, each call returns what the logical position prescribes: features are delivered once each, in order, with end-of-data reported exactly when all are delivered (an empty destination buffer never ends the data); a rewind on seekable input restores the position just after the header, whatever was called before, so index, search and data work again with the same answers; misuse (calls before the header, a second header, reading the index when past it, rewinding non-seekable input) gives an error and changes nothing. After close every call reports closed, and the underlying stream is closed exactly once. No call history panics.',
 ['histories','configurations'],'all call sequences with all buffer sizes and queries, for indexed/unindexed files, known/unknown/zero counts, seekable/non-seekable input',
 'Tests contain three straight-line call sequences; the state machine has cached index, saved offsets and lazy seeks whose combinations need histories of several calls.',
 [FR,ST],[('state transitions',ST+':toState'),('lazy rewind and cached offsets',FR+':Rewind'),('index skipping',FR+':skipIndex'),('index caching',FR+':Index')],
 ['FileReader.Header','FileReader.Index','FileReader.IndexSearch','FileReader.Data','FileReader.DataRem','FileReader.Rewind','FileReader.Close'],
 [('state','position in the file',ST),('indexOffset/dataOffset/cachedIndex','what survives a rewind',FR),('featureIndex/featureOffset','next feature',FR)])

prop('P08','Writer output is always a prefix of the declared file, for every call history',
 'For every sequence of writer calls, the bytes emitted so far are a prefix of a file of the declared form: the header first and once, then the index if and only if declared and matching in count and node size, then at most the declared number of features. A call made out of order or with mismatched or malformed arguments gives an error, emits nothing of what it was asked to write, and leaves the writer usable as before unless the header itself was malformed. Closing reports an error exactly when fewer features than declared were written, closes the underlying stream exactly once, and afterwards every call reports closed.',
 ['histories','inputs'],'all call sequences, header forms (known/unknown count, indexed or not, invalid node size), index mismatches, malformed tables',
 'No writer test exists; ordering rules involve sequences of calls.',
 [FW,ST,FB],[('write state machine',FW),('canWriteIndex/canWriteData',FW),('table validation',FB+':tableSize')],
 ['FileWriter.*','bytes at the underlying io.Writer'],
 [('state','next section to write',FW),('featureIndex/numFeatures','features written/declared',FW)])

prop('P09','A failing output stream is always reported and never written past',
 'If the underlying stream fails after accepting any number of bytes, the writer call in progress returns that error, and the byte counts returned by all calls sum to exactly the bytes the stream accepted. Once part of a section has been written and the rest failed, no later call writes anything and every later writing call returns an error; closing a file that declared more features than were written still reports the shortfall.',
 ['fault_sequences','crash_points','histories'],'all byte positions at which the sink can fail (with or without partial acceptance), over all writing modes',
 'No writer test exists; there are as many failure points as bytes in the file, and property values are written by separate small writes.',
 [FW,FB,ST,PW,RT],[('sticky error',ST+':toErr'),('partial write handling',FW+':Data'),('index output',RT+':Marshal'),('length-prefixed property output',PW+':WriteBinary')],
 ['FileWriter.*','PropWriter.*','PackedRTree.Marshal'])

prop('P10','Truncated or failing input is reported, never passed off as complete',
 'For a well-formed file cut at any byte, or an input that fails at any read or seek, no call reports a clean end of data or a completed search unless the answer is what the whole file would give (an unknown-count file cut exactly between features is indistinguishable from a shorter file). Features returned before or together with the error are the right ones, unaltered; the error of a failing input is preserved in the returned error, and that reader keeps returning an error until closed. Nothing panics.',
 ['crash_points','fault_sequences','histories'],'all cut positions, all failing operations, all call sequences, seekable and non-seekable',
 'Tests read only complete files from working streams; one cut per byte and one failure per I/O operation times the call patterns is beyond examples.',
 [FR,ST,RT],[('full reads with explicit errors',FR+':readFeature'),('skip by reading',FR+':discard'),('sticky error',ST+':toErr'),('index reads',RT+':Unmarshal')],
 ['FileReader.*','packedrtree.Seek','packedrtree.Unmarshal'])

prop('P11','Results do not depend on how the input stream delivers its bytes',
 'A file read through any well-behaved reader - one byte at a time, arbitrary short reads, empty reads, final bytes delivered together with end-of-file - gives exactly the same headers, indexes, search results, features, property values and errors as when read in one piece, and seekable and non-seekable readers of the same bytes give the same results.',
 ['schedules','inputs'],'all fragmentations of the byte stream and seekability, for every reading entry point',
 'All tests read from files or buffers, which always return everything asked for; a missing full-read loop would go unnoticed.',
 [FR,RT,PR,SP],[('io.ReadFull on every fixed-size read',FR),('discard loop',FR+':discard'),('node reads',RT+':readLittleEndianNodes'),('property reads',PR)],
 ['FileReader.*','PropReader.*','packedrtree.Unmarshal','packedrtree.Seek','Magic'])

prop('P12','Damaged or hostile files produce errors, never panics or endless work',
 'For every byte sequence presented as a file, and every byte sequence presented as an index, every opening, index-loading, searching and reading call returns - a value or an error - without panicking and without looping forever, whatever the header, index node pointers, lengths and offsets claim. An index containing a child pointer that leads outside the next lower level is refused when it is loaded, and a streaming search that comes to such a pointer fails instead of answering as if it were not there. After a failed header the reader only returns errors until closed.',
 ['inputs','histories'],'all byte strings (arbitrary damage to headers, index nodes, lengths and offsets) and all call sequences on them',
 'No test feeds a damaged file; the bytes that matter (child pointers, lengths near 2^32, header offsets) must hit narrow ranges.',
 [FR,RT,FB],[('trapping of table access panics',FB+':safeFlatBuffersInteraction'),('length checks',FR+':readFeature'),('header limits',FR+':Header'),('child pointer use in search',RT+':search')],
 ['FileReader.*','packedrtree.Unmarshal','packedrtree.Seek','PackedRTree.Search'])

prop('P13','Property values round-trip for every type and value',
 'Any sequence of property values of any types written to a stream and read back with the matching read operations yields the same values, bit for bit, with nothing left over; each write reports the exact number of bytes written. The encoding is fixed-width little-endian for numbers, one byte for booleans, and a 32-bit little-endian byte count followed by the raw bytes for text and binary, and reading a value from a stream holding too few bytes gives an error.',
 ['inputs','histories'],'all types, all values (full ranges, NaN payloads, any length text/binary), all sequences',
 'No direct test of the property reader or writer exists; the example output only shows small integers that fit in one byte.',
 [PR,PW],[('little-endian assembly',PR),('little-endian splitting',PW),('length prefix',PW+':WriteBinary')],
 ['PropWriter.*','PropReader.*'])

prop('P14','Schema-driven property decoding is exact or an error',
 'Decoding a property section against a schema returns exactly the encoded (column, value) pairs, in order, each with its column index, column type and the value in the corresponding Go type. A column index outside the schema, a column type that is not defined, or bytes missing anywhere inside a column index or a value give an error, never a silently shortened, zero-filled or misaligned list.',
 ['inputs','crash_points'],'all schemas, value lists and truncation points',
 'Only one file with small integers is decoded in an example; truncation and bad columns are never tried.',
 [PR],[('column loop and type dispatch',PR+':ReadSchema')],
 ['PropReader.ReadSchema','FeatureString'])

prop('P15','Returned data is stable and independent instances do not interfere',
 'Features, headers, search results, loaded indexes and property values stay unchanged whatever else is called afterwards on the reader, tree or writer they came from, and inputs passed in (references, features, query boxes) are not modified, except that sorting reorders its own argument. What a caller does afterwards to values it received, or to arguments whose call has returned, affects no later answer. Concurrent searching, serializing and describing of one tree, concurrent reading and writing of the same features, and concurrent use of separate readers, writers and property codecs, give the same results as running alone and have no data race.',
 ['schedules','histories'],'all interleavings of concurrent searches and of independent instances, and all later calls after a value was returned',
 'All tests are single-threaded and look at a value right after it was returned, so buffer reuse or shared scratch space would be invisible.',
 [FR,RT,PR,FW],[('fresh buffer per feature',FR+':readFeature'),('copy of references',RT+':New'),('per-search bag and results',RT+':search'),('string without copy over a private buffer',PR+':ReadString')],
 ['FileReader.Data','FileReader.IndexSearch','PackedRTree.Search','PropReader.ReadString','PropReader.ReadBinary'])

prop('P16','Only well-formed signatures and headers are accepted',
 'The magic check consumes at most 8 bytes and succeeds exactly when the six fixed bytes (all but the two version bytes) are right, returning the major and patch version found; fewer than 8 bytes give an error. Opening a file succeeds exactly when the magic is right, the major version is 3, the declared header length lies between 4 bytes and 32 MiB and is fully present, the header table itself is readable, the declared feature count fits an int, and the declared index node size is not 1.',
 ['inputs'],'all 8-byte signatures, header lengths, counts and node sizes',
 'One valid file is tried; boundary lengths, versions and node sizes are not.',
 [SP,FR],[('magic comparison',SP+':Magic'),('header gates',FR+':Header')],
 ['Magic','FileReader.Header'])

prop('P17','Bounding boxes grow minimally and intersect symmetrically',
 'Expanding a box by another box or by a point yields the smallest box containing both, is idempotent and order-independent, never changes its argument, and the empty box is its neutral element. Width and height are the coordinate differences, two boxes intersect exactly when they share a point (symmetrically; whether the empty box meets one that is unbounded in every direction is left open), and sorting search results orders them by ascending offset without changing them.',
 ['inputs'],'all NaN-free boxes (including empty, degenerate, infinite) and points, all result lists',
 'Tests use a few concrete boxes.',
 [BX,RT],[('Expand/ExpandXY',BX),('intersects',BX),('Results sort.Interface',RT)],
 ['Box.Expand','Box.ExpandXY','Box.Width','Box.Height','PackedRTree.Search','Results'])

prop('P18','Summaries and schema accessors reflect the stored data',
 'Every header, column, geometry, coordinate-reference-system and feature field stored at its FlatGeobuf schema position is returned by the accessor of that name, and absent fields yield the schema default. A builder function stores its field at exactly that position, and a mutator changes its own stored field and nothing else. The textual summaries of headers and features always return - reporting damage as an error text, never panicking - and show the stored geometry type, the bounds over all nested parts, and each property under its column name taken from the feature\'s own columns or else from the supplied schema; a header\'s text shows its name, envelope, geometry type, kinds of coordinates, numbers of columns and features, index node size, coordinate reference system, title, description and metadata; and the texts of boxes, references and trees show their coordinates, offset, bounds, count and node size.',
 ['inputs','configurations'],'all combinations of present/absent fields and values, schema placements and truncations of the property bytes',
 'Examples print three files; the accessors are generated code without tests.',
 [SG,'flatgeobuf/flat'],[('summaries',SG+':HeaderString,FeatureString'),('field slots','flatgeobuf/flat/*.go'),('panic trapping',FB+':safeFlatBuffersInteraction')],
 ['HeaderString','FeatureString','flat.Header','flat.Feature','flat.Geometry','flat.Column','flat.Crs'])

prop('P19','Searches and reads take only the bytes they need, and leave the rest in place',
 'A streaming index search, and a spatial search of a seekable file whose index is not loaded, read only index nodes whose parent meets the query (and the top-level ones), each at most once and in ascending position; a spatial search of a seekable file reads no features other than the matching ones. An index that was loaded is not read again, and reading features of a seekable file does not read its index. Within one reader call every read lies at or after the end of the previous one; nothing before the file, after it, or after the section or last feature asked for is read, so that the input is left exactly at the first byte that was not asked for (what follows a file with a declared feature count can be read by others); calls that are refused, rewinding and closing read nothing.',
 ['inputs','configurations','histories'],'all files with a declared feature count (and, without trailing data, those without), positions of the file in a larger stream, queries, seekable and non-seekable inputs, and call histories',
 'Answers are the same however much is read, so no test of answers can tell; the access pattern depends on the query, the shape of the tree, what earlier calls loaded, and the kind of input.',
 [FR,RT],[('pruned traversal with sequential fetches',RT+':search,Seek'),('skipping the index',FR+':skipIndex'),('skipping features between matches',FR+':IndexSearch'),('cached index and saved offsets',FR)],
 ['io.ReadSeeker given to Seek','io.Reader given to NewFileReader'],
 [('cachedIndex','index loaded by an earlier call',FR),('indexOffset, dataOffset','saved positions of the sections',FR)])

with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
import sys
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p,s)
    print('valid',len(P))
except ImportError: print('no jsonschema')
for p in P: assert len(p['title'])<=80,p['title']
