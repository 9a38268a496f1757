"""What each check does."""
import os


def reader_auto(c, drv):
    edges = c.export('FileReaderMC', 'FileReaderExport.cfg')
    c.model_check('FileReaderMC')
    rep = c.drive(drv, 'reader-auto', edges=edges)
    c.traces += rep['evaluations']
    return rep


def traces_of(rep):
    return [os.path.join(rep['dir'], t) for t in rep['traces']]


def reader_random(c, drv):
    rep = c.drive(drv, 'reader-random')
    c.validate_many('FileReaderTrace', traces_of(rep))
    return rep


HIST = ('(1) TLC exports every transition of FileReaderMC (files of 0..3 features, with and without declared count, index, '
        'seekability) and the driver replays on the real reader %s; (2) seeded random sessions on files of up to 3100 '
        'features, recorded and validated by TLC against FileReaderTrace. Every replayed history is distinct by construction.')


VAST = ('trees, files and cut files of up to 200 000 features, whose expected answers are computed by TLC with exact big numbers; ')


def vast(c, drvs):
    """Indexes and files of up to 200 000 features, for P02, P06 and P19 up to 2^50."""
    c.model_check('VastMC')
    for d in drvs:
        if d:
            c.validate_many('VastTrace', traces_of(c.drive(d, 'vast')))


def p06(c):
    c.model_check('FileReaderMC')
    drv, drv32 = c.build(), c.build32()
    reader_random(c, drv)
    for d in [drv, drv32]:
        if d:
            c.validate_many('FileReaderTrace', traces_of(c.drive(d, 'huge')))
    vast(c, [drv, drv32])
    return c.finish('model_checking', 'random files (nested geometries, features without geometry, all node sizes, shuffled leaf order; '
                    'index written by the library or by an independent encoder), random call histories around searches, seekable and not, somewhere in a larger input; '
                    'files with features of up to 4 GiB between the ones searched for, and files of up to 2^50 features made up while they are read (64 and 32-bit); TLC computes the expected matches from the coordinates and validates each answer')


def p07(c):
    drv = c.build()
    reader_auto(c, drv)
    reader_random(c, drv)
    vast(c, [drv])
    return c.finish('model_checking', VAST + HIST % 'every call history up to a depth')


def p10(c):
    drv = c.build()
    reader_auto(c, drv)
    reader_random(c, drv)
    vast(c, [drv])
    return c.finish('model_checking', VAST + HIST % 'every call history up to a depth on the file cut at every byte, and with a failure at every read or seek '
                    '(permanent, transient, after partial delivery)')


def p11(c):
    drv = c.build()
    reader_auto(c, drv)
    reader_random(c, drv)
    props(c, drv, known=False)
    vast(c, [drv])
    return c.finish('model_checking', VAST + HIST % 'every call history up to a depth, with the input delivered in one-byte, random short, '
                    'empty and data+EOF reads, on whole and cut files')


def roundtrip(c, drv):
    rep = c.drive(drv, 'roundtrip')
    c.validate_many('RoundTripTrace', traces_of(rep))
    return rep


def writer_auto(c, drv):
    edges = c.export('FileWriterMC', 'FileWriterExport.cfg')
    c.model_check('FileWriterMC')
    rep = c.drive(drv, 'writer-auto', edges=edges)
    c.traces += rep['evaluations']
    return rep


def p05(c):
    c.model_check('FileWriterMC')
    c.model_check('FileReaderMC')
    drv = c.build()
    roundtrip(c, drv)
    vast(c, [drv])
    return c.finish('model_checking', VAST + 'random declarations (count known or not; no index, caller-built index or index and data in one call; all header '
                    'fields), features of 0..70 kB with repetitions, writer call histories with refused and failing calls, output tokenized '
                    'independently, then one to three random reader sessions on the output; TLC validates the whole session against FileWriter and FileReader')


WHIST = ('(1) TLC exports every transition of FileWriterMC (declarations of 0..3 features, three node sizes, right and wrong indexes, '
         'malformed features and headers) and the driver replays on the real writer %s; (2) seeded random writer sessions with up to 300 features, '
         'recorded and validated by TLC against RoundTripTrace. Every replayed history is distinct by construction.')


def p08(c):
    drv = c.build()
    writer_auto(c, drv)
    roundtrip(c, drv)
    return c.finish('model_checking', WHIST % 'every call history up to a depth')


def p09(c):
    drv = c.build()
    writer_auto(c, drv)
    roundtrip(c, drv)
    props(c, drv, known=False)
    return c.finish('model_checking', WHIST % 'every call history up to a depth with the output failing at every byte position '
                    '(none, part or all of the failing write accepted; permanent and transient)')


def tree(c, drv):
    c.model_check('PackedRTreeMC')
    cfgs = ['PackedRTreeExport.cfg', 'PackedRTreeExportLong.cfg']
    if c.thorough:
        c.model_check('PackedRTreeMC', 'PackedRTreeMC4.cfg')
        c.model_check('PackedRTreeMC', 'PackedRTreeMCLong.cfg')
        cfgs.append('PackedRTreeExport4.cfg')
    for cfg in cfgs:
        rep = c.drive(drv, 'tree-rows', edges=c.export('PackedRTreeMC', cfg, tag='ROW'))
        c.traces += rep['evaluations']
    rep = c.drive(drv, 'tree-random')
    c.validate_many('PackedRTreeTrace', traces_of(rep))


TREE = ('(1) TLC enumerates every reference list of up to 3 (thorough 4) boxes of a 12-box universe and of 4..7 boxes of a 3-box universe, with '
        'node sizes 2, 3, 4, 7, and exports the tree and the answers to 9 queries; the driver replays each row on the real code with six '
        'order-preserving maps to floating-point coordinates: %s; (2) seeded random lists of up to thousands of boxes (empty, degenerate, '
        'infinite, denormal coordinates; node sizes up to 65535) recorded and validated by TLC against PackedRTreeTrace')


def p01(c):
    drv = c.build()
    tree(c, drv)
    vast(c, [drv])
    return c.finish('model_checking', VAST + TREE % 'New, Search, Bounds, NumRefs, NodeSize')


def p02(c):
    drv = c.build()
    tree(c, drv)
    vast(c, [drv, c.build32()])
    return c.finish('model_checking', 'searches of indexes of up to 2^50 references made up while they are read, on 64 and 32-bit machines; ' + TREE % 'Seek on the independently encoded index at varying positions in fragmented streams, against the model and in-memory search')


def p03(c):
    drv = c.build()
    tree(c, drv)
    c.model_check('BigNatMC')
    rep = c.drive(drv, 'index-size')
    c.validate_many('IndexSizeTrace', traces_of(rep))
    drv32 = c.build32()
    if drv32:
        c.validate_many('IndexSizeTrace', traces_of(c.drive(drv32, 'index-size')))
    if c.thorough:
        c.builds_for(['s390x', 'ppc64', 'mips64', 'mips64le', 'mips', 'ppc64le', 'riscv64', 'loong64', 'arm'])
    be = c.build_bigendian()
    if be:
        n, _ = c.drive_shards(be, 'tree-rows', edges=os.path.join(c.work, 'PackedRTreeExport.cfg.ndjson'))
        _, traces = c.drive_shards(be, 'tree-random')
        c.traces += n
        c.validate_many('PackedRTreeTrace', traces if c.thorough else traces[:2])
    vast(c, [drv])
    return c.finish('model_checking', VAST + TREE % 'Size, Marshal bytes, Unmarshal, re-Marshal, loaded searches, cut and failing input' +
                    '; (3) Size for random and boundary counts up to the largest int and all node sizes, validated by TLC with exact big numbers')


def p04(c):
    drv = c.build()
    c.model_check('HilbertMC')
    rep = c.drive(drv, 'hilbert', edges=c.export('HilbertMC', 'HilbertExport.cfg', tag='ROW'))
    c.traces += rep['evaluations']
    c.validate_many('HilbertTrace', traces_of(rep))
    return c.finish('model_checking', 'the curve is specified as an automaton; TLC traverses it for orders 1..5 and checks the local rules from which the '
                    'same follows for every order by induction; the 16 rows of the automaton are exported and large sorts of the real code (all cells of '
                    'aligned and unaligned 256x256 blocks, a cell in each of 65536 blocks, cells near powers of two, boxes wider than the bounds, degenerate '
                    'bounds) are checked with them; random small sorts are recorded and validated by TLC at order 16')


def p17(c):
    drv = c.build()
    c.model_check('BoxesMC')
    rep = c.drive(drv, 'boxes', edges=c.export('BoxesMC', 'BoxesExport.cfg', tag='ROW'))
    c.traces += rep['evaluations']
    c.validate_many('BoxesTrace', traces_of(rep))
    return c.finish('model_checking', 'TLC checks on a lattice of 101 boxes that the specified union is the least box containing both and that meeting is having a '
                    'common point; it exports all pairs of 226 boxes and all points with the results, which the driver replays on the real code for six ladders of '
                    'coordinates (infinite, denormal, largest); random growing histories and sorts are recorded and validated by TLC')


def props(c, drv, known=True):
    """Random sessions of property writers and readers."""
    rep = c.drive(drv, 'prop-random')
    c.validate_many('PropsTrace', traces_of(rep))
    if not known:
        # The value returned by ReadInt is not what this property is about.
        c.known = [k for k in c.known if k != 'readint-low-byte']


def prop_rows(c, drv):
    c.model_check('PropsMC')
    rep = c.drive(drv, 'prop-rows', edges=c.export('PropsMC', 'PropsExport.cfg', tag='ROW'))
    c.traces += rep['evaluations']


PROPS = ('(1) TLC exports every schema of one or two columns (all column types, undefined ones too) with every list of up to two values, its bytes, '
         'the result of decoding every prefix, and wrong continuations; the driver replays them on the real code; (2) all values of the 8 and 16-bit types, '
         'every byte value at every position of the wider types, and long texts are written and read; (3) random sessions with a failing sink, cut and '
         'fragmented input, reads of other types than written and schemas of up to 555 columns are recorded and validated by TLC')


def p13(c):
    drv = c.build()
    prop_rows(c, drv)
    props(c, drv)
    drv32 = c.build32()
    if drv32:
        props(c, drv32)
    be = c.build_bigendian() if c.thorough else None
    if be:
        c.validate_many('PropsTrace', c.drive_shards(be, 'prop-random')[1])
    return c.finish('model_checking', PROPS + '; the same on a 32-bit machine')


p14 = p13


def p16(c):
    drv = c.build()
    c.model_check('SignatureMC')
    rows = c.export('SignatureMC', 'SignatureExport.cfg', tag='ROW')
    rep = c.drive(drv, 'signature', edges=rows)
    c.traces += rep['evaluations']
    c.validate_many('SignatureTrace', traces_of(rep))
    drv32 = c.build32()
    if drv32:
        c.validate_many('SignatureTrace', traces_of(c.drive(drv32, 'signature', edges=rows)))
    return c.finish('model_checking', 'TLC exports every signature that differs from the right one in one byte (all 256 values) or in two bytes (eight values each), and every '
                    'cut one, with its verdict; the driver replays them on the real code; files with random counts, node sizes, header lengths (up to beyond 32 MiB), cuts '
                    'and damaged tables are opened, and TLC decides from the bytes whether each had to be accepted or refused')


def p12(c):
    drv = c.build()
    c.model_check('HostileTreeMC')
    c.model_check('HostileMC')
    edges, damage = c.export('HostileMC', 'HostileExport.cfg'), c.export('HostileDamage', 'HostileDamage.cfg', tag='ROW')
    trees = [c.export('HostileTreeMC', 'HostileTreeExport.cfg', tag='ROW'), c.export('HostileTreeMC', 'HostileTreeExport2.cfg', tag='ROW')]
    for d in [drv, c.build32()]:
        if d:
            for t in trees:
                c.traces += c.drive(d, 'hostile-tree', edges=t)['evaluations']
            rep = c.drive(d, 'hostile-file', edges=edges, damage=damage)
            c.traces += rep['evaluations']
            c.validate_many('HostileTrace', traces_of(rep))
    return c.finish('model_checking', 'TLC shows that a search which checks every pointer it follows stays in range and ends, whatever the pointers; it exports all '
                    'combinations of node pointers (13 kinds each) and hits for small indexes, the damage of one and two fields of a file, and the relation of answers '
                    'a reader may give; the driver replays them on the real code, also in a 32-bit program, changes every byte of files and indexes to every value, '
                    'and records random damage for TLC; sessions that do not end or do too many reads are violations')


def p18(c):
    drv = c.build()
    c.model_check('AccessorsMC')
    c.model_check('SummaryMC')
    schema = c.export('AccessorsMC', 'AccessorsSchema.cfg', tag='SCHEMA')
    rep = c.drive(drv, 'accessors', schema=schema, edges=c.export('AccessorsMC', 'AccessorsExport.cfg', tag='ROW'))
    c.traces += rep['evaluations']
    rep = c.drive(drv, 'summary', schema=schema, edges=c.export('SummaryMC', 'SummaryExport.cfg', tag='ROW'))
    c.traces += rep['evaluations']
    c.validate_many('SummaryTrace', traces_of(rep))
    c.model_check('HeaderTextMC')
    rep = c.drive(drv, 'header-text', schema=schema, edges=c.export('HeaderTextMC', 'HeaderTextExport.cfg', tag='ROW'))
    c.traces += rep['evaluations']
    c.validate_many('HeaderTextTrace', traces_of(rep))
    return c.finish('model_checking', 'TLC exports tables with no, one, two, all and all but one field present (all kinds of values, stored defaults, changes in place) with what '
                    'every accessor returns; the driver encodes them independently and with the package and reads them with the package and independently; features with '
                    'nested geometries, own and supplied columns and cut properties are exported with what their text shows; random features are recorded and validated by TLC; '
                    'headers with every choice for one or two of their parts are exported with what their text shows, random ones recorded and validated; '
                    'every byte of headers and features is changed and a text must be returned')


def p15(c):
    drv = c.build()
    c.model_check('InstancesMC')
    c.model_check('InstancesMC', 'InstancesCopies.cfg')
    c.refute('InstancesMC', 'InstancesReuse.cfg')
    c.refute('InstancesMC', 'InstancesShared.cfg')
    c.model_check('FileReaderMC')
    rep = c.drive(drv, 'reader-auto', edges=c.export('FileReaderMC', 'FileReaderExport.cfg'))
    c.traces += rep['evaluations']
    rep = c.drive(drv, 'share', edges=c.export('InstancesMC', 'InstancesExport.cfg', tag='ROW'))
    c.traces += rep['evaluations']
    c.validate_many('InstancesTrace', traces_of(rep))
    race = c.build_race()
    rep = c.drive(race, 'parallel', limited=False, env={'GORACE': 'halt_on_error=1 exitcode=66 history_size=5'})
    c.traces += rep['evaluations']
    c.validate_many('InstancesTrace', traces_of(rep))
    if rep['traces']:
        c.validate('PackedRTreeTrace', os.path.join(rep['dir'], 'searches.ndjson'))
    return c.finish('model_checking', 'TLC exports every schedule of two clients with at most five uninterrupted runs; the driver replays them, stretched, on pairs of all kinds of '
                    'clients (readers, writers, property codecs, trees) by holding up their stream operations, and random schedules of up to four clients; every answer must be the one '
                    'given alone and everything returned is looked at again at the end; sampled runs are validated by TLC; clients overwrite what they got; all histories of a reader up '
                    'to a depth with values held; and unsynchronized clients run in parallel under the race detector, with searches validated by TLC')


def p19(c):
    drv = c.build()
    c.model_check('FileReaderMC')
    rep = c.drive(drv, 'access')
    c.validate_many('AccessTrace', traces_of(rep))
    vast(c, [drv])
    c.model_check('PackedRTreeMC')
    cfgs = ['PackedRTreeExport.cfg', 'PackedRTreeExportLong.cfg']
    if c.thorough:
        c.model_check('PackedRTreeMC', 'PackedRTreeMCLong.cfg')
        cfgs.append('PackedRTreeExport4.cfg')
    for cfg in cfgs:
        rep = c.drive(drv, 'tree-rows', edges=c.export('PackedRTreeMC', cfg, tag='ROW'))
        c.traces += rep['evaluations']
    return c.finish('model_checking', '(1) seeded random sessions of the real reader on whole files (all node sizes, index by the library or by an independent encoder) lying at '
                    'offsets 0 to 5000 in larger streams, seekable and not, with the ranges read during every call; TLC computes from the coordinates which index nodes and '
                    'features the answer needs and validates every call; (2) TLC enumerates small trees and queries with the nodes a streaming search needs, and the driver runs '
                    'Seek on each and compares what was read; (3) the same for indexes and files of up to 2^50 features made up while they are read')


PLANS = {'P19': p19, 'P15': p15, 'P18': p18, 'P12': p12, 'P16': p16, 'P13': p13, 'P14': p14, 'P17': p17, 'P04': p04, 'P01': p01, 'P02': p02, 'P03': p03, 'P05': p05, 'P08': p08, 'P09': p09, 'P06': p06, 'P07': p07, 'P10': p10, 'P11': p11}
