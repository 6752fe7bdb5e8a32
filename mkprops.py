import json
P=[]
def p(id,title,statement,over,q,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in state],
                 "mechanism":[dict(name=a,where=b) for a,b in mech],"observe_at":list(observe),"hook_needed":hook}})
S="cpp/src/";I="cpp/include/copc-lib/"
p("C01","COPC write/read round trip",
  "Whatever a COPC writer accepts (points, raw point bytes or already compressed chunks, for any keys placed on any hierarchy pages), a reader of the finished file returns for every key exactly the bytes and points that were added, in order, and nothing for other keys. This holds through every reading path: node or key, points, bytes or compressed chunk, all points, file or stream.",
  ["inputs","histories"],"every sequence of AddNode / AddNodeCompressed / ChangeNodePage over any format, extra bytes, scale, page layout and point values",
  "writer_test and reader_test write a few fixed nodes of a few points on one or two pages and need laz-perf, which is not even built here; they never vary record length, page layout and reading path together",
  [S+"io/copc_writer_public.cpp",S+"io/copc_writer_internal.cpp",S+"io/copc_reader.cpp",I+"laz/compressor.hpp",I+"laz/decompressor.hpp"],
  [("AddNode/AddNodeCompressed and the chunk writer",S+"io/copc_writer_public.cpp"),("page and EVLR layout at Close",S+"io/copc_writer_internal.cpp"),("Reader::GetPoints/GetPointData/GetAllPoints",S+"io/copc_reader.cpp")],
  observe=["Reader::GetPoints*","Reader::GetAllPoints","FindNode"])
p("C02","Finished files conform to LAS 1.4 and COPC 1.0 on disk",
  "Every file a COPC writer closes is a LAS 1.4 / COPC 1.0 file byte for byte: header, VLR and EVLR chains, COPC info, chunk table and hierarchy pages sit where the specification and their own offsets say, with no overlap and nothing outside the file. Header counts equal the points in the chunks, and every hierarchy entry names one chunk or page that is reachable exactly once from the root.",
  ["histories","configurations"],"every writer history and configuration, judged by a parser that shares no code with the library",
  "the tests read files back with the library itself, so a writer and reader that agree on a wrong layout pass",
  [S+"io/copc_writer_internal.cpp",S+"io/laz_base_writer.cpp",S+"las/header.cpp",S+"las/vlr.cpp",S+"copc/info.cpp",S+"copc/extents.cpp"],
  [("WriteHeader/Close",S+"io/copc_writer_internal.cpp"),("WriteChunkTable, WriteWKT",S+"io/laz_base_writer.cpp"),("Entry::Pack",I+"hierarchy/entry.hpp")],
  observe=["bytes of the output stream after Close"])
p("C03","Hierarchy navigation returns exactly the stored hierarchy",
  "For every well-formed hierarchy and in any order of queries, finding a key returns the stored node and its page or an invalid node when the key is absent; the node list, the page list and the children of a page are exactly those of the file, each once. Lazily loading pages never changes an answer.",
  ["inputs","histories"],"every hierarchy (any page tree, page placement and byte order of pages) and every sequence of queries on one reader",
  "reader_node_test uses one fixed four-node layout and autzen; the page cache depends on the order of queries",
  [S+"io/copc_base_io.cpp",S+"io/copc_reader.cpp",I+"hierarchy/internal/hierarchy.hpp",I+"hierarchy/internal/page.hpp"],
  [("FindNode/LoadPageHierarchy/ReadPage",S+"io/copc_base_io.cpp"),("GetAllChildrenOfPage, GetPageList, GetAllNodes",S+"io/copc_reader.cpp")],
  state=[("seen_pages_/loaded_nodes_","lazy page cache",I+"hierarchy/internal/hierarchy.hpp")],observe=["FindNode","GetAllNodes","GetPageList","GetAllChildrenOfPage"])
p("C04","Metadata round trip, including the writer's overrides",
  "Every header field, COPC info value, extent with its statistics, extra bytes description and WKT text given to a writer is what a reader of the file reports, bit for bit, up to what the file format itself cannot hold. Overrides a writer accepts when derived from another file's configuration (format, scale, offset, WKT, extra bytes, statistics) replace exactly that field and keep all others.",
  ["inputs","configurations"],"every configuration, every combination of overrides and every header value, including full-length texts and extreme numbers",
  "writer_test checks one value per field and never combines overrides",
  [S+"las/header.cpp",S+"copc/copc_config.cpp",S+"copc/extents.cpp",S+"copc/info.cpp",S+"las/vlr.cpp",I+"io/copc_writer.hpp"],
  [("LasHeader::ToLazPerf/FromLazPerf",S+"las/header.cpp"),("CopcExtents::ToLazPerf",S+"copc/extents.cpp"),("CopcConfigWriter",I+"copc/copc_config.hpp")],observe=["Reader::CopcConfig()","bytes of the file"])
p("C05","LAZ write/read round trip and point counts",
  "Points written to a LAZ file, in any mix of point chunks, raw byte chunks and compressed chunks, come back from a LAZ reader in the same order with the same values and the same header, WKT and extra bytes. The header's point count is the number of points written and the chunk table describes exactly the chunks written.",
  ["inputs","histories"],"every sequence of WritePoints / WritePointsCompressed over every configuration, to files and streams",
  "laz_writer_test writes a handful of points once or twice with one configuration",
  [S+"io/laz_writer.cpp",S+"io/laz_reader.cpp",S+"io/laz_base_writer.cpp",S+"las/laz_config.cpp"],
  [("WritePoints, WriteChunk",S+"io/laz_writer.cpp"),("WriteHeader, WriteChunkTable",S+"io/laz_base_writer.cpp"),("LazReader::GetPoints",S+"io/laz_reader.cpp")],observe=["LazReader::GetPoints","bytes of the file"])
p("C06","Compressor and Decompressor are inverse at any stream position",
  "Decompressing a compressed chunk gives back the input bytes for every point format, extra byte count and number of points, wherever in a stream the chunk starts. Compressing or decompressing touches only the chunk's own bytes, and impossible arguments are refused with an exception.",
  ["inputs"],"every format, record length, point count, buffer content and stream offset",
  "the existing tests compress one node of one format from the start of a stream",
  [I+"laz/compressor.hpp",I+"laz/decompressor.hpp"],
  [("CompressBytes/DecompressBytes overloads",I+"laz/compressor.hpp"),("DecompressBytes",I+"laz/decompressor.hpp")],observe=["return values","stream positions"])
p("C07","Point records: exact LAS layout, correct quantization, range rejection",
  "Packing a point produces the LAS 1.4 record of its format with its extra bytes, and unpacking any record reproduces every field; unpack then pack is the identity on bytes. Stored coordinates are the nearest integers under scale and offset, and coordinates whose integer would not fit 32 bits are refused instead of being stored wrongly.",
  ["inputs"],"every record byte pattern, every coordinate, scale and offset",
  "point_test packs a few hand-picked values; rounding ties, 32-bit borders, NaN and every bit pattern are not sampled",
  [S+"las/point.cpp",I+"las/utils.hpp",S+"las/utils.cpp",S+"las/points.cpp"],
  [("Point::Pack/Unpack",S+"las/point.cpp"),("RemoveScale/ApplyScale",I+"las/utils.hpp"),("Points::Pack/Unpack",S+"las/points.cpp")],observe=["packed bytes","getters"])
p("C08","Point attributes are isolated and validated",
  "Setting one attribute of a point changes that attribute to the given value and no other; a value the attribute cannot hold is refused with an exception and changes nothing. The whole-field accessors for returns and flags agree with the individual bits.",
  ["inputs","histories"],"every sequence of setter calls with in-range and out-of-range values on every format",
  "point_test sets each field once on a fresh point and checks only that field",
  [I+"las/point.hpp",S+"las/point.cpp"],[("bit-field setters",I+"las/point.hpp"),("range checks",I+"las/point.hpp")],observe=["all getters after every set"])
p("C09","Format conversion, copies and equality of points",
  "Converting a point or a point list to another format keeps every attribute both formats have and initialises the others, and an impossible conversion is refused without effect. Copies are equal to and independent of their source, and two points are equal exactly when all their attributes, format and extra bytes are.",
  ["inputs","histories"],"every pair of formats, every point value, every subset of differing attributes",
  "the tests convert one default point per format pair and compare one differing field",
  [S+"las/point.cpp",S+"las/points.cpp",I+"las/point.hpp"],[("ToPointFormat",S+"las/point.cpp"),("operator==",I+"las/point.hpp")],observe=["getters","operator=="])
p("C10","The point container behaves like a typed list with columns",
  "After any sequence of additions, indexing, format changes and column assignments the container equals a plain list of points with the same operations, all of one format and record length. Additions of points of another format or record length and columns of another length are refused without effect; column views read and write exactly the selected elements.",
  ["histories","inputs"],"every sequence of container operations including rejected ones",
  "points_test runs one short scripted sequence per method",
  [S+"las/points.cpp",I+"las/points.hpp"],[("AddPoint(s), ToPointFormat, column getters/setters",S+"las/points.cpp")],observe=["Size/Get/columns after each operation"])
p("C11","VoxelKey algebra",
  "Children, parents, ancestors and bisection of octree keys are mutually inverse and agree with integer arithmetic on the coordinates at every depth; ancestry is exactly the prefix relation. Key equality, hashing, validity and text form are consistent with each other.",
  ["inputs"],"every key of every depth from the root to the 31st level, and invalid keys",
  "key_test samples a dozen shallow keys",
  [S+"hierarchy/key.cpp",I+"hierarchy/key.hpp"],[("Bisect, GetParent, GetParents, ChildOf, GetParentAtDepth",S+"hierarchy/key.cpp"),("std::hash<VoxelKey>",I+"hierarchy/key.hpp")],observe=["return values"])
p("C12","Boxes and node cubes",
  "A key's box is the node cube the COPC specification defines: header minimum plus the node's integer coordinates times the cube side halved per depth; Contains, Within, Intersects and Crosses of boxes and keys agree with interval arithmetic. Malformed boxes are refused.",
  ["inputs"],"every pair of boxes (touching, nested, degenerate, unbounded) and every key and header",
  "box_test and key_test check fixed integer boxes, not touching faces or non-zero origins",
  [S+"geometry/box.cpp",I+"geometry/box.hpp",S+"hierarchy/key.cpp"],[("Box(VoxelKey, LasHeader)",S+"geometry/box.cpp"),("VoxelKey::Intersects/Contains/Within/Crosses",S+"hierarchy/key.cpp")],observe=["predicates"])
p("C13","Spatial queries equal brute force",
  "The nodes and points returned for a box, with or without a resolution limit, are exactly those a scan over all nodes or points of the file would select. Nothing is missed, invented or returned twice, whichever pages the nodes sit on.",
  ["inputs","histories"],"every file, box and resolution, including boxes touching node faces and boxes away from the data",
  "reader tests query autzen with two or three boxes and compare counts recorded earlier",
  [S+"io/copc_reader.cpp",S+"hierarchy/key.cpp",S+"geometry/box.cpp"],[("GetNodesWithinBox, GetNodesIntersectBox, GetPointsWithinBox",S+"io/copc_reader.cpp")],observe=["returned nodes and points"])
p("C14","Resolution queries follow the COPC spacing rule",
  "The depth for a resolution is the first level whose spacing (COPC spacing halved per level) is at most the resolution, or the deepest level of the file, and the nodes at or within a resolution are exactly those at, respectively down to, that depth. Non-positive resolutions mean everything.",
  ["inputs"],"every file depth, spacing and resolution, including resolutions equal to a level's spacing",
  "one file with one spacing is sampled in the tests",
  [S+"io/copc_reader.cpp"],[("GetDepthAtResolution, GetNodesAtResolution, GetNodesWithinResolution",S+"io/copc_reader.cpp")],observe=["depth and node sets"])
p("C15","Spatial bounds validation equals brute force",
  "Validating spatial bounds returns true exactly when the cube of every node meets the header box and every point lies in the header box and in its node's cube. It never fails on a valid file and never passes a file with a single violating point or node. A verbose run gives the same verdict and reports how many points lie outside.",
  ["inputs"],"every file, with every single kind and place of violation",
  "the tests validate two good files and one bad one",
  [S+"io/copc_reader.cpp"],[("ValidateSpatialBounds",S+"io/copc_reader.cpp")],observe=["return value"])
p("C16","Vector3 arithmetic, comparison and text form",
  "Vector operations act componentwise exactly like IEEE double arithmetic, leave their operands alone and never mix components; equality matches its componentwise definition. Constructors from lists refuse the wrong length and the text form carries all three values.",
  ["inputs"],"every pair of vectors with different components, special values included",
  "vector3_test uses a few small integers, where swapped components or operands often coincide",
  [I+"geometry/vector3.hpp"],[("operators, ToString",I+"geometry/vector3.hpp")],observe=["components"])
p("C17","Header scaling and bounds",
  "Applying and removing a header's scale and offset are inverse to each other on all representable coordinates, per axis, and refuse what does not fit. Updating the bounds with points grows them to exactly the smallest box containing the points and the former bounds.",
  ["inputs","histories"],"every scale, offset and coordinate; every sequence of bounds updates",
  "las_header_test checks one scale and a single value per axis",
  [S+"las/header.cpp",I+"las/header.hpp",I+"las/utils.hpp"],[("ApplyScale/ApplyInverseScale/RemoveScale, CheckAndUpdateBounds, GetBounds, Span",S+"las/header.cpp")],observe=["values and bounds"])
p("C18","COPC extents",
  "A set of extents always has one entry per dimension of its point format and extra bytes, refers each dimension to its own entry, and keeps the assigned minimum, maximum, mean and variance. Invalid extents, negative variances and sets of the wrong length are refused without effect; serialising and parsing keeps every entry in order.",
  ["inputs","histories"],"every format, extra bytes list and sequence of assignments",
  "extents_test sets a few dimensions of format 7 and 8 to small integers",
  [S+"copc/extents.cpp",I+"copc/extents.hpp"],[("CopcExtents, CopcExtent",S+"copc/extents.cpp")],observe=["getters","bytes"])
p("C19","A rejected operation leaves the writer and its file unchanged",
  "An operation a writer refuses (bad key, page, count, format, record length, empty data, use after close) throws and has no effect: stream bytes and position, hierarchy and later operations are as if it had not been called. The finished file is identical to that of the history without the rejected calls.",
  ["histories","inputs"],"every interleaving of valid and invalid operations",
  "the tests check that a call throws and stop there",
  [S+"io/copc_writer_public.cpp",S+"io/copc_writer_internal.cpp",S+"io/laz_writer.cpp",I+"hierarchy/internal/hierarchy.hpp"],[("argument checks ahead of WriteNode",S+"io/copc_writer_public.cpp")],observe=["stream before/after","final file"])
p("C20","Hostile files never corrupt memory, run away or hang",
  "Opening and querying any byte sequence as a COPC or LAZ file either works or raises a C++ exception: no memory error, no undefined behaviour, no abort, no endless loop, and memory within a bound set by the size of the input. The same holds for the parsers of single records.",
  ["inputs"],"every byte string, in particular valid files with any field corrupted or truncated anywhere",
  "no test opens a damaged file beyond one bad-header check",
  [S+"io/base_reader.cpp",S+"io/copc_base_io.cpp",S+"io/copc_reader.cpp",S+"las/vlr.cpp",S+"copc/extents.cpp",I+"laz/decompressor.hpp"],[("VLR/EVLR and page bounds checks",S+"io/base_reader.cpp"),("ReadPage",S+"io/copc_base_io.cpp")],observe=["ASan/UBSan reports","CPU time","memory limit"])
p("C21","Resources are released and no behaviour is undefined",
  "Every memory block and file descriptor acquired by readers, writers and containers is released when they are destroyed, moved from, deleted through a base class or fail to construct, also when an allocation fails at any point. No use the API allows triggers undefined behaviour, and what is left after a failed allocation can still be used or destroyed.",
  ["histories"],"every order of construction, use, failure, move and destruction",
  "unit tests never count allocations or descriptors and do not run under sanitizers",
  [I+"io/base_reader.hpp",I+"io/copc_reader.hpp",I+"io/copc_writer.hpp",I+"io/laz_reader.hpp",I+"io/laz_writer.hpp",I+"io/laz_base_writer.hpp"],[("destructors and ownership",I+"io/base_reader.hpp")],observe=["LeakSanitizer","open descriptors"])
p("C22","Objects used by different threads are independent",
  "Readers, writers, compressors, configurations and point containers that are not shared can be used from any number of threads at once, and shared configurations and points can be read concurrently, without data races and with the results of a single thread.",
  ["schedules"],"every interleaving of threads each using their own objects",
  "no test starts a thread; the multiprocessing helpers rely on this",
  [S+"io/copc_reader.cpp",S+"io/copc_writer_internal.cpp",S+"las/points.cpp",I+"laz/compressor.hpp"],[("no shared mutable state",I+"hierarchy/internal/hierarchy.hpp")],observe=["ThreadSanitizer","results"])
p("C23","Output failures are reported and never kill the program",
  "When the output stream fails at any byte, the writer raises an exception at that operation or at the latest when closing, instead of reporting success for a damaged file. Destroying a writer after a failure neither throws nor aborts, and closing twice is harmless.",
  ["fault_sequences","crash_points"],"a failure at every write position of every writer history, for COPC and LAZ, stream and file writers",
  "no test injects an output failure",
  [S+"io/copc_writer_internal.cpp",S+"io/laz_base_writer.cpp",I+"io/copc_writer.hpp",I+"io/laz_base_writer.hpp"],[("stream state checks and Close",S+"io/laz_base_writer.cpp")],observe=["exceptions","terminate"])
p("C24","Parallel reading and transforming handle every point exactly once",
  "The multiprocessing helpers call the user's function exactly once per selected node (every node, the given nodes, or those of a resolution), with that node's points, and report each result to the callback exactly once in the calling process, whatever the number of workers, the chunk size and the completion order, never queuing more than chunk_size nodes. Concatenated and mapped coordinates are exactly those of the selected nodes that pass the classification limits. The transformed file holds for each node the points the function returned, on the same key and page (a chunk each for LAZ), or no node when there are none, with header bounds equal to those of the stored points when asked for; points of another format than the file's are refused. Errors of the function, of its arguments, of its results or of a worker reach the caller, leave no process behind and leave nothing wrong in the output.",
  ["schedules","inputs","fault_sequences"],"every file, selection, number of processes, chunk size, completion order, user function and failure",
  "mp tests process one file with defaults and compare totals; they cannot choose the order in which nodes complete, nor make a worker fail",
  ["python/copclib/mp/read.py","python/copclib/mp/transform.py","python/copclib/mp/utils.py"],[("read_multithreaded, read_concat_xyz_class_limit, read_map_xyz_class_limit",  "python/copclib/mp/read.py"),("transform_multithreaded","python/copclib/mp/transform.py")],observe=["calls logged by the workers","callbacks","returned arrays","output file"])
p("C25","The Python bindings expose the C++ library faithfully and pickle losslessly",
  "Every attribute, method, operator, constructor and keyword of the Python classes does what the C++ member of the same name does, with C++ errors raised as Python exceptions and wrong arguments refused without effect. Points behave as a list of points (indices, slices, iteration, membership, columns equal to the per-point values), into which only points of their own format and size can be put. Pickling or copying keys, nodes, vectors, headers and byte vectors gives back equal independent objects. Objects obtained from others stay valid for as long as they are held, and repeated use keeps neither memory nor descriptors.",
  ["inputs","histories"],"every bound class, attribute, method and sequence of uses",
  "the Python tests touch a fraction of the bindings, one value each, and cannot be built here",
  ["python/bindings.cpp"],[("PYBIND11_MODULE(_core)","python/bindings.cpp")],observe=["attribute values","results and exceptions of calls","pickled objects","files written through Python and through C++"])
p("C26","Answers of a reader do not depend on earlier queries or failures",
  "The result of any query on a reader is the same whatever queries came before, in whatever order, including queries that failed with an exception, be it for the arguments, the file, the stream or for want of memory. Reading is repeatable and readers of one stream's bytes agree with each other.",
  ["histories"],"every sequence of queries, with invalid and failing ones mixed in",
  "tests use a fresh reader for a couple of calls",
  [S+"io/copc_reader.cpp",S+"io/copc_base_io.cpp",S+"io/laz_reader.cpp",I+"hierarchy/internal/hierarchy.hpp"],[("page cache and stream seeks",S+"io/copc_base_io.cpp")],state=[("hierarchy_","lazily loaded pages",I+"io/copc_base_io.hpp")],observe=["query results against a fresh reader"])
p("C27","Configurations are independent values and convert without loss",
  "A copied configuration equals its source and changing either never affects the other, nor the reader or writer it came from. Converting between LAZ and COPC configurations, and deriving writer configurations from files, keeps every field both sides have.",
  ["histories","configurations"],"every configuration and every sequence of copies, conversions and modifications",
  "config tests construct and print a few configurations",
  [S+"copc/copc_config.cpp",S+"las/laz_config.cpp",I+"copc/copc_config.hpp",I+"las/laz_config.hpp",I+"io/copc_writer.hpp"],[("copy constructors, operator=",I+"copc/copc_config.hpp")],observe=["getters after mutations"])
p("C28","An interrupted write is never accepted as a complete file",
  "The bytes on disk at any point before closing finishes, or any truncation of a finished file, are not read as a complete file with missing or different points: a reader refuses them, or every query either fails or returns what was written. No such prefix crashes a reader.",
  ["crash_points"],"every prefix in write order of every writer history, and every truncation of a finished file",
  "no test reads an unfinished file",
  [S+"io/copc_writer_internal.cpp",S+"io/base_reader.cpp",S+"io/laz_base_writer.cpp"],[("header written last on Close",S+"io/copc_writer_internal.cpp"),("VLR bounds checks",S+"io/base_reader.cpp")],observe=["reader on each prefix"])
p("C29","The reader accepts every conforming layout",
  "Any file that conforms to LAS 1.4 and COPC 1.0 is read correctly, however its producer ordered it: WKT, extra bytes and extents as VLR or EVLR, unknown records in between, hierarchy pages in any order and place, gaps between sections. Absent optional records read as absent. A file that lacks what COPC requires at its beginning (signature, version 1.4, WKT bit, a supported format, the information record) and a stream that has failed are refused.",
  ["inputs"],"every conforming layout an independent file builder can produce",
  "tests read only files made by this library and one made by PDAL/Untwine",
  [S+"io/base_reader.cpp",S+"io/copc_reader.cpp",S+"io/copc_base_io.cpp"],[("ReadVlrHeaders and record lookup",S+"io/base_reader.cpp"),("ReadPage",S+"io/copc_base_io.cpp")],observe=["config, nodes and points read"])
p("C30","A file rewritten through a reader and a writer holds what it held",
  "A writer made from a reader's configuration, and given the reader's nodes or chunks as compressed data, raw records or points, produces a file that holds the same points, metadata, hierarchy and statistics, for any number of generations and in either direction between COPC and LAZ. Where format, scale, offset, WKT or statistics are changed on the way, exactly these change: coordinates land on the nearest step of the new grid, attributes both formats have keep their values, those only the new one has read as zero, and points the new grid can't hold are refused. A selection of levels, a box or some nodes leaves exactly the selected points. The source and its reader are not changed, and the target does not depend on the reader or the configuration it was made from.",
  ["inputs","histories"],"every source file, chain of rewrites and way of moving points",
  "tests copy one file without comparing points, and no chain of conversions",
  [S+"io/copc_reader.cpp",S+"io/copc_writer_public.cpp",S+"copc/copc_config.cpp",S+"las/points.cpp"],[("Writer::InitWriter/AddNode",S+"io/copc_writer_public.cpp"),("CopcConfigWriter copy and conversion",S+"copc/copc_config.cpp"),("Points::ToPointFormat",S+"las/points.cpp")],observe=["source and target files"])
p("C31","Entries and records keep their values; printed objects show their fields",
  "An Entry, Node or Page keeps the key, offset, size and point count it was made from; packing writes exactly these in the 32-byte layout of the hierarchy, and unpacking gives them back, for any values. IsValid and IsPage follow from key, size, count and, for a page, whether it is loaded. Two nodes or pages are equal exactly when all they hold is. Record headers, the extents record and the COPC information survive conversion to and from their form in the file, and the header of a record states its real size. The number of extra bytes and the length of a point record follow from the fields and the format, or are refused when the format is unknown or the record would be too long. The printed text of a header, information, extents, point, Points or entry contains the value of every field it shows, changes when the field does, and is the same through ToString and operator<<.",
  ["inputs"],"every value of every field",
  "tests check a handful of values",
  [I+"hierarchy/entry.hpp",I+"hierarchy/node.hpp",I+"hierarchy/page.hpp",I+"las/vlr.hpp",S+"las/utils.cpp",S+"las/header.cpp",S+"las/point.cpp"],[("Entry::Pack/Unpack",I+"hierarchy/entry.hpp"),("CopcExtentsVlr::read/write",S+"las/vlr.cpp"),("NumBytesFromExtraBytes/PointByteSize",S+"las/utils.cpp"),("LasHeader::ToString",S+"las/header.cpp")],observe=["values, packed bytes and printed text"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
print(len(P))
