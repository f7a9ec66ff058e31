#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=st,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(obs), hook_needed=None)))

H="hamt/hamt.go"; U="hamt/util.go"; DIR="io/directory.go"; RD="io/dagreader.go"; RES="io/resolve.go"
M="mod/dagmodifier.go"; X="unixfs.go"; F="file/unixfile.go"; DB="importer/helpers/dagbuilder.go"
BAL="importer/balanced/builder.go"; TR="importer/trickle/trickledag.go"; IMP="importer/importer.go"; PB="pb/unixfs.pb.go"

p("C01","Underlying failures are never reported as success",
 "When a block fetch, block store, decode, encode, CID computation, chunk read, consumer callback or writer fails during an operation, that operation returns an error (or delivers one on its result stream) instead of success. The only failures turned into a normal outcome are: end of input while importing, end of DAG while reading, a missing old entry when replacing or evaluating a layout switch, and plain-IPLD path resolution of a node that is not UnixFS.",
 ["fault_sequences","inputs"],"every call that can fail, in every function, on every path, for every position of the failure",
 "The tests run over an in-memory store that never fails; almost no error branch is executed.",
 [X,H,DIR,RES,RD,M,F,DB,BAL,TR],[("error returns","every function returning error"),("recvdErr / it.err / LinkResult.Err","importer/helpers/dagbuilder.go, file/unixfile.go, hamt/hamt.go")],
 obs=["error results of the exported API","LinkResult.Err","DirIterator.Err"])
p("C02","Malformed nodes are reported as errors, never crash the process",
 "Opening, reading, seeking, listing, resolving, editing, truncating, appending to or verifying a DAG never panics, whatever UnixFS fields and links its stored nodes hold (wrong type, missing or oversized data, child sizes that do not match the links, link names too short, bitmap disagreeing with the links) and whatever offsets and sizes the caller passes; such nodes and arguments are reported as errors. (Preconditions of the API, such as an index handed to an accessor like FSNode.BlockSize or a nil node, are the caller's.) Every slice access, type assertion, integer division and nil-able dereference reached with data from a stored node or a caller's argument is guarded by a check that excludes the failing case.",
 ["inputs"],"every stored node content and every caller-supplied offset, size, name or path",
 "Tests only load nodes the library itself wrote; malformed shards, size lists and offsets are never presented.",
 [X,H,DIR,RES,RD,M,TR,DB],[("childer.check","hamt/hamt.go"),("NewHamtFromDag validation","hamt/hamt.go"),("NumChildren vs Links check","io/dagreader.go")],
 obs=["panics of exported functions"])
p("C03","Nodes are stored before anything that refers to them is returned",
 "When an import, append, write, truncate or sharded-directory serialisation succeeds, every node it created, including the returned root, has been handed to the DAG service for storage; appending to a trickle file leaves storing the new root to its caller. The node stored is the finished one: it is not altered between being stored and being linked or returned.",
 ["inputs","configurations","fault_sequences"],"every shape of DAG produced by the importers, the modifier and the sharded directory",
 "Tests read back through the same store and only for sampled sizes; a node lost on one particular branch (e.g. a new layer or a raw leaf) is not visible.",
 [DB,BAL,TR,M,H],[("AddChild stores child","importer/helpers/dagbuilder.go"),("db.Add(root)","importer/balanced/builder.go, importer/trickle/trickledag.go"),("dagserv.Add","mod/dagmodifier.go"),("dserv.Add","hamt/hamt.go")],
 obs=["DAGService.Add calls"])
p("C04","A file node's declared size equals its own data plus its children's sizes",
 "Every file node built or edited by the library declares as its size the length of its inline data plus the sum of the child sizes it records, and records exactly one child size per link, in link order. The size recorded for a child is the amount of file data under that child, and adding, removing, clearing or truncating children or replacing inline data keeps this so.",
 ["inputs","histories"],"every sequence of size-changing operations on a node and every tree the builders produce",
 "Tests check total sizes for a few generated files; per-node bookkeeping under edit sequences is unchecked.",
 [X,DB,BAL,TR,M],[("UpdateFilesize","unixfs.go"),("AddBlockSize/RemoveBlockSize/RemoveAllBlockSizes/SetData","unixfs.go"),("FSNodeOverDag.AddChild/RemoveChild","importer/helpers/dagbuilder.go"),("dagTruncate","mod/dagmodifier.go")],
 obs=["FSNode.FileSize","FSNode.BlockSizes"])
p("C05","Importing consumes every chunk once, in order, and aborts on source errors",
 "Import and append take chunks from the source one at a time, place each chunk's exact bytes in exactly one new leaf, attach leaves in the order the chunks were read, and stop only when the source is exhausted. If the source fails, the import reports that failure and never returns a DAG for the part read so far.",
 ["inputs","fault_sequences"],"every chunk stream, every failure position, every layout",
 "Tests use in-memory readers that never fail mid-stream and compare bytes only for sampled sizes.",
 [DB,BAL,TR],[("prepareNext/Next/Done","importer/helpers/dagbuilder.go"),("fillNodeRec","importer/balanced/builder.go"),("fillTrickleRec/Append","importer/trickle/trickledag.go")],
 state=[("nextData","one-chunk look-ahead","importer/helpers/dagbuilder.go"),("recvdErr","sticky source error","importer/helpers/dagbuilder.go")])
p("C06","Import respects fan-out, block-size and no-copy limits",
 "No node built from imported data gets a further child once it already has the configured maximum number of links, apart from the fixed four sub-trees per depth of the trickle layout's later layers; a leaf is never built from a chunk larger than the block size limit, which gives an error. Asking for no-copy import from a source without a file path is refused, and in no-copy mode each raw leaf records that path and the byte offset of its chunk in the file. The library's own importers and the modifier's append use the default link limit.",
 ["inputs","configurations"],"every chunk stream and every builder configuration",
 "Tests use two or three fan-outs and never a no-copy import with several leaves or an over-long chunk in each layout.",
 [DB,BAL,TR],[("Maxlinks guards","importer/balanced/builder.go, importer/helpers/dagbuilder.go"),("BlockSizeLimit check","importer/helpers/dagbuilder.go"),("ProcessFileStore","importer/helpers/dagbuilder.go"),("ErrMissingFsRef","importer/helpers/dagbuilder.go")],
 state=[("offset","bytes already assigned to filestore leaves","importer/helpers/dagbuilder.go")])
p("C07","The configured CID format is applied to every node created",
 "Every node created by import, file modification or directory conversion uses the CID builder (version, hash) configured by the caller or carried by the node it replaces: import leaves and inner nodes use the import's builder and raw-leaf setting, rewritten leaves and truncated nodes keep the builder of the node they replace, and new sub-shards and converted directories inherit their directory's builder. A modifier takes its format from the node it was opened on and enables raw leaves exactly for CIDv1 or later.",
 ["configurations","inputs"],"every builder configuration and every code path that creates a node",
 "Tests check prefixes only for a few options and never after forks of a sharded directory or layout switches with custom builders.",
 [DB,H,DIR,M],[("SetCidBuilder/NewRawNodeWPrefix","importer/helpers/dagbuilder.go, mod/dagmodifier.go"),("child.builder = ds.builder","hamt/hamt.go"),("switchToSharding/switchToBasic","io/directory.go")])
p("C08","A reader's position always equals the bytes it has delivered",
 "A file reader's position advances by exactly the number of bytes handed out by each read or write-out call, also when the call ends early with an error, and leftover bytes of a partly read block are delivered before the next block and never twice. A read fills the caller's buffer unless the data ends or an error occurs, reports end of file only when the DAG is exhausted, and the reader counts as reported every byte it delivered.",
 ["histories","inputs","fault_sequences"],"every interleaving of reads, write-outs and seeks, with failures at any point",
 "Tests read sequentially without failing sinks; the partly-read-block bookkeeping after an error is never exercised.",
 [RD],[("readNodeDataBuffer/writeNodeDataBuffer","io/dagreader.go"),("CtxReadFull/WriteTo","io/dagreader.go")],
 state=[("offset","logical position","io/dagreader.go"),("currentNodeData","unread rest of current leaf","io/dagreader.go")])
p("C09","Only file content can be opened or read as bytes",
 "Opening a reader succeeds only for raw blocks and for UnixFS file and raw nodes, and for a metadata node by opening its first child; directories (plain or sharded) and symlinks are refused with their dedicated errors and any other node with an error. While reading or seeking, a leaf block of the DAG that is not a file, raw UnixFS or raw block is an error, never data, and the reader's size is the declared file size (raw blocks: their length).",
 ["inputs"],"every node kind and every UnixFS type value, including undefined ones",
 "Tests cover some node kinds once; a dropped or merged case for a rare type is not seen.",
 [RD,X],[("NewDagReader type switch","io/dagreader.go"),("ReadUnixFSNodeData","unixfs.go"),("ExtractFSNode","unixfs.go")])
p("C10","Seeking a reader lands on the requested offset or fails cleanly",
 "After a successful seek the position equals the requested absolute offset for the three origins (start, current, end measured from the file size) and the next byte delivered is the one at that offset: inside the DAG the search skips exactly those children that end at or before the target. Negative targets and unknown origins are refused without moving the reader, and a seek that fails for another reason never leaves the reader at a reported position that differs from where the next read continues.",
 ["inputs","histories","fault_sequences"],"every offset, origin, tree shape and fetch failure",
 "Tests seek only within well-formed in-memory DAGs; failure in the middle of a seek never happens.",
 [RD],[("Seek","io/dagreader.go"),("resetPosition","io/dagreader.go")],
 state=[("offset","logical position","io/dagreader.go")])
p("C11","A stored shard is accepted only if it is well formed",
 "Loading a sharded directory (from a root or while traversing it) succeeds only for a protobuf node of the sharded-directory type, with the murmur3 hash, and a table width that is a power of two of at most 1024. Its entry bitmap must fit that width and have exactly as many bits set as the node has links, and its links, hash id and CID builder are then taken over unchanged.",
 ["inputs"],"every stored node presented as a shard",
 "Tests load shards the library wrote plus one or two bad widths; each missing validation is a crash or wrong listing on hostile blocks.",
 [H,U],[("NewHamtFromDag","hamt/hamt.go"),("newChilder width limit","hamt/hamt.go"),("Logtwo","hamt/util.go")])
p("C12","A shard's bitmap, links and loaded children stay in step",
 "Inserting, replacing, loading or removing an entry of a shard changes its occupancy bitmap, its stored links and its loaded children together, at the same position, so that the number of set bits always equals the number of entries and each position holds either a stored link or a loaded child. A failing operation never leaves them out of step either.",
 ["histories","inputs"],"every sequence of inserts, replacements, loads and removals",
 "Tests check only the listing after random operations; a slip at one position needs a particular occupancy pattern.",
 [H],[("childer.insert/rm/set/setLink/loadChild","hamt/hamt.go")],
 state=[("bitfield","occupied slots","hamt/hamt.go"),("links/children","parallel slices","hamt/hamt.go")])
p("C13","Sharded entries are addressed by the hash of their own name",
 "Lookup, insertion, replacement and removal all walk the shard tree by the murmur3 hash of the entry's own name, each level consuming its table's number of bits in order and reporting an error when the bits run out; when two names collide in a slot, both are re-inserted below from the bit position reached so far. An entry is matched only by its full name, and every serialised link is named by its slot number in fixed-width hexadecimal followed by the entry's name.",
 ["inputs","histories"],"every set of names, including deep collisions",
 "Collisions over several levels and width-dependent prefixes are improbable under sampled names.",
 [H,U],[("getValue/swapValue","hamt/hamt.go"),("hashBits.Next","hamt/util.go"),("linkNamePrefix","hamt/hamt.go")])
p("C14","Removing entries prunes and collapses sub-shards",
 "After an entry is removed from a sub-shard, a sub-shard left empty is removed from its parent and a sub-shard left with a single plain entry (loaded or not) is replaced in its parent by that entry, while a sub-shard holding more, or holding only another shard, stays. Removing a name that is not present reports that it does not exist and changes nothing.",
 ["histories"],"every history of insertions and removals",
 "Tests compare a few shapes; the loaded and the unloaded variants of collapsing need different histories.",
 [H],[("swapValue removal branch","hamt/hamt.go")])
p("C15","Enumerating a directory yields every entry once or reports an error",
 "Every enumeration call on a plain or sharded directory delivers each entry under its plain name (no slot prefix) with its own target and size, in every sub-shard whether already loaded or not, or ends with an error. A listing that was cut short by cancellation, a failed fetch or a failing callback is never presented as complete.",
 ["inputs","schedules","fault_sequences"],"every tree, every mix of loaded and unloaded children, every cancellation point",
 "Tests list complete in-memory directories; interrupted listings and mixed trees are barely touched.",
 [H,DIR],[("walkChildren/parallelShardWalk/EnumLinks","hamt/hamt.go"),("walkTrie/each","hamt/hamt.go"),("ForEachLink/EnumLinksAsync","io/directory.go")])
p("C16","Concurrent enumeration always terminates and is free of data races",
 "The concurrent directory enumeration ends on success, error and cancellation alike: every blocking channel operation can also end by cancellation, every result channel is closed exactly once and never written after, and workers deliver all sub-results of a batch before reporting it finished. State shared by the workers is only touched under a lock, and each goroutine of the enumeration and of the file-tree adapter ends once its consumer's context is cancelled.",
 ["schedules"],"every schedule of workers, dispatcher, consumer and cancellation",
 "A test run sees a handful of schedules; a lost wake-up or leaked goroutine depends on one interleaving.",
 [H,DIR,F],[("parallelShardWalk","hamt/hamt.go"),("emitResult","hamt/hamt.go"),("EnumLinksAsync","hamt/hamt.go, io/directory.go"),("Entries","file/unixfile.go")])
p("C17","Plain and sharded directories honour the same entry contract",
 "In both directory layouts, looking up or removing a missing name reports exactly 'does not exist', adding under an existing name replaces the old entry, a found entry is fetched by the link stored under that name, and removal of an existing name drops that entry only. Both layouts return the CID builder that was set, and listing calls cover the same entries.",
 ["inputs","histories"],"every name and every directory state in either layout",
 "Tests mostly exercise one layout per scenario and compare success cases.",
 [DIR,H],[("BasicDirectory methods","io/directory.go"),("HAMTDirectory methods","io/directory.go"),("getValue/swapValue","hamt/hamt.go")])
p("C18","Directories switch layout exactly at the size threshold, atomically",
 "A directory becomes sharded when the estimated size after the addition reaches the configured threshold and becomes plain again only after full enumeration has shown the size to be below that same threshold; threshold zero disables switching. The estimate is kept exact across additions, replacements and removals (name length plus CID length per entry), and a switch either completes with all entries, the pending change and the CID builder carried over, or fails leaving the directory as it was.",
 ["histories","configurations","fault_sequences"],"every history of additions and removals, every threshold, every failure during a switch",
 "Tests hit the boundary for a few names with a mocked size function and no failures.",
 [DIR],[("needsToSwitchToHAMTDir/needsToSwitchToBasicDir/sizeBelowThreshold","io/directory.go"),("switchToSharding/switchToBasic","io/directory.go"),("DynamicDirectory.AddChild/RemoveChild","io/directory.go")],
 state=[("estimatedSize","size of plain directory","io/directory.go"),("sizeChange","net change since load","io/directory.go")])
p("C19","Nodes handed in by the caller are not modified",
 "Opening a directory or a modifier on a node and then editing through it never changes the caller's node, its links or its data; nodes handed out by a modifier do not change under later edits. Inserting a link or node into a directory never changes the caller's link or node.",
 ["histories"],"every edit sequence after opening or handing out a node",
 "Tests rarely re-examine the input node after edits; sharing between copies is invisible in results.",
 [DIR,M,H],[("from.Copy / protoBufNode.Copy","mod/dagmodifier.go, io/directory.go"),("link copies","hamt/hamt.go"),("modifyDag","mod/dagmodifier.go")])
p("C20","Pending writes are flushed before the modified file is observed",
 "Reading, seeking, truncating or obtaining the node of a modified file first applies all pending writes, and the reported size covers pending bytes. After any change of the content, a reader opened on the old content is cancelled and never used again, and a failed flush never discards the current file node.",
 ["histories","fault_sequences"],"every interleaving of writes, reads, seeks, truncations and flush failures",
 "Tests use a few fixed operation orders and no failing store.",
 [M],[("Sync","mod/dagmodifier.go"),("readPrep","mod/dagmodifier.go"),("GetNode/Seek/Truncate","mod/dagmodifier.go")],
 state=[("wrBuf","pending bytes","mod/dagmodifier.go"),("read","reader on current content","mod/dagmodifier.go")])
p("C21","Writes land at the requested position",
 "Bytes passed to a write end up at the position the handle was at, or, for positioned writes, at the given offset, replacing what is there and extending the file at its end, with any gap filled with zeros; the handle's position then is just behind them. Pending bytes are always one contiguous run ending at the current position; negative positions are refused.",
 ["histories","inputs"],"every interleaving of writes, positioned writes, reads and seeks",
 "Tests cover sequential and some random single writes; overlapping pending writes and read-then-write sequences are not covered.",
 [M],[("WriteAt/Write/Seek/Sync","mod/dagmodifier.go"),("modifyDag","mod/dagmodifier.go")],
 state=[("writeStart","position of first pending byte","mod/dagmodifier.go"),("curWrOff","current position","mod/dagmodifier.go")])
p("C22","The caller's context governs every fetch and derived contexts are released",
 "Every fetch or store made on behalf of an operation that takes a context uses that context or one derived from it, so cancelling it stops the operation; operations without a context use the one given when the object was opened. Exempt are interfaces that take no context and have none to use (GetNode of a sharded directory, the importer's store call), and the flush of pending writes and the opening of the reader that a modifier keeps, which use the context given when the modifier was opened. Every context the library derives is cancelled on all paths once it is no longer needed, or is handed to an object whose close or replacement cancels it.",
 ["schedules","fault_sequences"],"every call path from an exported operation to a fetch, and every exit",
 "Tests almost never cancel; using a background context instead changes no test result.",
 [H,DIR,RES,RD,M,F,TR],[("ctx parameters","all exported operations"),("WithCancel/cancel","io/dagreader.go, hamt/hamt.go, mod/dagmodifier.go, io/directory.go")])
p("C23","What the encoders write is what the decoders read",
 "Every UnixFS encoder sets exactly the type its name says, stores the given content, size, fan-out and hash in the fields the matching decoder reads, and metadata read back carries the same MIME type and size. The generated protobuf types agree with the schema in field numbers, kinds, names and type values, and required fields are always set.",
 ["inputs"],"every value passed to an encoder",
 "Tests round-trip a few values; swapped or dropped optional fields do not fail them.",
 [X,PB,"pb/unixfs.proto"],[("FilePBData/FolderPBData/WrapData/SymlinkData/HAMTShardData/BytesForMetadata","unixfs.go"),("FromBytes/UnwrapData/MetadataFromBytes/FSNodeFromBytes","unixfs.go"),("protobuf tags","pb/unixfs.pb.go")])
p("C24","Resolving one path segment consumes exactly that segment",
 "Resolving a path through a sharded directory looks up exactly the first name in the shard tree, read-only, and returns the remaining names unchanged; a missing entry gives an error and no link. Every other node is resolved by its own link resolution with the names unchanged, and an empty path is an error or left to the node, never a crash.",
 ["inputs"],"every node and every path",
 "Tests resolve one or two names on each layout.",
 [RES],[("ResolveUnixfsOnce","io/resolve.go")])
p("C25","The trickle verifier rejects every non-conforming DAG",
 "The trickle-layout verifier accepts a DAG only if every direct child is a leaf block of the configured kind without links, every later child is a sub-tree no deeper than its layer allows, every inner node is a UnixFS file node without inline data, and every node has the configured CID format. Any deviation, or any node that cannot be fetched or decoded, is reported as an error.",
 ["inputs"],"every DAG presented",
 "Tests only verify DAGs that conform; the rejecting branches are never executed.",
 [TR],[("verifyTDagRec","importer/trickle/trickledag.go")])
p("C26","Content size is reported per node type",
 "The content size of an encoded UnixFS node is its declared file size for file and raw nodes and the length of its target for symlinks; for directories, sharded directories, metadata and unknown types it is an error (a size of zero where the interface cannot report errors). The directory test is true exactly for the two directory types.",
 ["inputs"],"every UnixFS type value",
 "Tests check some types; a wrong answer for a rare type passes.",
 [X],[("size/DataSize/FileSize/IsDir","unixfs.go")])
p("C27","The file-tree view yields every entry or an error",
 "Viewing a UnixFS node as a file tree gives a directory for both directory types, a symlink with its stored target, and a readable file otherwise; other nodes give an error. Iterating a directory view yields every entry with its own name and node in turn, stops with the error kept when an entry cannot be fetched, decoded or listed, and never reports success after an enumeration error.",
 ["inputs","schedules","fault_sequences"],"every node, every directory and every failure position and schedule of the producer",
 "Tests iterate one small healthy directory.",
 [F],[("NewUnixfsFile","file/unixfile.go"),("ufsIterator.Next/Entries","file/unixfile.go")],
 state=[("err/errCh","enumeration result","file/unixfile.go")])
p("C28","Truncating or extending a file gives exactly the requested size",
 "After a successful truncation the file declares exactly the requested size: leaves are cut at the remaining offset, child sizes are recorded for the kept children with the cut child recorded at its remaining size, later children are dropped, and the inner node is re-encoded with its links and sizes matching. A request beyond the end extends with zeros by the difference, an unchanged size changes nothing, and negative sizes are refused.",
 ["inputs"],"every file tree and every requested size",
 "Tests truncate a few sizes of well-formed files; recorded sizes inside the tree are not checked.",
 [M],[("Truncate/dagTruncate/expandSparse","mod/dagmodifier.go")])
# --- not claimed
p("C29","Importing and reading back returns the same bytes",
 "For every input and configuration, reading the imported DAG from start to end returns exactly the imported bytes.",
 ["inputs","configurations"],"all byte strings, chunkers, fan-outs, layouts","Tests sample sizes.",[BAL,TR,RD],[("Layout","importer/"),("CtxReadFull","io/dagreader.go")])
p("C30","A sharded directory's root depends only on its entries",
 "Two sharded directories with the same entries have the same root CID, whatever the order of insertions and removals that produced them.",
 ["histories"],"all permutations and removal histories","Tests sample a few random orders.",[H],[("swapValue","hamt/hamt.go")])
p("C31","Balanced DAGs have all leaves at the same depth",
 "In every DAG built with the balanced layout all leaves are at the same depth below the root, and every node but the last of each level has the configured maximum number of links: nothing is put after a node that still has room.",
 ["inputs","configurations"],"all chunk counts and fan-outs","Tests sample a few sizes with the default fan-out and never look at the shape; trees of more than three levels need gigabytes.",[BAL],[("Layout","importer/balanced/builder.go"),("fillNodeRec","importer/balanced/builder.go")],
 obs=["links of the nodes of the DAG returned"])
p("C32","Appending to a trickle DAG equals building it in one go",
 "Appending data to a trickle DAG gives the same DAG as importing the concatenation in one go.",
 ["inputs","histories"],"all splits of all inputs","Tests sample a few splits.",[TR],[("Append","importer/trickle/trickledag.go")])
p("C33","A modified file equals the same edits applied to a byte array",
 "After any sequence of writes, seeks, reads and truncations the content equals that of a plain byte array subjected to the same operations.",
 ["histories"],"all operation sequences","Tests sample short sequences.",[M],[("DagModifier","mod/dagmodifier.go")])
p("C34","Concurrent use of one directory or modifier object is linearizable",
 "Concurrent calls on one object behave as if executed one after another.",
 ["schedules"],"all schedules","Tests use one goroutine per object.",[DIR,M,H],[("none","no locking exists")])
p("C35","Trickle build and append keep the trickle layout",
 "Every inner node of a trickle DAG that building or appending produces holds leaves first, up to the configured fan-out, and only then sub-trees: four for each depth, in order of depth, none built deeper than its row allows and none with more than four to a row. Appending fills the node and the last sub-tree first and goes on with the depth at which the existing tree ended, so that the result is a tree building could have produced and the layout verifier accepts.",
 ["inputs","histories"],"every chunk stream, fan-out and existing trickle DAG",
 "Tests append to a few sizes with one fan-out; the row arithmetic goes wrong only at row boundaries or several levels down.",
 [TR,DB],[("fillTrickleRec","importer/trickle/trickledag.go"),("appendFillLastChild, appendRec","importer/trickle/trickledag.go"),("trickleDepthInfo","importer/trickle/trickledag.go"),("FillNodeLayer","importer/helpers/dagbuilder.go")])
p("C36","Buffers passed to Read and Write are not kept, written bytes not changed",
 "Once Read, CtxReadFull, Write or WriteAt of a file reader or modifier has returned, the object holds no reference to the byte slice it was passed: what the caller does with the slice afterwards has no effect on it. Write and WriteAt never change the bytes of the slice, nor what lies behind it in the same array.",
 ["inputs","histories"],"every call and every use of the slice afterwards",
 "Tests pass a fresh slice each time and never look at it again.",
 [M,RD],[("Write, WriteAt","mod/dagmodifier.go"),("CtxReadFull","io/dagreader.go")])
p("C37","Objects are independent of each other",
 "Directories, shards, modifiers, readers and import builders share no hidden state: outside package initialisation the library never changes what a package-level variable holds or reaches (the sharding options included, which only the user sets) and hands no such thing out, so nothing that happens to one object, including a failed or interrupted operation, shows in another one of the same process.",
 ["histories","schedules","objects"],"every history of operations on any number of objects of one process, in every interleaving",
 "Tests work with one object at a time, mostly with one set of parameters per process; leaks between objects need two of them in a particular order.",
 [H,DIR,M,X],[("package variables","hamt/hamt.go"),("HAMTShardingSize, UseHAMTSharding","io/directory.go"),("write buffer","mod/dagmodifier.go")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
