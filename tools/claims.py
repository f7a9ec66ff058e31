_PS = "path-sensitive interprocedural value-numbering dataflow (abstract interpretation) over go/ssa"
CLAIMED = {
 "C01": (_PS + ": error-flow obligations at every failing call of every function", "Loops to two generic iterations; opaque externals by contract. Every path checked; no execution."),
 "C02": (_PS + " with a linear-inequality domain: guard analysis of every index, cut, assertion, division, shift, allocation and use of a result or of an optional field, with callee preconditions proved at call sites", "Loops to two generic visits; agreement of a shard's tables and of block sizes with links from the contracts of C11 and C04; arguments that are preconditions (a nil node, an index given to an accessor) excluded; stack depth and code outside the repository not judged."),
 "C03": (_PS + ": typestate of nodes (edited, encoded, stored, used) along every successful path", "Loops to two or three generic visits; recursion and the builder API by their own checked contracts; no aliasing of nodes beyond what the paths show."),
 "C04": (_PS + " with symbolic sequences: relational accounting of declared sizes, child sizes and links", "Loops to three generic visits; recursion and the builder API by their own checked contracts; sizes assumed to fit 63 bits."),
 "C05": (_PS + ": look-ahead state machine, and linear ownership of chunk-holding nodes along every importer path", "Loops to three generic visits; recursion and the builder API by their own checked contracts."),
 "C06": (_PS + " with a linear-inequality domain: child counting along every importer path, typestate of the file-store offset", "Loops unrolled exactly to three visits plus fresh loop variables; recursion and the builder API by their own checked contracts."),
 "C07": (_PS + ": provenance of the CID builder of every node and shard created", "Exhaustive over functions creating nodes or shards; merkledag's builder functions by contract."),
 "C08": (_PS + " with a linear-inequality domain: counts, positions and buffer typestate of the reader", "Sound per path modulo loop unrolling to two generic callback activations and the bytes.Reader contract."),
 "C09": (_PS + ": typestate of node kind and UnixFS type at every open/read exit", "Exhaustive over type cases on every abstract path."),
 "C10": (_PS + " with a linear-inequality domain: symbolic seek target and proved skip conditions", "Two generic steps per loop; contract of ipld.Walker assumed."),
 "C11": (_PS + ": typestate of the stored node; every condition of acceptance must be a known fact on each accepting path", "Exhaustive over abstract paths of the loader; power-of-two and logarithm recognised by idiom."),
 "C12": (_PS + " with symbolic sequences: lock-step edits of bitmap, links and children", "Every write to the three fields analysed; rank function by contract."),
 "C13": (_PS + ": hash/slot/name provenance along the shard walk; bit-provenance domain for bit extraction", "Bit extraction for all positions mod 8 and widths to 10; serialisation loop to four slots."),
 "C14": (_PS + ": exhaustive case analysis of the sub-shard remaining after a removal", "Exhaustive over abstract paths of the removal walk; recursion by its own contract."),
 "C15": (_PS + " and the concurrency exploration of C16: per-slot obligations of listers and walkers, bounded histories of the dispatcher with exact counters, completion obligations of consumers", "Dispatcher histories to eight rounds (as many as the budget allows, five at least); worker loops to two generic visits; DAG service by contract."),
 "C16": ("concurrency analysis over go/ssa: every goroutine body, callback and spawner explored path by path from the state at its start; channel protocol (close, send, cancel), lock sets, and write-effect summaries of what the goroutines call", "All goroutines and channels of production code; one generic instance per worker pool; schedules are covered by pairing what each side may wait for with what makes its peer leave."),
 "C17": (_PS + ": classification of every path of every directory method by what is known of the lookup of the given name", "Exhaustive over abstract paths; merkledag's link operations and the shard walk (C13, C14) by contract."),
 "C18": (_PS + " with linear normal forms over link sizes: estimate invariant of every edit, decision and commit of every switch path, entry coverage of the conversions", "Loops to three exact visits; old directory untouched by merkledag and shard lookups; entry names unique."),
 "C22": ("value provenance over go/ssa: every context passed or kept traced back to a parameter, an object or a fresh one; " + _PS + " for release of derived contexts and the reader's walker", "Every call site of the library; contexts that go through interfaces without one are exempt (listed in the property)."),
 "C19": ("whole-library points-to analysis over go/ssa (inclusion based, field sensitive, three call sites of context, heap cloning) with contracts for merkledag's nodes: no mutation site may reach an object a caller passed or was handed", "Every function reachable from the exported API, in all contexts; BasicDirectory.GetNode and Links hand out the live node (upstream behaviour) and are not part of the claim."),
 "C36": ("the same points-to analysis: reachability of a caller's byte slice from the receiver and the globals, mutation sites that may reach it", "Every exported Read/Write method of a reader or modifier."),
 "C37": ("the same points-to analysis with effect analysis: mutation sites, calls and results that may reach package-level state outside initialisation", "Every function of the library, tests and test helpers excepted; loggers and package sync are taken to be safe to share."),
 "C20": (_PS + ": typestate of pending bytes, current node and reader across every exported method of the modifier", "Methods of DagModifier by their own checked contracts; reader, buffer and store by contract."),
 "C21": (_PS + " with a linear-inequality domain and a bytes.Buffer contract: position invariant and overwrite walk", "Loops to three exact visits; one modifier, single goroutine; sizes fit 63 bits."),
 "C27": (_PS + " with the concurrency exploration of C16: classification of accepting paths of NewUnixfsFile, Next from an unknown iterator state, producer with its callback", "Receive loop of Next to four visits, state otherwise unbounded; directory listing by contract (C15)."),
 "C28": (_PS + " with symbolic sequences and a linear-inequality domain: size accounting of truncation", "Child loop to three exact visits; recursion by its own contract; inner nodes without data of their own."),
 "C23": (_PS + ": message contents at each Marshal against an encoder table; schema/generated-type agreement by parsing", "Exhaustive over encoders, decoders, accessors, schema entries."),
 "C24": (_PS + ": first-name/rest-of-path provenance and typestate at lookups", "Exhaustive over abstract paths."),
 "C25": (_PS + ": typestate of every accepting path of the verifier", "Child loop to three visits incl. a generic one; recursion by its own contract."),
 "C35": (_PS + " with a linear-inequality domain: row arithmetic of every sub-tree attached by the trickle importer", "The DAG appended to is assumed to be a trickle DAG of the same fan-out; loops unrolled to three visits plus fresh loop variables."),
 "C31": (_PS + " with a linear-inequality domain: height of every sub-tree by induction over the filler's contract, fullness from the last answers of NumChildren and Done", "The loop that raises the root unrolled exactly through five levels; the filler by its own contract (any depth); builder API by its contracts."),
 "C26": (_PS + ": exhaustive case analysis of returned size per node type", "Exhaustive over type cases on every abstract path."),
}
NA = {f"C{i:02d}": "Check under construction." for i in range(1, 29)}
NA.update({
 "C29": "Round-trip equality of byte contents quantifies over runtime values computed by loops, hashing and an external store; its structural parts (every chunk once in order, sizes, reader position, leaf-only data) are claimed as C04, C05, C08, C09 and C10.",
 "C30": "Equality of results over permutations of a history is a relation between runs; the structural parts that make it hold (addressing by own hash, canonical collapse, slot bookkeeping, fixed naming) are claimed as C12, C13 and C14.",
 "C32": "Equality of two differently computed trees for all split points is a relation between runs with integer arithmetic over tree positions; no sound static argument in reach. Single-run parts are claimed in C03-C06.",
 "C33": "Equivalence with a byte-array model over all histories quantifies over runtime contents; the structural parts (positions, flushing, sizes, truncation) are claimed as C20, C21, C28.",
 "C34": "The types are documented for single-threaded use and hold no locks, so linearizability does not hold by design and there is no structural rule to decide; the library's own goroutines are covered by C16.",
})
