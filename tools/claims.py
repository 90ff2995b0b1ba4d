claim(['S01', 'S02', 'S03', 'S04', 'S05', 'S06', 'S07'], SESS,
      'Sound over every path, handle state and peer message for the session layer in src/trax.c, up to the stated contracts of the layers below it (message reader and writer, property map, region and image codecs, string lists), which their own checks decide. Obligations the analysis cannot decide are listed in the evidence and raise no alarm.')
claim(['M01', 'M02'], SESS,
      'Every path of the analysed C library calls; ownership is tracked per allocation site. Undecided accesses are listed in the evidence. Allocation failure is assumed not to happen.')
claim(['R01', 'R02'], 'effect analysis over the whole-library call graph (LLVM IR): reachability of mutable globals, thread-hostile functions and output calls',
      'Sound for direct calls, address-taken functions and constant tables; every function reachable from the public interface is scanned.')
claim(['W01', 'W02', 'W03', 'W05', 'W06', 'W07'], 'abstract interpretation of the message layer over LLVM IR against a reference automaton of the protocol (product construction, fixpoint over all byte streams)',
      'Every byte value, stream, chunking, short write and failure is covered by the environment model; obligations are proved, refuted or listed as undecided. The analysis is written for the layering of message.c (character reader, text buffers, write loop, escaping writer); if one of these functions disappears the part is reported as undecided and raises no alarm.')
claim(['W04'], 'abstract interpretation of the coding functions with the text partitioned by its comparisons with constant names (LLVM IR); the resulting finite tables are compared in both directions',
      'All values and all subsets of the finite format sets are enumerated on the writing side; on the reading side every outcome of every name comparison is covered. Coding functions that compare text in a way that is not recognised are reported as undecided.')
claim(['D03'], 'constant-table comparison, loop stride analysis with bit provenance (coders and size functions, for every length by residue), abstract interpretation of the callers',
      'All lengths are covered: small ones one by one, the rest by an induction over groups. Loops that do not advance by constant strides are reported as undecided.')
claim(['D04', 'M05'], 'abstract interpretation over LLVM IR with sizes and indices as unknowns (polynomial offsets compared for identity, interval and linear facts for bounds)',
      'Every format, size and index. The library refuses bad rows and points by assertion; the analysis is of the build with assertions, as the project builds it.')
claim(['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07'], 'abstract interpretation of every client entry point and thread function over LLVM IR (exceptional edges included) with typestate monitors: lock order and lock sets, watchdog timer, descriptors, process life cycle, thread joins',
      'Every outcome of each system call and of each native exchange is followed, in every combination of process and session an object can have. Threads are composed by lock sets and lock order (no interleaving is enumerated); one user thread per object is assumed. Internal names that vanish are reported as undecided.')
claim(['B03', 'B04', 'B05'], 'abstract interpretation of every public C++ wrapper operation over LLVM IR from every ownership state (empty / sole owner / shared, all aliasings of operands, one arbitrary list element followed); inductive invariant on share counters; null tolerance of native functions derived from their own source',
      'The states assumed on entry are the ones shown at every exit, so the result covers any sequence of operations. The standard library does not throw and std::vector copies, moves and destroys its elements through their special members; native functions keep their ownership contract (M01, M02). Image::write_memory_row (not in the statement of B05) is left out of B05.')
claim(['B01'], 'declaration-level conformance: every ctypes prototype, structure, callback type and macro constant (Python syntax tree with constant folding) compared with the type-checked C header (compiler debug info); argument kinds at every call site of the package',
      'Kinds compared: width and signedness of integers, floats, pointers by pointee structure, structure field order/offset/size, enumerators and macro values. Arguments whose Python kind is not known statically are not obligations.')
claim(['B02'], 'conditional constant propagation through every name/number function of the bindings (Python syntax tree; LLVM IR of the Octave helpers) for each compared name, each code and each subset of codes; table inversion against the C enumerators; def-use slices of the values at every use',
      'The C++ binding uses the C enumerators themselves. Name comparison, case folding and error exits are modelled; a coding function whose tables cannot be folded is reported as undecided.')
claim(['M03'], 'abstract interpretation of every container operation over LLVM IR from its class invariant (0 <= position <= size <= block), inductive over all histories of calls; sizes, indices and text lengths are unknowns',
      'All operations of src/buffer.h are analysed, used or not, and every function outside it that takes a container and changes its fields. Allocation and formatting are assumed to succeed; sizes stay below 2^29.')
claim(['D01'], 'abstract interpretation of the public property operations over LLVM IR with the hash table inlined, from every small table shape with unknown texts; comparisons split paths under the map invariant and each path is judged against the map outcome in every world it leaves open',
      'Tables of up to three slots with up to three entries per slot (the code is uniform in both); texts, lengths and capacities are unknowns. Storing and looking up are shown to use the same slot for every residue of the hash. Number properties: the text is what the number was printed to; the digits themselves are left to the C library.')
claim(['D02'], 'abstract interpretation of the merging functions and of session setup over LLVM IR, following one arbitrary entry: presence in the destination splits the path, comparisons with constant texts partition a set of representative keys',
      'Covers both merge modes, copying, appending of object lists, and the custom properties of both sides of a session. Keys told apart by something other than comparison with constant texts or their length are reported as undecided.')
claim(['D05'], 'abstract interpretation over LLVM IR of every region operation from a region of each kind whose memory holds exactly what the kind owns (typestate of its blocks; contents as linear forms of unknowns)',
      'Polygons of up to three points and masks of a few pixels with unknown contents (the code is uniform in both). Polygon filling is not followed: it is assumed to write only the picture it is given.')
claim(['D06'], 'abstract interpretation over LLVM IR with coordinates as linear forms; comparisons split paths into zones (difference bounds) in which the extremes are looked up; dimension analysis of every result',
      'Polygons of up to three points, masks of a few pixels, unknown coordinates. Exact arithmetic, no NaN. The filling of polygons, the rounding of a rectangle turned into a mask and the pixel counts of an overlap are not judged.')
claim(['M04'], 'abstract interpretation of the region and image decoders over LLVM IR, one run per family of texts (fixed prefixes and separators, numbers unknown within classes, Base64 body of any length); sizes compared as polynomials, refutations backed by a satisfying choice of the unknowns evaluated on the path constraints',
      'All numbers of a family at once, up to nine numbers and five mask runs per text. Properties that need longer texts to fail are not seen. Allocation succeeds; the number readers of the C library return anything.')
claim(['S08'], 'abstract interpretation of every session call over LLVM IR with objects, images, texts and property sets as labels that coding, conversion, cloning and copying keep (provenance analysis); each message written and each result handed out is compared place by place with what was given or received',
      'Up to three objects (four in the thorough run) and every kind of channel set; the loops over objects and channels are uniform. The coders keep what they work on (W04, D03-D06) and a copy of a property set has its entries (D02).')
claim(['B06'], 'abstract interpretation of every public C++ wrapper operation over LLVM IR from every ownership state; at each native call the arguments are matched with the parameters of the calling C++ function by native type (debug information) and by name, at each return the status with that of the native call',
      'Objects by type, numbers, places and texts by the parameter names both sides use; a parameter under different names on the two sides is not judged. Texts are followed through c_str() and data().')
