"""Which contract units and which bounded families decide each property, and whose functions it is about."""
P = "crates/parcom-parsers/src/"
COMB = ["async functions are verified as the synchronous functions they are between suspensions (suspension changes no local state)",
        "a parser given by the user is known only through its relation `rel` between input and result; it may be partial only where `total` says so"]
SEGS = ["a sequence given by the user keeps the contract of Sequence and SegmentStream (overlay/seg.inc): its segments yield what is left of the "
        "input in order and do not move it, advancing by a length moves by that many items",
        "`==` of items is symmetric and what its specification says",
        "termination: an input that yields empty segments for ever is not excluded (the contracts are partial)"]
PROPS = {
    "C01": dict(level="proof", units=["or"], bins=["comb"], own=[P + "combinator/or.rs", P + "extension/"], assumptions=COMB),
    "C02": dict(level="proof", units=["fatal"], bins=["comb", "iter", "bin"],
                own=[P + "combinator/", "parcom-util/src/either.rs", "parcom-util/src/either_both.rs", "parcom-util/src/error.rs",
                     "parcom-core/src/parse_error.rs"], assumptions=COMB, cases=8000),
    "C03": dict(level="proof", units=["optional"], bins=["comb", "iter"], own=[P + "combinator/optional.rs", P + "extension/"], assumptions=COMB),
    "C04": dict(level="proof", units=["repeat"], bins=["comb", "iter"], own=[P + "combinator/repeat.rs", P + "extension/"], assumptions=COMB),
    "C05": dict(level="proof", units=["join"], bins=["comb"], own=[P + "combinator/join.rs", P + "extension/"], assumptions=COMB),
    "C06": dict(level="proof", units=["map"], bins=["comb"],
                own=[P + "combinator/map.rs", P + "extension/", P + "combinator/and_then.rs", P + "combinator/unify.rs", P + "combinator/reference.rs",
                     P + "util.rs", "parcom-util/src/either.rs::<- for Either>", "parcom-util/src/either_both.rs::<- for EitherBoth>"],
                assumptions=COMB + ["a type that should have no values (ShouldNever) has none; `never`, and printing the other side, are not reached"]),
    "C07": dict(level="proof", units=["bin_expr"], bins=["bin"], own=[P + "combinator/bin_expr.rs"],
                assumptions=COMB + ["an operator's precedence and associativity are functions of the operator",
                                    "the small vector is a stack (contract in overlay/shortvec.inc; proved of the real one in C15's unit, overlay/shortvec.rs `Stack`, as long as there is room in the address space)"]),
    "C08": dict(level="proof", units=["atom"], bins=["prim"], own=[P + "primitive/atom.rs", "parcom-core/src/primitive", "parcom-core/src/sequence/segment.rs"],
                assumptions=COMB + SEGS),
    "C09": dict(level="proof", units=["single"], bins=["prim"], own=[P + "primitive/any.rs", P + "primitive/the.rs", "parcom-core/src/primitive.rs"],
                assumptions=COMB + SEGS),
    "C10": dict(level="proof", units=["prims"], bins=["seqs"], own=["parcom-core/src/primitive"],
                assumptions=["addresses and slicing: the wrappers of overlay/addr.inc (a pointer to an item of a slice lies at its index, "
                             "thin pointers compare by address) are trusted",
                             "a sequence is rewound only to anchors of sequences it derives from"]),
    "C11": dict(level="proof", units=["measured"], bins=["seqs"], own=["parcom-core/src/primitive", "parcom-core/src/sequence/measured.rs"],
                assumptions=["the counts fit in usize (a precondition of the meter's contract)", "the clone of a meter equals it",
                             "addresses and slicing as in C10"]),
    "C12": dict(level="proof", units=["metrics"], bins=["metrics"], own=["parcom-metrics/src/"],
                assumptions=["the counts fit in usize (a precondition of the meter's contract)",
                             "a line ending supplied by the user keeps the contract of EndOfLine (overlay/metrics.rs)"]),
    "C13": dict(level="proof", units=["collect"], bins=["iter"], own=[P + "iterative/collect.rs", P + "iterative/fold.rs", P + "extension/"], assumptions=COMB),
    "C14": dict(level="proof", units=["adaptors"], bins=["iter"], own=[P + "iterative/", P + "extension/"], assumptions=COMB),
    "C15": dict(level="proof", units=["shortvec"], bins=["shortvec"], own=["parcom-internals/src/shortvec.rs"], cases=20000,
                assumptions=["raw pointers, the allocator and the union of inline and heap storage are used through trusted functions that say when "
                             "each operation is allowed and what it does (overlay/mem.inc, overlay/alloc.inc); the extraction passes the ghost memory along",
                             "capacities and requests stay below an eighth of the address space (four times as much still has a layout; else the code may panic)",
                             "an item's destructor does not unwind",
                             "aliasing rules beyond who owns which cell are not modelled"]),
    "C16": dict(level="proof", units=["generic"], bins=["generic"], cases=20000,
                own=["parcom-sequences/src/generic", "parcom-sequences/src/buffer_strategy.rs", "parcom-sequence-core/src/load_info.rs"],
                assumptions=["std's vector, once-cell and Arc keep the trusted contracts of overlay/vec.inc and overlay/generic.rs: a cell's value is what it "
                             "is ever set to, and who reads it after it was set sees that; a vector moved into a cell changes no more",
                             "a second `set` of a cell panics (assert), which counts as refusing the call; the bounded family sees it",
                             "the source keeps the contract of SequenceSource, and a strategy gives at least the capacity asked for",
                             "a step's future is polled to its end: what it answers is settled by its contract when it is made (overlay/fut.inc); "
                             "a load that is dropped half way is not covered",
                             "raw memory as in C17; what is dropped, and when, is not modelled here",
                             "`load`, `poll`, `force_commit`, `advance`, `segments`, `next` and `build` are extracted as inherent methods (Verus has no generic "
                             "associated types); the verified clients `load_step` and `read_all` put them together"]),
    "C17": dict(level="proof", units=["writer"], bins=["writer"], own=["parcom-sequence-core/src/buffer_writer.rs"], cases=20000,
                assumptions=["raw memory is used through the trusted functions of overlay/mem.inc, which say when each operation is allowed and what it does",
                             "a type implementing the trait keeps its contract: the pointer, the capacity and the length describe one buffer, and only "
                             "set_len changes the length (overlay/writer.inc); the implementation used with generic sequences is under C16",
                             "an item's destructor does not unwind",
                             "a value that writes itself (`WriteTo`) leaves a sound writer and touches only its buffer; `push` is extracted as a function over every writer"]),
    "C18": dict(level="proof", units=["utf8"], bins=["sources"], own=["parcom-sequence-sources/src/utf8_validator.rs"], cases=20000,
                assumptions=["std's `from_utf8` accepts exactly RFC 3629, reports the longest valid prefix, and tells input that may still be completed "
                             "(by at least one byte, three being missing at most) from input that may not (overlay/utf8.rs)",
                             "the source and the receiver keep the contracts of SequenceSource, SequenceControl and BufferWriter (overlay/source.inc, overlay/writer.inc)",
                             "a step's future is polled to its end: what it answers is settled by its contract when it is made (overlay/source.inc)",
                             "raw memory as in C17; pinning does nothing",
                             "`next` and `poll` are extracted as inherent methods (Verus has no generic associated types); the verified client `step` puts them together"]),
    "C19": dict(level="proof", units=["itersource"], bins=["sources"], own=["parcom-sequence-sources/src/iterator_source.rs"], cases=20000,
                assumptions=["the iterator, the chunks and the clones of items are known only through what they may give (overlay/itersource.rs)",
                             "a receiver keeps the contract of SequenceControl and its writer that of BufferWriter (overlay/source.inc, overlay/writer.inc)",
                             "std's slice iterator and `std::future::ready` keep the trusted contracts of the overlay"]),
    "C20": dict(level="proof", units=["notify"], bins=["notify", "loom_notify"], cases=5000, own=["parcom-internals/src/future/notify.rs"],
                assumptions=["the atomic counter, the mutex, the slab and the wakers keep the trusted contracts of overlay/notify.rs, in which everything that "
                             "happens to one notification happens in one order, and others may do anything between two operations of a call: that is what "
                             "sequentially consistent accesses give (with any other memory ordering in the code nothing counts as proved; loom, which knows the orderings, decides the bounded cases)",
                             "whatever others do keeps the contracts proved here: the theorem takes a history of calls to send, wait and poll (private fields)",
                             "the counter does not wrap around; the mutex is not poisoned (a waker's code does not panic) and wakers do not call back while it is held",
                             "`poll` is extracted as an inherent method"]),
    "C21": dict(level="proof", units=["filter"], bins=["filter"], own=["parcom-internals/src/reactive"],
                assumptions=["a predicate, observer or observable given by the user is known only through its relation (overlay/filter.rs)",
                             "what an observable gives for a subscription is opaque (the associated type is replaced by an opaque type)"]),
    "C22": dict(level="proof", units=["runner"], bins=["runner", "loom_runner"], cases=60000,
                own=["parcom-runners/src/default_runner/sequence", "parcom-internals/src/future/option_future.rs"],
                assumptions=["the atomic flag, the notification and its waiters keep the trusted contracts of overlay/runner.rs: each looks at shared state at some time "
                             "during its call, and the source may do anything between two of them (for the notification: what C20 proves of it, put in these terms in overlay/notify.rs, `as_runner`): accesses are sequentially consistent "
                             "(with any other memory ordering in the code nothing counts as proved; loom, which knows the orderings, decides the bounded cases)",
                             "the source only adds items, adds none once it has set the flag, and tells after each of both",
                             "a buffer given by the user keeps the contract of SequenceBuffer (overlay/runner.rs): it consumes what is there, its iterator gives what is there "
                             "(of the generic buffer these very clauses are proved from its own contracts, overlay/generic.rs `as_runner`); "
                             "lengths are numbers, equal when these are, and Default is zero",
                             "`pin_project`'s projection is what the extraction writes out (references to the fields); the order in which fields are dropped, and the lifetime "
                             "which `advance` makes up for its waiter, are not modelled",
                             "a future is not polled again after it was ready", "`poll`, `next`, `segments` and `advance` are extracted as inherent methods",
                             "no code in the repository drives the runner: the hook `verif_signals` lets the bounded family play the source"]),
}
NOT_APPLICABLE = {}
