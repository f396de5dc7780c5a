"""What is run for each property."""

SEQ = "Seeded generation over all element types of the harness (fixed-length, arrays, strings, tuples, newtypes, macro-defined structs, with every length type and element alignments 1 to 64, zero-sized and counted elements). "

# prop: (quick cases, thorough cases in the checked build, thorough cases in the plain build, rule)
CASES = {
    "C01": (120_000, 400_000, 4_000_000, SEQ + "A case builds one generated value (or concrete slices and strings, or arrays of up to 2^48 elements without bytes) through randomly chosen initializers into VBox, Seq, indexable Seq, arena Owned, enclosing tuples and struct fields, and compares everything read with a plain model value. Non-trivial: the object has at least one byte."),
    "C02": (40_000, 60_000, 1_200_000, SEQ + "A case is a history of 1 to 250 operations on two sequences, boxes and arena values against a plain list. Non-trivial: at least three pushes and a growth of the storage or reuse after a drain."),
    "C03": (18_000, 30_000, 500_000, SEQ + "A case is a history as for C02; after every step every integer up to past the end (and some far ones) is asked, in the shared and mutable indexing functions and in validity queries, and compared with the model's element starts. Non-trivial: at least two pushes, and a growth or a query of an offset that used to be valid."),
    "C04": (40_000, 60_000, 1_200_000, SEQ + "A case is a history as for C02; after every step offsets, end and capacity are compared with sums of the modelled sizes in alignment units, and offsets of foreign objects are asked. Non-trivial: at least three pushes."),
    "C05": (40_000, 60_000, 1_200_000, SEQ + "Only types with counted components. A case is a history with moves, clones, overwrites, (partial) drains, forgets, leaks and, in a quarter of the cases, injected panics; the number of live components is compared with the model after every step and every component is registered, so that double drops and reads of dead components are seen. Non-trivial: at least three drops and at least two pushes or moves."),
    "C06": (18_000, 24_000, 400_000, SEQ + "A case is a history as for C02 plus boxes, arenas and clones, under an allocator with red zones, poisoned quarantine, exact size/alignment checks, blocks aligned to exactly what was asked, leak accounting, and run twice with different contents of fresh memory, whose observations must agree. Non-trivial: at least two pushes and more than 16 bytes of objects."),
    "C07": (160_000, 400_000, 4_000_000, SEQ + "A case initializes one generated value into guarded storage of exactly the modelled size and alignment, compares predicted size, reported size and the address of every component with the documented placement, moves the bytes elsewhere, mutates and drops, and does so in a box, an arena at an odd address, a sequence or a tuple. Non-trivial: the object has at least one byte."),
    "C08": (100_000, 400_000, 4_000_000, "A case takes a length near a limit of a length type (or anywhere) and converts it, copies or clones slices and strings of it, builds objects whose total size is at the edge of what is representable, and extends sequences with values that do not fit; expected acceptance is computed in 128-bit arithmetic. Non-trivial: the length is within three of the limit or above it, or the size is refused."),
    "C09": (50_000, 120_000, 1_500_000, SEQ + "Only cloneable types. A case clones or bit-copies a generated value into a random container, counts the clone calls, then changes, moves, re-clones and drops original and clone in random order, comparing both with their models; one third are histories on sequences with clones. Non-trivial: the object has at least one byte, or two pushes and a mutation."),
    "C10": (20_000, 30_000, 500_000, SEQ + "A case is a history dominated by mutations through refs/muts and pinned accessors of elements, boxed and arena values; afterwards every component of every object, its address and its size are compared with the model. Non-trivial: at least two mutations of objects of more than eight bytes."),
    "C11": (200_000, 600_000, 6_000_000, "A case runs one array initializer (iterator prefix by value and by reference, sequential fill, default, copy, clone, move) into guarded slots, a fixed array or an array object, with a source of the right or a wrong length and iterators with wrong size hints. Non-trivial: at least one slot."),
    "C12": (16_000, 24_000, 400_000, SEQ + "Only types with user callbacks. A case is a history in which callbacks (iterator, fill function, clone, default, destructor) panic at a random call during a random operation; the panic is caught, and everything (contents, offsets, validity, packing, live components, memory) is compared with the model after every step. Non-trivial: at least one injected panic happened."),
    "C13": (24_000, 80_000, 400_000, SEQ + "A case runs, in a child process, the building of a box, of an arena value, a clone, or a push or extend onto a sequence of 0 to 6 elements, while the first or second allocation from there on is refused; it must reach the standard allocation-error handler or panic, after which the sequence is compared with its model and used on. Non-trivial: the object has at least one byte."),
    "C14": (5_000, 24_000, 300_000, "Histories and single-value layout and initialization cases as for C02 to C12 and C07, on macro-defined structs only; additionally freshly generated struct definitions are compiled and put through the same. Non-trivial: at least two pushes or mutations, or a layout case."),
    "C15": (60_000, 200_000, 2_000_000, "A case builds objects of a macro-defined struct with neighbours in a sequence, and sets the layout-controlling fields several times to unchanged, slightly changed, other objects' and searched-for length-preserving values, in a quarter of the cases with a panicking destructor; acceptance is compared with the lengths recomputed by the model, and the whole storage with the model afterwards. Non-trivial: new values differ from the old."),
    "C18": (90_000, 200_000, 2_000_000, "A case builds the same generated value as a newtype and as its inner type and compares size, alignment, predicted size, address, contents, mutation, bytes (types without padding), offsets in a sequence and drops; or uses a delegated initializer; or is a history as for C02 on newtypes. Non-trivial: the object has at least one byte, or two pushes."),
    "C19": (60_000, 200_000, 2_500_000, SEQ + "A case interleaves random calls (next, nth, take, size_hint, len, count, last, fold, collect, partial drops, calls after the end) on shared, mutable and draining iterators of sequences of 0 to 60 elements with a list model. Non-trivial: at least two elements."),
    "C20": (40_000, 80_000, 1_200_000, SEQ + "A case builds (and clones) a box and adds one generated value up to 300 times to plain and indexable sequences, by pushes or a few at a time by extending, counting every allocator call and checking requested sizes, alignments, growth count and capacity bounds. Non-trivial: the object has at least one byte."),
    "C21": (32_000, 48_000, 1_000_000, SEQ + "A case is a history dominated by owned values: arenas, drains, moves into boxes, sequences and enclosing objects, raw round trips and leaks, against a model of who owns what. Non-trivial: at least two moves or leaks."),
    "C22": (16_000, 40_000, 600_000, SEQ + "A case is one of the cases of C08, C15, C11, C19, C07 or a history with everything observed; the digest of everything observed is compared between the unoptimized build with assertions and overflow checks and the optimized build without. Non-trivial: as for the respective case."),
}
