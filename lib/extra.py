# property -> (technique, level_note) of the checks added after the first set
T = "bounded exhaustive exploration of the real code (stateless model checking): all operation sequences up to a depth"
N = "Every operation sequence up to the stated length is run on the real code and compared with a plain reference after every operation; once more, to a smaller depth, under AddressSanitizer and UBSan. Trusted: the reference, the compiler, the sanitizers."
EXTRA = {p: (T, N) for p in ("C23", "C25", "C26", "C27")}
EXTRA["C24"] = ("bounded exhaustive exploration of the real code (stateless model checking): all pairs of instants of a finite grid, under a controlled clock", "Every pair of starting instant and length of a grid around all powers and unit boundaries; the clock the code reads is replaced. Trusted: the replaced clock.")
EXTRA["C28"] = ("bounded exhaustive exploration of the real code (stateless model checking): all histories of uses up to a depth", "Every history of the stated length over nine uses (searches, stopped searches, the three kinds of diagram with cutsets, subproblems, duplicates, node allocators) is run on the real code with every allocation counted by a replaced operator new; states own heap memory, so a state that is not destroyed shows. Trusted: the counting allocator.")
