REASON = {
'C40': 'Value-level inverse of two unbounded string/tree transformations; a static analysis would have to reason about arbitrary string contents, and no sound abstraction in reach does. The structural parts (no truncation accepted, bounds, nesting, dispatch) are claimed separately as C06, C12, C13, C15, C21.',
'C41': 'Whether the grammar-driven splitting yields the right components depends on string contents and on the acceptance behaviour of a state machine over arbitrary text; only the structural half (recomposition order, truncation refusal) is decidable from the source and is claimed as C27 and C06.',
'C42': 'A relation between histories of operations and results (content equality under an arbitrary comparison function, ages and frequencies); it quantifies over runtime values no dataflow abstraction here bounds. Ownership, queue consistency and counts are claimed as C19 and C20.',
'C43': 'The ordering invariant ranges over heap shapes of any size and an application-supplied comparator; that needs shape analysis with ordering predicates or proof. Link maintenance, counts and NULL-safety are claimed as C19, C02, C03.',
'C44': 'Heap order is an invariant over array contents of any size (numeric keys), preserved through loops; out of reach of the analyses used. Index safety is claimed as C30.',
'C45': 'Byte-for-byte FIFO content equality over any interleaving of operations; static analysis here decides the offsets and copy lengths (C17), not the contents.',
'C46': 'Equality between a file and the tree built from it, and between two trees, for arbitrary text; needs reasoning about string contents. The failure, leak, nesting and dispatch parts are claimed separately.',
'C47': 'Elapsed wall-clock time is a run-time quantity; no static argument bounds it. Retry progress is claimed as C29 and C09.',
'C48': 'Depends on file modification times and contents over a history of external changes. That a failed reload keeps the previous snapshot is covered by C22 and C06.',
'C49': 'Depends on dependency graphs built at run time, child process scheduling and exit statuses of user test cases; a static argument over those quantities is not in reach.',
}
