#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
L = "cpp/lib_moment/"


def P(id, title, statement, over, text, why, files, mech, level_note, state=None, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level_note=level_note, state=state or [], observe=observe or [])


TRUST = "Assumes sequentially consistent memory between instrumented accesses (weak-memory reorderings are covered only by the happens-before race check); trusts the simulator, the compiler and the oracle's own model."
PROPS = [
P("C01", "Every matrix entry equals its defining operator moment",
  "Each cell of a moment, localizing, commutator or anticommutator matrix - monomial or polynomial, restricted to nearest neighbours or not - stands for exactly the operator moment its definition prescribes, under the scenario's operator algebra, sign and complex factors included. Dimension, Hermitian flag and the lists of contained symbols agree with the cells. This holds for every algebra, level, word, worker count, schedule and mix of concurrently generated matrices; generation always completes and is free of data races.",
  ["schedules", "inputs", "configurations"], "every scenario kind, level, word and polynomial; every number of worker threads and every interleaving of them, of several clients and of spurious wake-ups",
  "The tests generate a few fixed matrices, nearly always single-threaded and without concurrent clients; the multi-threaded path is only seen under the one schedule the machine happens to choose.",
  ["matrix/operator_matrix/operator_matrix_factory_multithreaded.h", "matrix/operator_matrix/operator_matrix_factory_singlethreaded.h", "matrix/monomial_matrix_factory.cpp", "matrix/composite_matrix.cpp", "matrix/polynomial_matrix.cpp", "matrix/symbolic_matrix.cpp", "scenarios/context.cpp", "scenarios/algebraic/operator_rulebook.cpp", "scenarios/pauli/pauli_context.cpp", "scenarios/pauli/pauli_matrix_system.cpp", "scenarios/locality/locality_context.cpp"],
  [("work is split over workers by column, each cell having one writer", "matrix/operator_matrix/operator_matrix_factory_multithreaded.h"), ("unique sequences are collected per worker, merged, then registered under the write lock", "matrix/monomial_matrix_factory.cpp")],
  "Seeded search; every cell of every matrix of a run is recomputed from an independent model of the operator algebra. " + TRUST),
P("C02", "The symbol table is a consistent bijection between symbols and moments",
  "At every moment a client can observe it, and whatever was registered concurrently, each symbol stands for one canonical moment, no moment (nor its conjugate) has two symbols, each symbol's recorded conjugate and its Hermitian or anti-Hermitian status are those of its operator word, and looking up any word finds its symbol with the right sign, phase and conjugation. Each symbol's real and imaginary basis elements lead back to it, form a gapless range and are paired with each other; zero and the identity keep their places. Once the words up to a length have been registered, all of them are found.",
  ["schedules", "histories", "inputs", "configurations"], "all histories of concurrent registrations and readings, over all scenario kinds and all schedules",
  "Tests register a few symbols in one order from one thread; duplicates and inconsistent conjugates arise from particular orders of registration and particular interleavings.",
  ["symbolic/symbol_table.cpp", "symbolic/symbol.cpp", "matrix/monomial_matrix_factory.cpp", "matrix_system/matrix_system.cpp"],
  [("registration only under the matrix system's write lock", "matrix_system/matrix_system.cpp"), ("canonical representative of {word, conjugate} looked up by hash", "symbolic/symbol_table.cpp")],
  "Seeded search; the table is compared, symbol by symbol, with an independent model of words, conjugation and moment equivalence. " + TRUST),
P("C03", "Concurrent matrix requests are linearizable: one matrix per request",
  "However requests from several clients interleave, all requests for the same matrix get the same single matrix, requests for different matrices get different ones, a reported offset is where the matrix is, and the system ends with exactly the matrices asked for. A lookup finds a matrix if its creation completed earlier and never before anyone asked for it, and references handed out stay valid and unchanged while other matrices are added. A matrix that is released is missing from then on, all others stay. Every request completes, without deadlock, data race or use of freed memory.",
  ["schedules", "histories", "configurations"], "all interleavings of requests, lookups and registrations from several clients, for every scenario kind and matrix index type",
  "The tests are single-client; losing the race between looking up and creating, or growth during reading, needs an interleaving they never produce.",
  ["matrix_system/matrix_indices.h", "matrix_system/matrix_system.cpp", "matrix_system/matrix_system.h", "matrix_system/index_storage/map_index_storage.h", "matrix_system/index_storage/polynomial_index_storage.h", "matrix_system/standard_matrix_indices.cpp", "scenarios/pauli/pauli_index_collections.h", "dictionary/dictionary.cpp"],
  [("read lock, look up, upgrade to write lock, look up again, create, index", "matrix_system/matrix_indices.h"), ("matrices held through stable pointers", "matrix_system/matrix_system.h")],
  "Seeded search; the recorded history of calls and results is checked against the one-matrix-per-request specification in real-time order. " + TRUST),
P("C04", "Rules on moments rewrite soundly and completely",
  "A rulebook completed from any set of linear equations between moments rewrites every moment, polynomial and matrix cell to something that follows from those equations (with their conjugates), rewrites each of the equations to zero, and never rewrites its own output again; contradictory equations are refused, consistent ones never. Its flags, listed rules, comparison with other rulebooks and export as a matrix over basis elements agree with that. A substituted matrix holds in each cell the rewritten cell of its source, and lists its symbols, basis elements and Hermiticity truly; it is made once per source and rulebook, and refused if either is missing. Merging adds exactly the new equations, a refused or failed merge or addition changes nothing, and a rulebook that a matrix already depends on accepts no merge. In inflation scenarios rules on factors carry over to products of moments, also to products registered after the rules. All this holds for any number of workers and however clients add, merge, substitute, reduce, register and read, without deadlock, data race or use of freed memory.",
  ["schedules", "histories", "inputs", "configurations"], "all scenarios in the model, all small sets of complex linear rules, contradictory, redundant and partial ones included; symbol orders by number and by hash; all interleavings",
  "Tests complete a few rulebooks from one client; partial rules meeting each other, merges that fail half way, rulebooks in use and symbols registered after the rules are not exercised.",
  ["symbolic/rules/moment_rulebook.cpp", "symbolic/rules/moment_rule.cpp", "symbolic/rules/moment_rulebook_to_basis.cpp", "symbolic/polynomial_to_basis.cpp", "symbolic/polynomial_to_basis_mask.cpp", "matrix_system/rulebook_storage.cpp", "matrix_system/indices/substituted_matrix_index.h", "matrix/substituted_matrix.cpp", "multithreading/matrix_transformation_worker.h", "scenarios/inflation/inflation_matrix_system.cpp", "symbolic/monomial_comparator_by_hash.cpp"],
  [("a rulebook in use is not changed, except to cover new symbols", "symbolic/rules/moment_rulebook.cpp"), ("rules expanded to new symbols under the write lock", "matrix_system/rulebook_storage.cpp"), ("columns of a matrix rewritten by workers, joined before use", "multithreading/matrix_transformation_worker.h")],
  "Seeded search; rewriting is compared with Gaussian elimination over moments and their conjugates by an independent model. Where an expanded rule would need a product that no symbol stands for, the library reports an error; what later rewrites do to that product is then not judged. " + TRUST),
P("C05", "Numeric matrix bases match the matrix and are built once",
  "Every form of a matrix's numeric basis - dense or sparse, one matrix per element or one flattened matrix, real or complex coefficients - satisfies the definition: summed over basis elements it reproduces each cell of the matrix exactly, and a real form is refused exactly when a coefficient is complex. All requests for one form get the same unchanging object, whichever client asks first, even while the system grows. Likewise a polynomial's vectors and columns over basis elements, whole or its real or imaginary part alone, sum to exactly that polynomial, its masks mark exactly the basis elements it depends on, and a vector turned back into a polynomial gives the same one. A request that fails for lack of memory leaves nothing half-built: later requests give the full basis.",
  ["schedules", "histories", "fault_sequences", "inputs"], "all interleavings of first uses of all basis forms, allocation failures at any point, growth of the symbol table in between",
  "Tests ask for one form from one thread, once; racing first uses and failed builds never occur in them.",
  ["matrix/matrix_basis.h", "matrix/matrix_basis.cpp", "matrix/matrix_basis_type.h", "matrix/monomial_matrix_basis.cpp", "matrix/polynomial_matrix_basis.cpp", "symbolic/polynomial_to_basis.cpp", "symbolic/polynomial_to_basis.h", "symbolic/polynomial_to_basis_mask.cpp"],
  [("double-checked lazy construction", "matrix/matrix_basis.h")],
  "Seeded search with injected allocation failures; all eight forms are compared element by element with a basis computed from the cells. " + TRUST),
P("C06", "Word lists hold exactly the canonical words, once, and never move",
  "Every list of operator words handed out - all words up to a length, or in qubit scenarios only those on neighbouring sites of a chain or lattice, wrapped around or not - holds exactly the distinct canonical non-zero words of that kind, each once, with no sign or phase; the list for a shorter length is the beginning of that for a longer one, and the conjugate list gives each word's conjugate in the same position. Whichever clients ask concurrently, all requests for one list get the same object, its contents never change, and references to it and its words stay valid while other lists are added. Reported counts equal the lists' sizes. A request that fails for lack of memory leaves the dictionary fully usable. There is no data race, deadlock or use of freed memory.",
  ["schedules", "histories", "fault_sequences", "inputs", "configurations"], "all interleavings of first requests, repeated requests, counts and reads by several clients; allocation failures; all scenario kinds, word lengths, chains and lattices",
  "Tests count the words of a few lists from one thread; dangling references, duplicate lists and missing or repeated words need growth during use, races of first requests, or particular lattice shapes.",
  ["dictionary/dictionary.cpp", "dictionary/dictionary.h", "dictionary/osg_pair.h", "dictionary/operator_sequence_generator.cpp", "dictionary/multi_operator_iterator.h", "scenarios/pauli/pauli_dictionary.cpp", "scenarios/pauli/pauli_osg.cpp", "scenarios/pauli/symmetry/lattice_duplicator.cpp", "scenarios/locality/locality_osg.cpp", "scenarios/context.cpp"],
  [("read lock, look up, generate, write lock, look up again, insert", "dictionary/dictionary.cpp"), ("lists kept where growth does not move them", "dictionary/dictionary.h"), ("neighbour shapes duplicated over the lattice", "scenarios/pauli/symmetry/lattice_duplicator.cpp")],
  "Seeded search with injected allocation failures; each list is compared, word by word, with an enumeration by an independent model of the algebra and of the lattice's neighbours. " + TRUST),
P("C07", "Probability tensors give the right moments and stay complete and stable",
  "Every element of the Collins-Gisin, probability and full-correlator tensors of a locality or inflation scenario - stored or computed on demand - equals the combination of moments its measurements and outcomes prescribe, implied last outcomes included, and any symbols it names stand for exactly that. After a refresh, each element whose symbols were all registered before the refresh began is resolved; the completeness it reports is true. Selecting measurements visits exactly their outcomes, invalid ones are refused, and value rules equal element minus value; elements are marked as standing for another moment exactly when they do, walking a tensor visits each element once and in order, and a functional rewritten from Collins-Gisin to correlator form or back keeps its value. A tensor is made once and never replaced, however refreshes, reads and the registration of symbols by several clients interleave; a refresh that fails for lack of memory does no lasting harm. There is no deadlock, data race or use of freed memory.",
  ["schedules", "histories", "fault_sequences", "inputs", "configurations"], "all interleavings of refreshes, reads and symbol registrations by several clients; allocation failures during a refresh; all locality and inflation scenarios",
  "No test refreshes from two clients or fails half-way; completeness depends on the order of registrations and refreshes.",
  ["probability/maintains_tensors.cpp", "probability/collins_gisin.cpp", "probability/polynomial_tensor.cpp", "probability/probability_tensor.cpp", "probability/full_correlator.cpp", "tensor/auto_storage_tensor.h", "tensor/multi_dimensional_index_iterator.h", "scenarios/locality/locality_collins_gisin.cpp", "scenarios/locality/locality_probability_tensor.cpp", "scenarios/locality/locality_full_correlator.cpp", "scenarios/locality/tensor_conversion.cpp", "scenarios/inflation/inflation_collins_gisin.cpp", "scenarios/inflation/inflation_probability_tensor.cpp"],
  [("read lock released, write lock taken, tensor made or completed, read lock taken again", "probability/maintains_tensors.cpp"), ("unresolved elements remembered and retried", "probability/polynomial_tensor.cpp")],
  "Seeded search with injected allocation failures; every element read is compared with an expansion over the scenario's measurements made by an independent model. " + TRUST),
P("C08", "Symmetrized systems show the base system under the group, exactly",
  "The group generated from representations of its generators holds each element of their closure exactly once. Its representation on all words up to a length acts on each word as the product of the generators' actions on the word's operators, signs included, and its mean is the mean of its elements; one representation is made per length. In the derived system, each symbol maps to exactly the image of its word under the map - the group average, or any other linear map given - and each cell of each derived matrix is the image of the base matrix's cell; conjugates are treated alike, Hermitian flags are true, no symbol is invented that no word maps to, and the symbols do not change once made. Words longer than the map covers, or moments it does not act on, are refused, and nothing else is. One matrix is made per request and lookups agree with it. The base system lives as long as a system derived from it and no longer. All this holds for any number of workers and however requests, lookups and growth of the base system interleave, without deadlock, data race or use of freed memory.",
  ["schedules", "histories", "inputs", "configurations"], "signed permutation groups of the operators of each algebra and general linear maps, dense and sparse; all matrix requests; all interleavings of several clients, the group's workers and growth of the base system",
  "Tests symmetrize a few fixed systems from one client with unsigned permutations; signs, conjugated moments, partially covered words, concurrent lookups and growth of the base system are not exercised.",
  ["scenarios/derived/derived_matrix_system.cpp", "scenarios/derived/map_core.cpp", "scenarios/derived/lu_map_core_processor.cpp", "scenarios/derived/symbol_table_map.cpp", "scenarios/derived/derived_matrix_indices.cpp", "scenarios/symmetrized/group.cpp", "scenarios/symmetrized/group_rep_generation_worker.cpp", "scenarios/symmetrized/representation.cpp", "scenarios/symmetrized/representation_mapper.cpp", "scenarios/symmetrized/symmetrized_matrix_system.cpp", "dictionary/dictionary_map.cpp"],
  [("workers raise group elements to representations on longer words, then are joined", "scenarios/symmetrized/group_rep_generation_worker.cpp"), ("the base system is read-locked while its symbols and matrices are looked up", "scenarios/derived/derived_matrix_system.cpp"), ("the map is decomposed once into independent derived symbols", "scenarios/derived/lu_map_core_processor.cpp")],
  "Seeded search; group, representation, each symbol's image and every derived cell are recomputed by an independent model. Derived symbols that are equal up to conjugation need not be recognised as such. " + TRUST),
P("C09", "The work queue is a linearizable FIFO that never loses a wake-up",
  "Every element pushed to the thread-safe queue is delivered exactly once, intact and in first-in-first-out order, whatever the number of producers and consumers and whatever their interleaving. A consumer waiting for an element is always woken once one is available or the queue is aborted; after an abort every waiting or later removal returns empty-handed, and a non-waiting removal returns empty-handed otherwise only if the queue could have been empty. Spurious wake-ups never surface, and there is no deadlock, data race or use of freed memory.",
  ["schedules", "histories"], "all interleavings of any number of producers, waiting and non-waiting consumers and an abort; spurious wake-ups",
  "A lost wake-up needs a notification between a predicate check and the wait; the tests see the schedules the machine happens to choose.",
  ["multithreading/queue.h"],
  [("linked list with separate head and tail mutexes", "multithreading/queue.h"), ("condition variable notified after the producer has synchronised with consumers about to wait", "multithreading/queue.h")],
  "Seeded search; exactly-once, FIFO and emptiness are checked over the recorded history, liveness as absence of deadlock within a bounded number of events. " + TRUST),
P("C10", "Inflation matrices and factors respect the network's independences",
  "In an inflation scenario, each symbol's factors are exactly the moments of the groups of its operators that share copies of sources, in canonical form, and the factor table always has one entry per symbol. Multiplying symbols gives the symbol that has exactly the factors of both, or is refused if no symbol has; no product is given a second symbol. A moment matrix extended by scalars keeps the moment matrix in its upper left block, holds in each added row and column the product of the scalar with each word or scalar of the other side, is symmetric, and lists its symbols truly; an extension by an unknown symbol is refused without harm. Suggested extensions are single factors that each give some factorising moment of the matrix, and give all that single factors can. The joint outcome of several variants of observables and its number determine each other. One matrix is made per request; results are the same for any number of workers, however clients' extensions, matrices, registrations and reads interleave, without deadlock, data race, use of freed memory or dangling reference.",
  ["schedules", "histories", "inputs", "configurations"], "all networks and inflation levels in the model, all extension lists, zero, one, repeated and product symbols included; all interleavings of workers and clients",
  "Tests extend a few matrices from one client; growth of the factor table while it is read, products that are the beginning of longer ones, and the table's agreement with late registrations are not exercised.",
  ["scenarios/inflation/factor_table.cpp", "scenarios/inflation/extended_matrix.cpp", "scenarios/inflation/multithreading/extended_matrix_worker.cpp", "scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp", "scenarios/inflation/extended_matrix_indices.cpp", "scenarios/inflation/extension_suggester.cpp", "scenarios/inflation/inflation_matrix_system.cpp", "scenarios/inflation/inflation_context.cpp", "utilities/index_tree.h", "utilities/dynamic_bitset.h"],
  [("new products found or registered under a read-write lock, numbered provisionally, then merged", "scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp"), ("factor table brought up to date under the write lock whenever symbols are registered", "scenarios/inflation/inflation_matrix_system.cpp")],
  "Seeded search; factors are recomputed from the network by an independent model and every cell of every extended matrix is compared. A word first registered after a product with the same factors keeps a symbol of its own (see DESIGN.md). " + TRUST),
P("C11", "Persistent object storage is linearizable and keeps its objects' lifetimes",
  "Concurrent operations on the keyed object store - storing, fetching, releasing, walking from first to next, counting, clearing - behave as if executed one at a time in an order consistent with real time: a key names one object until it is released, keys are not reused before the store is cleared, and keys of another store or released keys are refused. The single-object store likewise: of several clients creating the object if absent exactly one creates it and all get that one. Objects live exactly as long as they are stored or held by someone, and a store operation that fails for lack of memory leaves the store as it was.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of operations from several clients, allocation failures at any point",
  "The tests use the stores from a single thread with no failures.",
  ["utilities/persistent_storage.h", "utilities/persistent_storage.cpp"],
  [("readers-writer lock around the key map", "utilities/persistent_storage.h"), ("shared ownership of stored objects", "utilities/persistent_storage.h"), ("double-checked creation of the single object", "utilities/persistent_storage.h")],
  "Seeded search; complete histories are checked for linearizability against a sequential map and register. " + TRUST),
P("C12", "A request that runs out of memory or threads fails cleanly and can be repeated",
  "When memory cannot be allocated or a thread cannot be started while a request is being served - creating a moment, localizing, commutator, polynomial, substituted, extended or derived matrix, matrix arithmetic, filling the dictionary, adding a rulebook, making a derived system or group representation, suggesting extensions - in the client's own thread or in any worker, the client gets an exception (std::bad_alloc or std::system_error): the process does not end, no client waits for ever, no worker is left running or unjoined, locks are released, nothing half-built is handed out, and no memory is used after it was freed or raced for. The system stays consistent: symbol table, bases, factor table, indices and rulebooks hold nothing incomplete, other clients' requests proceed and succeed, and the same request made again, once resources are available, succeeds with the same result it would have had without the failure.",
  ["fault_sequences", "schedules", "histories", "inputs", "configurations"], "every allocation and every thread creation of every request as the failing one (one or two per run); all worker counts and all interleavings of workers and clients",
  "The tests never let an allocation or a thread creation fail.",
  ["matrix/operator_matrix/operator_matrix_factory_multithreaded.h", "matrix/monomial_matrix_factory.cpp", "matrix/monomial_matrix_factory.h", "multithreading/matrix_transformation_worker.h", "scenarios/inflation/multithreading/extended_matrix_worker.cpp", "scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp", "scenarios/inflation/factor_table.cpp", "scenarios/symmetrized/group_rep_generation_worker.cpp", "symbolic/symbol_table.cpp", "matrix_system/matrix_system.cpp", "matrix_system/matrix_indices.h", "matrix_system/rulebook_storage.cpp", "symbolic/rules/moment_rulebook.cpp", "dictionary/dictionary_map.cpp"],
  [("workers hand their failure to the bundle, which joins all and rethrows", "matrix/monomial_matrix_factory.cpp"), ("symbols and basis elements are added together or not at all", "symbolic/symbol_table.cpp"), ("symbols left over from a failed request are reported by the next one", "matrix_system/matrix_system.cpp")],
  "Seeded search over which allocation or thread creation fails and over schedules; results after repeating the request are checked against the independent models of C01, C02, C04, C08, C10 and C13. A matrix made by a request that failed at its very end may stay in the system without index. " + TRUST),
P("C13", "Matrix arithmetic equals cell-by-cell algebra and leaves its operands alone",
  "The product of a matrix with an operator word, symbol or polynomial from the left or the right, the sum of a matrix with another matrix, a symbol or a polynomial, a copy, and a numeric matrix and its products hold in each cell exactly what the same operation on the operators and moments of the operands' cells gives - factors, signs and conjugates included - and, where the result keeps its operators, the product operators. A matrix flagged Hermitian is Hermitian, a polynomial matrix that is Hermitian is flagged so, no polynomial holds a term that is zero or twice the same, and the list of contained symbols agrees with the cells. Operands never change. Impossible operations (mismatched dimensions, products of matrices that have no operators) are refused. Cleaning small real or imaginary parts from factors follows the tolerance given. All this holds for any number of workers, however they and other clients' creations, reads and registrations interleave; operations complete without deadlock, data race or use of freed memory.",
  ["schedules", "inputs", "histories", "configurations"], "all scenario kinds, words, weights, polynomials and chains of operations (words short enough for the 64-bit word hash); all worker counts and interleavings of workers and clients",
  "Tests multiply a few fixed matrices once, single-threaded; conjugated symbols, complex weights, copies of results and chains of operations, and the multi-threaded transformation, are not exercised.",
  ["matrix/symbolic_matrix.cpp", "matrix/monomial_matrix.cpp", "matrix/monomial_matrix_arithmetic.cpp", "matrix/polynomial_matrix.cpp", "matrix/polynomial_matrix_arithmetic.cpp", "matrix/composite_matrix.cpp", "matrix/value_matrix.cpp", "matrix/operator_matrix/operator_matrix.cpp", "matrix/operator_matrix/operator_matrix_transformation.h", "multithreading/matrix_transformation_worker.h", "symbolic/polynomial.cpp", "symbolic/polynomial_factory.cpp", "utilities/eigen_utils.cpp"],
  [("elements transformed by workers, one stride each", "multithreading/matrix_transformation_worker.h"), ("symbols resolved to words, multiplied, registered again", "matrix/symbolic_matrix.cpp"), ("sums put into canonical form by the polynomial factory", "symbolic/polynomial_factory.cpp")],
  "Seeded search; every cell of every result of a run - chains of operations included - is recomputed from an independent model of the algebra. " + TRUST),
P("C14", "Imported matrices fix exactly what they imply, whatever their order",
  "In a system without operators, an imported matrix holds exactly the entries given - factors, signs, conjugates - and keeps its type. A symbol is known to be real, or imaginary, exactly if the accepted imports together say so: by a Hermitian matrix's diagonal and mirrored entries, by appearing in a real matrix, or because the whole system is real. An import is refused exactly if it contradicts itself or imports already accepted, and a refused import changes nothing. When an import says more about known symbols, every matrix made earlier - sums of matrices included - its lists of symbols and basis elements, and its numeric bases, even if already computed, agree with the new numbering, as do the symbol table's lists. A reader sees all of this before or after an import, never in between, however several clients' imports, sums, readings and basis requests interleave; there is no deadlock, data race or use of freed memory.",
  ["schedules", "histories", "inputs"], "all orders and interleavings of imports (complex, Hermitian, real, symmetric; contradictory ones included), sums, readings and first and repeated basis requests by up to four clients; real factors only",
  "Tests import one or two consistent matrices from one client and never look at an earlier matrix's bases after a later import; refusals half way through, and readers during renumbering, do not occur in them.",
  ["scenarios/imported/imported_matrix_system.cpp", "scenarios/imported/imported_context.cpp", "symbolic/symbol_table.cpp", "matrix/monomial_matrix.cpp", "matrix/polynomial_matrix.cpp", "matrix/matrix_basis.h", "matrix_system/matrix_system.cpp"],
  [("import, constraint of symbols and renumbering of bases under one write lock", "scenarios/imported/imported_matrix_system.cpp"), ("possible real and imaginary parts merged into the symbols", "symbolic/symbol_table.cpp"), ("cached bases dropped on renumbering", "matrix/matrix_basis.h")],
  "Seeded search; accepted imports are replayed in index order in a model of what each says about its symbols, and every snapshot, matrix and basis is compared with the model. Entries have real factors. " + TRUST),
P("C15", "Qubit moments are equal exactly if they are translates, for chains and lattices of every supported size",
  "In a qubit scenario with translational symmetry - a chain or lattice of any supported size, wrapped around (up to 256 qubits) or not - every word has one moment form: a translate of it, with its sign, the same for exactly the words that are translates of one another; a word is reported as simplifiable exactly if it is not in that form. Moving a word moves each of its operators by the offset given (any integer, negative ones included, if the system wraps). The symmetrised copy of a polynomial is the average of its translates (without wrapping: of those that keep all of it within the system, forwards). The words on translates of given sites are listed once each, and so are the words on neighbouring sites. One symbol stands for each class, and every request by any client is given that symbol, however requests interleave; a request that meets a failing allocation reports so and can be repeated.",
  ["inputs", "configurations", "schedules", "histories", "fault_sequences"], "all words, offsets and polynomials on chains and lattices of all sizes and shapes, wrapped or not; all interleavings of up to four clients, any allocation failing",
  "Tests use a few small systems; words that straddle the machine words of the site hash, lattices of more than 64 qubits, tall columns, words that repeat themselves when moved and negative offsets hardly occur.",
  ["scenarios/pauli/symmetry/site_hasher.h", "scenarios/pauli/symmetry/moment_simplifier.cpp", "scenarios/pauli/symmetry/moment_simplifier_wrapping.h", "scenarios/pauli/symmetry/moment_simplifier_no_wrapping.cpp", "scenarios/pauli/symmetry/lattice_duplicator.cpp", "scenarios/pauli/pauli_context.cpp", "scenarios/pauli/pauli_osg.cpp"],
  [("least image among translations that bring an operator to the first site", "scenarios/pauli/symmetry/site_hasher.h"), ("translates added at every unaliased offset", "scenarios/pauli/symmetry/lattice_duplicator.cpp")],
  "Seeded search over words, sizes, requests, schedules and failing allocations against a model that moves operators one by one. The choice of representative is the library's: the model accepts any that is the same for the whole class. " + TRUST),
P("C16", "Rewriting rules between operator words stay true, and decide equality once they are said to be complete",
  "In an algebraic scenario (Hermitian operators, or operators with conjugates) rules between words, with signs 1, i, -1 and -i and words equal to zero, may be given one by one or together, in any order and in the middle of a completion. At every moment - after each rule, each combination, conjugation or reduction of rules, each completion however short its budget, and each operation that ran out of memory - the rules in the book follow from those given and their conjugates, and each makes words less in shortlex order; rewriting a word, by whichever method, gives an equal word (sign included) that no rule can rewrite. Once the rules are said to be complete, every way of rewriting a word ends at the same word, and two words that differ by the rules given or their conjugates end at the same word, with the right sign; completed rules do not depend on the order in which they were given. Products, conjugates and hermiticity of words in a scenario with such rules follow.",
  ["inputs", "histories", "fault_sequences", "schedules"], "all sets of rules among few operators that some matrices satisfy, in all orders, completed in pieces; any allocation failing; up to three clients using one scenario",
  "Tests complete a few textbook sets of rules; rules that overlap themselves or overlap in several ways, imaginary signs, words that rewrite to a sign times the identity, and conjugates of signed words hardly occur.",
  ["scenarios/algebraic/operator_rulebook.cpp", "scenarios/algebraic/operator_rule.cpp", "scenarios/algebraic/algebraic_context.cpp", "scenarios/algebraic/algebraic_precontext.cpp", "hashed_sequence.cpp", "utilities/substring_hasher.h", "dictionary/operator_sequence.cpp"],
  [("overlaps combined into new rules", "scenarios/algebraic/operator_rulebook.cpp"), ("rule oriented and reduced", "scenarios/algebraic/operator_rulebook.cpp")],
  "Seeded search over rules, histories and failing allocations; rules are drawn from those that random matrices (one power of i in each row and column) satisfy, which decide soundness, and every rewriting order is compared with the simulator's own. No claim that completion ends: none exists. " + TRUST),
P("C17", "Operators, words and polynomials of words are numbered, ordered and multiplied by one book",
  "In every scenario, a word made from any letters is brought to the one canonical form the algebra prescribes, with its sign or phase, or to the zero, of which there is exactly one; a letter that a locality scenario has no operator for is refused. Products, conjugates, negatives, continuations and moment forms of words, commutators and anticommutators of Pauli words, and sums, differences, products and commutators of polynomials of words, are those of the algebra, signs and phases included; the operands are left unchanged, and a word or polynomial can be used by several clients at once; an operation that runs out of memory reports it and changes nothing. Two words are equal exactly if they have equal hashes and signs; hashes order words by length, then letter by letter, and the longest word said to be hashable, and any shorter one, has a hash of its own. A polynomial of words and its polynomial of symbols say the same, both ways; a word that has no symbol and a symbol there is not are refused. Parties, measurements, outcomes, qubits, lattice places, observables, variants and copies of sources are numbered consistently: each number leads to what has it and back, counts and offsets match, operators exclude one another exactly if they are outcomes of one measurement, copies are independent exactly if they share no source, and what is out of range, or of a party outside any scenario, is refused.",
  ["inputs", "histories", "fault_sequences", "schedules"], "all scenarios, locality scenarios and causal networks of any (small) shape, words up to the hash limit, polynomials up to a few terms, up to four clients sharing words, any allocation failing",
  "Tests multiply a handful of words, without phases on both sides, and number the operators of a few symmetric shapes; zeros with signs, the longest words, empty parties and measurements with one outcome hardly occur.",
  ["scenarios/context.cpp", "dictionary/operator_sequence.cpp", "dictionary/operator_sequence.h", "dictionary/raw_polynomial.cpp", "hashed_sequence.cpp", "shortlex_hasher.h", "scenarios/pauli/pauli_context.cpp", "scenarios/locality/locality_context.cpp", "scenarios/locality/party.cpp", "scenarios/inflation/inflation_context.cpp", "scenarios/inflation/causal_network.cpp", "scenarios/inflation/observable.cpp", "symbolic/polynomial_factory.cpp"],
  [("words simplified and rehashed", "dictionary/operator_sequence.cpp"), ("product in a context", "scenarios/context.cpp"), ("hash of a word", "shortlex_hasher.h"), ("sums and products of polynomials of words", "dictionary/raw_polynomial.cpp"), ("operators numbered by party and measurement", "scenarios/locality/locality_context.cpp")],
  "Seeded search over words, histories, schedules and failing allocations, against the simulator's own rewriting and numbering. " + TRUST),
]
NOT_APPLICABLE = [
 dict(id="N03", title="Symbols, polynomials and words are written and read without change of meaning",
      statement="The text in which operators, words, symbols, polynomials, rules and tensors are shown names exactly the object shown, in every formatter and locale, and two different objects of one system are never shown alike.",
      text="all objects of all scenarios, all formatters", why="Tests compare a few strings.", files=["symbolic/polynomial.cpp", "scenarios/locality/locality_operator_formatter.cpp", "utilities/format_factor.cpp", "utilities/alphabetic_namer.cpp"],
      reason="Text output of immutable values: no schedule, fault, clock or I/O takes part; there is nothing for a simulator to decide."),
 dict(id="N04", title="The MATLAB front end reports failures as errors and keeps its store intact",
      statement="Every function called from MATLAB checks its arguments, refuses bad ones with an error that names them, passes on errors of the library without ending MATLAB, and leaves the stored matrix systems as they were.",
      text="all functions, arguments and failures", why="The front end has tests in MATLAB only.", files=["../mex_functions/functions"],
      reason="The front end needs MATLAB's mex headers, libraries and runtime, which are not here: it can neither be compiled nor put under the simulator. What it relies on from the library - refusals, stores, failures that leave no trace - is decided in C03 to C14."),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": [L + x for x in p["files"]], "mechanism": [{"name": n, "where": L + w} for n, w in p["mech"]], "hook_needed": None}}) + "\n")
        for p in NOT_APPLICABLE:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": ["inputs"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": [os.path.normpath(L + x) for x in p["files"]], "mechanism": []}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 build.py", "checks": [], "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
         "notes": "No hooks in /repo: the simulator compiles /repo's sources with compiler instrumentation and its own threading, mutex, condition-variable, atomics and allocation runtime (see DESIGN.md)."}
    for p in PROPS:
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                            "technique": "deterministic simulation: seeded schedule and fault search with replayable traces", "level": "exploration", "level_note": p["level_note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
