import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    assert len(title)<=80,title
    P.append(d)
X='SeQuant/core/expressions/'
p('C01','Equal objects hash equally and equality is complete',
 "Two expressions, indices, index spaces, operators or quantum-number sets that compare equal have the same hash value, and every piece of state that determines the hash also determines equality. Equality never ignores a part of an object's value: objects that differ in a scalar, label, index, symmetry, exponent, conjugation or vacuum are unequal. Cached values, tags and other bookkeeping take part in neither.",
 ['inputs'],'every pair of objects of every hashable value type',
 'unit tests compare a few hand-picked pairs; hash-keyed containers and rapid canonicalization rely on the implication for all pairs',
 [X+'tensor.hpp',X+'constant.hpp',X+'power.hpp',X+'variable.hpp',X+'product.hpp',X+'sum.hpp','SeQuant/core/index.hpp','SeQuant/core/space.hpp','SeQuant/core/op.hpp'],
 [('field coverage of hash and equality','memoizing_hash / static_equal / operator== / hash_value of each value type')])
p('C02','The hash of an expression always reflects its current value',
 "After any sequence of public operations that changes an expression, asking for its hash gives the value a freshly built identical expression would report: no mutation, however it is reached (member call, assignment, iterator, reference handed out, canonicalization, index replacement), leaves a previously computed hash in place.",
 ['histories','inputs'],'every sequence of hash queries and mutating operations on every kind of expression',
 'a stale cached hash appears only when a hash query precedes a particular mutation; tests exercise few such orders',
 [X+'expr.hpp',X+'expr.cpp',X+'product.hpp',X+'sum.hpp',X+'tensor.hpp',X+'variable.hpp',X+'constant.hpp','SeQuant/core/op.hpp'],
 [('reset_hash_value on every mutating path',X+'expr.hpp')],[('hash_value_','memoized hash of an expression',X+'expr.hpp')],['Expr::hash_value'])
p('C03','Derived data cached by tensors, indices, registries and networks is fresh',
 "Every other value an object caches from its own state (labels of an index, hash of a bra, base-space lists of a space registry, edges of a tensor network, rank split of an operator, size of a cached result) equals what recomputation from the current state would give, after any sequence of public operations on that object.",
 ['histories'],'every sequence of public mutators and queries on each caching class',
 'stale memo values need a query-mutate-query history; tests mostly build once and query once',
 ['SeQuant/core/index.hpp','SeQuant/core/index_space_registry.hpp','SeQuant/core/op.hpp',X+'tensor.hpp','SeQuant/core/tensor_network/v1.hpp','SeQuant/core/tensor_network/v2.hpp','SeQuant/core/tensor_network/v3.hpp'],
 [('memo invalidation','mutators of the caching classes')])
p('C04','Copies and clones are complete and independent',
 "Copying, assigning or moving an index, space, registry, expression, operator, network or tree carries over every part of its value. A clone of any of them, and a copy of a tensor network, shares no mutable state with the original: later changes to either one are never visible through the other (plain copies of sums, products and registries share their contents by design).",
 ['inputs','histories'],'every value of every copyable type and every later mutation of the copy or the original',
 'tests clone a handful of expressions and rarely mutate both sides afterwards',
 [X+'expr.hpp',X+'product.hpp',X+'sum.hpp',X+'tensor.hpp','SeQuant/core/op.hpp','SeQuant/core/index_space_registry.hpp'],
 [('copy constructors, copy assignments and clone overrides','all value classes')])
p('C05','Functions taking their input by const reference do not change it',
 "No public function that receives an expression, tensor, index, registry or network as constant input modifies anything reachable from it: the caller's object and the sub-expressions it shares have the same value afterwards (index tags and caches excepted).",
 ['inputs'],'every public function with constant inputs and every aliasing between its input and the expressions it builds',
 'shared ownership of sub-expressions makes in-place mutation visible only for particular aliasing patterns',
 [X+'expr_algorithms.cpp','SeQuant/domain/mbpt/spin.cpp','SeQuant/core/utility/expr.cpp','SeQuant/core/optimize/optimize.cpp'],
 [('clone before mutate','all algorithms')])
p('C06','Internal assertions have no effect on results',
 "Evaluating an internal consistency assertion never changes any state a later computation can observe, so a build with assertions disabled computes exactly the same results as a build with assertions enabled.",
 ['configurations','inputs'],'all assertion configurations and all executions',
 'the test suite runs in one assertion configuration; a side effect inside an assertion changes behaviour only in the other',
 ['SeQuant/core/utility/macros.hpp'],[('SEQUANT_ASSERT conditions','whole library')])
p('C07','Symbolic coefficients are exact',
 "Scalar coefficients of symbolic expressions are computed in exact rational arithmetic only: no path that creates, combines, normalises or simplifies symbolic coefficients passes a value through floating point or a fixed-width integer that could lose information.",
 ['inputs'],'every coefficient value in every symbolic computation',
 'loss of precision shows only for large numerators or non-dyadic denominators, which tests do not use',
 ['SeQuant/core/rational.hpp','SeQuant/core/complex.hpp',X+'constant.hpp',X+'power.hpp',X+'product.hpp','SeQuant/core/wick.impl.hpp'],
 [('scalar type rational','SeQuant/core/rational.hpp')])
p('C08','Results are reproducible from run to run',
 "The result of any symbolic computation is a function of its inputs only: it does not depend on addresses of objects, iteration order of hashed containers, random numbers, the clock, or the number of threads.",
 ['inputs','schedules','configurations'],'every run of every algorithm',
 'one run of a test cannot show that another run with different addresses or hash seeds would agree',
 ['SeQuant/core/wick.impl.hpp','SeQuant/core/tensor_network/v1.cpp','SeQuant/core/tensor_network/v3.cpp','SeQuant/core/hash.hpp'],
 [('ordered containers and value comparators','whole library')])
p('C09','Orderings used for sorting and ordered containers are consistent',
 "Every comparison used to sort or to key an ordered container is irreflexive and asymmetric, treats the two sides identically, and agrees with the equality of the objects it orders.",
 ['inputs'],'every pair and triple of objects compared',
 'inconsistent comparators misbehave only for particular triples and library implementations',
 ['SeQuant/core/index.hpp','SeQuant/core/space.hpp',X+'expr.cpp','SeQuant/core/tensor_canonicalizer.hpp'],
 [('operator<, <=> and comparison functors','whole library')])
p('C10','Process-wide state is accessed only under its lock',
 "Every read or write of process-wide mutable state that worker threads can reach (default contexts, label registries, counters, memo tables, canonicalizer registry) is made while holding the lock that protects it or through an atomic whose read-modify-write steps are indivisible, and no lock is left held on any exit. (A constant reference to a default context may be read after the accessor returns: replacing a context while workers run is excluded by the documentation.)",
 ['schedules'],'every interleaving of threads using the library',
 'data races are schedule-dependent; the tests run one schedule, mostly single-threaded',
 ['SeQuant/core/context.cpp','SeQuant/core/index_space_registry.hpp','SeQuant/core/runtime.hpp','SeQuant/core/index.hpp','SeQuant/core/tensor_canonicalizer.cpp'],
 [('mutex-guarded accessors','context.cpp, mbpt/context.cpp, index.hpp')])
p('C11','Parallel loop bodies do not race on shared variables',
 "Code run concurrently by the library's parallel loops never writes a variable shared between iterations except under a lock, through an atomic, or at an element private to the iteration.",
 ['schedules'],'every interleaving of the loop bodies',
 'a race needs a particular interleaving; tests run few threads on tiny inputs',
 ['SeQuant/core/runtime.hpp','SeQuant/core/wick.impl.hpp','SeQuant/domain/mbpt/spin.cpp'],
 [('lambda bodies passed to for_each / parallel_do / transform_reduce','whole library')])
p('C12','Temporarily changed settings are always restored',
 "Whenever the library temporarily changes process-wide or caller-owned settings (default context, tags, registered canonicalizers, locale or stream state, options), the previous value is back in place on every exit of the scope, including early return and exception.",
 ['inputs','fault_sequences'],'every exit path, exceptional ones included, of every scope that overrides a setting',
 'tests leave scopes normally; exceptional and early exits are hardly covered',
 ['SeQuant/core/context.cpp','SeQuant/domain/mbpt/context.cpp','SeQuant/core/wick.impl.hpp','SeQuant/core/utility/scope.hpp'],
 [('scope guards','context.cpp, wick.impl.hpp')])
p('C13','Signs and factors produced by canonicalization are never lost',
 "Whenever canonicalizing an expression, tensor, network or operator string in place yields a scalar or phase that the caller must account for, every caller in the library folds it into its own result; none is discarded.",
 ['inputs'],'every call of a canonicalization routine and every outcome it can have',
 'most canonicalizations have no byproduct, so dropping one is invisible on common inputs',
 [X+'expr.cpp',X+'expr_algorithms.cpp','SeQuant/core/wick.impl.hpp','SeQuant/core/tensor_network/v3.cpp','SeQuant/domain/mbpt/spin.cpp'],
 [('byproduct of canonicalize / rapid_canonicalize / Tensor canonicalizers','whole library')])
p('C16','Adjoint conjugates every part of an object',
 "Taking the adjoint of an expression conjugates or reverses every part that carries a bra/ket role, an order or a complex value, and recurses into every sub-expression, so that applying it twice restores the original.",
 ['inputs'],'every expression of every kind',
 'tests apply adjoint to few shapes; omitted parts show only for operands with that part non-trivial',
 [X+'tensor.hpp',X+'power.hpp',X+'variable.hpp',X+'product.hpp',X+'sum.hpp',X+'constant.hpp','SeQuant/core/op.hpp','SeQuant/domain/mbpt/op.ipp'],
 [('adjoint overrides','every expression class')])
p('C17','Every case of a closed set of alternatives is handled',
 "Wherever the library distinguishes cases by an enumerated property (symmetry, vacuum, statistics, operator class, space attribute, serialization character, method selection), every enumerator is handled explicitly or leads to an error; none silently falls through into the treatment of another or into an uninitialised result.",
 ['inputs','configurations'],'every value of every enumeration at every dispatch on it',
 'tests do not take every enumerator through every dispatch',
 ['SeQuant/core/attr.hpp','SeQuant/domain/mbpt/op.cpp','SeQuant/core/export/itf.cpp','SeQuant/core/io/serialization/v1/serialize.cpp'],
 [('switch statements and if-chains over enumerations','whole library')])
p('C18','Options given by the caller reach every nested step',
 "When a function accepts options (canonicalization, simplification, serialization, optimization, spin-tracing or export options) and delegates to another step that takes the same kind of options, it passes on the caller's options, never silently the defaults.",
 ['configurations','inputs'],'every options value given to every entry point, through every nested call',
 'tests run mostly with default options, for which a dropped argument is invisible',
 [X+'expr_algorithms.cpp','SeQuant/core/optimize/optimize.cpp','SeQuant/domain/mbpt/spin.cpp','SeQuant/core/io/serialization/v1/serialize.cpp'],
 [('option parameters','all entry points')])
p('C19','No use of moved-from, dangling or iterator-invalidated objects',
 "No execution reads an object after its contents were moved away, keeps or returns a reference, view or iterator to something whose lifetime has ended, or continues to use an iterator or reference after its container was structurally changed.",
 ['inputs','histories'],'every path through every function',
 'such uses often appear to work; they depend on sizes and allocator behaviour',
 ['SeQuant/core/utility/memoize.hpp',X+'expr_algorithms.cpp','SeQuant/core/op.hpp'],
 [('value flow of moved and referenced objects','whole library')])
p('C20','No value is read before it is set',
 "Every data member and local variable of scalar type is given a value before anything reads it, on every path and through every constructor.",
 ['inputs'],'every constructor and every path',
 'uninitialised reads give plausible values in tests',
 ['SeQuant/core/options.hpp','SeQuant/core/op.hpp','SeQuant/core/tensor_network/v1.hpp'],
 [('member initialisers and constructor initialiser lists','whole library')])
p('C21','Text forms of enumerated attributes round-trip',
 "For every enumerated attribute that has a textual form (symmetry marks in serialized tensors, operator labels, spin and space suffixes), the writer produces a distinct text for every value and the reader maps that text back to exactly that value.",
 ['inputs'],'every enumerator of every textual attribute',
 'tests round-trip the common attribute values only',
 ['SeQuant/core/io/serialization/v1/serialize.cpp','SeQuant/core/io/serialization/v1/ast_conversions.hpp','SeQuant/domain/mbpt/op.cpp'],
 [('attribute tables of writer and reader','serialize.cpp, ast_conversions.hpp')])
p('C22','Every kind of expression implements the full expression contract',
 "Every concrete kind of expression provides its own runtime type identity, equality, cloning and hash, and its sub-expression view and its adjoint agree with its value; none silently inherits another kind's implementation so that cloning changes its kind or comparison aborts.",
 ['inputs'],'every concrete expression class and every contract operation',
 'tests exercise each operation on some kinds only',
 [X+'expr.hpp',X+'product.hpp','SeQuant/core/op.hpp','SeQuant/domain/mbpt/op.hpp'],
 [('virtual contract of Expr',X+'expr.hpp')])
p('C23','Failures in parallel work reach the caller and threads are joined',
 "If a body run by the library's parallel loops throws, the exception reaches the caller of the loop after all threads have been joined; no path terminates the process or leaves a thread running.",
 ['fault_sequences','schedules'],'every loop body failing at any iteration',
 'tests never make a loop body throw',
 ['SeQuant/core/runtime.hpp'],[('thread creation, exception capture and join','SeQuant/core/runtime.hpp')])
p('C24','Memoized computations survive failure and concurrent use',
 "A computation memoized by the library's memo helper is stored only when it succeeded, waiting threads are always woken, and every reference or iterator used after waiting is still valid.",
 ['fault_sequences','schedules'],'every schedule of concurrent lookups and every failure of the computation',
 'needs a failing or concurrent computation',
 ['SeQuant/core/utility/memoize.hpp'],[('memoize',"SeQuant/core/utility/memoize.hpp")])
# domain properties, not decidable by static analysis in reach
def na(id,title,st,over,qt,why,files): p(id,title,st,over,qt,why,files,[('algorithm',files[0])])
na('C30','Wick expansion equals the exact operator expectation value',
 "The result of applying Wick's theorem to any product of normal-ordered operators equals, as an operator identity, the full contraction sum for the chosen vacuum, with every sign right.",['inputs'],'all operator products, vacua and options','only a few dozen products are tested',['SeQuant/core/wick.impl.hpp'])
na('C31','Canonicalization is value-preserving and unique',
 "Canonicalizing any expression preserves its mathematical value and maps all expressions equal up to dummy renaming, factor order and tensor symmetry to the same form.",['inputs'],'all tensor networks','the space of networks and symmetries is unbounded',['SeQuant/core/tensor_network/v3.cpp'])
na('C32','Simplification and expansion preserve value and are idempotent',
 "Expanding or simplifying any expression leaves its mathematical value unchanged, and doing so again changes nothing.",['inputs'],'all expressions','tests cover sample expressions',[X+'expr_algorithms.cpp'])
na('C33','Spin tracing preserves the traced value',
 "Open- and closed-shell spin tracing yields an expression numerically equal to summing the spin-orbital expression over all spin assignments.",['inputs'],'all expressions and all external index groups','tests compare a few known equations',['SeQuant/domain/mbpt/spin.cpp'])
na('C34','Generated coupled-cluster equations are right at every order',
 "The equations produced for any excitation rank and method variant equal the projected similarity-transformed Schroedinger equation.",['inputs','configurations'],'all ranks and variants','only low ranks have reference term counts',['SeQuant/domain/mbpt/models/cc.cpp'])
na('C35','Optimization preserves value and never costs more',
 "Contraction-order optimization, factorization and common-subexpression elimination give expressions with the same value, and the selected order is the cheapest under the chosen cost model.",['inputs'],'all products and index extents','sampled networks only',['SeQuant/core/optimize/single_term_detail.hpp'])
na('C36','Numerical evaluation equals the symbolic value',
 "Evaluating an expression with any backend, with or without caching, gives the value of the symbolic expression on the given tensors.",['inputs','configurations'],'all expressions, tensors and backends','needs numerical oracles; backends are not built here',['SeQuant/core/eval/eval.hpp'])
na('C37','Exported code computes the expression',
 "Running the code exported in any supported language computes the exported expression and manages its tensors correctly.",['inputs','configurations'],'all expressions and generators','tests compare text of samples',['SeQuant/core/export/export.hpp'])
na('C38','Serialization round-trips every expression',
 "Parsing the serialized text of any expression yields an expression equal to the original.",['inputs'],'all expressions','tests round-trip samples',['SeQuant/core/io/serialization/v1/serialize.cpp'])
na('C39','All rewriting loops terminate',
 "Every simplification, canonicalization and optimization loop terminates on every input.",['inputs'],'all inputs','termination cannot be sampled',[X+'expr_algorithms.cpp'])
na('C40','Biorthogonal transformation coefficients are exact inverses',
 "The biorthogonalization coefficients used for closed-shell equations are the (pseudo-)inverse of the permutation overlap matrix at every rank.",['inputs'],'all ranks','only low ranks are tabulated in tests',['SeQuant/domain/mbpt/biorthogonalization.cpp'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
