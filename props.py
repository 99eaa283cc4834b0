"""The properties: what each one says (properties.jsonl), and how it is decided (MANIFEST.json, check.py)."""

ASSUME = [
    'The code that is executed symbolically is the LLVM IR rustc (nightly, opt-level 0, overflow checks on, debug assertions off) emits for /repo/mockall, the code /repo/mockall_derive generates for the mocks of the harness, their dependencies and std; rustc and the executor (/verif/engine) are trusted, and sample paths of every run are replayed in the native build and compared.',
    'Stubs: the allocator never fails; the hash seed of HashMap is fixed; the panic hook prints nothing; thread-local destructors are not run; writes to stdout/stderr are dropped; futex wait/wake, thread identity and unwinding are modelled by the executor.',
    'Formatting a symbolic integer yields an abstract text that nothing branches on; every other part of a panic message is computed by the real code.',
    'The mocked items are those of /verif/harness/src/shapes.rs and src/props: a fixed set of programs that covers each kind of item the macros accept; other programs are outside the claim.',
]
SHAPES = ('each of about 80 kinds of mocked method (mock! and #[automock]; inherent, trait, several traits; &self, &mut self; static, trait static, module and foreign functions; generic methods, '
          'generic structs and traits, associated types, reference returns and mutable reference returns, dyn/slice/str returns, borrowed, owned and lifetime arguments, impl Trait, async, concretized generics, specific impls)')
F_MF = 'mockall_derive/src/mock_function.rs'
F_LIB = 'mockall/src/lib.rs'
F_MIS = 'mockall_derive/src/mock_item_struct.rs'
F_MI = 'mockall_derive/src/mock_item.rs'
F_MT = 'mockall_derive/src/mock_trait.rs'

PROPS = {}
def prop(id, title, statement, over, text, why, files, mechanism, features, bounds, deep='', state=(), observe=(), nightly=False, assume=(), note='', **kw):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, state=list(state), observe=list(observe),
                     features=features, bounds=bounds, deep=deep, nightly=nightly, assume=list(assume), note=note, **kw)

prop('C01', 'An expectation never serves more calls than its maximum',
     'However an expectation was given its maximum number of calls, each call up to that number is answered and the next call that it alone could serve panics. '
     'No user-supplied code that makes a return value runs for a call beyond the maximum.',
     ['inputs', 'histories', 'programs'], 'Every minimum and maximum (64-bit), every argument, every number of calls within the bound, every kind of mocked method.',
     'Tests use two or three small constants on a few kinds of method; the ceiling has to hold for every bound, at every method kind, and for the call exactly at the boundary.',
     [F_LIB, F_MF], [('the call counter and its range', F_LIB), ('counting a call before a value is made', F_MF), ('skipping of used-up expectations', F_MF)],
     'p_counts', 'Symbolic 64-bit bounds lo..=hi and 32-bit arguments; up to 3 calls for ' + SHAPES + '; two expectations that both match with arbitrary maxima; every way of returning a value on 8 kinds; maxima around 70 reached by as many calls on 8 kinds; 65,537 calls on one.',
     'up to 6 calls, 300 calls to one expectation, all kinds; the quick harnesses again with the nightly feature.',
     state=[('call count', 'how often an expectation was called'), ('range', 'allowed numbers of calls')], observe=['whether a call panics', 'the values calls yield', 'how often closures ran'])

prop('C02', 'A mock panics on drop exactly if an expectation had too few calls',
     'When a mock object (or the last handle on a static function’s expectations) is dropped, the drop panics if and only if some expectation received fewer calls than its minimum.',
     ['inputs', 'histories', 'programs'], 'Every minimum (64-bit), every number of calls within the bound, several expectations with arbitrary minima, every kind of mocked method.',
     'A test that forgets a call only fails if the drop notices; tests sample one or two minima and kinds of method, and rarely check that a satisfied mock stays quiet.',
     [F_LIB, F_MF, F_MIS], [('verification in the destructor of an expectation', F_MF), ('the drop order of containers of expectations', F_MIS)],
     'p_counts', 'Symbolic 64-bit bounds; 0 to 3 calls for ' + SHAPES + '; two expectations told apart by symbolic matchers, each with its own bounds; minima around 70 on 8 kinds; 65,537 calls on one.',
     'up to 6 calls, 300 calls, all kinds; the quick harnesses again with the nightly feature.',
     observe=['whether drop panics'])

prop('C03', 'checkpoint verifies every expectation and removes all of them',
     'A checkpoint panics if and only if some expectation of the object (or of the module or static function it is called on) has too few calls so far. '
     'If it does not panic, no earlier expectation serves or is verified again, expectations set afterwards count from zero, and expectations of other objects and functions are untouched.',
     ['inputs', 'histories', 'programs'], 'Every minimum of every expectation, every split of calls over methods and phases within the bound, every pair of methods of one object.',
     'A method left out of the checkpoint of an object with many methods, traits, or generic types goes unnoticed unless a test combines exactly that method with a checkpoint.',
     [F_MF, F_MIS, F_MI, F_MT], [('checkpoint of objects', F_MIS), ('checkpoint of traits', F_MT), ('checkpoint of modules', F_MI), ('draining of expectations', F_MF)],
     'p_checkpoint', 'Symbolic 64-bit minima; up to 2 calls before the checkpoint and 4 continuations after it, for ' + SHAPES + '; three expectations with different matchers on 8 kinds; 35 pairs of methods, types or module functions under one checkpoint; static functions next to an object’s checkpoint.',
     'up to 4 calls and all kinds.', observe=['whether checkpoint panics', 'calls and drop afterwards'])

prop('C04', 'Every way of stating a call count means what it says',
     'Each argument form of the call-count setting (a number, every kind of range, unbounded, once, never, or none at all) allows exactly the numbers of calls it denotes, for every value. '
     'Empty ranges are rejected with a panic when they are set, and the last setting wins.',
     ['inputs', 'programs'], 'All 64-bit values of the number and of both ends of every range form, including the largest ones; every pair of successive settings.',
     'Tests use a few small numbers per form; errors at the ends of the number range or in rarely used forms do not show.',
     [F_LIB, F_MF], [('conversions from numbers and ranges', F_LIB), ('the limits', F_LIB)],
     'p_counts', 'Ten forms with symbolic 64-bit operands, 0 to 2 calls and drop, for ' + SHAPES + '; two successive settings on 8 kinds.',
     'up to 5 calls (3 for two settings), all kinds; the quick harnesses again with the nightly feature.', observe=['whether setting, calls and drop panic'])

prop('C05', 'Calls go to the first matching expectation that is not used up',
     'A call is served by the oldest expectation of its method that matches the arguments and has not yet had its maximum number of calls, and counts for that one only. '
     'If there is none the call panics without running any return-value code; a sole expectation that matches but is used up reports the excess call.',
     ['inputs', 'histories', 'programs'], 'Every assignment of matchers and maxima to expectations, every argument sequence and every point at which expectations are added, within the bounds.',
     'The order of selection depends on the whole history of calls and on every matcher; tests check a handful of fixed histories.',
     [F_MF], [('selection of the expectation of a call', F_MF), ('insertion order of expectations', F_MF)],
     'p_dispatch p_recover', 'Two expectations with symbolic matcher keys, minima and maxima and 2 symbolic calls for ' + SHAPES + '; three expectations and 3 calls on 8 kinds; no expectations; one expectation; expectations added between calls on 8 kinds; a caught excess call before further calls, for every kind.',
     'three expectations and 3 calls for all kinds; 3x4 and 4x3 on 8 kinds; additions among 3 calls for all kinds.', observe=['which expectation’s value a call yields', 'how often each one’s closure ran', 'drop'])

prop('C06', 'An expectation matches exactly the arguments its matcher accepts',
     'A matcher sees the arguments of the call, each in its own position and unchanged, and the expectation can serve the call if and only if the matcher accepts all of them. '
     'With one predicate per argument all of them must accept; an expectation without a matcher accepts everything; the last matcher set is the one that counts.',
     ['inputs', 'programs'], 'Every argument value, every predicate operand, every subset of constrained positions, every matcher kind.',
     'Swapped, dropped or repeated arguments are visible only to a matcher that constrains the right positions with unequal values; tests mostly use one or two arguments.',
     [F_MF, F_LIB], [('matcher types and their evaluation', F_MF), ('argument transformation', F_MF)],
     'p_dispatch p_recover p_args', 'Symbolic 32-bit arguments and keys; predicate, closure and single-threaded closure matchers over every subset of two positions, for ' + SHAPES + '; nine arguments of nine types (method and static, predicates and closures); fourteen arguments (methods, static, generic, reference-returning); comparison predicates; replacement of one matcher by another on 8 kinds; a matcher that panics (caught) before further calls, for every kind.',
     'replacement for all kinds.', observe=['whether a call is served', 'what matchers see'])

prop('C07', 'A call yields the value its expectation was told to return',
     'Each call returns exactly what the return setting of the expectation that serves it prescribes: the stored constant each time, or the result of this very call’s run of the stored closure, which receives the caller’s arguments in order and keeps its own state from call to call. '
     'The last return setting wins, and what a closure writes through mutable arguments reaches the caller.',
     ['inputs', 'histories', 'programs'], 'Every argument and value, every return setting, every call history within the bound, every kind of mocked method.',
     'Tests compare single constant values; mixing up arguments, reusing a stale value, or sharing closure state shows only for particular values and call sequences.',
     [F_MF], [('return-value functions', F_MF), ('passing of arguments', F_MF)],
     'p_values p_recover p_args', 'Symbolic 32-bit values and arguments; every return setting, in either order with the matcher, over 2 calls, for ' + SHAPES + '; replaced settings and separate closure state on 8 kinds; nine arguments of nine types and fourteen of one; five kinds of mutable argument; moved arguments; methods that consume the mock; a return closure that panics (caught) before further calls, for every kind.',
     'up to 5 calls, all kinds.', observe=['returned values', 'values seen by closures', 'mutable arguments after the call'])

prop('C08', 'A return_once closure runs at most once',
     'A closure set with return_once serves the first call only and is given its arguments; any later call that reaches the expectation panics and never runs the closure again, whatever the call-count bounds are. '
     'What the closure owns is freed exactly once, whether or not it ran.',
     ['inputs', 'histories', 'programs'], 'Every call-count bound, every argument, call histories within the bound, both the thread-safe and the single-threaded form, every kind of method that returns by value.',
     'A second call is an error path that tests take for one or two kinds of method and default bounds.',
     [F_MF], [('the expiry of a by-move return value', F_MF)],
     'p_values p_recover', 'Up to 2 calls for 37 kinds that return by value; symbolic bounds, rows of such expectations and ownership on 8 kinds; a by-move closure that panics (caught) before further calls; all of it in both feature configurations.', 'up to 4 calls and all 37 kinds.', nightly='all', observe=['calls that panic', 'how often the closure ran', 'double frees and leaks'])

prop('C09', 'An expectation without a return value panics or returns the default',
     'Without the nightly feature, a call served by an expectation with no return setting panics and never yields a value, whatever the return type is. '
     'With the nightly feature it yields the default of the return type if it has one and otherwise panics.',
     ['inputs', 'programs', 'configurations'], 'Every argument, both feature configurations, return types with and without a default, every kind of mocked method that has one.',
     'Tests check one return type per configuration.',
     [F_LIB, F_MF], [('default return values', F_LIB), ('the default of an expectation’s return function', F_MF)],
     'p_values', 'Symbolic arguments and bounds, 38 kinds of method in both feature configurations; six return types without a default.', '', nightly=True, observe=['whether a call panics', 'the value'])

prop('C10', 'References returned by a mock stay valid, and keep what is written through them',
     'A method that returns a shared reference returns the same, unchanged object on every call of an expectation. '
     'A method that returns a mutable reference yields, with a stored variable, the same object each time so that writes are seen by later calls (and by no other expectation), and with a closure a freshly made value each time.',
     ['inputs', 'histories', 'programs'], 'Every initial value and written value, call histories within the bound, each kind of reference-returning method.',
     'Tests read a reference once; reuse after later calls, writes and several expectations are not covered.',
     [F_MF], [('storage of returned references', F_MF)],
     'p_values', 'Symbolic 32-bit values, 3 calls, for 6 kinds that return shared and 5 that return mutable references (also unsized and generic ones); addresses; deref targets.', 'up to 8 calls.', observe=['values read through references', 'addresses', 'invalid memory accesses'])

prop('C11', 'Sequenced calls are accepted only in order',
     'A call of an expectation in a sequence is served if and only if every expectation before it in that sequence has had all its calls; otherwise the call panics. '
     'This holds across methods, objects and static functions, for any exact counts including zero, and expectations outside the sequence or in another one are not affected.',
     ['inputs', 'histories', 'programs'], 'Every assignment of counts, matchers and places in one or two sequences to expectations of two mocks, and every order of calls, within the bounds.',
     'The interesting cases are wrong orders over several mocks and counts above one; tests fix two or three orders.',
     [F_LIB, F_MF], [('sequence positions', F_LIB), ('verification and advance of a sequence at a call', F_MF)],
     'p_seq', 'A chain of three expectations with symbolic counts and 4 calls for ' + SHAPES + '; two expectations (counts 0..2) anywhere on two mocks with 4 arbitrary calls on 11 pairs of kinds; three expectations; two sequences; a sequence of 300 expectations; joining after calls were made.',
     'chains of 6 calls, three and four expectations, two sequences on more pairs, a sequence of 2,500.', observe=['whether calls and drop panic'],
     assume=['Changing the count of an expectation after it joined a sequence, and joining two sequences, are outside the claim.'])

prop('C12', 'Only expectations with an exact call count can join a sequence',
     'Adding an expectation to a sequence is accepted if and only if its call-count setting at that moment allows exactly one number of calls; otherwise it panics and the sequence is left as it was.',
     ['inputs', 'programs'], 'Every form of call count with all 64-bit operands except the two largest numbers, and every pair of successive settings.',
     'Tests reject one form; ranges that happen to contain one number, or settings that are replaced, are not covered.',
     [F_LIB, F_MF], [('the exactness test', F_LIB), ('joining a sequence', F_MF)],
     'p_seq', 'Ten count forms with symbolic 64-bit operands on 8 kinds of method, alone and as the second of two settings.', 'all kinds; also with the nightly feature.', observe=['whether joining panics', 'later members of the sequence'],
     assume=['Counts of usize::MAX and usize::MAX - 1, which the library uses for "no limit", are outside the claim.'])

prop('C13', 'Static expectations live and are verified with their Context',
     'Expectations of a static function, module function or generic static method serve calls only while their context lives: dropping it panics if and only if one of that function’s expectations has too few calls, and afterwards none of them serves any call. '
     'A later context starts from nothing, and other functions are not touched.',
     ['inputs', 'histories', 'programs'], 'Every minimum, call histories within the bound over successive contexts, every kind of static function and pairs of them.',
     'Static state outlives a test; tests use one context and check the happy path.',
     [F_MF, F_MI, F_MIS], [('contexts and their destructor', F_MF), ('the global store of expectations', F_MF)],
     'p_statics p_recover', 'Symbolic 64-bit bounds, up to 3 calls, two lives of a context, for 20 kinds of static function; 18 ordered pairs of functions of one mock or module; panics of closures, matchers and excess calls that are caught while the context lives.', 'up to 5 calls.', observe=['calls', 'drop of a context'])

prop('C14', 'Expectations of a generic method serve only calls with the same types',
     'Expectations set for one choice of type parameters of a generic method or function are never used, counted or verified for a call with another choice, however similar the types are, and every choice’s expectations are verified when the mock is.',
     ['inputs', 'programs', 'histories'], 'Every pair out of twenty types, both orders of two parameters, every kind of generic method (shared and mutable references, static, module), arbitrary bounds and call orders.',
     'Tests instantiate one or two types and look at returned values, not at which types were not affected.',
     [F_MF, F_LIB], [('keys of generic expectations', F_LIB), ('lookup of generic expectations', F_MF)],
     'p_statics', 'Twenty types (same size, same layout, nested, swapped tuples, equally named types of different modules and blocks, function pointers, trait objects) for value, shared and mutable reference and static methods; symbolic bounds and 2 calls in either order for 12 ordered pairs of instantiations.', '5 calls.', observe=['which calls are served', 'drop'])

prop('C15', 'Mock objects and methods are independent of each other',
     'Setting, calling, checkpointing or dropping the expectations of one method or one object never serves, counts, verifies or removes expectations of another method, another object of the same type, or another trait’s method of the same mock.',
     ['inputs', 'histories', 'programs'], 'Every bound, every interleaving of calls within the bound, 37 pairs of methods (also equally named ones) and 32 kinds of object.',
     'Tests rarely set two methods or two objects at once with different bounds.',
     [F_MIS, F_MT, F_MF, F_MI], [('one store of expectations per method', F_MIS), ('naming of stores of traits', F_MT)],
     'p_statics', 'Symbolic 64-bit bounds and 2 calls in every order for 37 pairs of methods of one mock; two objects of 32 kinds with calls, checkpoint and drop.', '4 to 5 calls.', observe=['which calls are served', 'drop and checkpoint of each object'])

prop('C16', 'A failing test fails with one panic, and spoils nothing for later tests',
     'While a panic is unwinding, destroying mocks, contexts and guards never panics again (which would abort the process), so that the first panic reaches the caller unchanged, whatever expectations are unmet. '
     'Afterwards static functions can be mocked again as if nothing had happened.',
     ['inputs', 'fault_sequences', 'programs'], 'Every unmet bound, panics from calls beyond the maximum, unmatched calls, missing values, sequence violations, the user’s own closures and matchers, and plain code; every kind of mocked method.',
     'A second panic kills the whole test process, so tests cannot check it from inside; poisoned global state shows only in later tests.',
     [F_MF, F_MIS], [('destructors that test for unwinding', F_MF), ('clearing of poisoned static state', F_MF)],
     'p_statics p_conc', 'Symbolic bounds; a foreign panic and four kinds of own panic (calls beyond the maximum, no match, no value, out of sequence) while several expectations are unmet, for ' + SHAPES + '; user closures and matchers that panic in methods, static and generic static functions; four mocks and contexts that fail at once.',
     'the same harnesses, also with the nightly feature.', observe=['the panic that reaches the caller', 'process abort', 'later use of the same static function'])

prop('C19', 'Concurrent calls are counted and served as if one after the other',
     'When threads call methods of one mock (or static function) at once, exactly as many calls are served as the expectations allow, each is counted once, each yields the value of its own run of the return closure, and closures of one expectation never overlap. '
     'Calls that are in their turn in a sequence are all served; contexts may be dropped and expectations set on one thread while another calls; nothing deadlocks.',
     ['schedules', 'inputs', 'programs'], 'Every interleaving of two (thorough: three) threads at atomic and lock operations with at most the stated number of preemptions, and every maximum.',
     'Interleavings inside a call are rare and short; a test run takes one of them.',
     [F_MF, F_LIB], [('atomic counters', F_LIB), ('locks around matchers, return functions and static stores', F_MF)],
     'p_conc', 'Two threads with one call each (two calls on two kinds), at most 1 or 2 preemptions at atomic, lock and futex operations, sequentially consistent memory, symbolic maxima; methods, generic, async and reference-returning methods, static and generic static functions; setting and dropping while calling; different methods at once; moving between threads.',
     'three threads, up to 4 preemptions.', observe=['which calls are served', 'values', 'drop', 'deadlock'], time_each=700,
     assume=['Atomic operations are sequentially consistent: reorderings that weaker orderings allow are outside the claim.'])

prop('C20', 'Single-threaded settings are refused on other threads, others work anywhere',
     'A closure, matcher or constant set with a single-threaded (`_st`) method works on its own thread, and using it from another thread panics (without ever running or freeing it there, and without aborting the process). '
     'Mocks whose settings are all of the ordinary kind work the same on whatever thread calls or drops them.',
     ['inputs', 'programs', 'schedules'], 'Every setting of either kind, every argument, every kind of mocked method, calls on the own and on another thread.',
     'Tests check one wrong-thread use of one kind of method.',
     [F_MF, F_LIB], [('thread-bound wrappers', F_MF)],
     'p_conc', 'Symbolic values; the four `_st` settings on the own or another thread, and all ordinary settings on another thread that also drops the mock, each with a second expectation behind it, for ' + SHAPES + '.',
     'the same harnesses, also with the nightly feature.', observe=['panics', 'runs of closures', 'aborts'])

prop('C17', 'The settings of an expectation do not depend on each other or on their order',
     'The call count, the matcher, the return value and membership in a sequence of an expectation can be set in any order (the sequence after the count) with the same effect on every later call, checkpoint and drop. '
     'Making one of the settings again replaces that one and leaves the others as they were.',
     ['inputs', 'programs', 'histories'], 'Every order of the settings, every subset that is made again, all bounds, keys, values and arguments.',
     'Tests write the settings in one customary order; a setting that resets another one shows only in the unusual ones.',
     [F_MF, F_LIB], [('the setters of expectations', F_MF), ('the setters of call counts', F_LIB)],
     'p_settings', 'All six orders of three settings with symbolic bounds, any matcher and any way of returning a value, one call and drop for ' + SHAPES + ', two calls on 8 kinds; all eight subsets of settings made again in all six orders, on 8 kinds; all twelve orders with a sequence, for both of two expectations, 3 calls, on 8 kinds.',
     'up to 4 calls, all kinds; also with the nightly feature.', observe=['calls', 'drop'])

prop('C18', 'Failure messages tell which call or expectation failed, and how',
     'The panic of a call that nothing serves, or that is out of sequence, shows the name of the method and the arguments of that very call in order (? for those that cannot be printed). '
     'The panic of an expectation with too few or too many calls names the method, describes the matcher with its operands, and gives the actual number of calls and the bound that was broken.',
     ['inputs', 'programs', 'histories'], 'Every argument, predicate operand and bound; matchers of every kind; every number of calls within the bound.',
     'A message with the wrong numbers or arguments still makes a should_panic test pass, and sends its reader after the wrong bug; tests pin a few constant messages.',
     [F_MF, F_LIB], [('descriptions of calls and expectations', F_MF), ('printing of arguments', F_LIB)],
     'p_messages', 'Symbolic arguments, keys and 64-bit bounds for 37 kinds of method; calls without any and with up to two other expectations; maxima 0..2 exceeded twice; minima unmet after 0 or 1 calls at drop or checkpoint, one or two expectations; a missing value; a sequence violation; seven arguments of seven types.',
     'maxima and calls up to 5; also with the nightly feature.', observe=['panic messages, whose symbolic integers are compared by the solver'])

prop('C21', 'What an expectation owns is kept while needed and freed exactly once',
     'Closures, matchers and values given to an expectation are freed when they are replaced, or at the latest when the mock is dropped, checkpointed or its context is dropped, exactly once each, also if that verification fails or a panic is unwinding. '
     'Until then calls, even failed ones, free nothing except the closure of a return_once that has run.',
     ['inputs', 'histories', 'fault_sequences', 'programs'], 'Every way of returning and matching, every argument, calls that are served or panic, every way a mock can end.',
     'A leak or an early free shows in no returned value; tests do not look.',
     [F_MF, F_MIS], [('storage of closures and values', F_MF), ('removal of expectations', F_MF)],
     'p_own', 'One expectation with any matcher and return setting (possibly replaced), up to 2 calls, then checkpoint, drop or unwinding; three expectations of which one is unmet, at checkpoint or drop; the number of heap blocks before and after a life, on 53 kinds; for ' + SHAPES + '. All memory accesses and frees are checked by the executor.',
     'up to 4 calls; also with the nightly feature.', observe=['which closures exist', 'number of heap blocks', 'invalid accesses and double frees'])

prop('C22', 'A doubled import denotes the mock under test and the original otherwise',
     'An import or type alias marked #[double] is left as it is without cfg(test), and with cfg(test) declares the same names with the same visibility and attributes, each for the mock (Mock and the name if it starts with an upper-case letter, mock_ and the name otherwise) of the item at the same path. '
     'Glob imports, plain names and other items are rejected.',
     ['inputs', 'programs'], 'Every name (its letters are symbolic), every tree of groups, paths and renames within the bound, prefixes, generics.',
     'Tests expand nine fixed items.',
     ['mockall_double/src/lib.rs'], [('rewriting of use trees and aliases', 'mockall_double/src/lib.rs'), ('naming of mocks', 'mockall_double/src/lib.rs')],
     'p_double', 'The source of the macro, compiled as an ordinary module together with syn, quote and proc-macro2, is executed on token streams: names of three characters with any first letter (and any first two) and twelve special ones; 15 prefixes and roots; renames; groups of depth 2; aliases with six kinds of generics; 17 kinds of item that are rejected; 4 syntax errors.',
     'groups of depth 3 and all prefixes with all letters.', observe=['the tokens the macro yields'], prepare=[['python3', 'double_src.py']], own_source=True,
     assume=['mockall_double is built as a module of the harness: attributes of the crate and of the macro entry point are left out, and proc_macro2’s own implementation of token streams stands in for the compiler’s.'])

NOT_APPLICABLE = {}
TECHNIQUE = 'symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3), counterexamples replayed natively'
NOTE = ('Bounded: every value of the symbolic inputs, every path and every listed choice within the stated bounds is covered; more calls, expectations, threads, preemptions and other mocked items are not. '
        'Trusts rustc’s LLVM IR, the executor in /verif/engine (compared with native runs on sample paths of every run), z3, and the stubs listed as assumptions.')
