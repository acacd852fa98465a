#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because the entries are long)."""
import json, os
H = "include/opt/option.hpp"
P = []


def p(id, title, statement, over, text, why, mech, observe, files=(H,), state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": list(files), "state": [dict(name=n, meaning=m, where=H) for n, m in state],
                          "mechanism": [dict(name=n, where=H) for n in mech], "observe_at": observe, "hook_needed": None}})


p("C01", "An option behaves as a sum type over every history of operations",
  "After any sequence of construction, assignment (of none, of a value, of another option), reset, emplace, try_emplace, take, take_if, swap and the value-returning "
  "operators and methods, an option is either empty or holds exactly the value last stored in it, and every query (has_value, operator bool, comparison with none, "
  "ptr_or_null, begin/end, get) agrees on which. This holds for every payload type the library supports, whether the empty state is kept in the payload's unused bit patterns or in a flag.",
  ["histories", "inputs"], "every sequence of operations on two options, for every supported kind of payload type and every initial pair of states",
  "The tests run each operation once or twice from a hand-picked state of a few types; state is shared between the value bytes and the empty marker, so errors show only in particular orders of operations on particular types.",
  ["option", "option_destruct_base", "option_base", "internal_option_traits"], ["has_value", "operator bool", "get", "ptr_or_null", "begin/end", "== none"],
  state=[("value bytes", "hold either the payload or the marker of emptiness"), ("flag", "present only for payloads without unused patterns")])
p("C02", "Every contained object is constructed once, destroyed once, never used dead",
  "Over every history of operations each payload object inside an option is constructed in storage that holds no live object and destroyed exactly once: when the option becomes "
  "empty, is overwritten by emplace, or dies. No operation reads, assigns to or compares a payload that is not alive, leaks or double-frees memory, or writes outside the option's own bytes.",
  ["histories"], "every operation sequence over payloads that are non-trivial in each way (with and without empty patterns, polymorphic, nested, composite, containers)",
  "Lifetime tests count constructor calls for a few calls in isolation; a missed or doubled destructor depends on which storage strategy, which side is engaged and what happened before.",
  ["option_destruct_base::reset", "construct_at", "option_assign_from_option", "option::swap", "option::emplace"], ["live object registry", "allocation balance", "address sanitizer"])
p("C03", "Exceptions leave options valid, with nothing leaked and no ghost value",
  "When an operation of the payload (constructor, assignment, allocation, callable) throws at any point of any operation of an option, the exception reaches the caller, and afterwards has_value() is true exactly if a live payload is stored. "
  "Assignment, swap and the value methods keep each option's engagement as it was, a failed emplace or construction leaves the option empty, and the options remain fully usable.",
  ["fault_sequences", "histories"], "every throw point (and every pair of throw points) of every operation in every short history, for every payload strategy",
  "Tests throw from at most one constructor in one situation; the marker of emptiness is overwritten by partially built payloads, so each throw point of each strategy has to be taken.",
  ["construct_guard", "option_destruct_base::construct", "option::emplace", "option_assign_from_option", "option::swap"], ["has_value after the exception", "live object registry"])
p("C04", "No valid payload value is ever mistaken for the empty state",
  "For every value a payload type can legitimately have, apart from the bit patterns documented as reserved, an option that holds it reports having a value and gives back the same value bit for bit. "
  "For floating point the only patterns lost are NaNs with the reserved payload (signaling by default, quiet with OPTION_USE_QUIET_NAN): no number, infinity, zero or ordinary NaN; for pointers, strings, views, vectors, member pointers, smart pointers and enumerations, no reachable value.",
  ["inputs"], "all 2^32 floats, all values of 8/16-bit types and enumerations, every exponent x structured mantissa for double, structured sets over all other payloads",
  "Tests store a few values; a shifted or widened reserved range swallows values no test names.",
  ["internal_option_traits", "option_traits::get_level", "option_traits::set_level"], ["has_value", "stored bytes"])
p("C05", "Every nesting depth of emptiness stays distinguishable",
  "In option<option<...<T>>> each of the states empty-at-depth-k and the innermost value is distinct: it is reported as such at each level, survives copying, moving, assignment and reset at any level, and changing the state at one depth affects no other depth. "
  "This holds however deep the nesting, up to and beyond the depth at which the unused patterns of the innermost type run out.",
  ["inputs", "histories"], "every payload strategy, every nesting depth in bounds, every state and every transition between states at every depth",
  "Tests nest two or three levels for a few types; level arithmetic errors appear at a particular depth or at the switch from patterns to a flag.",
  ["avaliable_option", "unavaliable_option", "reference_option", "option_traits::max_level"], ["has_value at each depth"])
p("C06", "Options take no extra space where documented, for every composition of types",
  "An option has the size of its payload exactly when the payload has unused patterns: for every type the documentation lists, and for every pair, tuple, array, tuple-like or nested option or aggregate built from such types. "
  "The number of levels such a composite offers is that of its best component (one less per option layer, one when an option falls back to a flag plus the flag's own), and writing the other components never changes emptiness.",
  ["programs", "inputs"], "every type term over the leaf types and the constructors pair, tuple, array, tuple-like, option up to a bound",
  "Tests check sizeof for individual types; the claim is about every composition, and picking the wrong component only shows for particular member orders.",
  ["find_max_level", "detemine_option_strategy", "internal_option_traits"], ["sizeof", "option_traits::max_level", "has_value"])
p("C07", "Copying copies, moving moves, and only the intended payload operation runs",
  "For every combination of user-provided, defaulted, throwing and missing copy/move operations of the payload: copying an option copies its payload and leaves the source unchanged, moving uses the payload's move operation if it has one and leaves the source engaged with the moved-from value, assignment between engaged options uses the payload's assignment, otherwise construction or destruction. "
  "The result holds the source's state and value in every case.",
  ["programs", "histories"], "every combination of special members x traits x engagement x copy/move construct/assign, from lvalues, const lvalues and rvalues",
  "The library picks one of ten storage specialisations from four triviality bits; the tests instantiate only some of them.",
  ["option_base", "option_assign_from_option", "option_construct_from_option", "enable_copy_move"], ["counts of payload operations", "value of both options"])
p("C08", "Access returns the very object, with the right category, or reports emptiness",
  "get, operator*, operator->, get_unchecked, value, value_or_throw, ptr_or_null and iteration all designate the one stored object, with the constness and value category of the option expression. "
  "value and value_or_throw throw bad_access exactly when the option is empty; value_or and value_or_construct return the stored value when there is one (moving it only from an rvalue) and otherwise a value built from the arguments; iteration visits zero or one elements and its iterators behave as random access iterators.",
  ["inputs", "programs"], "every accessor x value category x engagement x payload strategy",
  "Tests look at selected overloads; each accessor has four qualified overloads written separately.",
  ["option::get", "option::value_or_throw", "option::value_or", "option_iterator", "bad_access"], ["result types", "addresses", "exceptions"])
p("C09", "Monadic methods call the function exactly when specified and wrap its result",
  "map, and_then, or_else, map_or, map_or_else, filter, inspect, has_value_and and take_if call their function at most once, exactly when the option's state calls for it, with the stored object in the option expression's constness and value category (any callable: function, lambda, member pointer), and return what their definition over empty/engaged says. "
  "They leave the option itself unchanged, except that take_if empties it when the predicate holds and rvalue calls may move from the value.",
  ["inputs", "programs"], "every method x value category x engagement x kind of callable x payload strategy",
  "Each method has up to four overloads plus special cases for callables; tests sample them.",
  ["impl::option::map", "impl::option::and_then", "impl::invoke", "option::take_if"], ["calls seen by the callable", "result", "state of the source"])
p("C10", "Free combinators agree with their definitions for every mix of empty and engaged",
  "zip, zip_with, unzip, flatten, option_cast, make_option, from_nullable and as_option return an engaged option exactly when their definition says so, containing exactly the values (or references) of the arguments in order. "
  "They copy from lvalues, move from rvalues, call a supplied function at most once, and leave lvalue arguments unchanged.",
  ["inputs", "programs"], "every subset of empty arguments for every arity up to a bound x value categories x payload kinds x nesting depths",
  "Tests use one or two argument patterns per function.",
  ["zip", "zip_with", "unzip", "flatten", "option_cast", "make_option", "from_nullable", "as_option"], ["results", "arguments afterwards"])
p("C11", "The operators |, &, ^ and |= obey their truth tables for every operand",
  "For options a and b (and for a plain value on the right of |): a|b is a if engaged else b, a&b is b if a is engaged else empty, a^b is the engaged one if exactly one is, and a|=b stores b in a only if a is empty. "
  "Each takes the value from the operand the table names, copying from lvalues and moving from rvalues and touching no other operand.",
  ["inputs", "programs"], "all four value-category combinations x all engagement combinations x payload kinds",
  "Each operator is written out four times for the value categories; tests sample combinations.",
  ["operator|", "operator|=", "operator&", "operator^"], ["result", "operands afterwards"])
p("C12", "Comparisons are consistent with the payload and order empty before any value",
  "For every pair of options (also of different payload types), option and none, and option and value, on either side, each comparison operator yields what std::optional's yields: two values are compared by the payload's own operator of the same kind, empties are equal, and empty orders before every value. "
  "This includes partially ordered values such as NaN and payloads whose operators are unrelated to each other.",
  ["inputs"], "every operator x every pair of operands from a complete small domain x payload kinds",
  "Over forty operator overloads are written out by hand; tests check a few value pairs.",
  ["operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>="], ["result of every comparison"])
p("C13", "Hashing is consistent with equality and with the payload's hash",
  "Options that compare equal hash equal, for every payload type and history; an engaged option hashes like its value, an empty one to a constant, regardless of stale bytes. "
  "std::hash<option<T>> is usable exactly when std::hash of T (without const) is.",
  ["inputs", "histories"], "every pair of options over small domains and every way of reaching the same state",
  "Tests hash a handful of values.",
  ["std::hash<opt::option>"], ["std::hash results", "unordered containers"])
p("C14", "Options of references rebind, never copy or assign through",
  "An option of T& or T&& refers to the very object it was given, through every construction, assignment (which rebinds and never writes to the referent), copy, move, swap, conversion from non-const to const and derived to base, and every accessor. "
  "Constness of the option does not propagate to the referent, and only sources that are safe to bind (matching reference kind and convertible pointers, or a reference_wrapper) are accepted.",
  ["histories", "programs"], "every operation sequence over reference options and a pool of objects; every source type in the conversion matrix",
  "Tests rebind once or twice for one type.",
  ["option_base<reference>", "option_checks_base<true>", "ref_to_ptr"], ["addresses", "referent values", "is_constructible/is_assignable"])
p("C15", "Lookup helpers find exactly what is there and return a reference to it",
  "opt::at, at_front, at_back, lookup and get (on options of tuple-likes and on variants, by index and by type) return an engaged option exactly when the requested element exists, and it designates that very element, with the container's constness and value category. "
  "They never modify the container or access outside of it.",
  ["inputs", "programs"], "every container size and index in bounds (including huge indices) x container kinds x value categories; every variant alternative",
  "Tests use one container each.",
  ["opt::at", "opt::at_front", "opt::at_back", "opt::lookup", "opt::get"], ["engagement", "address of the element"])
p("C16", "Converting construction and assignment convert the value or stay empty",
  "option<T> built or assigned from a value, arguments or option<U> is engaged exactly when the source is (always, for a value) and holds the value T would have been built from; the source is moved from only if it was an rvalue. "
  "Which conversions are allowed, and whether implicitly, follows the same rules as std::optional's, including payloads that are themselves constructible from options, and bool.",
  ["programs", "inputs"], "every (T, source) pair of a type matrix x value category x engagement of both sides",
  "Tests exercise a few pairs; the constraint logic is template code that must be right for all.",
  ["option_checks_base", "check_from_value_ctor", "check_option_like_ctor", "option::operator="], ["is_constructible", "is_convertible", "is_assignable", "resulting state"])
p("C17", "Compile-time evaluation gives the same results as execution",
  "Every constexpr operation yields in a constant expression the same result as at run time, for payloads with a flag and payloads with constexpr traits, over every sequence of operations. "
  "Operations on such literal payloads are usable in constant expressions at all.",
  ["histories"], "all short operation sequences evaluated both by the compiler's constant evaluator and at run time",
  "constexpr tests evaluate a fixed list of expressions.",
  ["option (constexpr members)", "construct_at", "construct_with_level_at"], ["constexpr digest against run-time digest"])
p("C18", "Triviality, noexcept and availability of operations mirror the payload",
  "option<T> is copy/move constructible/assignable, destructible, swappable exactly when T permits it; each of these is trivial if T's (with the destructor, for assignment) is, and noexcept exactly when the payload operations it may run are. "
  "Nothing that cannot work is advertised as available.",
  ["programs"], "every combination of deleted/trivial/nothrow/throwing special members x traits or flag",
  "The mirror is assembled from ten specialisations plus eight deletion bases; tests check a few types.",
  ["option_base", "enable_copy_move", "enable_swap"], ["type traits"])
p("C19", "User-defined traits are called only within their protocol",
  "With user-provided traits, set_level is called only with levels below max_level and only on storage where no payload object is alive, get_level only on storage with a live payload or a level set, and option is empty exactly if get_level yields 0. "
  "sentinel, sentinel_f, member, enforce and sentinel_option_traits give exactly the documented levels, in order, and behave like the wrapped type otherwise.",
  ["histories", "inputs"], "all operation sequences over payloads with recording traits, for nesting depths and compositions; every level of every helper",
  "Tests define a few traits and check sizes and single operations.",
  ["option_traits", "sentinel", "sentinel_f", "member", "enforce", "sentinel_option_traits"], ["log of trait calls", "has_value"])
p("C20", "Stream helpers print or read the value, or the alternative, and nothing else",
  "Inserting opt::io(o) writes exactly what inserting the value writes, or nothing when empty; with an alternative, the alternative when empty; extracting through opt::io(o, alt) reads into the value when engaged and into alt when empty. "
  "The option's engagement never changes, the helper refers to its arguments and returns the stream.",
  ["inputs"], "every engagement x payload kinds x stream kinds x const/non-const x stream failure",
  "Tests print one value.",
  ["opt::io", "io_helper1", "io_helper2"], ["stream contents and state", "arguments afterwards"])
p("C21", "Behaviour is the same in every supported configuration",
  "A program's observable results do not depend on the compiler, language mode (C++17, C++20, C++23), optimisation, NDEBUG, forward declarations of std or the use of reflection; nor on disabling the built-in traits, apart from sizes and levels. "
  "Every configuration compiles the whole interface.",
  ["configurations", "histories"], "the product of the configuration switches, each run over the same set of operation histories and compared by digest",
  "The tests run in one configuration (gcc, Debug, sanitizers); release builds turn the checks into compiler assumptions.",
  ["OPTION_VERIFY", "OPTION_USE_BUILTIN_TRAITS", "OPTION_IS_CXX20", "OPTION_FORWARD_DECLARE_STD", "OPTION_USE_QUIET_NAN"], ["digests of observations"], files=(H, "include/opt/option_fwd.hpp"))
p("C22", "Misuse is diagnosed, and correct use never is",
  "With checks enabled, each access to the value of an empty option, each dereference or arithmetic on a value-initialised iterator, and each store of a value that equals the empty pattern is reported through OPTION_VERIFY. "
  "No operation used within its preconditions ever reports, and without a custom OPTION_VERIFY a report stops the program in debug builds.",
  ["inputs", "histories"], "every accessor x engagement x payload kind; every storing operation x reserved value; all operation histories for silence",
  "Tests do not cover failing checks, because they stop the program.",
  ["OPTION_VERIFY"], ["reports"])
p("C23", "Options work as elements of containers over every history",
  "Options stored in std::vector, std::map, std::unordered_set/map, std::array, std::tuple, sorted or used as keys behave as the sum of an empty element and the values, over every history of insertions, erasures, lookups, sorting and reallocation. "
  "No element is lost, duplicated, reordered or leaked.",
  ["histories"], "all operation sequences up to a depth on containers of options compared with the same sequence on an explicit model",
  "Tests never store options in containers.",
  ["option (copy, move, swap, comparison, hash)"], ["container contents"])
p("C24", "An option is a range of at most one element for every standard algorithm",
  "begin() and end() of a const or non-const option, of values or references, are contiguous random-access iterators over a range that holds exactly the contained value, or nothing: every standard algorithm, and in C++20 every ranges algorithm, view and std::span, "
  "gives on it the results and effects it gives on a container with that content, changes no engagement, and reports no misuse. All iterator operations (arithmetic, subscript, comparison, conversion to const, distance) obey the iterator requirements on both ranges.",
  ["inputs"], "every standard algorithm and iterator operation x engagement x value x const/non-const x payload kind (values, references, sentinels, move-only)",
  "Tests iterate in a for loop and compare a few iterators; algorithms use arithmetic, order, subscript, value_type and to_address, on empty ranges too.",
  ["option_iterator", "option::begin", "option::end", "enable_view", "enable_borrowed_range"], ["algorithm results", "contents afterwards", "reports"])
p("C25", "Operations touch only their own options, and reading never writes",
  "An operation reads and writes only the bytes of the options it is applied to (and what their payload's own operations reach). A const operation, and the const operand of any operation, is never written to, not even with the bytes that were there; "
  "so options may be read by several threads at once, different options may be modified at once, and an option can sit next to anything.",
  ["schedules", "inputs"], "every operation x states of both operands x payload kind and nesting x placement against either edge of its memory; through independence of accesses, all interleavings of such operations",
  "A write of unchanged bytes, or a read past the end, does not change any result; the tests are single-threaded.",
  ["option_traits::get_level", "option_traits::set_level", "ptr_to_aligned / memcpy helpers", "option_base"], ["page faults", "results", "bytes of const operands"])
p("C26", "Recursive structures linked by options survive every rearrangement",
  "Lists and trees whose links are options of an owning handle (unique_ptr, shared_ptr, vector of the incomplete node, copying box, pair or tuple with one) compile, and under every sequence of taking, moving, swapping, copying, splicing and rebuilding links they have exactly the structure the operations describe. "
  "In particular a link may be assigned from a link, or a payload, that it owns itself (head = std::move((*head)->next)), each node is destroyed exactly once, and none while reachable.",
  ["histories"], "every sequence of operations up to a depth on every pair of links of every small forest, for each way of owning the nodes",
  "No test has a recursive type; assignment from one's own descendants goes wrong only if the old value dies before the new one has been read.",
  ["option_assign_from_option", "option::take", "option::swap", "option::operator=(U&&)", "option_destruct_base::reset"], ["structure of the forest", "live nodes", "address sanitizer"])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
