import json
F9=["src/field/mod_e221_3.rs","src/field/mod_e222_117.rs","src/field/mod_e251_9.rs","src/field/mod_e255_19.rs","src/field/mod_e382_105.rs","src/field/mod_e383_187.rs","src/field/mod_e414_17.rs","src/field/mod_e511_187.rs","src/field/mod_e521_1.rs"]
CV=["src/curve/edwards.rs","src/curve/point.rs","src/curve/e_222.rs","src/curve/curve1174.rs","src/curve/e_382.rs","src/curve/curve41417.rs","src/curve/e_521.rs"]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
LAZY=[("limb array","little-endian limbs; the top limb may hold a positive or negative carry and the value may exceed the modulus","struct Mod_e*, field 0")]
p("C01","Any history of field operations computes the integers modulo p",
 "In each of the nine fields, any interleaving by any number of callers of add, subtract, negate, multiply, divide by a non-zero element, square, invert, residue symbol, square root of a residue and i8/i16/i32 small-number arithmetic, in any operator, by-reference, in-place or functional spelling, leaves every element equal to what the same history gives in the integers modulo that field's prime. This holds whatever un-normalised form the earlier steps left the operands in (including values at or above the prime, negative and pending carries), for every small integer including the extreme ones, and no step panics.",
 ["histories","schedules","inputs"],"every field, every finite history of operations over a shared set of elements, every order in which callers' operations interleave, every operand value and un-normalised representation such a history can reach",
 "The 121 unit tests combine 0, +-1, +-2, ... at depth one or two and always from normalised constants; they never reach deep un-normalised histories, large small-integers, negation, or most limb carries.",
 F9+["src/field/prime_field.rs"],[("operator impls and in-place arithmetic with lazy carries","src/field/mod_e*.rs: AddAssign, SubAssign, MulAssign, Neg, square, small_*_assign"),("normalisation","src/field/mod_e*.rs: Normalize::normalize")],LAZY,["packed bytes of a copy of every written element, after every step"])
p("C02","Checkpoint, crash and restart never change a computation",
 "A caller that serialises its elements at any moment, loses everything else in a crash, reloads the saved bytes and continues obtains exactly the results it would have obtained had it never been interrupted, in all nine fields. Saving is also invisible to the run that was not interrupted, and the bytes written are always the one canonical little-endian encoding, below the prime, of the element's value.",
 ["crash_points","histories","fault_sequences"],"every computation, every set of checkpoint and crash points in it, every torn or lost write the caller's storage detects, every un-normalised form at the moment of saving",
 "Tests round-trip ten fixed patterns per field; none continues a computation from reloaded bytes or saves an un-normalised intermediate.",
 F9+["src/pack.rs","src/normalize.rs"],[("canonical encoding","src/field/mod_e*.rs: Pack::pack, packed, pack_normalized"),("decoding","src/field/mod_e*.rs: Pack::unpack, unpacked")],LAZY,["durable bytes at each sync","packed bytes at each program step, against an uninterrupted twin"])
p("C03","Replicas that received the same contributions agree byte for byte",
 "Parties that fold the same multiset of field elements (sums, differences, integer-weighted sums or products) end with identical packed bytes that compare equal and equal the exact result modulo the prime, whatever order, grouping or intermediate party the contributions arrived through, and through whatever crash-restarts from serialised state. Parties whose folded totals differ modulo the prime never compare equal and never pack to the same bytes.",
 ["schedules","crash_points","fault_sequences"],"every delivery order, duplication, loss with retransmission, partition and relay grouping, every crash-restart point, all nine fields",
 "Whether two replicas agree depends on which lazily reduced form each delivery order leaves; tests fix one order of at most two operations.",
 F9+["src/normalize.rs"],[("normalising comparison","src/field/mod_e*.rs: NormalizeEq"),("associative, commutative arithmetic on lazy forms","src/field/mod_e*.rs: AddAssign, SubAssign, MulAssign, small_mul")],LAZY,["packed bytes and equality verdicts of all replicas after every delivery"])
p("C04","Concurrent callers never affect one another",
 "Callers running library operations at the same time on their own elements and points, while reading shared operands, each get exactly the results of running alone, under every preemption of one caller inside another's call when callers take turns on one thread or make their calls from inside another's entropy source or output sink, and after any call of another caller was abandoned by a failure or panic there. Shared read-only operands and the library's constants are never modified, and every call completes.",
 ["schedules","fault_sequences"],"every interleaving of the callers' memory accesses and branches, for every mix of field, curve, random-generation, encoding and formatting calls",
 "The test suite runs each test's operations on one thread against its own values and never preempts a call; a hidden shared scratch, cache or global would pass it.",
 F9+CV,[("operations use only their arguments and the stack; constants are copied","src/field/mod_e*.rs, src/curve/edwards.rs: no statics or interior mutability")],None,["per-caller transcript of packed results against that caller's solo run"],"point coordinates through the guarded accessor in src/curve/edwards.rs")
p("C05","Random elements stay valid and private to their entropy source under faults",
 "Generating a random element from any entropy source, healthy, biased, stuck, short-period, slow or re-entering the library, that yields a result at all yields an already normalised element below the prime, determined only by the words that source delivered, and a healthy source is asked for only a bounded number of words even after a stuck spell. If the source panics the panic reaches the caller, no element is produced and later calls are unaffected. From a healthy source no bit of the result below the prime's width is stuck, visibly biased or determined by other bits, and results do not repeat.",
 ["fault_sequences","histories"],"every stream of entropy words and every fault placed at any draw, all nine fields",
 "No test generates a random element at all.",
 F9,[("per-limb sampling","src/field/mod_e*.rs: Rand::rand")],None,["generated element, words drawn, and elements generated afterwards"])
p("C06","Formatting survives any sink failure without losing or inventing output",
 "Hexadecimal formatting of an element writes exactly its canonical encoding, most significant byte first, two digits per byte, in the requested case, whatever un-normalised form the element is in. If the sink fails after accepting any prefix, formatting reports the failure, has delivered exactly that prefix and writes nothing more, for debug output as well. Formatting never changes the element and a failed or panicking sink leaves the next attempt unaffected.",
 ["fault_sequences","histories"],"every sink failure point, short acceptance, panic or re-entrant sink, every element form, all nine fields, the three formats",
 "No test formats an element or uses a failing writer.",
 F9,[("writer error propagation","src/field/mod_e*.rs: Debug, LowerHex, UpperHex")],None,["bytes accepted by the sink, the returned result, the element's packed bytes afterwards"])
p("C07","Damaged or hostile encodings never yield a wrong or invalid element",
 "Decoding any buffer at least as long as the encoding, however corrupted in transit, reads only the encoding's bytes and yields a usable element equal modulo the prime to the little-endian number in the low bits up to the field's width, ignoring stray higher bits, regardless of what the target held before and of whether the in-place or functional form is used. A buffer shorter than the encoding is refused by a panic, in decoding and in encoding, without disturbing any other element, and encoding into a longer buffer leaves the excess bytes untouched.",
 ["fault_sequences","inputs"],"every corruption (bit flips, truncation, extension, splicing, replay of another field's encoding, all-ones, values at or above the prime) of every stored or transmitted encoding, followed by any computation",
 "Tests decode eight valid patterns per field from exact-length buffers.",
 F9+["src/pack.rs"],[("masked limb extraction and indexed reads","src/field/mod_e*.rs: Pack::unpack"),("indexed writes","src/field/mod_e*.rs: Pack::pack_normalized")],None,["decoded element via its canonical bytes and through later arithmetic; target buffers"])
p("C08","Key agreement reaches one secret in any message order",
 "On each of the five Edwards curves, any set of parties that multiply the base point, or any other point of the curve, by their secret scalars, each applying its factor in whatever order messages happen to arrive and across crash-restarts, all arrive at the same point: the exact multiple by the product of the scalars. This holds for every scalar including 0, 1, values up to and above the group order and un-normalised ones, and scalar multiplication returns the same point for the normalising and the pre-normalised entry point.",
 ["schedules","crash_points","inputs"],"every order in which the parties' factors are applied, every crash-restart and message fault, every scalar and starting point, all five curves",
 "Nothing under src/curve has a test: scalar multiplication, its ladder and the curve constants are only compiled.",
 CV+F9,[("branchless ladder","src/curve/edwards.rs: scalar_mult_normalized"),("curve coefficients and base points","src/field/mod_e*.rs: *_D, *_BASE_X, *_BASE_Y")],[("extended coordinates","x=X/Z, y=Y/Z, T=XY/Z","src/curve/edwards.rs: EdwardsExtended")],["affine coordinates of every party's point"],"accessor for the private extended coordinates, cfg(safecurves_sim)")
p("C09","Point accumulation follows the curve's group law in any order",
 "On each of the five Edwards curves, replicas that fold the same points with any mix of addition spellings, doublings and triplings, in any delivery order and grouping, hold the same point: the exact sum in the curve's group, with the identity neutral and inverses cancelling. Every point so produced lies on the curve and has consistent extended coordinates (non-zero Z and T*Z = X*Y), including for the identity, points of small order and points built directly from affine coordinates.",
 ["schedules","histories","fault_sequences"],"every delivery order, duplication handled by the parties, grouping and crash-restart, every history of add/double/triple, all five curves and user-defined Edwards curves",
 "Nothing under src/curve has a test; add, double, triple, the identity and the affine constructor are only compiled.",
 CV,[("unified extended-coordinate addition, doubling, tripling","src/curve/edwards.rs: add_assign, double, triple"),("identity and affine constructor","src/curve/edwards.rs: zero, init")],[("extended coordinates","x=X/Z, y=Y/Z, T=XY/Z","src/curve/edwards.rs: EdwardsExtended")],["extended coordinates of every replica after every step"],"accessor for the private extended coordinates, cfg(safecurves_sim)")
p("C10","Observing an element never changes a computation, whenever it is done",
 "Normalising, comparing, testing bits, packing or printing an element, and masked selection with all-ones or all-zeros masks, inserted at any points of any computation change no later result. Every such observation depends only on the element's value modulo the prime, not on how it was reached: equality is equality modulo the prime, bits and bitwise and/or are those of the canonical value, normalising is idempotent and gives the same representation for equal values. After any operation documented to normalise an element, the operations for already normalised elements may be used on it and give its canonical value.",
 ["histories","schedules"],"every placement of observations in every history, every pair of un-normalised forms, every bit index below the field's width, all nine fields",
 "Tests compare freshly built small values; no test reads bits, masks, or observes mid-computation.",
 F9+["src/normalize.rs","src/field/prime_field.rs"],[("in-place lazy normalisation","src/field/mod_e*.rs: Normalize, NormalizeEq, bit, normalize_bitand, normalize_bitor"),("masks","src/field/mod_e*.rs: fill, filled")],LAZY,["observation results and later packed bytes against a twin run without observations"])
p("C11","A co-scheduled observer sees the same progress whatever the secrets are",
 "Under any fixed preemption schedule, the code locations at which a caller is stopped, and the memory addresses it touches, during field arithmetic (including negation, division, inversion, square root, residue symbol and small-number operations), normalisation, bit reading, mask selection, encoding, decoding, point addition, doubling, tripling or scalar multiplication depend only on which operations it called, never on the operand or scalar values. In particular the amount of work done by scalar multiplication is the same for every scalar and point, including zero, small and sparse scalars.",
 ["schedules","inputs"],"every preemption schedule and every pair of secret operand assignments to the same sequence of calls, in the optimised build",
 "Tests look only at results, never at the path taken; one run cannot show that two runs take the same path.",
 F9+CV,[("branchless ladder and masks","src/curve/edwards.rs: scalar_mult_normalized; src/field/mod_e*.rs: filled, normalized_bitand, normalized_bitor"),("fixed exponent chains and straight-line limb arithmetic","src/field/mod_e*.rs: invert, square, mul_assign")],None,["the scheduler's log of preemption points"],None)
p("N01","Published field and curve constants are the standard ones",
 "The exported moduli, curve coefficients, base points and subgroup orders are those of the published curves.",
 ["configurations"],"every exported constant",
 "Tests do not check curve constants against the standards or against the curve equation.",
 F9,[("constants","src/field/mod_e*.rs: pub const")])
p("N02","Random elements are exactly uniform over the field",
 "From ideal entropy every residue modulo the prime is produced with exactly equal probability.",
 ["inputs"],"the distribution over all entropy streams",
 "No test generates a random element; a distribution cannot be settled by samples.",
 F9,[("per-limb sampling","src/field/mod_e*.rs: Rand::rand")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
