import json
L="src/libeopsi/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":[L+f for f in files],"mechanism":[{"name":n,"where":L+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":L+w} for n,m,w in state]
    a["observe_at"]=obs or ["the public C++ API (values returned, exceptions, messages delivered, process ending)"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","The requester gets exactly the elements both clients have",
 "When a client asks another one for a private set intersection through a cloud to which both outsourced their blinded data, the requester's reported intersection is exactly the set of the elements present in both raw collections, each once and in its original value. The delegate's own reported intersection stays as it was. This is so for every prime field with a sufficient padding, number and size of buckets, degree of at least twice the load plus one, hash algorithm, identity, secret and pair of collections which fit the buckets.",
 ["inputs","configurations"],"all pairs of collections (disjoint, equal, nested, with duplicates, full buckets, 0 and maximal values), fields, shapes, algorithms, identities and secrets",
 "The tests run one simulation with fixed sizes, whose program does not fail on wrong or missing elements beyond a count; a value-, size- or shape-dependent loss or false element goes unseen.",
 ["eopsiclient.cpp","eopsiserver.cpp","eopsiparty.cpp","zzppoly.cpp","hashbuckets.hpp","zzprf.cpp","zzpprf.cpp"],
 [("blinding by padded roots and masks","eopsiclient.cpp:blind"),("cloud and delegate combinations","eopsiparty.cpp:computeTOrQ"),("difference, factorisation and pad filter","eopsiclient.cpp:intersect"),("padded roots","zzppoly.cpp:findIntersection")])
p("C02","Every run of a history gives the current intersection, nothing else changes",
 "In any sequence of protocol runs between any clients of a system, each run gives its requester the intersection of the two collections outsourced last, whatever ran before, and in whichever order the cloud's and the delegate's answers arrive. One of the two answers alone changes nothing. A client's reported intersection changes only by a completed run requested by it: not by other clients' runs, refused messages, renewed data, or clients joining. A copy of a client or of a cloud is worth its original: it has the same data, secret and result, and runs with it give what those with the original would, also once the original is destroyed.",
 ["histories","schedules"],"all interleavings of runs, delivery orders of the two answers, refused messages, data outsourced again and identities renewed",
 "The tests run the protocol once per process; state which survives a run (pending answers, cached points, stored data, message objects) is never exercised twice.",
 ["eopsiclient.cpp","eopsiserver.cpp","eopsiparty.cpp"],
 [("pending answers, consumed in pairs","eopsiclient.cpp:receive"),("stored data by identity","eopsiserver.cpp:receive")],
 [("pending answers","what arrived of the cloud's and the delegate's answers","eopsiclient.h"),("intersection","result of the last complete run","eopsiclient.h"),("stored data","last data of each identity","eopsiserver.h")])
p("C03","Blinded data encode exactly the client's collection under its secret",
 "The blinded data of a client are, for each bucket j of its table and each public point x_i, P_j(x_i) + F(s, j*degree+i): F is the field pseudo-random function under the client's secret s reduced to the field, x_i is the pseudo-random function of seed 4 and index i, and P_j is the monic polynomial whose roots are exactly the elements of bucket j shifted left by the padding (field bits - data bits - 1) and fillers which are no padded elements, as many roots as the maximum load. The raw data, their size and the blinded size (degree times buckets) are reported unchanged, whatever number of threads is asked and however the secret was given (number or little-endian bytes). Setting no data changes nothing. Clients built from another one, or assigned, have the data, blinded data and secret of the original, which may be gone.",
 ["inputs","configurations"],"all collections, secrets, fields, table shapes, algorithms and thread counts",
 "No test looks at blinded data; an element dropped, moved or masked with a wrong or repeated mask shows only for particular values, shapes or secrets.",
 ["eopsiclient.cpp","eopsiparty.cpp","ntlmiss.cpp","hashbuckets.hpp","zzpprf.cpp"],
 [("padding, tables, interpolation points, masks","eopsiclient.cpp:blind"),("public points","eopsiparty.cpp:generateUnknowns"),("padding","ntlmiss.cpp:zeroPad")])
p("C04","Cloud's and delegate's answers are the prescribed combinations under one key",
 "Given a key k, the answer for bucket j and point i is a + A*wA(x_i) + B*wB(x_i), where a is the pseudo-random function of k and index j*degree+i, and wA and wB are monic polynomials of degree 'load' whose lower coefficients are the pseudo-random function of k at indexes starting at L*degree + load*j and at 2*L*degree + load*j (L the number of buckets). The cloud computes it with A the stored data of the sender of its request (the delegate) and B those of the named partner (the requester), and the delegate computes it with A its own masks and B the masks of the requester's secret, with the same key; data stored are not changed by it.",
 ["inputs","histories"],"all keys, outsourced matrices, secrets, shapes and sequences of requests",
 "The tests see only whether some intersection comes out; an error common to both sides, or dependent on the key's or an index's bytes, cancels out or is rare.",
 ["eopsiparty.cpp","eopsiserver.cpp","eopsiclient.cpp","zzprf.cpp"],
 [("combination","eopsiparty.cpp:computeTOrQ"),("masking polynomials","eopsiparty.cpp:genOmega"),("delegate's masks","eopsiclient.cpp:delegationOutput"),("cloud","eopsiserver.cpp:intersectionOutput")])
p("C05","A run has exactly the prescribed messages, a fresh key, and keeps secrets",
 "A computation request makes the delegate send exactly one request to one cloud it authenticated (its identity, a zero byte, the requester's identity, a zero byte, a key of 16 bytes, a zero byte; length of that), the cloud send exactly one output to the requester, and the delegate then send exactly one polynomial to the requester, each under its sender's identity, and nothing else to anybody. Keys always use their full 128 bits and are fresh for every run. No message a cloud receives contains a client's secret.",
 ["histories","configurations"],"all sequences of runs among any clients and clouds, identities and secrets",
 "The tests check no message; a reused or shortened key, a leak to the cloud or an extra message does not change the intersection.",
 ["eopsiclient.cpp","eopsiserver.cpp","eopsimsg.cpp"],
 [("request to the cloud and key","eopsiclient.cpp:receive"),("output to the partner","eopsiserver.cpp:receive")],
 obs=["messages delivered, through overridden receive()"])
p("C06","Messages of unauthenticated senders or wrong kinds are refused, no effect",
 "A party accepts a message only if it authenticated the claimed sender (authentication is directed, and by identity) and the kind is allowed: clients accept computation requests and polynomials of clients and outputs of servers; servers accept outsourced data and cloud requests, and outputs of servers, of which those between servers are then refused as unsupported. The authorisation query answers just that (a null message is never authorised). Refused messages raise a protocol exception, cause no delivery to anybody, and leave all the stored data and results as they were.",
 ["histories","inputs"],"all authentication relations, claimed senders, kinds (also unknown numbers) and histories of attempts",
 "The tests authenticate all the parties with one another and send only legal messages.",
 ["eopsiclient.cpp","eopsiserver.cpp","eopsiparty.cpp"],
 [("client's rule","eopsiclient.cpp:isAuthorised"),("server's rule","eopsiserver.cpp:isAuthorised"),("registry","eopsiparty.cpp:authenticate")])
p("C07","Malformed or unsatisfiable requests are refused, never crash, leave no trace",
 "For every sequence of bytes as the content of a computation request to a client or of a cloud request, with its true length, the receiver either acts on the identities and key (or secret) it spells, or refuses with a protocol exception: requests cut short, whose first identity is not the sender's, naming a partner the cloud does not know or which (or whose partner) has outsourced nothing, messages without data, null messages and messages under the receiver's own identity are refused. It never reads outside of the content. After any refusals the following runs give the exact intersections.",
 ["inputs","fault_sequences"],"all contents (prefixes, mutations, random bytes, mismatched names) and sequences of refused requests",
 "The tests send only well formed requests.",
 ["eopsiclient.cpp","eopsiserver.cpp"],
 [("checks of a delegate","eopsiclient.cpp:receive"),("checks of a cloud","eopsiserver.cpp:receive")])
p("C08","The cloud uses each client's latest accepted data, and nobody else's",
 "A cloud's answer about two clients uses the data each one outsourced last to that very cloud in an accepted message, found by exact identity; data refused, of other identities (also prefixes or extensions of one another) or given to other clouds never matter. The answer goes to the partner named, the party authenticated last under that identity, and computing it changes no stored data.",
 ["histories"],"all histories of outsourcing (again, replaced, refused, by strangers, to several clouds) and requests",
 "The tests outsource each data set once, to one cloud, under two different identities.",
 ["eopsiserver.cpp","eopsiparty.cpp"],[("storage by identity","eopsiserver.cpp:receive"),("lookup","eopsiserver.cpp:intersectionOutput")],
 [("stored data","message last accepted of each identity","eopsiserver.h")])
p("C09","The integer pseudo-random function is pure in seed, index and length",
 "Given a seed, an index and a length of n > 0 bits, the result is the first n bits (as a little-endian number) of the chain SHA1(seed || index), SHA1 of that digest, and so on, where the seed is its minimal little-endian bytes and the index 8 little-endian bytes. It does not depend on earlier calls, on the instance, or on copies and assignments of it. With an automatic seed, the seed is drawn once per instance, and copies continue with it; the default seed is 0.",
 ["inputs","histories"],"all seeds (of any size), indexes up to 2^64-1, lengths, and interleavings over instances and copies",
 "The tests print a few values of one instance; buffers which are reused between calls of different lengths are not exercised.",
 ["zzprf.cpp","prf.hpp","shabyte.cpp"],[("chained digests and cut","zzprf.cpp:generate"),("automatic seed","prf.hpp:generate")],
 [("buffers","input and output, grown on demand","zzprf.h")])
p("C10","The field pseudo-random function is pure, in range, and does not repeat",
 "Given a seed, an index and a length, the result is the integer pseudo-random function of the seed's representative with that length, or with the bit length of the modulus when the length is 0 or beyond it, reduced to the field. It does not depend on earlier calls, instance or copies. Automatic generation uses the indexes 0, 1, 2, ... under one seed drawn once per instance, also across copies and assignments (which continue on their own), so that it does not repeat values; the default seed is 1 and the modulus is reported as set.",
 ["inputs","histories"],"all fields, moduli (also other than the field's), seeds, indexes, lengths and interleavings",
 "The tests print a few values for one prime.",
 ["zzpprf.cpp","zzprf.cpp","prf.hpp"],[("length and reduction","zzpprf.cpp:generate"),("automatic index and seed","prf.hpp")])
p("C11","SHA hashing gives the standard digest of exactly the given bytes",
 "Hashing a string, a byte array, or a field element (its decimal digits) gives the standard SHA-1 or SHA-256 digest, per the flavour chosen (SHA-1 by default and for flavours which are no SHA), of the value, or of its first n bytes or digits when a length 0 < n shorter than the value is given; byte arrays of no bytes or null give no digest. The digest size is 20 or 32 bytes, the readable digest is upper-case hexadecimal, two digits per byte, and the name starts with SHA and contains 256 just for SHA-256. Results do not depend on earlier calls or other instances, copies included, and the digest of one instance may be the input of its next call.",
 ["inputs","histories"],"all contents and lengths (block boundaries, zero bytes), truncations, flavours, and interleavings over instances and copies",
 "The tests hash a few short texts with fresh objects.",
 ["sha.hpp","shastr.cpp","shabyte.cpp","shazzp.cpp","hashalgorithm.hpp"],[("digests","shastr.cpp, shabyte.cpp, shazzp.cpp"),("flavours and names","sha.hpp")])
p("C12","MurmurHash3 hashing is the published x64 128-bit function",
 "The digest of a field element is MurmurHash3_x64_128 (16 bytes: both halves in little-endian order) of its decimal digits, or of their first n when 0 < n is less than their number, under the instance's 32-bit seed. It does not depend on earlier calls or other instances, reads no byte beyond the digits, and instances without a given seed take one from the clock's seconds, so that ones of the same second agree.",
 ["inputs","histories"],"all numbers (of every length modulo 16), truncations, seeds and interleavings",
 "The tests compare no digest with known values.",
 ["murmurhash3.cpp"],[("body, tail and finalisation","murmurhash3.cpp"),("wrapper and truncation","murmurhash3.cpp:hash")])
p("C13","A hash table keeps every element once, in the bucket its digest prescribes",
 "After any sequence of insertions (single, lists, directly to a bucket) and changes of the algorithm, each bucket contains exactly the elements inserted directly to it and those whose digest under the algorithm current at that moment, as a little-endian number, is congruent to its number modulo the number of buckets, with their multiplicity. Without an algorithm it is bucket 0, and a null algorithm changes nothing. The size is the number of elements inserted; buckets are handed out as copies, so changing them does not change the table; the number of buckets and the maximum load are reported as given. Copies of a table, built or assigned, have its buckets, sizes and algorithm, and then change on their own.",
 ["inputs","histories"],"all table shapes, digests of any size, elements and sequences of operations",
 "The tests add elements of one kind to one table and look only at statistics.",
 ["hashbuckets.hpp","hashtable.hpp","markedvector.hpp","strint.cpp"],[("placement","hashbuckets.hpp:add"),("access","hashtable.hpp")],
 [("buckets","elements of each bucket","hashtable.hpp")])
p("C14","A table never exceeds its capacity: overflow ends the program, nothing else",
 "A bucket takes exactly the maximum load of elements. One more, in whatever way it is inserted (also by a client's data), or a bucket number beyond the last, is a fatal out-of-bound exception which ends the process with exit code 1, without memory errors; every insertion and access within the bounds succeeds.",
 ["inputs","histories"],"all table shapes, ways of insertion, orders and positions of the overflow",
 "The tests overflow nothing.",
 ["hashbuckets.hpp","hashtable.hpp","outofboundex.cpp","exception.cpp"],[("capacity and index checks","hashbuckets.hpp:addToBucket, hashtable.hpp"),("fatality","exception.cpp:handleFatality")])
p("C15","Concealing fills every bucket to the same size and loses or moves nothing",
 "After concealing, every bucket has exactly the maximum load of elements: its original ones with their multiplicity, and fillers for the rest: the consecutive automatic draws of the given generator, as many as there are free places, each used exactly once (also when the generator repeats itself). Exactly the buckets which were empty are marked. Concealing again changes nothing, and the reported size stays the number of elements inserted.",
 ["inputs","histories"],"all table shapes and occupations, generators, repeated concealing",
 "The tests conceal one table and do not look at its buckets.",
 ["hashbuckets.hpp","markedvector.hpp"],[("filling and marks","hashbuckets.hpp:conceal")])
p("C16","The printed statistics of a table are those of its buckets",
 "The statistics print the number of buckets and their maximum load, the total and its percentage of the capacity, the least and greatest bucket size each with the number of a bucket having it, the mean, variance and standard deviation of the sizes (population, about the mean), and the number and size of the buckets in order: all when asked for or when fewer than 30, else the first 30 followed by dots. Printing changes nothing.",
 ["inputs"],"all table shapes and occupations",
 "The tests print statistics but compare no figure.",
 ["hashbuckets.hpp"],[("figures","hashbuckets.hpp:printStats")])
p("C17","StrInt is the natural number of its bytes, exactly, at every size",
 "A StrInt built or set from bytes is their little-endian value, of at most as many bytes as its size (the first ones); nothing set, null or no bytes is 0 (built with a size of no byte: size one, value 0); set from an integer it is that integer. Adding and incrementing are exact without bound; the remainder by every divisor, the low word of 64 bits, the decimal text (also when streamed), the least number of bytes (at least one) and the big-endian bytes are those of that value. Conversion to bytes writes into the caller's buffer when its stated length suffices and then returns that buffer, never writes beyond, else returns a new one, and gives the length used. Copies, built or assigned, have the same value and then are numbers of their own.",
 ["inputs","histories"],"all sizes, contents (carries, zero bytes at either end) and sequences of operations",
 "The tests convert a few numbers.",
 ["strint.cpp"],[("sum by halves","strint.cpp:set"),("export","strint.cpp:toBytes")],
 [("number","GMP integer, and scratch numbers","strint.h")])
p("C18","The number helpers are exact for all sizes",
 "For natural numbers of any size: the base-2 logarithm is its floor (0 for 0 and 1), the blocks of a bit length are it divided by the block size, rounded up, the bytes of a bit length, integer or field element are its bits divided by 8, rounded up; zero-padding shifts left by exactly the given bits without changing its argument, padding to a size n gives a number of n-1 bits with the same leading bits when n exceeds the length and else the number itself; counting the zeros gives the number of trailing zero bits (0 for 0). Vectors and arrays convert to field vectors with the same length and values in order, replacing what was there; a printed array lists the decimal numbers as '[ a, b ]' or '[]'.",
 ["inputs"],"all numbers of up to thousands of bits, sizes and vectors",
 "The tests call a few of them with one value each.",
 ["ntlmiss.cpp"],[("helpers","ntlmiss.cpp")])
p("C19","The polynomial batch finds exactly the padded roots",
 "After interpolating polynomials through given points and values, making them monic (at once or later) and factoring them by either algorithm, the roots found are exactly, for each polynomial, the distinct roots in the field which are 0 or have at least the padding's number of trailing zero bits, shifted right by the padding; finding them in one call gives the same. This is so however the batch was used before, for any number of polynomials; between an interpolation and the factorisation nothing is found. The number of polynomials, the padding and the description are those of the last ones. Copies of a batch go on with the same polynomials, on their own.",
 ["inputs","histories"],"all polynomials (with irreducible factors, repeated roots, zero roots, constant ones, of full degree), fields, paddings and sequences of uses",
 "The tests factor a few random polynomials and print times.",
 ["zzppoly.cpp"],[("filter of roots","zzppoly.cpp:findIntersection"),("batch state","zzppoly.cpp:interpolate, factorise")],
 [("factors","those of the current polynomials","zzppoly.h")])
p("C20","The chronometer reports the elapsed intervals, without the paused ones",
 "Starting, stepping, pausing, continuing, stopping and resetting in any order take times as documented: start begins anew, step and continue start a chronometer with no times and do nothing on a stopped one, pausing twice or before the start is ignored, stopping takes a last time unless paused, and names refer to the time taken with them (last use). An interval is the time between two consecutive times taken, in microseconds; number 0, or an unknown name, is the last interval, one beyond the last is 0; cumulative times count from the first time to the one asked (number 0: to the last), without intervals between a pause and the next time unless asked for. Average, population variance, standard deviation, minimum and maximum are over all the intervals, or those not paused (the default); 0 when there is no interval.",
 ["histories","inputs"],"all sequences of operations, names and elapsed times on a virtual clock",
 "The tests use real time and can check no value.",
 ["simplebm.cpp"],[("times and pauses","simplebm.cpp:takeTime"),("figures","simplebm.cpp")],
 [("times, pauses, names","what was taken","simplebm.h")])
p("C21","Exceptions carry their message, and fatal ones end the process",
 "An exception reports the message, fatality and exit code it was given (defaults: empty, not fatal, 1), and what was set later, also when copied, thrown and caught as its own type, the base exception or a standard exception; its description is its message. Protocol and out-of-bound exceptions are caught as themselves and as the base, never as one another; the latter has a default text when given none, and code 1. Building a fatal one, of any type, ends the process with its exit code after writing its message to the standard error; building others never does.",
 ["inputs","histories"],"all messages, codes, fatalities, types, and sequences of changes",
 "The tests throw a few exceptions with fixed texts.",
 ["exception.cpp","outofboundex.cpp","protocolex.h"],[("fatality","exception.cpp:handleFatality"),("default text","outofboundex.cpp")])
p("C22","No use reads or writes outside of its objects, or uses undefined values",
 "For every history of uses of the public API (also with refused and malformed messages, overflows, copies and objects used again) no access is made outside of live objects, no memory is freed twice or with the wrong operator, no result or decision depends on uninitialised memory, and no operation with undefined behaviour is done.",
 ["histories","inputs","fault_sequences"],"all API histories the other properties range over",
 "The tests run uninstrumented: bad reads and uninitialised values mostly go unnoticed.",
 ["eopsiclient.cpp","eopsiserver.cpp","eopsiparty.cpp","murmurhash3.cpp","zzprf.cpp","prf.hpp","strint.cpp","zzppoly.cpp","hashbuckets.hpp","simplebm.cpp","shabyte.cpp"],
 [("manual buffers","zzprf.cpp, shabyte.cpp, strint.cpp, zzppoly.cpp, eopsiclient.cpp")],obs=["sanitizer and memcheck reports"])
p("C23","Repeating the same work does not use more and more memory",
 "Repeating complete protocol runs (answers delivered in any order), refused or malformed messages, answers which replace others that wait, outsourcing again, copying, building and destroying parties and tables, building, using and destroying objects of any class of the library, or using the same objects again and again leaves the amount of allocated memory bounded: it does not grow with the number of repetitions.",
 ["histories"],"all repeated histories of complete operations",
 "The tests are short processes which exit without looking at memory.",
 ["eopsiclient.cpp","eopsiserver.cpp","eopsiparty.cpp","hashbuckets.hpp","strint.cpp","zzprf.cpp","zzppoly.cpp","shabyte.cpp"],
 [("ownership of answers and requests","eopsiclient.cpp:receive, eopsiserver.cpp:receive"),("destructors","hashbuckets.hpp, strint.cpp, zzprf.cpp, zzppoly.cpp")],obs=["bytes allocated, counted by the allocator"])
p("C24","Objects of different threads do not influence one another, and do not race",
 "Threads which use separate objects of the library concurrently (complete protocol systems, pseudo-random functions, digests, tables, numbers, polynomials, chronometers, exceptions), each with the field set in its own thread, get the same results as alone, and there is no data race.",
 ["schedules","histories"],"all interleavings of threads with separate objects",
 "The tests are single-threaded.",
 ["zzprf.cpp","shabyte.cpp","shastr.cpp","shazzp.cpp","murmurhash3.cpp","hashbuckets.hpp","strint.cpp","eopsiclient.cpp","zzppoly.cpp"],
 [("no shared mutable state","buffers are members of each object")],obs=["ThreadSanitizer reports, results of each thread"])
p("C25","Parties and messages report exactly what they were given",
 "A party's identity, type, field size, degree and (for clients) secret are those it was built with or set last. It has authenticated exactly the identities, other than its own, which the parties it was asked to authenticate had at that moment, and answers so for parties and for identities. A party built from another one, or assigned, has the same properties and has authenticated the same, and then changes on its own. A message reports its kind, party identity, data and their length as built or set last (unknown kind, no identity and no data by default), copies do the same, and sending delivers that very message once to the named receiver; sending null is refused with a protocol exception, and the receiver's protocol exceptions reach the sender.",
 ["histories","inputs"],"all sequences of building, setting, copying, authenticating, querying and sending",
 "The tests set each property once and query nothing back.",
 ["eopsiparty.cpp","eopsimsg.cpp","eopsiclient.cpp"],[("registry","eopsiparty.cpp:authenticate"),("envelope","eopsimsg.cpp"),("delivery","eopsiparty.cpp:send")],
 [("registry","identity to party","eopsiparty.h")])
p("C26","A failed allocation ends the process with code 2 or throws std::bad_alloc",
 "When the memory which an operation of the library asks for cannot be had, the operation ends in one of two ways: the process ends with exit code 2 after a message on the standard error, or std::bad_alloc reaches the caller. It never ends the process in another way, crashes, throws something else, or goes on with other results or effects than with enough memory. After std::bad_alloc all the objects involved can still be destroyed, and what only computes or reads (digests, pseudo-random numbers, number helpers, queries) gives the right results again once there is memory.",
 ["fault_sequences","histories"],"all operations, and for each of them all its allocations (of the library's own objects and containers), failing once or for the rest of the operation",
 "No test makes an allocation fail: none of the handlers ever runs.",
 ["hashalgorithm.hpp","hashbuckets.hpp","eopsiclient.cpp","eopsiparty.cpp","zzppoly.cpp","zzprf.cpp","strint.cpp","murmurhash3.cpp","shazzp.cpp"],
 [("handlers of bad_alloc","eopsiclient.cpp:blind"),("handlers of bad_alloc","hashbuckets.hpp"),("texts of numbers in streams","murmurhash3.cpp:hash"),("texts of numbers in streams","shazzp.cpp:hash")],
 obs=["exit status and standard error of child processes, exceptions, results, AddressSanitizer reports"])
import os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(ROOT+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
# manifest
note={
"default":"Exploration: every observed execution of the real library (compiled with ASan, UBSan and container checks from the current tree) agreed with an independent model; unobserved inputs are not covered. Trusts the models in lib/, Python's hashlib and NTL/GMP arithmetic used for text conversion.",
"C22":"Exploration: no report of clang's ASan+UBSan, nor of valgrind's memcheck on an uninstrumented build, in the histories run. Memory the tools do not see (inside NTL objects reused by NTL) is not covered.",
"C23":"Exploration: allocated bytes over 20 repetitions, and over 400 where those grew, as counted by the ASan allocator; a steady growth is a violation, leaks rarer than once in some repetitions can be missed.",
"C24":"Exploration: ThreadSanitizer's happens-before detection over threads started together (insensitive to the actual timing for conflicting unordered accesses it sees), plus results against the sequential model.",
"C26":"Exploration by fault injection: operator new and new[] (also the nothrow ones) of the library's objects and templates fail at chosen calls, in child processes; allocations inside of libstdc++'s strings, NTL, GMP and Crypto++ do not fail.",
"C20":"Exploration on a virtual clock (the clock functions are replaced in the driver), whole microseconds, not going back.",
}
tech={"C26":"fault injection into operator new with runtime monitoring of the process ending, exceptions and results (ASan/UBSan build)","C22":"sanitizers: ASan, UBSan (clang) and valgrind memcheck over generated API histories","C23":"runtime monitoring of the allocator's live bytes over repeated histories","C24":"ThreadSanitizer over concurrent workloads, with model comparison per thread",
"C05":"runtime trace monitor over recorded message deliveries (ASan/UBSan build)","C02":"runtime monitoring of histories against a model, delivery orders controlled (ASan/UBSan build)","C21":"runtime monitoring of forked processes against a model (ASan/UBSan build)","C14":"runtime monitoring of forked processes against a model (ASan/UBSan build)"}
M={"version":1,"setup_cmd":"python3 setup.py","checks":[],"not_applicable":[],
"notes":"No hooks in /repo: the driver uses the public API, overrides public virtual methods as spies, and replaces rand(), srand(), time() and the chrono clocks at link time."}
for x in P:
    i=x["id"]
    M["checks"].append({"property":i,"quick_cmd":"python3 check.py %s --tier quick"%i,"thorough_cmd":"python3 check.py %s --tier thorough"%i,"technique":tech.get(i,"runtime monitoring: model-based oracle over generated histories of the sanitized (ASan/UBSan) library"),"level":"exploration","level_note":note.get(i,note["default"])})
jsonschema.validate(M,json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(M,open(ROOT+'/MANIFEST.json','w'),indent=1); open(ROOT+'/MANIFEST.json','a').write("\n")
