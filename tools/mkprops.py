import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),observe_at=observe or [],hook_needed=hook)))
p("C01","Multi-server lookups return exactly the requested record",
 "When two or more honest servers hold the same database, a point lookup of any valid position returns exactly the record stored there (zero-padded to the block size in the unauthenticated variant, the bare record in the authenticated one), whatever the database shape, the record lengths, the number of servers and the previous lookups made with the same client. A position outside the database and a server count that cannot keep the position private are refused before anything is sent.",
 ["inputs","configurations","histories"],"every database shape (rows, columns, block length, per-record lengths including empty), every position, 2..n servers, every sequence of lookups on one client",
 "the tests retrieve sequential positions of one random square database with fixed-length blocks and 2-4 servers; shapes, column counts around byte and 128-leaf boundaries, variable lengths, reuse and invalid arguments are never reached",
 ["lib/client/pir_point.go","lib/client/client.go","lib/server/point.go","lib/database/bytes.go","lib/database/merkle.go","lib/utils/utils.go"],
 [("query secret sharing / DPF","lib/client/pir_point.go"),("masked XOR of records","lib/server/point.go"),("recombination","lib/client/client.go")],
 ["client query and reconstruct return values","server answers"])
p("C02","Authenticated multi-server lookups never accept a wrong record",
 "In the authenticated multi-server variant, if at least one server is honest and the client holds the true database root, whatever the other servers answer a lookup either returns the record stored at the requested position or reports an error. In particular a genuine record of another position, a record assembled from internal tree data, a proof of another shape or length and a stale record are all rejected.",
 ["inputs","fault_sequences"],"every database, every position and every alteration of the answers of a proper subset of the servers",
 "the only negative test corrupts answers blindly; structured forgeries (position swap, inner node presented as record, shortened proof, cross-database replay) are not tried",
 ["lib/client/client.go","lib/merkle/proof.go","lib/database/merkle.go"],
 [("proof check before release","lib/client/client.go"),("leaf and path hashing","lib/merkle/proof.go")],
 ["client reconstruct return value"])
p("C03","Merkle proofs verify for every element and for nothing else",
 "For every non-empty list of byte strings, including equal and empty ones, a membership proof can be produced for every element, has the advertised encoded length, survives encoding, and verifies against the root. A proof does not verify for other content, another position, another root, or after any of its parts is changed, and changing, swapping or appending elements changes the root.",
 ["inputs"],"every list length (power of two or not) and content, every element, every single-part alteration",
 "tests use a few random lists of distinct equal-length blocks and only check acceptance or a wrong root",
 ["lib/merkle/merkletree.go","lib/merkle/proof.go","lib/merkle/hash.go"],
 [("tree construction","lib/merkle/merkletree.go"),("verification","lib/merkle/proof.go")],["proof verification result","encoded proofs"])
p("C04","Lattice-based single-server lookups return the stored bit",
 "With an honest server and the right digest, a lookup with either lattice-based scheme (32-bit and 128-bit modulus) or the amplified scheme returns the bit stored at the requested position, for every database shape, content, position and client randomness, over both the in-memory and the byte-encoded interfaces. Repeating lookups on one client does not change the results.",
 ["inputs","configurations","histories"],"every rows x columns shape, every content, every position, every value the randomness source can produce",
 "tests use one square random database per scheme; degenerate and rectangular shapes, extreme contents and unlucky blinding values (probability 2^-12..2^-20 per lookup) are not reached by sampling",
 ["lib/client/lwe.go","lib/client/lwe128.go","lib/client/amplify.go","lib/server/lwe.go","lib/server/lwe128.go","lib/server/amplify.go","lib/database/lwe.go","lib/database/lwe128.go","lib/utils/lwe.go"],
 [("query masking and blinding","lib/client/lwe.go"),("noise bound","lib/utils/lwe.go")],["reconstruct return value"])
p("C05","Lattice-based lookups reject answers from any other database",
 "If the server answers from a database that differs from the digested one in any cell, whether or not it is the requested one, or alters an answer so that any column no longer decodes, the client reports an error rather than a bit. No alteration of an answer makes the client return a bit other than the digested one, and whether it rejects does not depend on which position was requested.",
 ["inputs","fault_sequences"],"every database, altered cell, altered answer entry and requested position",
 "tests check only an entirely different random database or digest; single-cell and non-requested-column alterations (selective failure) are never tried",
 ["lib/client/lwe.go","lib/client/lwe128.go","lib/client/amplify.go"],
 [("all columns are checked against the digest","lib/client/lwe.go")],["reconstruct return value"])
p("C06","Group-based single-server lookups return the stored bit",
 "With an honest server and the right digests, a lookup with the discrete-log based scheme returns the bit stored at the requested position, for every supported prime-order group, database size and shape, and content including rows of all zeros and all ones. Digest generation works for every database size.",
 ["inputs","configurations"],"every size, both layouts, every position and content, each group",
 "the test uses one random P-256 database of one size, which makes all-zero rows and fewer rows than workers unreachable",
 ["lib/client/dh.go","lib/server/dh.go","lib/database/elliptic.go"],
 [("blinded group query","lib/client/dh.go"),("row digests","lib/database/elliptic.go")],["reconstruct return value","digest and answer encodings"])
p("C07","Group-based lookups reject answers from any other database",
 "If the server answers from a database that differs from the digested one in any cell, or alters, swaps, drops, adds or replays any element of its answer, the client reports an error rather than a bit, independently of which position was requested; and it never returns a bit other than the digested one. A client refuses to start when the row digests do not match the global digest.",
 ["inputs","fault_sequences"],"every database, altered cell or answer element and requested position",
 "the test alters nothing but whole databases; alterations confined to rows that were not requested and replays of earlier answers are not tried",
 ["lib/client/dh.go","lib/database/elliptic.go"],[("every row is checked against its digest","lib/client/dh.go")],["reconstruct return value"])
p("C08","Private aggregates equal the aggregate computed in the clear",
 "With two honest servers, the private count, conjunctive count and average queries return exactly what evaluating the predicate over the plaintext key list returns: e-mail equality, prefix or suffix of any length and alphabet, key algorithm, creation instant (whatever time zone it is expressed in), creation year with e-mail, and average key age. This holds for every key list, including empty ones and empty selections, for which an average is reported as an error; the authenticated and unauthenticated variants agree.",
 ["inputs","configurations","histories"],"every key list and every predicate, repeated queries on one client and server",
 "tests count over random lower-case e-mails of one length; long or non-ASCII strings, missing fields, future dates, other time zones and empty selections are never reached",
 ["lib/server/fss.go","lib/client/fss.go","lib/query/query.go","lib/fss/server.go","lib/fss/client.go","lib/server/predicate_pir.go","lib/server/predicate_apir.go"],
 [("per-key evaluation and accumulation","lib/server/fss.go"),("predicate encoding","lib/query/query.go")],["reconstruct return value"])
p("C09","Authenticated aggregates never accept a wrong number",
 "In the authenticated predicate scheme an alteration by one server of any part of its answer makes the client report an error unless the result is unchanged, for counts, sums and averages alike, and every one of the independent authentication tags is enforced. The authentication keys are fresh for each query, distinct, and not derivable from what one server receives.",
 ["inputs","fault_sequences"],"every key list, query, altered component (value or any tag, of count or sum) and alteration, including those consistent with all tags but one",
 "tests only run honest servers; dropping one tag check or reusing a key leaves every test green",
 ["lib/client/fss.go","lib/fss/client.go","lib/server/fss.go","lib/field/field.go"],
 [("information-theoretic MAC check","lib/client/fss.go"),("masking of the payload","lib/fss/client.go")],["reconstruct return value","query keys"])
p("C10","A point query tells a single server nothing about the position",
 "For any number of servers, what any proper subset of them receives for a point lookup has the same length and the same distribution for every position, and is fresh for every lookup, even when the randomness source delivers its bytes in small pieces. A lookup that would have to be sent to a single server in the clear is refused.",
 ["inputs","histories","fault_sequences"],"every pair of positions, database width, number of servers and chunking of the randomness source",
 "tests never look at query bytes; a query that reveals the position still retrieves the right record",
 ["lib/client/pir_point.go","lib/client/client.go"],[("secret sharing of the selection vector","lib/client/pir_point.go")],["bytes sent to each server"])
p("C11","A predicate query tells a single server nothing about the predicate",
 "The key one server receives for a private aggregate has a size that depends only on the declared kind and length of the predicate and a distribution that does not depend on the searched value or on the authentication keys; it is fresh for every query, and none of its fields reveals the payload. A request to use any number of servers other than two is refused.",
 ["inputs","histories"],"every pair of searched values of one length, every payload, both servers",
 "tests only evaluate shares and add them up; a key that carries the value or a payload component in the clear passes them all",
 ["lib/fss/client.go","lib/fss/common.go","lib/client/fss.go","lib/query/query.go"],[("correction words and final masking","lib/fss/client.go"),("output conversion","lib/fss/common.go")],["bytes sent to each server"])
p("C12","A single-server query hides the requested position",
 "In the single-server schemes (both lattice moduli, the amplified scheme and the group-based scheme) the query has the same size and the same distribution for every requested position, every component is masked, and the masks are fresh for every lookup and every repetition, even when the randomness source delivers its bytes in small pieces.",
 ["inputs","histories","fault_sequences"],"every pair of positions, consecutive queries, chunking of the randomness source",
 "tests never look at query contents; reusing the secret or omitting the noise still decodes correctly",
 ["lib/client/lwe.go","lib/client/lwe128.go","lib/client/amplify.go","lib/client/dh.go","lib/matrix/matrix.go","lib/matrix/matrix128.go"],[("secret, noise and blinding","lib/client/lwe.go")],["query matrices and bytes"])
p("C13","Function shares add up to the payload at the point and to zero elsewhere",
 "For every input length up to the supported maximum and beyond it up to whole e-mail addresses, every point and every payload vector, the two servers' evaluations sum (in the field) to the payload at the point and to zero at every other input, including inputs that differ in a single bit anywhere. Every share is a canonical field element and looks random on its own.",
 ["inputs"],"every bit length, point, payload length and value, and evaluated input",
 "the tests evaluate one short point at one neighbour; bit positions beyond 256, all-bit neighbours and share values are not looked at",
 ["lib/fss/client.go","lib/fss/server.go","lib/fss/common.go"],[("tree-based point function","lib/fss")],["evaluated shares"])
p("C14","The repetition code corrects every pattern of at most t errors",
 "Decoding a received word of 2t+1 symbols returns the encoded symbol whenever at most t symbols were altered, wherever they are and whatever they were altered to, and reports an error when no symbol has a majority. The amplified lookup inherits this: it returns the majority of its repetitions.",
 ["inputs","fault_sequences"],"every t, symbol and error pattern (enumerated completely for small t)",
 "no test touches the code with errors: all repetitions always agree in the honest runs",
 ["lib/ecc/ecc.go","lib/client/amplify.go"],[("majority vote","lib/ecc/ecc.go")],["decode return value"])
p("C15","Matrix arithmetic is exact and memory-safe",
 "Multiplication (general and by binary matrices), addition, subtraction, element access and random generation over both moduli agree with exact modular arithmetic for every shape and content, and report dimensions consistent with the data they hold. None of them, including the native kernels, reads or writes outside its operands, whatever the operands were decoded from; operands that do not fit are refused.",
 ["inputs"],"every pair of shapes including empty and mismatched ones, every content, decoded and generated operands",
 "tests multiply two 4x4 matrices; nothing runs the native kernels under a memory or undefined-behaviour sanitizer or with operands from the wire",
 ["lib/matrix/matrix.go","lib/matrix/matrix128.go","lib/matrix/matrixBytes.go","lib/matrix/matrix.c"],[("cgo kernels","lib/matrix/matrix.c"),("dimension checks","lib/matrix/matrix.go")],["result matrices","sanitizer reports"])
p("C16","Encodings round-trip and reject malformed input",
 "Everything that crosses the wire or is packed into a record (matrices, lists of matrices, Merkle proofs, integer and field vectors, bit strings, group elements, aggregate queries, padded records) decodes to what was encoded, for every value including empty and extreme ones, with an encoding of the expected size. Inconsistent encodings are reported instead of producing an object that disagrees with its own dimensions.",
 ["inputs"],"every value of every encoded type, every truncation and header alteration",
 "tests round-trip one or two fixed values per type and no malformed input",
 ["lib/matrix/matrix.go","lib/matrix/matrix128.go","lib/merkle/proof.go","lib/utils/encoding.go","lib/field/field.go","lib/query/query.go","lib/database/pgp.go","lib/database/elliptic.go"],[("encoders and decoders","lib/matrix, lib/merkle, lib/utils, lib/query")],["encoded bytes and decoded values"])
p("C17","Servers given the same inputs hold identical databases",
 "Building a database from the same seed, or from the same key files in any order, gives bit-identical contents, dimensions, digests and roots in every process and on every run. The seeded generator yields the same bytes for the same sequence of reads whatever the caller's buffers contained, different seeds yield different streams, and generated databases use all their cells with the requested dimensions.",
 ["inputs","configurations","schedules"],"every seed, read pattern and buffer content, file order, shape and number of workers",
 "tests build each database once in one process, so any divergence between servers is invisible to them",
 ["lib/utils/rand.go","lib/database/db.go","lib/database/bytes.go","lib/database/merkle.go","lib/database/lwe.go","lib/database/lwe128.go","lib/database/elliptic.go","lib/database/pgp.go","lib/field/field.go"],[("seeded stream","lib/utils/rand.go"),("ordering of keys and workers","lib/database")],["database contents, info and roots"])
p("C18","Field elements are canonical, uniform and deterministic",
 "Every field element produced by sampling or by decoding bytes is smaller than the field modulus, is a deterministic function of the bytes it is made from, and is uniformly distributed when they are; negation is the additive inverse. This includes the boundary encodings equal to the modulus.",
 ["inputs","fault_sequences"],"every input byte string, in particular the boundary ones, and every chunking of the randomness source",
 "boundary encodings occur once in 2^31 samples, so sampling tests do not see them",
 ["lib/field/field.go"],[("rejection of the modulus","lib/field/field.go")],["returned elements"])
p("C19","Concurrent use gives the same answers as sequential use, without data races",
 "Any number of goroutines may query one server object of any scheme, or run independent clients in one process, and obtain the answers they would obtain one at a time; the shared generators, trees and databases are free of data races. Answering never modifies the database or the query.",
 ["schedules","histories"],"every interleaving of concurrent queries on shared server objects and of independent clients",
 "every test is sequential and none runs under the race detector",
 ["lib/server/fss.go","lib/server/point.go","lib/server/dh.go","lib/server/lwe.go","lib/fss/server.go","lib/fss/common.go","lib/utils/rand.go","lib/utils/gauss.go","simulations/multi/server/server.go"],[("scratch buffers of the evaluator","lib/fss/server.go"),("lock around the shared generator","lib/utils/rand.go")],["answers","race detector reports"])
p("C20","The deployed key directory answers end to end",
 "With the shipped server and client programs over TLS, a lookup by address returns the armored key ingested for that address or says that there is none, and a statistics query returns the plaintext statistic, with both point schemes and both predicate schemes, with two servers and with more where the scheme allows, for the command-line client and for the session library, and for any sequence and concurrency of requests. Each server receives the share meant for it in every run.",
 ["inputs","histories","schedules","configurations"],"every directory, address, statistic, scheme, server count, connection order and interleaving of requests",
 "no test starts the programs: all tests call the libraries in process, in order, with matching client and server variants",
 ["cmd/grpc/server/main.go","cmd/grpc/client/main.go","cmd/grpc/client/manager/mod.go","lib/database/pgp.go","lib/pgp/pgp.go"],[("scheme selection","cmd/grpc/server/main.go"),("query dispatch","cmd/grpc/client/main.go")],["program output","bytes seen by each server"])
p("C21","A key server stays up and shuts down cleanly",
 "No request content, cancelled or timed-out request, or burst of concurrent requests stops a key server or its worker: each bad request gets an error and later good ones are answered correctly. Readiness is announced only once requests are accepted; on a termination signal the server finishes the requests it has accepted, announces that it is stopping, and exits successfully without crashing.",
 ["inputs","schedules","fault_sequences","histories"],"every request byte string, cancellation point, load and time of the termination signal",
 "no test runs the server program",
 ["cmd/grpc/server/main.go","cmd/grpc/sdnotify/sdnotify.go","simulations/multi/server/server.go"],[("worker queue","cmd/grpc/server/main.go"),("service notifications","cmd/grpc/sdnotify/sdnotify.go")],["RPC results","process exit status","notification socket"])
p("C22","Clients only trust authentic servers that agree on the database",
 "A client talks only to servers that present one of the pinned certificates. If the servers it is configured with disagree on any part of the database description (dimensions, block size, scheme, authentication root or proof length), it reports an error before sending any query; if they agree it uses exactly that description.",
 ["configurations","fault_sequences"],"every single-field and multi-field disagreement, every order of replies, every unpinned certificate",
 "no test covers the network clients",
 ["cmd/grpc/client/main.go","cmd/grpc/client/manager/mod.go","simulations/multi/client/client.go","lib/utils/tls.go"],[("comparison of database descriptions","cmd/grpc/client/manager/mod.go"),("certificate pool","lib/utils/tls.go")],["client result","requests seen by the servers"])
p("C23","Key ingestion keeps exactly the newest usable key of every address",
 "Ingesting any set of dump files yields, for every primary address (compared case-insensitively), the most recently created key that is not revoked, provided its serialized form fits the size limit, and nothing else; keys without an address are skipped. Writing, splitting into chunks, reading back and armoring lose, duplicate and alter nothing, whatever the number and size of the keys and the order of the files.",
 ["inputs","histories"],"every collection of keys (revoked, duplicated, without address, oversized, several identities), split over any files in any order",
 "the only test checks a regular expression on one string; the dump-based tests need data that is not in the repository",
 ["lib/pgp/pgp.go","data/main.go"],[("selection by creation time","lib/pgp/pgp.go"),("chunking","data/main.go")],["files written and keys read back"])
p("C24","Every ingested key can be found in its directory bucket",
 "For any key set, the directory built from the key files (plain or authenticated, vector or square layout) stores every key unmodified in the bucket its address hashes to and nothing else, with recorded lengths, offsets and block size consistent with the content; a private lookup of the bucket recovers the key by its address, and an address without a key is reported as not found. This includes empty buckets, equal buckets and directories of very few keys; the statistics table lists every key once with its true attributes.",
 ["inputs","configurations"],"every key set and size, both layouts, present and absent addresses",
 "the tests that build directories need a key dump that is not in the repository and do not run",
 ["lib/database/pgp.go","lib/database/merkle.go","lib/database/db.go","lib/pgp/pgp.go"],[("hash table construction","lib/database/pgp.go"),("record padding","lib/database/pgp.go")],["lookup results and directory contents"])
p("C25","Lattice noise follows the specified distribution",
 "The noise added to lattice-based queries is an unbiased, symmetric discrete Gaussian of the specified width, independent across coordinates and queries, and is represented exactly (including its sign) under both moduli.",
 ["inputs","histories"],"the whole distribution: support, symmetry, width, sign handling, independence",
 "tests only check that lookups still decode, which they do with biased, constant or missing noise",
 ["lib/utils/gauss.go","lib/matrix/matrix.go","lib/matrix/matrix128.go"],[("rejection sampler","lib/utils/gauss.go")],["sampled matrices"])
p("C26","The web front-end answers every request and never goes down",
 "The web front-end returns the key or statistic that the directory holds for every well-formed request, and an error status with a single error body for every malformed one (missing or non-numeric fields, unknown positions, unparsable forms, wrong paths), without terminating and without mixing up concurrent requests. Every response carries the request identifier of its request.",
 ["inputs","schedules","histories"],"every request on every route, in any order and concurrency",
 "no test covers the front-end",
 ["cmd/grpc/client/web/mod.go","cmd/grpc/client/manager/mod.go","lib/query/query.go"],[("request handlers","cmd/grpc/client/web/mod.go")],["HTTP responses","process liveness"])
p("C27","Malformed answers give an error, never a crash or a wrong result",
 "For every scheme, whatever byte strings and however many of them a client receives as answers (empty, truncated, extended, wrong dimensions, wrong count, random), reconstruction reports an error or the right result; it never crashes, hangs or allocates without bound, and the client can be used again afterwards.",
 ["inputs","fault_sequences"],"every answer vector for every scheme",
 "tests feed clients only well-formed answers",
 ["lib/client/client.go","lib/client/fss.go","lib/client/lwe.go","lib/client/lwe128.go","lib/client/amplify.go","lib/client/dh.go","lib/merkle/proof.go","lib/matrix/matrix.go"],[("answer decoding","lib/client")],["reconstruct return value","process liveness"])
p("C28","Malformed queries give an error, never a crash or stray memory access",
 "For every scheme, whatever bytes a server object receives as a query, answering reports an error or returns an answer of the normal size; it never crashes, never reads memory that is not its database or the query, and the next well-formed query is answered correctly.",
 ["inputs","fault_sequences"],"every query byte string for every scheme",
 "tests feed servers only well-formed queries",
 ["lib/server/point.go","lib/server/fss.go","lib/server/lwe.go","lib/server/lwe128.go","lib/server/amplify.go","lib/server/dh.go","lib/matrix/matrix.go","lib/fss/server.go"],[("query decoding","lib/server")],["answer return value","sanitizer reports","process liveness"])
p("C29","Server identities come from the configuration, not from its layout",
 "Loading a configuration maps every server index to its own address, whatever the order of the entries in the file and the number of servers; configurations with missing, duplicate, negative or non-numeric indices, and unreadable ones, are reported as errors.",
 ["configurations","inputs"],"every configuration file",
 "no test loads a configuration",
 ["lib/utils/config.go"],[("index to address mapping","lib/utils/config.go")],["loaded configuration"])
p("C30","The evaluation programs run every scheme and report true measurements",
 "The evaluation servers and client complete every scheme and server count they offer with correct, authenticated results, and the traffic figures they and the single-machine simulator report equal the sizes of the messages exchanged. Servers started with the same parameters serve the same database.",
 ["configurations","histories"],"every offered scheme, server count and database size",
 "no test runs the evaluation programs",
 ["simulations/simul.go","simulations/preprocessing.go","simulations/multi/server/server.go","simulations/multi/client/client.go","lib/monitor/mod.go"],[("measurement loops","simulations")],["reported statistics","program exit status"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert len(x['title'])<=80,x['id']
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
print(len(P))
