#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = "none"
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Point retrieval returns exactly the stored record",
 "For every byte database (single row or several rows, equal or differing record lengths, including empty records), every valid position and every choice of randomness, a point query answered honestly by all servers reconstructs to exactly the record stored at that position, zero-padded to the block size. This holds for the two-server scheme as well as for three or more servers, and for the byte-encoded entry points of client and server.",
 ["inputs", "configurations"], "all database contents, all shapes/positions/server counts and all client randomness (within the stated bounds)",
 "The tests retrieve records of one random database of one fixed shape with uniform record lengths; other shapes, ragged or empty records, other randomness and other server counts are never reached.",
 ["lib/client/pir_point.go", "lib/client/client.go", "lib/server/point.go", "lib/database/bytes.go", "lib/utils/utils.go"],
 [("client query and secret sharing", "lib/client/pir_point.go: PIR.Query, secretShare"),
  ("server answer", "lib/server/point.go: PIR.Answer, xorValues"),
  ("client reconstruction", "lib/client/client.go: reconstructValuePIR")],
 observe="client Query/Reconstruct, server Answer")

prop("C02", "Point query shares reveal nothing to all-but-one servers",
 "With three or more servers, the queries seen by any set of servers that misses at least one are uniformly distributed whatever position is queried: for every position, distinct client randomness gives distinct joint views and every bit of the view is a fresh random bit, so the views cannot depend on the position. Requests that would break this (a negative position, or fewer than two servers) are refused instead of producing a query.",
 ["inputs", "configurations"], "all positions, all client randomness, every choice of the missing server, 3 to 4 servers, query vectors up to the stated width",
 "Tests only check that retrieval works; a query that leaks the position to one server still reconstructs correctly.",
 ["lib/client/pir_point.go", "lib/client/client.go"],
 [("secret sharing of the selection vector", "lib/client/pir_point.go: secretShare"),
  ("input validation", "lib/client/client.go: invalidQueryInputsIT")],
 observe="queries returned by the client")

prop("C03", "Authenticated retrieval accepts only the record stored at the queried position",
 "With Merkle-authenticated databases, whatever bytes the servers answer, a client holding the honest root either rejects or returns exactly the record stored at the position it asked for (assuming the hash is collision-free); a record of another position or any altered record is never accepted. Honest answers are always accepted and give back the stored record, for every database including ones with repeated or empty records and a number of records that is not a power of two.",
 ["inputs", "fault_sequences"], "all databases within bounds, all positions, arbitrary answer bytes from the servers",
 "The tests only run honest servers over random (hence distinct) records with power-of-two counts; no test sends a wrong answer, a proof for another position, or stores two equal records.",
 ["lib/client/client.go", "lib/merkle/merkletree.go", "lib/merkle/proof.go", "lib/database/merkle.go", "lib/database/pgp.go"],
 [("client verification", "lib/client/client.go: reconstructPIR"),
  ("proof generation", "lib/merkle/merkletree.go: GenerateProof, EncodedProofLength; lib/database/merkle.go: generateMerkleProofs"),
  ("proof check and encoding", "lib/merkle/proof.go")],
 observe="client ReconstructBytes result")

prop("C04", "Clients survive malformed server answers",
 "No answer bytes sent by a server, however short, long or corrupted, can crash a client of any scheme: reconstruction always returns either a value or an error. This covers the point, Merkle, predicate, lattice (32 and 128 bit), amplified and discrete-log clients.",
 ["inputs", "fault_sequences"], "all answer lengths within bounds and all answer contents, per scheme",
 "Tests feed only answers produced by honest servers.",
 ["lib/client/client.go", "lib/client/fss.go", "lib/client/lwe.go", "lib/client/lwe128.go", "lib/client/amplify.go", "lib/client/dh.go", "lib/merkle/proof.go", "lib/matrix/matrix.go", "lib/matrix/matrix128.go", "lib/database/pgp.go", "lib/database/elliptic.go"],
 [("answer decoding", "lib/client/*.go: Reconstruct*"), ("proof decoding", "lib/merkle/proof.go: DecodeProof"),
  ("matrix decoding", "lib/matrix: BytesToMatrix, BytesToMatrices, BytesToMatrix128")],
 observe="ReconstructBytes of every client")

prop("C05", "Function shares evaluate to the hidden value exactly on the hidden input",
 "For every hidden input, every vector of payload values and all key-generation randomness, the evaluations of the two keys on any point of the same length add up (in the field) to the payload when the point equals the hidden input and to zero everywhere else. This holds for every payload length used by the unauthenticated and authenticated clients and independently of earlier uses of the same client or server object.",
 ["inputs", "histories"], "all hidden inputs / evaluation points up to the stated bit length, all payloads, all seeds, block cipher arbitrary",
 "The tests evaluate one random hidden input at a few points with one key; the rare field-boundary values and the remaining points are not reached.",
 ["lib/fss/client.go", "lib/fss/server.go", "lib/fss/common.go", "lib/field/field.go"],
 [("key generation", "lib/fss/client.go: GenerateTreePF"), ("evaluation", "lib/fss/server.go: EvaluatePF"),
  ("conversion to field elements", "lib/fss/common.go: convertBlock; lib/field/field.go: BytesToElements")],
 observe="sum of the two evaluations")

prop("C06", "Predicate queries return the plaintext count or average",
 "For every key list and every supported predicate (whole email, email prefix or suffix, key algorithm, creation time, year-and-suffix conjunction), the reconstructed result of an honestly answered query equals the number of listed keys that satisfy the predicate; for the average query it is the floor of the mean age in years of the matching keys (keys dated in the future do not contribute), and a query that matches nothing yields an error instead of a value. The result does not depend on the time zone in which a server represents the stored times.",
 ["inputs", "configurations"], "all key lists up to the stated size with arbitrary emails (bounded length), algorithms, creation times and zones; authenticated and unauthenticated clients",
 "Each test evaluates one hard-coded predicate on random keys, all created by one process in one time zone, with at least one match.",
 ["lib/server/fss.go", "lib/client/fss.go", "lib/query/query.go", "lib/utils/encoding.go"],
 [("server scan", "lib/server/fss.go: answer"), ("predicate encoding", "lib/query/query.go: IdFor*, To*ClientFSS"),
  ("client reconstruction", "lib/client/fss.go: reconstruct")],
 observe="client ReconstructBytes result")

prop("C07", "Authenticated predicate answers are accepted exactly when every tag matches",
 "The authenticated predicate client returns a value only if all four reconstructed tags of the count (and, for averages, all four tags of the sum as well) equal the reconstructed value times the corresponding secret key in the field, and it rejects whenever any one of them differs; the value returned is the reconstructed one. The secret keys are field elements drawn from the client's randomness, one per tag, fresh for every query.",
 ["inputs", "fault_sequences"], "all pairs of answers of field elements and all secret keys",
 "Tests never present an answer that must be rejected, let alone one where a single tag is wrong.",
 ["lib/client/fss.go", "lib/client/predicate_apir.go", "lib/field/field.go"],
 [("tag verification", "lib/client/fss.go: reconstruct"), ("secret key sampling", "lib/client/fss.go: query; lib/field/field.go: RandElementWithPRG")],
 observe="client Reconstruct")

prop("C08", "Single-server lattice retrieval is correct and verified column by column",
 "For every binary database, position, secret and noise small enough that the accumulated error stays below the bound, the 32-bit and the 128-bit lattice clients reconstruct exactly the stored bit. A reconstruction succeeds only if every column of the unmasked answer is within the bound of 0 or of the client's secret scalar, in which case the result is the bit of the queried column; any other answer is rejected. (The secret scalar is drawn at random; values within twice the bound of 0, for which 0 and 1 cannot be told apart, are excluded.)",
 ["inputs", "fault_sequences"], "all databases, positions, secrets, noise and answers for the stated small dimensions",
 "The tests run honest servers on random databases; the acceptance boundary, negative noise and altered answers are not exercised.",
 ["lib/client/lwe.go", "lib/client/lwe128.go", "lib/server/lwe.go", "lib/server/lwe128.go", "lib/matrix/matrix.go", "lib/matrix/matrix128.go", "lib/utils/gauss.go", "lib/database/lwe.go", "lib/database/lwe128.go"],
 [("query", "lib/client/lwe.go, lwe128.go: Query"), ("digest", "lib/database/lwe.go, lwe128.go: Digest"), ("verification", "Reconstruct, inRange"),
  ("noise encoding", "lib/matrix: NewGauss, NewGauss128; lib/utils/gauss.go")],
 observe="client Reconstruct / ReconstructBytes")

prop("C09", "Amplified retrieval decodes correctly despite up to t wrong repetitions",
 "The error-correcting code decodes every word of 2t+1 symbols in which at most t symbols (any of them, including the first) differ from the encoded one, and reports an error when no symbol has a strict majority. The amplified client returns the stored bit for honest answers, returns the majority of its repetitions, and rejects as soon as any repetition is rejected.",
 ["inputs", "fault_sequences"], "all symbols and all error patterns for t up to the stated bound; all answers of the repetitions",
 "The tests only decode error-free words.",
 ["lib/ecc/ecc.go", "lib/client/amplify.go", "lib/server/amplify.go"],
 [("majority decoding", "lib/ecc/ecc.go: Decode"), ("combination", "lib/client/amplify.go: Reconstruct")],
 observe="ecc.Decode, amplified client Reconstruct")

prop("C10", "Discrete-log retrieval is correct and rejects every inconsistent row",
 "For every binary database (including all-zero rows), position and client randomness the discrete-log client reconstructs the stored bit from an honest answer. It accepts an answer only if for every row the answer divided by the blinded row digest is the identity or the blinded retrieval element, returning the bit of the queried row accordingly, and rejects otherwise; a client refuses to start from row digests that do not hash to the published digest.",
 ["inputs", "fault_sequences"], "all databases up to the stated size, all positions, all scalars, answers displaced by arbitrary group elements; group modelled as a prime-order group with independent generators",
 "The test runs an honest server on a random database, in which an all-zero row practically never occurs.",
 ["lib/client/dh.go", "lib/server/dh.go", "lib/database/elliptic.go"],
 [("query and reconstruction", "lib/client/dh.go"), ("answer", "lib/server/dh.go"), ("digests and group encoding", "lib/database/elliptic.go")],
 observe="client ReconstructBytes")

prop("C11", "Matrix kernels compute exact modular products and encodings round-trip",
 "Matrix multiplication, multiplication by a binary matrix, addition and subtraction compute the exact result modulo 2^32 (respectively 2^128) for all operands, without reading or writing outside the operands. Encoding a matrix, or a list of equally shaped matrices, to bytes and decoding it gives back the same dimensions and contents.",
 ["inputs"], "all entries, all dimensions up to the stated bound, both widths",
 "The tests compare a few random products; aliasing between dimensions, carries and non-square shapes are sampled at best.",
 ["lib/matrix/matrix.c", "lib/matrix/matrix.go", "lib/matrix/matrix128.go", "lib/matrix/matrixBytes.go", "lib/utils/encoding.go"],
 [("C kernels", "lib/matrix/matrix.c"), ("Go wrappers and encodings", "lib/matrix/*.go")],
 observe="matrix API")

prop("C12", "Field, bit and index encodings are exact for every input",
 "Conversions between bytes, bits, 32-bit words and field elements lose nothing and follow one fixed convention: words and byte slices round-trip, bit expansion is most-significant-bit first, every produced field element is below the modulus and is a deterministic function of its input bytes, and vector negation is the field negation. Splitting a position into row and column inverts their combination, table sizes become the next perfect square, and hashed table positions are always inside the table.",
 ["inputs"], "all inputs up to the stated lengths",
 "Boundary values (the modulus itself, zero, exact squares, top bits) are hit with negligible probability by the random tests.",
 ["lib/utils/encoding.go", "lib/utils/utils.go", "lib/field/field.go", "lib/database/db.go"],
 [("encodings", "lib/utils/encoding.go"), ("field conversion", "lib/field/field.go"), ("index arithmetic", "lib/utils/utils.go; lib/database/db.go: HashToIndex, CalculateNumRowsAndColumns")],
 observe="package functions")

prop("C13", "Every key placed in the directory can be found by its email",
 "For every set of keys with distinct emails, each key's bytes are stored in the bucket that its email hashes to, concatenated with the other keys of that bucket in an order that does not depend on the order in which the keys were loaded, and the record a client retrieves for that bucket, after removing the padding, is exactly those bytes. Padding is inverted exactly for every record, including empty ones and ones ending in zero bytes or the padding marker, and is never confused with record contents.",
 ["inputs", "configurations"], "all key sets, load orders and record contents within the stated bounds",
 "Tests need real key dumps that are not in the repository, and sample a few keys of one dump.",
 ["lib/database/pgp.go", "lib/database/db.go", "lib/utils/utils.go", "lib/pgp/pgp.go"],
 [("bucket table", "lib/database/pgp.go: makeHashTable, GenerateRealKeyBytes, GenerateRealKeyMerkle"), ("padding", "PadBlock, PadWithSignalByte, UnPadBlock"),
  ("deterministic order", "sortById")],
 observe="generated database")

prop("C14", "Function-share keys leak neither payload nor secret tags",
 "In the keys produced for a predicate query every published correction value is masked by pseudorandom output of both parties' seeds: no component of the key that one server receives is a plain function of the payload, of the secret tag keys, or of the hidden input, for any payload length.",
 ["inputs"], "all hidden inputs up to the stated length, all payloads, all seeds; block cipher as an uninterpreted function",
 "A missing mask changes no result: every test passes.",
 ["lib/fss/client.go", "lib/fss/common.go"],
 [("final correction word", "lib/fss/client.go: GenerateTreePF"), ("mask expansion", "lib/fss/common.go: convertBlock")],
 observe="keys returned by GenerateTreePF")

prop("C15", "Each server gets its own query share; all servers must describe one database",
 "When a client program sends a query to several servers, server number j of the configuration receives share number j, whatever the order in which connections are stored or answers arrive, and the result is the same for every such order. The client goes on only if all servers describe the same database in every field that affects retrieval or verification: dimensions, block size, scheme, Merkle root and proof length.",
 ["schedules", "configurations", "fault_sequences"], "all iteration orders of the connection table, all arrival orders, all (mutually different) database descriptions",
 "No test runs the client programs against several servers; iteration order is randomised by the runtime.",
 ["cmd/grpc/client/main.go", "cmd/grpc/client/manager/mod.go", "simulations/multi/client/client.go"],
 [("dispatch", "runQueries, query"), ("database info agreement", "equalDBInfo, GetDBInfos")],
 observe="requests sent to each server; client result or failure")

prop("C16", "Servers answer concurrent requests as if alone and shut down cleanly",
 "However requests of several clients interleave in a running server, each request is answered with the answer the server would give to it alone. Stopping a server never makes a request in progress crash it: each such request is answered or refused.",
 ["schedules"], "all interleavings of concurrent requests and of a shutdown request",
 "No test runs a server with concurrent requests or stops one.",
 ["cmd/grpc/server/main.go", "simulations/multi/server/server.go", "lib/server/fss.go"],
 [("request handling", "cmd/grpc/server/main.go: Query, worker; simulations/multi/server/server.go: Query"), ("shutdown", "main: stopWorker")],
 observe="server replies")

prop("C17", "Keys, schemes and noise hide the query computationally",
 "A single key of the two-server scheme, a lattice query and a discrete-log query are computationally indistinguishable across positions under the assumptions of the underlying primitives, and the lattice noise follows the discrete Gaussian distribution the parameters assume.",
 ["inputs"], "all polynomial-time servers, all positions",
 "Indistinguishability and distributions are not observable by unit tests.",
 ["lib/client/pir_point.go", "lib/client/lwe.go", "lib/client/lwe128.go", "lib/client/dh.go", "lib/utils/gauss.go"],
 [("query generation", "lib/client")])

prop("C18", "Directory dumps keep the freshest usable key per address",
 "Whatever the order in which keys are read from a key dump, the directory keeps for each email address (in lower case) the most recently created usable key, one that is not revoked and has an address; keys without one are left out. Every kept key of at most 8192 bytes that is written to disk is read back unchanged, once, under its address, file by file in the order on disk. Recovering a key from a retrieved record returns a key whose primary email is the requested one or an error.",
 ["inputs", "histories"], "all dumps of a few keys with arbitrary times, sizes, revocations and addresses",
 "The dump tests are skipped without real key files; the unit test covers a handful of address strings.",
 ["lib/pgp/pgp.go", "data/main.go"],
 [("selection", "lib/pgp/pgp.go: AnalyzeKeyDump, saveKeyIfValid, PrimaryEmail"), ("files", "lib/pgp/pgp.go: WriteKeysOnDisk, LoadKeysFromDisk, LoadAndParseKeys"), ("recovery", "lib/pgp/pgp.go: RecoverKeyFromBlock")],
 observe="map of kept keys; files written and read")

prop("C19", "Network transport delivers messages only between authenticated peers",
 "The gRPC transport with TLS delivers requests and answers of every size unchanged, and clients only talk to servers that present the expected certificates.",
 ["inputs", "configurations"], "all messages and server certificates",
 "No test connects a client to a server over the network.",
 ["lib/utils/tls.go", "lib/proto/vpir.pb.go", "cmd/grpc/client/main.go"],
 [("TLS", "lib/utils/tls.go"), ("gRPC", "lib/proto/vpir.pb.go")])

prop("C20", "Client and server programs answer the question the user asked",
 "The command line, the interactive and the web client turn the chosen question (a whole address, a prefix or suffix of a given length, a key algorithm, each as a count, or the average age for the addresses) into a query, and show exactly the count or average over the keys held by honest servers; there is no average of no matches. For the key of an address they look up the record at the position of the address's hash, in the database the servers describe, and show only the key found there for this address. Unknown schemes and targets and incomplete web forms are refused before anything is sent, and when the answers are not accepted an error is shown instead of a count. The server program serves the scheme it is started for over the files asked for, with the kind of server that fits the number of servers, under its own number and address, and describes the database it holds truthfully.",
 ["inputs", "configurations"], "all keys of small directories, all questions of the listed kinds, all positions, schemes and numbers of servers within the bounds",
 "No test runs the client programs, and none of them covers the wiring between options, query and displayed answer.",
 ["cmd/grpc/client/main.go", "cmd/grpc/client/manager/mod.go", "cmd/grpc/client/web/mod.go", "cmd/grpc/client/interactive/mod.go", "cmd/grpc/server/main.go"],
 [("command line client", "cmd/grpc/client/main.go: retrieveKeyGivenId, retrieveComplexQuery"),
  ("shared client code", "cmd/grpc/client/manager/mod.go: Manager, Actor.GetKey"),
  ("web and interactive clients", "cmd/grpc/client/web/mod.go; cmd/grpc/client/interactive/mod.go"),
  ("server program", "cmd/grpc/server/main.go: main, DatabaseInfo")],
 observe="results printed, shown or written by the clients; requests received by the servers")

for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
