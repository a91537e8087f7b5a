#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Point retrieval returns exactly the stored record when servers are honest",
 "When every contacted server is honest and holds the same database, a multi-server point query for position i (plain or authenticated, with two or more servers) reconstructs exactly the bytes stored at position i, for every database shape, record length, position and number of servers. This holds for every query of a long history over the same clients and servers, whatever the order, delay or concurrency in which queries are served and answers come back.",
 ["inputs","configurations","histories","schedules"],
 "all database shapes (rows x columns, record sizes, one row or square, records of different lengths, a single record), all positions including first, last and row or byte boundaries, 2..6 servers, all delivery orders of answers and interleavings of concurrent clients",
 "tests run one fixed shape per scheme, one query at a time, in one goroutine, with answers handed over in server order",
 ["lib/client/pir_point.go","lib/client/client.go","lib/server/point.go","lib/database/bytes.go","lib/database/merkle.go","lib/merkle/merkletree.go","lib/merkle/proof.go"],
 [("query generation (two-server function-shared or XOR-shared)","lib/client/pir_point.go:Query"),("server scan","lib/server/point.go:Answer"),("reconstruction and proof check","lib/client/client.go:reconstructPIR"),("proof generation","lib/merkle/merkletree.go")],
 ["QueryBytes/AnswerBytes/ReconstructBytes results"])

prop("C02","Authenticated point retrieval never accepts wrong data if one server is honest",
 "In authenticated point retrieval, if the client holds the genuine root of the database and at least one contacted server answers honestly, then whatever the other servers send - tampered, truncated, replayed, stale, computed for another query or over another database - reconstruction ends either in an error or in exactly the genuine record stored at the requested position. In particular a genuine record that belongs to a different position is never accepted.",
 ["fault_sequences","inputs","configurations","histories"],
 "all strategies of all-but-one servers (which may know the whole database and the queried position), all database shapes including repeated and empty records, all positions, 2..5 servers, all histories of previous queries",
 "no test sends a tampered or substituted answer through point reconstruction; only honest runs are sampled",
 ["lib/client/client.go","lib/merkle/proof.go","lib/merkle/merkletree.go","lib/database/merkle.go","lib/database/pgp.go"],
 [("Merkle proof verification against the root and the requested position","lib/client/client.go:reconstructPIR"),("proof hashing","lib/merkle/proof.go:VerifyProof")],
 ["value or error of ReconstructBytes"])

prop("C03","Predicate statistics equal the true statistic when servers are honest",
 "With two honest servers over the same key set, a count query (whole e-mail, e-mail prefix, e-mail suffix, key algorithm, creation time, or the year-and-suffix conjunction) returns exactly the number of keys that satisfy it, and an average query returns the integer quotient of the summed key ages (in whole calendar years) by the number of matches, or an error when nothing matches. This holds in the plain and the authenticated scheme, for every key set, every query text, whatever the servers' local time zones and whatever order, delay or concurrency queries and answers meet.",
 ["inputs","configurations","histories","schedules"],
 "all key sets (any e-mail text and length including empty and non-ASCII, any algorithm, any creation instant), all predicates of the supported kinds, prefix and suffix lengths from 1 to beyond 32 bytes, all server time zones and simulated dates, all interleavings of several clients",
 "tests use one random key set of uniform 32-character addresses, one query per kind, one zone, one clock, sequentially",
 ["lib/client/fss.go","lib/server/fss.go","lib/fss/client.go","lib/fss/server.go","lib/fss/common.go","lib/query/query.go","lib/field/field.go","lib/utils/encoding.go"],
 [("point-function key generation and evaluation","lib/fss"),("predicate encoding","lib/query/query.go"),("server accumulation","lib/server/fss.go:answer"),("share recombination","lib/client/fss.go:reconstruct")],
 ["ReconstructBytes result"])

prop("C04","Authenticated predicates accept only the true statistic under a lying server",
 "In the authenticated predicate scheme, if one of the two servers is honest then, whatever the other returns - altered, truncated, extended, replayed, answered for another query, predicate kind or key set - reconstruction ends either in an error or in the true statistic for the query the client asked. A count is never mistaken for an average or the reverse.",
 ["fault_sequences","inputs","histories"],
 "all strategies of either server (knowing its own query, the database, its own honest answer and everything it saw before), all predicate kinds, all key sets",
 "no test tampers with an answer; acceptance of wrong answers can only show under an adversarial server",
 ["lib/client/fss.go","lib/client/predicate_apir.go","lib/server/predicate_apir.go","lib/fss/client.go"],
 [("information-theoretic tag check with secret multipliers","lib/client/fss.go:reconstruct"),("secret multipliers shared inside the keys","lib/client/fss.go:query")],
 ["value or error of ReconstructBytes"])

prop("C05","Single-server retrieval returns the stored element when the server is honest",
 "With an honest server and the genuine digest, each single-server scheme (the two lattice schemes, the amplified lattice scheme and the group-based scheme) reconstructs exactly the element stored at the queried position, for every supported database shape, position and content, over any history and interleaving of clients, however many processors the digest was computed with. The amplified scheme returns the right element as long as enough of its parallel repetitions succeed for its majority threshold.",
 ["inputs","configurations","histories","schedules"],
 "all shapes (including one row, one column, fewer rows than processors, a row or element of zeros), all positions, all processor counts, all scheduling of the digest workers, any pattern of failing repetitions within the tolerance",
 "tests use one square random database per scheme and the processor count of the machine",
 ["lib/client/lwe.go","lib/client/lwe128.go","lib/client/amplify.go","lib/client/dh.go","lib/server/lwe.go","lib/server/lwe128.go","lib/server/amplify.go","lib/server/dh.go","lib/database/lwe.go","lib/database/lwe128.go","lib/database/elliptic.go","lib/ecc/ecc.go","lib/matrix"],
 [("digest computation by parallel workers","lib/database/elliptic.go"),("lattice query, answer and recovery","lib/client/lwe.go, lib/server/lwe.go, lib/matrix"),("repetition code","lib/ecc/ecc.go")],
 ["ReconstructBytes result"])

prop("C06","Single-server retrieval accepts only data authenticated by the digest",
 "In each single-server scheme, if the client holds the genuine digest, then whatever the server returns - altered, truncated, replayed from another query, or computed honestly over a database that differs in the queried row - reconstruction ends either in an error or in the genuine element at the queried position. Malformed group elements are refused with an error, and row digests that do not match the global digest are refused when the client is created.",
 ["fault_sequences","inputs","histories"],
 "all server strategies over the answer bytes and the digests it ships, all positions and shapes",
 "no test tampers with an answer or serves another database",
 ["lib/client/lwe.go","lib/client/lwe128.go","lib/client/amplify.go","lib/client/dh.go","lib/database/elliptic.go"],
 [("digest-based verification","lib/client/lwe.go:reconstruct, lib/client/dh.go:ReconstructBytes"),("digest chain","lib/client/dh.go")],
 ["value or error of ReconstructBytes"])

prop("C07","No single server learns the query, and queries are fresh",
 "What any one server receives for a query has the same length and distribution whatever position or search text of the same length the client asks for, and the client's secret check multipliers cannot be read from any server's query. Repeating the same query yields new, unrelated messages, and multi-server clients refuse to issue a query when fewer servers than the scheme needs are available.",
 ["inputs","histories","configurations"],
 "all pairs of targets, all schemes, each server individually, all histories of queries by the same client, all client random seeds",
 "tests never look at what a server receives",
 ["lib/client/pir_point.go","lib/client/fss.go","lib/client/lwe.go","lib/client/lwe128.go","lib/client/dh.go","lib/client/client.go","lib/fss/client.go","lib/fss/common.go","lib/utils/rand.go","lib/utils/gauss.go"],
 [("secret sharing with fresh randomness","lib/client/pir_point.go:secretShare, lib/fss/client.go:GenerateTreePF"),("refusal of unsafe server counts","lib/client/client.go:invalidQueryInputsIT")],
 ["bytes returned by QueryBytes per server"])

prop("C08","Concurrent requests to one server do not influence each other",
 "Whatever set of requests a server handles at the same time, and however their processing interleaves, each request gets exactly the answer that the same server would give to that request alone. This holds at the library level (several callers sharing one server value) and for the deployed services reached over the network.",
 ["schedules","histories","inputs"],
 "all interleavings, down to single statements, of any mix of concurrent requests from several clients on one server of each scheme",
 "all tests issue one request at a time",
 ["lib/server/fss.go","lib/server/point.go","lib/server/predicate_apir.go","lib/server/predicate_pir.go","lib/fss/server.go","lib/server/lwe.go","lib/server/lwe128.go","lib/server/amplify.go","lib/server/dh.go","cmd/grpc/server/main.go","simulations/multi/server/server.go"],
 [("per-request buffers or serialisation","lib/server, lib/fss/server.go"),("single worker fed by a queue with per-request reply channels","cmd/grpc/server/main.go:Query, startWorker")],
 ["each AnswerBytes / RPC reply compared with the solo reply"])

prop("C09","A server survives malformed, cancelled and abandoned requests",
 "Whatever bytes a client sends as a query, and whenever it cancels, times out or disconnects, the deployed server keeps running: the offending request ends with an error (or any answer) and every later well-formed request is answered correctly within a bounded simulated time. No sequence of such requests stops the server from shutting down cleanly.",
 ["inputs","fault_sequences","schedules","histories"],
 "all byte strings as queries (random, truncated or mutated genuine queries, queries of other schemes), all cancellation, deadline and disconnect instants, all mixes with well-formed requests",
 "no test starts the network server, sends malformed bytes or cancels",
 ["cmd/grpc/server/main.go","lib/server/point.go","lib/server/fss.go","lib/query/query.go","lib/fss/server.go"],
 [("request queue and worker with error reply path","cmd/grpc/server/main.go:Query, startWorker"),("query decoding","lib/server/fss.go:answerBytes")],
 ["RPC results; liveness of the server process"])

prop("C10","Graceful shutdown answers accepted requests and terminates",
 "When a server is told to stop by an interrupt or termination signal at any instant, every request it has already accepted is answered correctly (unless its client gave up or disconnected), the process never crashes, and it terminates within bounded simulated time. Requests arriving later are refused with an error rather than answered wrongly or left hanging.",
 ["schedules","crash_points","histories"],
 "all instants of the signal relative to arriving, queued, executing and replying requests, any number of requests in flight, repeated signals",
 "no test starts or stops the server",
 ["cmd/grpc/server/main.go","simulations/multi/server/server.go"],
 [("stop sequence: signal, drain, worker stop","cmd/grpc/server/main.go:main, stopWorker")],
 ["RPC results and process exit"])

prop("C11","The web front end isolates users and survives server failures",
 "Whatever requests users of the web front end issue concurrently, each response is the correct answer to that user's own request or an error, never another user's answer and never a wrong key or count. The front end stays up through malformed requests, lying servers, and servers that fail, stall, restart or disconnect, and once servers are healthy again a new request is answered correctly within bounded simulated time.",
 ["schedules","fault_sequences","inputs","histories"],
 "all interleavings of concurrent users over the four endpoints, all form inputs, all sequences of connection resets, RPC errors, server restarts and partitions that eventually stop",
 "no test runs the web front end",
 ["cmd/grpc/client/web/mod.go","cmd/grpc/client/manager/mod.go","lib/client","lib/query/query.go"],
 [("per-request client state","cmd/grpc/client/web/mod.go handlers"),("error propagation from servers","cmd/grpc/client/manager/mod.go")],
 ["HTTP responses; liveness of the front-end process"])

prop("C12","The deployed command-line client is right whatever the network order",
 "For every supported scheme flag and query option, running the command-line client against its configured servers prints the right key or the exact statistic, or fails with an error and a non-zero exit status. The i-th share of a query always reaches the i-th configured server, and the result does not depend on the order, delay or loss of messages, on iteration orders, or on the number of configured servers. The same goes for the interactive client and for the clients of the experiments: the experiments' client succeeds exactly if all its answers reconstruct. Only a key that is absent is reported as absent, whatever errors servers send.",
 ["schedules","configurations","inputs","fault_sequences"],
 "all orders and delays of connections and replies, all iteration orders, 2..4 configured servers for point schemes and 2 for predicate schemes, all queries, message loss and connection resets",
 "no test runs the command-line programs",
 ["cmd/grpc/client/main.go","cmd/grpc/client/interactive/mod.go","cmd/grpc/server/main.go","simulations/multi/client/client.go","simulations/multi/server/server.go","lib/utils/config.go","lib/client","lib/server"],
 [("share-to-server assignment","cmd/grpc/client/main.go:runQueries"),("scheme selection on both sides","cmd/grpc/client/main.go:exec, cmd/grpc/server/main.go:main"),("ordered addresses","lib/utils/config.go")],
 ["stdout, exit status and the bytes each server receives"])

prop("C13","Servers that load the same key files build identical databases",
 "Two servers that build a database of the same kind from the same key files (or the same seed) end up with byte-identical content, public parameters, digests and roots, whatever their processor count, goroutine scheduling, iteration orders, local time zone, clock and environment. Rebuilding after a restart gives the same database again.",
 ["schedules","configurations","crash_points"],
 "all processor counts from 1 to 64, all schedules of the building goroutines, all map iteration orders, all zones and clocks, all key sets",
 "tests build each database once on one machine",
 ["lib/database/pgp.go","lib/database/elliptic.go","lib/database/merkle.go","lib/database/lwe.go","lib/database/lwe128.go","lib/pgp/pgp.go","lib/database/db.go"],
 [("sorting keys before bucketing and iterating in index order","lib/database/pgp.go"),("ordered collection of worker results","lib/database/elliptic.go, lib/database/merkle.go")],
 ["fields of the built database, answers to fixed queries"])

prop("C14","A client refuses servers that disagree on public database parameters",
 "If the servers' advertised database parameters differ in any field that influences a query or the verification of an answer - dimensions, record size, authentication kind, root or proof length - every client (command line, manager, web front end, interactive and that of the experiments) refuses with an error before sending any query. It does so whichever server differs and whichever reply arrives first; when all parameters agree it proceeds.",
 ["schedules","fault_sequences","configurations"],
 "any single- or multi-field deviation at any subset of servers (not all equal), any arrival order of replies, all schemes",
 "no test compares parameters coming from different servers",
 ["cmd/grpc/client/main.go","cmd/grpc/client/manager/mod.go","simulations/multi/client/client.go"],
 [("equality check of advertised parameters","cmd/grpc/client/main.go:equalDBInfo, cmd/grpc/client/manager/mod.go:GetDBInfos")],
 ["queries seen by servers, client result"])

prop("C15","The key store reads back what was written, or errors, under disk faults",
 "Every set of keys written to a key file reads back as exactly the same keys with the same contents, for any split over files. Under disk faults (full disk, I/O error, short or torn write, crash during the write) writing that reports success has stored everything; after a failed or interrupted write the file reads back, without panic, as an error or as an exact prefix of what was written - never as altered or invented keys.",
 ["fault_sequences","crash_points","inputs"],
 "all key sets, all split points, a fault at every byte position of the write and the read, crash at any instant",
 "no test writes keys to disk or injects disk errors",
 ["lib/pgp/pgp.go","data/main.go"],
 [("sequential encoding and EOF-terminated decoding","lib/pgp/pgp.go:WriteKeysOnDisk, LoadKeysFromDisk")],
 ["keys returned, errors returned"])

prop("C16","Looking up an e-mail returns exactly its key, and absence is reported",
 "For databases built from a set of key files, private lookup of an e-mail returns exactly the key whose primary address is that e-mail when one is stored, including when several keys share a bucket, and reports that no key is found when none is stored - including when the bucket is empty or holds only other keys. A lookup never crashes the client and never returns another person's key.",
 ["inputs","configurations","histories","schedules"],
 "all key sets (bucket collisions, empty buckets, identical buckets), all present and absent addresses, plain and authenticated databases, all numbers of servers",
 "the tests for this path need a key dump that is not in the repository; they only look up present keys sequentially",
 ["lib/database/pgp.go","lib/pgp/pgp.go","cmd/grpc/client/main.go","cmd/grpc/client/manager/mod.go","lib/client/client.go"],
 [("bucketing by hash of the address","lib/database/db.go:HashToIndex, lib/database/pgp.go:makeHashTable"),("padding and unpadding","lib/database/pgp.go:UnPadBlock"),("selection inside a bucket","lib/pgp/pgp.go:RecoverKeyFromBlock")],
 ["armored key or error"])

prop("C17","Malformed answers give the client an error, never a crash",
 "Whatever bytes the servers return as answers - empty, truncated, oversized, random, of another scheme, or of unequal lengths - every client's reconstruction returns normally with a value or an error: it never panics, never terminates the process, and never allocates memory out of proportion to the answers and the database parameters.",
 ["inputs","fault_sequences"],
 "all answer byte strings for all schemes and database parameters, from any subset of servers",
 "tests only pass well-formed answers",
 ["lib/client/client.go","lib/client/fss.go","lib/client/lwe.go","lib/client/lwe128.go","lib/client/amplify.go","lib/client/dh.go","lib/merkle/proof.go","lib/matrix/matrixBytes.go","lib/database/elliptic.go","lib/utils/encoding.go"],
 [("length and format validation before use","lib/client/*.go reconstruction, lib/merkle/proof.go:DecodeProof")],
 ["return of ReconstructBytes"])

prop("C18","Curating a dump keeps the freshest usable key per address, in any file order",
 "Curating a key dump yields, for every e-mail address that is the primary address (ignoring case) of at least one readable, unrevoked key, exactly one key: a most recently created one of them, with its primary key and identities intact and its subkeys removed. Among keys created in the same second any one may be the one kept; apart from such ties the outcome does not depend on how keys are spread over dump files, on the order in which files are listed, or on iteration orders. A read error on a dump file is reported as an error instead of silently dropping keys.",
 ["inputs","configurations","fault_sequences","schedules"],
 "all distributions of keys over dump files, all orders of files, all iteration orders, read faults at any byte",
 "tests only check address normalisation of one identity",
 ["lib/pgp/pgp.go","data/main.go"],
 [("selection of the newest key per address","lib/pgp/pgp.go:AnalyzeKeyDump")],
 ["map of keys returned"])

prop("C22","Accepting or refusing an answer tells nothing about the query",
 "In every authenticated scheme (point retrieval, predicates, the four single-server schemes), whether the client accepts or refuses does not depend on what it asked for. Whatever fixed way of lying the dishonest servers follow - altering chosen bytes or rows of their answers, answering over a changed database or key set, zeros, exchanges, truncations - clients that ask for different positions, or for different texts of the same kind and length, refuse with the same probability (an average over no key, which every server's answer leads to refusing, is not compared). This holds for the libraries and for the deployed command-line client and web front end, so that a server that sees a client give up or come back learns nothing.",
 ["inputs","fault_sequences","schedules"],
 "all databases, all ways of lying that do not depend on the query beyond the messages the liar receives, all pairs of targets",
 "a test that checks that an altered answer is refused passes when only the part that was asked for is verified, which is what gives the query away",
 ["lib/client/client.go","lib/client/fss.go","lib/client/dh.go","lib/client/lwe.go","lib/client/lwe128.go","lib/client/amplify.go","cmd/grpc/client"],
 [("the blocks of all rows are verified","lib/client/client.go:reconstructPIR"),("all rows or columns of the answer are verified","lib/client/dh.go, lib/client/lwe.go, lib/client/lwe128.go: Reconstruct"),("all tags are verified before a value or an absence is reported","lib/client/fss.go:reconstruct")],
 ["error or success of ReconstructBytes, exit status, status of the page"])
prop("C23","Experiment reports account truthfully for what was really sent",
 "In the runs made for experiments, the programs report every retrieval exactly once and truthfully, whatever the number of concurrent clients, the order and delay of messages and the failures around them. The command-line client with -experiment prints one statistics line for a retrieval that succeeds and none otherwise; the experiments' client prints one line per completed repetition, numbered from 0, and none for a repetition whose answers did not all arrive. The bytes in a line are the total length of the queries sent to all servers for that retrieval or repetition; the seconds cover at least the time from the first of these queries being sent to the last answer being given, and at most the time from the end of what came before (parameters or previous repetition) to what comes after. Each server (-experiment for the deployed ones) prints one line per query it answers, with the length of that answer, and none for a query it refuses.",
 ["inputs","configurations","schedules","fault_sequences"],
 "all schemes, numbers of servers, clients and repetitions, all message orders and delays, refused queries, lost messages and killed servers",
 "no test runs the programs, and the figures depend on delays, retries and other users",
 ["simulations/multi/client/client.go","simulations/multi/server/server.go","cmd/grpc/client/main.go","cmd/grpc/server/main.go"],
 [("bandwidth and time per repetition","simulations/multi/client/client.go:retrievePointPIR, retrieveComplexPIR"),("bandwidth and time of one retrieval","cmd/grpc/client/main.go:retrieveKeyGivenId, retrieveComplexQuery"),("answer length","cmd/grpc/server/main.go:startWorker, simulations/multi/server/server.go:Query")],
 ["lines with stats in the logs of the programs"])
prop("C19","Lattice parameters and group choices give the claimed computational security",
 "No efficient server distinguishes two single-server queries or forges an accepted answer, given the fixed lattice dimensions, moduli, noise widths and groups.",
 ["inputs"],"all efficient adversaries","a hardness claim cannot be tested",
 ["lib/utils/lwe.go","lib/utils/gauss.go","lib/client/dh.go"],[("parameter choice","lib/utils/lwe.go")])
prop("C20","Encoders and decoders of messages are exact inverses",
 "Encoding a matrix, Merkle proof, predicate, group-element list or integer vector and decoding it again gives back the same value.",
 ["inputs"],"all values","tests sample a few values",
 ["lib/matrix/matrixBytes.go","lib/merkle/proof.go","lib/utils/encoding.go","lib/database/elliptic.go"],[("codecs","lib/matrix/matrixBytes.go, lib/merkle/proof.go")])
prop("C21","Secret-dependent work takes time independent of the secrets",
 "The time and memory-access pattern of query generation and reconstruction do not depend on the queried position or on the secret multipliers.",
 ["inputs","schedules"],"all targets","tests do not measure time",
 ["lib/fss/client.go","lib/client/lwe.go"],[("none stated in the code","lib/fss/client.go")])
with open('/verif/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+"\n")
