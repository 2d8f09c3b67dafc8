#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Garbled tables encrypt the right output label in every row",
  "For every circuit, every assignment of wire masks and keys and every valid parameter choice, opening the parties' shares of a gate's garbled table gives, in the row for a pair of masked input values, the gate output wire's key and mask tag for the correct masked output value, encrypted under the sum of exactly the two input wires' keys plus the supplied error. "
  "Hence walking the tables from the input labels yields, for every input, exactly the outputs the plain circuit yields.",
  ["programs", "inputs", "configurations"],
  "all circuits up to a bounded shape (gate kinds, shared, repeated and fan-out wires, partial blocks), all mask bits and gate inputs, several (n,t,l,key length,ciphertext length)",
  "The existing garbling test runs one circuit with one parameter set and looks only at table shapes; the content of the tables is never opened.",
  ["src/protocol/garble.rs", "src/protocol/core.rs", "src/sharing.rs", "src/circuit.rs"],
  [("selection of row plaintexts", "garble_and/garble_xor/garble_inv in src/protocol/garble.rs"),
   ("moving wire labels from the producing block to the consuming block", "Transforms, select in src/protocol/garble.rs"),
   ("layout of keys per block", "garble in src/protocol/garble.rs")],
  ["return value of garble at each party, opened with degree n-1 reconstruction"])

p("C02", "Protocols finish with schedule-independent results",
  "Whatever the relative speed of the parties, the interleaving of their internal tasks and the delay of each network connection, multiplication, sharing transformation, preprocessing and garbling all terminate at every party without an error, and what the parties' outputs open to is the value that the inputs determine.",
  ["schedules", "configurations"],
  "all task interleavings and connection delays within a stated number of deviations from arrival order, including one arbitrarily slow party or connection",
  "Tests run each protocol once, under whichever single interleaving the runtime happens to produce.",
  ["src/protocol/core.rs", "src/protocol/preproc.rs", "src/protocol/garble.rs", "src/protocol/network.rs"],
  [("message collection indexed by sender", "message_from_each_party in src/protocol/network.rs"),
   ("routing by protocol ID", "receive_router in src/protocol/network.rs"),
   ("joining of spawned subprotocols in a fixed order", "garble, Transforms, preproc")],
  ["outputs of every party at the end of each explored schedule"])

p("C03", "Multiplication and degree reduction compute exact products",
  "For every batch of packed secrets, every choice of sharing polynomials and masking randomness, and every party acting as leader (named or derived from the protocol ID), the parties end with a sharing of the original low degree whose secrets are the slot-wise products (or the unchanged secrets, for plain degree reduction), in batch order.",
  ["inputs", "configurations"],
  "all secrets and sharing randomness in tiny fields, all leaders, all valid (n,t,l) up to a bound, batch sizes including zero and one",
  "Tests multiply one random batch for n=16,t=5,l=3 with the leader left to the ID hash.",
  ["src/protocol/core.rs", "src/sharing.rs"],
  [("leader opens the masked value, re-shares, parties unmask", "reduce_degree, mult in src/protocol/core.rs"),
   ("leader choice", "leader_from_proto_id in src/protocol/core.rs")],
  ["shares returned by mult/reduce_degree"])

p("C04", "Sharing transformations move exactly the chosen secrets",
  "For every list of old positions, new positions and selection (including repeats and fewer secrets than the packing parameter), the prepared pair of random sharings is consistent, and applying the transformation to any sharing of any degree gives a low-degree sharing holding, at each new position, the old secret the selection names. "
  "Batching several transformations into one preparation does not mix them up.",
  ["inputs", "configurations"],
  "all selections up to the packing parameter, all batch fillings, all leaders, a basis of the secrets and randomness plus linearity, valid (n,t,l) up to a bound",
  "Tests run one permutation-like transformation with n=16,t=5,l=3.",
  ["src/protocol/core.rs", "src/math/mod.rs", "src/sharing.rs"],
  [("packed evaluation of the re-sharing maps", "RandSharingTransform::new, randtrans in src/protocol/core.rs"),
   ("mask, open, select, re-share, unmask", "trans in src/protocol/core.rs"),
   ("selection maps", "Combination in src/math/mod.rs")],
  ["outputs of randtrans and trans"])

p("C05", "Preprocessing yields well-formed material of the requested size",
  "At the end of preprocessing every party holds at least (keys and masks and errors: exactly) the requested number of shares of each kind, and opened together the masks are bits in every slot, the zero sharings hold zero in every slot, keys and masking sharings have the low degree, and each error is the product of two of the generated random bits and a random field element. "
  "No generated random value is used for two purposes.",
  ["inputs", "configurations"],
  "all request sizes up to a bound (including ones not divisible by the party count or batch size), valid (n,t,l), any randomness",
  "The test only compares the lengths of the returned vectors for one circuit and one configuration.",
  ["src/protocol/preproc.rs"],
  [("batched generation", "rand, zero, randbit in src/protocol/preproc.rs"),
   ("biased errors through two multiplications per batch", "preproc in src/protocol/preproc.rs")],
  ["PreProc value returned at each party"])

p("C06", "Jointly generated randomness is uniform given any t parties' view",
  "For every set of at most t parties, the random sharings, zero sharings and random bits the protocols output are, given everything those parties sent, drew and received, uniformly distributed over all sharings of the right kind that agree with what those parties hold.",
  ["inputs", "configurations"],
  "all random tapes of all parties in tiny fields, or a basis of the tape space plus linearity, for every corruption set of size t, several (n,t,l) and both extraction matrices",
  "A test run sees one sample; uniformity conditional on a view is a statement about all random tapes.",
  ["src/protocol/preproc.rs", "src/math/mod.rs", "src/sharing.rs"],
  [("fresh sharings by each party", "rand, zero, randbit in src/protocol/preproc.rs"),
   ("super-invertible extraction", "super_inv_matrix, binary_super_inv_matrix in src/math/mod.rs")],
  ["tapes, received bytes and output shares of every party"])

p("C07", "Online messages reveal nothing about the secrets",
  "During degree reduction, multiplication and sharing transformation, for every set of at most t parties that may include the leader, the distribution of everything those parties receive depends only on their own shares of the inputs and randomness, not on the secrets, when the masking sharings are fresh.",
  ["inputs", "configurations"],
  "all masking randomness in tiny fields or a basis of it plus linearity, every corruption set of size t, every leader, every transformation shape garbling asks for (no more old than new positions) up to the packing parameter",
  "Secrecy is a statement about the distribution over all masks; a test observes single runs and inspects only outputs.",
  ["src/protocol/core.rs", "src/sharing.rs"],
  [("random and zero masks added before opening to the leader", "reduce_degree, trans in src/protocol/core.rs"),
   ("joint structure of the two mask sharings", "RandSharingTransform::new, randtrans in src/protocol/core.rs"),
   ("leader re-shares with fresh randomness", "PackedSharing::share, share_using_coeffs in src/sharing.rs")],
  ["bytes on every simulated connection"])

p("C08", "Any t shares of a packed sharing are independent of the secrets",
  "For every parameter choice and every vector of secrets (complete or partial), the joint distribution of any t shares of a fresh sharing is uniform and independent of the secrets; shares of a random sharing are uniform for any set no larger than degree plus one.",
  ["inputs", "configurations"],
  "all secrets, all random tapes, all t-subsets, in fields of 4, 8 and 16 elements and all (n,t,l) that fit; basis plus linearity for larger ones",
  "Tests share and reconstruct single values and never look at the distribution of shares.",
  ["src/sharing.rs"],
  [("polynomial through secrets and t random points", "share, share_using_coeffs, rand in src/sharing.rs")],
  ["returned share vectors"])

p("C09", "Reconstruction inverts sharing for all parameters",
  "For every number of parties, degree, set of secret positions and vector of secrets, any sharing the library makes has the requested degree and every reconstruction routine returns exactly those secrets; sums of sharings open to sums and local products open to products whenever the degrees fit.",
  ["inputs", "configurations"],
  "all secrets and randomness in tiny fields, all (n,degree,l) with n up to a bound, arbitrary position sets, basis plus linearity in the shipped field",
  "Tests use n=16 and two degrees with fixed positions.",
  ["src/sharing.rs", "src/math/mod.rs"],
  [("coefficient matrices", "PackedSharing::new, compute_share_coeffs, compute_recon_coeffs in src/sharing.rs")],
  ["share, rand, recon, semihon_recon and coefficient-based variants"])

p("C10", "Checked reconstruction accepts exactly the consistent share vectors",
  "Checked reconstruction of a share vector succeeds exactly when all shares lie on one polynomial of the sharing's degree, and then returns that polynomial's secrets; any other vector, in particular any valid sharing with at least one altered share, is reported as malicious behaviour, and a vector of the wrong length is reported as an error.",
  ["inputs", "fault_sequences", "configurations"],
  "all share vectors over tiny fields; all alterations of up to n shares of a basis of sharings; all (n,degree,l) up to a bound",
  "Tests alter one or a few shares of one sharing for one configuration.",
  ["src/sharing.rs"],
  [("redundant shares are recomputed and compared", "recon in src/sharing.rs")],
  ["result of recon"])

p("C11", "Field arithmetic obeys the field laws for every supported width",
  "For every supported width, elements are exactly the integers below the order, addition is exclusive-or, multiplication is multiplication of polynomials modulo one fixed primitive polynomial, subtraction and division invert addition and multiplication, and every operand form (owned, borrowed, assigning) gives the same result. "
  "Any 32-bit integer converts to the element it denotes, and random sampling is uniform over the whole field.",
  ["inputs", "configurations"],
  "all element pairs for small widths, all elements against a spanning set (quick) or all pairs (thorough) for the shipped width 18, all widths that fit in memory",
  "Tests check a handful of random elements of one width.",
  ["src/math/galois/mod.rs", "extern/galois/galois.c"],
  [("logarithm tables", "galois_create_log_tables, galois_logtable_multiply, galois_logtable_divide in extern/galois/galois.c"),
   ("operator implementations, conversion and sampling", "src/math/galois/mod.rs")],
  ["operator results"])

p("C12", "Field set-up is safe from any thread and for any mix of widths",
  "After set-up of a width reports success, all operations of that width are correct, no matter which other widths are set up or used before, after or meanwhile, how often set-up is called, and which threads call it concurrently; set-up of an unsupported width reports failure every time.",
  ["schedules", "histories", "configurations"],
  "all orders of set-up and first use of several widths, all interleavings of two or three threads around the table construction",
  "Every test process uses a single width and set-up races are left to chance.",
  ["src/math/galois/mod.rs", "extern/galois/galois.c"],
  [("one-time initialisation", "GF::init, GF::rand in src/math/galois/mod.rs"), ("table allocation", "galois_create_log_tables in extern/galois/galois.c")],
  ["return value of set-up, operator results afterwards"])

p("C13", "Encoding to bytes and back is the identity",
  "Every field element of every width is encoded in exactly the advertised number of bytes and decodes to itself, also inside longer messages; a set of preprocessing material of any shape decodes to identical material, so that garbling with a stored copy equals garbling with the original. "
  "The encoded size of preprocessing material is its share count times the element size plus the fixed container overhead.",
  ["inputs", "configurations"],
  "all elements of widths up to 18, all preprocessing shapes up to a bound including a single block and single-element keys",
  "Tests round-trip one field vector; preprocessing material is never decoded by any test.",
  ["src/math/galois/mod.rs", "src/protocol/preproc.rs"],
  [("little-endian tuple encoding", "Serialize/Deserialize for GF in src/math/galois/mod.rs"), ("flattened form", "PreProcSer in src/protocol/preproc.rs")],
  ["encoded bytes, decoded values, results of garbling with decoded material"])

p("C14", "Interpolation matrices map evaluations to evaluations",
  "For every list of distinct known points and every list of distinct target points (overlapping or not), applying the interpolation matrix to a polynomial's values at the known points gives its values at the target points, for every polynomial of degree below the number of known points, with any number of worker threads.",
  ["inputs", "schedules", "configurations"],
  "all point sets of tiny fields, all basis polynomials, all orders in which the parallel pieces may run",
  "Tests interpolate a few fixed point sets.",
  ["src/math/mod.rs"],
  [("precomputed numerators and denominators, selection for common points", "lagrange_coeffs in src/math/mod.rs")],
  ["returned matrix"])

p("C15", "Extraction matrices stay full rank whichever t inputs are dropped",
  "The randomness-extraction matrix for n inputs and n-t outputs is full rank on every choice of n-t inputs; every matrix file the repository ships for (n,t) loads with n inputs, contains the file's entries in order, and has the same property for t dropped inputs.",
  ["inputs", "configurations"],
  "all input subsets for all (n,t) up to a bound, all code words of the shipped matrices of moderate dimension and all low-weight combinations of the larger ones",
  "Tests check invertibility of a few random submatrices or just shapes.",
  ["src/math/mod.rs", "data/binsup_mat"],
  [("scaled Vandermonde matrix", "super_inv_matrix, rs_gen_mat in src/math/mod.rs"), ("file loader", "binary_super_inv_matrix in src/math/mod.rs"), ("shipped matrices", "data/binsup_mat/*.txt")],
  ["returned matrices"])

p("C16", "Circuit files are read and evaluated with their defined meaning",
  "For every well-formed circuit description in the supported format, the loaded circuit has the described gates in order, consecutive input groups from the first wire and consecutive output groups ending at the last wire, both in file order, and evaluating it on any input gives the described Boolean function's outputs.",
  ["programs", "inputs"],
  "all circuits up to a bounded number of gates and input/output groupings, all inputs; whitespace variants of the format; the shipped circuit files on structured inputs",
  "Tests load one circuit with a single output group and evaluate a few inputs.",
  ["src/circuit.rs", "data/circ"],
  [("parser", "Circuit::from_bristol_fashion in src/circuit.rs"), ("evaluator", "Circuit::eval in src/circuit.rs")],
  ["gates, inputs, outputs, eval"])

p("C17", "Packing rearranges gates without changing the circuit",
  "For every circuit and packing parameter, the packed circuit contains every gate exactly once, only gates of one kind per block, at most the packing parameter per block with slot-aligned inputs and outputs, every input and output wire once and in order, the same for every party, and never more blocks than the gate counts require.",
  ["programs", "configurations"],
  "all circuits up to a bounded number of gates and all packing parameters up to beyond the gate count, plus the shipped circuits",
  "Tests pack one circuit with one packing parameter.",
  ["src/circuit.rs"],
  [("grouping, ordering by fan-out, chunking", "Circuit::pack, pack_gate_info in src/circuit.rs"), ("block counts", "PackedCircuit::get_gate_counts in src/circuit.rs")],
  ["accessors of the packed circuit"])

p("C18", "Announced preprocessing is exactly what garbling consumes",
  "For every circuit and parameter choice, the announced numbers of masks, keys, masking sharings, zero sharings and errors are enough for garbling to complete and no smaller number of any kind would do; the size report prints these numbers, the encoded size of such material, and the numbers of random, zero and bit sharings that generating it takes.",
  ["programs", "configurations"],
  "all circuits up to a bounded shape, shipped circuits' shapes for the size report, several (n,t,l,key length,ciphertext length)",
  "One circuit and configuration is tried; a surplus or a shortage for other shapes stays invisible.",
  ["src/protocol/preproc.rs", "src/protocol/garble.rs", "src/bin/preproc_size.rs"],
  [("counting formulas", "PreProcCount::new in src/protocol/preproc.rs"), ("consumption", "garble in src/protocol/garble.rs"), ("report", "src/bin/preproc_size.rs")],
  ["completion of garble with announced, and with reduced, material; output of preproc_size"])

p("C19", "Subprotocol identifiers are distinct and sufficient",
  "A generator created for some number of children yields at least that many identifiers, all distinct, all different from the parent, and, across any tree of parents and children created this way with sibling sets from one generator, no two identifiers are equal. "
  "Every party that makes the same calls gets the same identifiers, and they stay short enough for the network at every nesting depth in use.",
  ["histories", "configurations"],
  "all child counts up to and around 65536, all trees up to a bounded depth and width",
  "Tests draw a few hundred identifiers from one or two generators.",
  ["src/protocol/mod.rs"],
  [("counter suffix of a width fixed by the bound", "ProtocolIDBuilder in src/protocol/mod.rs")],
  ["identifiers yielded"])

p("C20", "Every message arrives once, intact, in order, at the right protocol",
  "On both the in-process and the TCP network, under every interleaving, each message is received exactly once by each addressee and by nobody else, with the sender's identity, protocol identifier and bytes unchanged; messages from one sender under one identifier are received in sending order, and a receiver waiting under one identifier is never blocked or answered by traffic under another.",
  ["schedules", "histories", "inputs"],
  "all interleavings of small send/receive scripts (within a deviation bound for the larger ones), all arrival-before-request and request-before-arrival orders, self-addressed, single and broadcast messages",
  "Tests exchange a few messages under the schedule the runtime happens to choose.",
  ["src/protocol/network.rs", "src/protocol/mod.rs"],
  [("fan-out", "send_router, setup_local_network in src/protocol/network.rs"), ("matching of requests and buffered messages", "receive_router in src/protocol/network.rs")],
  ["ReceivedMessage values returned by recv"])

p("C21", "TCP framing survives any segmentation and never invents messages",
  "However the byte stream between two parties is split or coalesced, and for every identifier length up to 255 and payload length, the receiver obtains exactly the messages sent; if the stream ends early, every completely transmitted message is delivered and nothing else.",
  ["fault_sequences", "inputs", "schedules"],
  "all split points of short streams, all truncation points, payload lengths on both sides of every length-prefix boundary up to 2^21, all identifier lengths",
  "On the loopback interface short messages practically never split; tests send few sizes.",
  ["src/protocol/network.rs"],
  [("length-prefixed frames", "party_sender, party_receiver in src/protocol/network.rs")],
  ["messages received, behaviour at end of stream"])

p("C22", "Connection set-up completes and identifies peers in any start order",
  "Whatever order the parties start in, however long some of them are not yet listening, and in whatever order connections are opened and announced, set-up completes at every party with one connection per pair, and traffic over each is attributed to the party at the other end.",
  ["schedules", "configurations"],
  "all start orders and accept orders for up to four parties within a deviation bound, refused first attempts, party counts beyond 256",
  "Tests start all parties at once on one machine in a fixed order.",
  ["src/protocol/network.rs"],
  [("retry, identification handshake, slotting by announced identity", "connect_to_peers in src/protocol/network.rs")],
  ["set-up result, sender attribution of the first messages"])

p("C23", "Round collection and barriers wait for every party",
  "Collecting one message per party returns only after every party's first message under that identifier, in party order, dropping later duplicates; no party passes a synchronisation point before every party has reached it, and every party does pass it, for any number of rounds separated by all-to-all traffic.",
  ["schedules", "histories"],
  "all arrival orders for up to four parties, duplicates at every position, several consecutive rounds",
  "Tests synchronise once under one schedule.",
  ["src/protocol/network.rs"],
  [("slot per sender and counter", "message_from_each_party, sync in src/protocol/network.rs")],
  ["return values and order of events at all parties"])

p("C24", "Traffic statistics equal the bytes actually received per sender",
  "At every party and for every sender, the reported payload count equals the total length of payloads received so far and the reported network count adds the identifier lengths; totals are sums over senders, and the difference between two readings is the traffic in between.",
  ["histories", "schedules"],
  "all short message histories with distinguishable sizes, on both networks, all receivers and senders, readings at every point",
  "Tests compare one total after one exchange.",
  ["src/protocol/network.rs", "src/lib.rs"],
  [("counting on receipt", "receive_router, Stats in src/protocol/network.rs"), ("interval readings", "Stats in src/lib.rs")],
  ["party, total and elapsed readings"])

p("C25", "No key combination is ever encrypted twice under one public matrix",
  "For every circuit, any two garbled-table rows that can be encrypted under keys of the same unordered wire pair use different public matrices, all parties use shares of the same matrices in every slot, and the matrices depend only on the circuit and parameters.",
  ["programs", "configurations"],
  "all circuits up to a bounded shape including repeated wires, swapped inputs and high fan-out; packing parameters 1 to 3",
  "The matrices are never looked at by tests.",
  ["src/protocol/garble.rs"],
  [("nonce from per-slot wire use counts", "LPNMatrix in src/protocol/garble.rs")],
  ["matrices recovered from opened tables by varying the keys"])

p("C26", "Benchmark programs finish at every party and save a faithful report",
  "When every party runs the garbling or preprocessing program with the same parameters, every process ends by itself in every schedule, and with saving enabled the report written by party 0 lists the actual parameters and one entry per party and repetition whose traffic numbers are the bytes that party received. "
  "Each repetition does the work the parameters ask for, no party begins the measured work before every party is ready, and the printed traffic is the saved one.",
  ["schedules", "configurations"],
  "all schedules within a deviation bound for two to four parties, parameters that are pairwise distinct, with and without saving, one and several repetitions",
  "No test runs the programs.",
  ["src/bin/garble.rs", "src/bin/preproc.rs", "src/protocol/network.rs", "src/lib.rs"],
  [("barriers around repetitions, collection at party 0, final notice", "benchmark in src/bin/garble.rs and src/bin/preproc.rs")],
  ["process end, saved file"])

p("C27", "Dealer-simulated preprocessing is consistent across parties",
  "For the same seed, counts and parameters, the simulated material generated independently by each party opens to bits for masks, zeros for zero sharings and low-degree sharings for the rest, with the announced counts; different sharings of a batch and different seeds give different values, and garbling with it satisfies the same guarantees as with real preprocessing.",
  ["inputs", "configurations"],
  "several seeds, all count shapes up to a bound and one beyond the internal pool size, several (n,t,l)",
  "Tests use it only as fuel for one garbling run and never open it.",
  ["src/protocol/preproc.rs"],
  [("common seed, per-party evaluation", "PreProc::dummy in src/protocol/preproc.rs")],
  ["material returned at each party"])

p("C28", "The published parameter scripts give the claimed security level",
  "The parameters the LPN script prints resist all attacks it models with at least the requested number of bits, and the computation estimates bound the cost of the malicious protocol.",
  ["configurations"],
  "all security levels, noise rates and field sizes",
  "No test covers the scripts.",
  ["scripts/lpn_param.py", "scripts/gen_lpn_params.py", "scripts/computation_estimates.py"],
  [("numerical search", "scripts/lpn_param.py")])

p("C29", "Garbling as a whole hides masks, keys and noise from any t parties",
  "For every set of at most t parties, everything these parties receive during a whole garbling is distributed independently of the masks, keys and noise that their own shares leave open. In particular no masking or zero sharing protects two messages whose combination they see.",
  ["inputs", "configurations", "programs"],
  "all sets of t parties, every bit of every party's share of every mask, key, noise value, masking and zero sharing, small circuits with each kind of gate and several batches, parameters for 3 to 5 parties",
  "A test sees that tables open correctly, which they also do when protection is reused.",
  ["src/protocol/garble.rs", "src/protocol/core.rs"],
  [("order in which masking and zero sharings are taken", "garble in src/protocol/garble.rs"), ("leader openings", "src/protocol/core.rs")],
  ["bytes received by each set of parties"])

p("C30", "Leading the steps is spread over all parties",
  "When no leader is prescribed, the parties take turns in leading protocol steps, so that over many steps no party carries much more of the traffic than any other. The same holds for preprocessing with many errors and for garbling of circuits with many blocks.",
  ["inputs", "configurations", "programs"],
  "a hundred and more instances per party of multiplication, degree reduction and transformation with identifiers below several parents; whole preprocessings and garblings; 3 to 16 parties",
  "Results are the same whoever leads; only the traffic of every party shows it.",
  ["src/protocol/core.rs", "src/protocol/preproc.rs", "src/protocol/garble.rs"],
  [("choice of the leader from the identifier", "src/protocol/core.rs"), ("division of errors among leaders", "preproc in src/protocol/preproc.rs")],
  ["bytes on every connection"])

p("C31", "Protocols running side by side or in succession do not disturb each other",
  "Instances of the protocol steps, of joint generation, of preprocessing and of garbling that run at the same time under different identifiers each give the result they would give alone, whatever order each party starts them in and however their messages interleave. "
  "The same identifiers can be used again after all parties have passed a barrier, and material that was preprocessed in this way can be garbled with.",
  ["schedules", "programs", "histories"],
  "all pairs out of nine kinds of instance, three of one kind, and all nine together; equal and different sizes; one round and two with a barrier; both networks; base schedules and, for single steps, one deviation",
  "Tests run one instance at a time on a fresh network.",
  ["src/protocol/core.rs", "src/protocol/preproc.rs", "src/protocol/garble.rs", "src/protocol/network.rs", "src/protocol/mod.rs"],
  [("identifiers of steps derived from the caller's identifier", "ProtocolIDBuilder in src/protocol/mod.rs and its uses"), ("routing by identifier", "receive_router in src/protocol/network.rs")],
  ["results of all instances, opened"])

p("C32", "The launcher starts every party exactly once with the given arguments",
  "Started with a program, a number of parties and further arguments, the launcher runs the program once for each party, with that party's identity and all further arguments in their order. "
  "Each party's output lands in that party's own log, and party 0's output is shown as well.",
  ["configurations"],
  "every number of parties up to a bound, several argument lists including none and repeated ones, some parties slower than party 0",
  "No test uses the launcher.",
  ["run.sh"],
  [("loop over the parties and redirections", "run.sh")],
  ["starts and arguments recorded by a stand-in, log files, shown output"])

p("C33", "The matrix generator delivers what it announces for every request",
  "For every number of parties and ratio, the generator of binary extraction matrices either reports that it has no construction or announces numbers of parties and corruptions that satisfy the request, and when asked for a file writes one. "
  "Every combination of outputs of the written matrix depends on more inputs than the announced corruptions, and the repository's reader loads it as written. "
  "The documented request gives the shipped matrix.",
  ["configurations", "inputs"],
  "all numbers of parties up to 540 (1100) with ratios 2 to 10 (30); all combinations of outputs of the matrices of moderate dimension, through blocks or few at a time for larger ones",
  "No test runs the generator, and a test would try one or two requests.",
  ["scripts/gen_binary_supmat.py", "src/math/mod.rs", "data/binsup_mat"],
  [("choice of inner and outer code", "check_rs, find_bch_rs in scripts/gen_binary_supmat.py"), ("concatenation", "gen_mat_rs, gen_mat_bch, gen_mat_concat in scripts/gen_binary_supmat.py"), ("file loader", "binary_super_inv_matrix in src/math/mod.rs")],
  ["printed announcement, written files, loaded matrices"])

p("C34", "The published communication estimates agree with what is sent",
  "For circuits whose gates fill whole blocks, the bytes sent in preprocessing and in garbling change with circuit, key length and ciphertext length exactly as the published estimate for the semi-honest protocol says; only the lengths in front of messages come on top. "
  "The lines of an estimate add up to its total, amounts keep their value from unit to unit, and default extraction dimensions are those of shipped matrices. "
  "Steps that the malicious estimate only repeats for every tag cost the matching multiple.",
  ["configurations", "inputs"],
  "seven choices of parties, threshold and packing, five sizes of field elements; key and ciphertext lengths, numbers of input, AND and XOR blocks and extraction dimensions up to a bound; one to three tags; amounts in every printed unit; all thresholds of the shipped numbers of parties",
  "No test compares traffic with anything, and none runs the scripts.",
  ["scripts/communication_estimates.py", "src/protocol/preproc.rs", "src/protocol/garble.rs", "src/protocol/core.rs"],
  [("cost formulas", "ProtoCtr, semihon_protocol, malicious_protocol in scripts/communication_estimates.py"), ("sharings requested", "PreProcCount::new, preproc in src/protocol/preproc.rs"), ("openings in garbling", "src/protocol/garble.rs, src/protocol/core.rs")],
  ["printed estimates, traffic statistics of all parties"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
