#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                          "observe_at": observe, "hook_needed": hook}})

CUR, COM, ZK, HASH = "pkg/curve/secp256k1.go", "pkg/crypto/commitment/commitment.go", "pkg/crypto/zkpok/zkpok.go", "pkg/crypto/hash.go"
SYN, SERR = "pkg/sync/server.go", "pkg/sync/error.go"
DK, DS, RS, MU, PO, DH = ("pkg/arith/distributed_key.go", "pkg/arith/distributed_secret.go", "pkg/arith/reshare.go",
                          "pkg/arith/mult.go", "pkg/arith/poly.go", "pkg/arith/checkDH.go")
TE, GK, CLI = "pkg/tecdsa/tecdsa.go", "cmd/gen_keys/main.go", "cmd/tecdsa/main.go"

p("C01", "Curve operations are the exact group of prime order",
  "Adding, negating, scaling and comparing curve points always gives the result of the secp256k1 group, for every operand: the neutral element, a point and its own negation, equal points, and points reached by any sequence of earlier operations. Every nonnegative scalar acts as its value modulo the group order, including zero, the order itself and scalars longer than 32 bytes. Two points compare equal exactly when they are the same group element.",
  ["inputs", "histories"], "all points (neutral, generic, mutually inverse, equal) and all scalars >= 0, and all sequences of operations feeding results back in",
  "The tests add and scale a handful of small multiples of the generator; no test negates-and-adds, scales the neutral element or uses a scalar at or above the order.",
  [CUR, "pkg/curve/curve.go"], [("case split on neutral/equal operands", f"{CUR}: Add"), ("scalar reduction", f"{CUR}: ScalarMult, ScalarBaseMult"), ("Neg as multiplication by order-1", f"{CUR}: Neg")],
  ["curve.Group method results"])
p("C02", "Encoding round-trips for points, commitments and proofs, also in a stream",
  "Decoding what was encoded yields an equal point, commitment or proof and consumes exactly the bytes that were written for it, so that any sequence of encoded values concatenated in one message decodes back to the same sequence. This holds for every value, including the neutral element, values whose coordinates or responses have leading zero bytes, and readers that deliver the bytes in arbitrary chunks.",
  ["inputs", "histories"], "all values, all concatenations of values, all chunkings of the reader",
  "Each round-trip test encodes a single random value on its own; neutral elements, short coordinates (1 in 256) and concatenations are not reached.",
  [CUR, COM, ZK], [("length-prefixed coordinates", f"{CUR}: Encode, Decode"), ("pairs of points", f"{COM}: Encode, Decode"), ("length-prefixed responses", f"{ZK}: Encode, Decode")],
  ["Encode/Decode of curve.Group, commitment.ElGamal, zkpok.ZKEGKnow, zkpok.ZKEGRefresh"])
p("C03", "Malformed bytes are rejected with an error, never accepted or crashing",
  "Decoding a point, commitment or proof from arbitrary bytes either fails with an error or yields a proper element of the curve group; it never panics and never produces a coordinate pair that is not on the curve. A strict prefix of an encoding is always rejected. Whatever decodes successfully can be used in every operation, including verification, without a crash.",
  ["inputs"], "all byte strings: truncated, extended, bit-flipped, with lying length fields, with off-curve or out-of-range coordinates",
  "No test decodes anything that an honest encoder did not write.",
  [CUR, COM, ZK], [("length checks and curve membership", f"{CUR}: Decode"), ("error propagation", f"{COM}: Decode; {ZK}: Decode")],
  ["Decode results on hostile bytes"])
p("C04", "Operations leave their operands unchanged, under aliasing and concurrency",
  "No curve, commitment or proof operation changes a point, scalar or commitment that was passed to it, other than the receiver that is documented to take the result, nor any shared constant such as the order or the generator. The result is the same when the receiver is also an operand, and when several goroutines use the same group, factory or operands at the same time.",
  ["inputs", "schedules", "histories"], "all operand values (including long scalars), all aliasing patterns of receiver and operands, all interleavings of concurrent callers",
  "The tests use fresh operands, never inspect them afterwards and never run operations concurrently.",
  [CUR, COM, ZK], [("fresh results", f"{CUR}: Add, ScalarMult"), ("receiver-assigning operations", f"{COM}: Compose, Exp, Inverse")],
  ["operand values before and after each call"])
p("C05", "Commitments are homomorphic, deterministic and compare exactly",
  "A commitment to a value with a randomizer composes, exponentiates and inverts exactly as the pair (value, randomizer) does modulo the group order, for every pair including zeros and values above the order. Two commitments compare equal exactly when they agree in value and randomizer; the neutral commitment is the identity of composition and is the only one recognised as neutral.",
  ["inputs", "histories"], "all value/randomizer pairs, all sequences of commitment operations",
  "One small-number example per operation; a comparison or inversion that ignores one half of the commitment, or a zero half, is not exercised.",
  [COM, CUR], [("componentwise group operations", f"{COM}: Create, Compose, Exp, Inverse, Equal, IsNeutral")],
  ["commitment operations compared through Equal and through the encoded coordinates"])
p("Z01", "Honest proofs always verify",
  "A proof made from the true witness verifies against the statement it was made for, for every value, randomizer and refreshing randomizer - including zero, values at or above the group order, neutral commitments and statements obtained by composing other commitments - both directly and after a trip through encoding and decoding.",
  ["inputs"], "all witnesses and statements, all internal random choices",
  "One example witness per proof system; a failure confined to special witnesses or rare random draws (zero, short responses) is not reached.",
  [ZK, COM, HASH], [("sigma-protocol response", f"{ZK}: NewZKEGKnow, NewZKEGRefresh"), ("verification equation", f"{ZK}: Verify")],
  ["NewZK*, Verify, Encode/Decode"])
p("Z02", "A proof convinces only of the statement it was made for",
  "A proof is rejected when it is checked against any commitment other than the one(s) it was made for, in either component or argument position, or against another commitment base; and it is rejected when any of its parts is replaced or swapped with a part of another valid proof. A proof of knowledge made from a wrong value or wrong randomizer is rejected. (Between equal commitments the refresh relation holds without a secret, so a refresh transcript for one such pair may hold for another.)",
  ["inputs"], "all (proof, statement) pairs that do not belong together, all replacements of proof parts",
  "One negative example per proof system, in which everything about the statement differs at once.",
  [ZK, COM, HASH], [("verification equation over both components", f"{ZK}: Verify"), ("challenge from the statement", f"{ZK}: NewZK*, Verify; {HASH}")],
  ["Verify results on mismatched statements and spliced proofs"])
p("Z03", "No accepting proof can be assembled without the witness",
  "Whoever does not know the witness cannot produce an accepting proof by choosing responses first and solving for the rest, by combining transcripts of valid proofs, or by choosing the statement after the proof: the challenge depends on the complete statement and on the complete first message. In particular no accepting refresh proof can be produced for two commitments to different values.",
  ["inputs", "programs"], "all algebraic strategies built from public values and previously seen proofs",
  "The tests only verify honestly generated proofs; none plays a prover that deviates.",
  [ZK, HASH], [("Fiat-Shamir challenge over statement and first message", f"{ZK}: NewZKEGKnow, NewZKEGRefresh, Verify"), ("hash to scalar", HASH)],
  ["Verify results on forged proofs"])
p("Z04", "Proofs hide the witness: their nonces are fresh, full-width and used once",
  "The first message of every honest proof is made from random numbers of full width that are drawn anew for every proof and component; none is used twice, derived from the witness or from another one, and the responses are reduced modulo the group order. So no proof, and no two proofs for the same or different statements, allow computing the witness or a relation between witnesses.",
  ["histories", "inputs", "configurations"], "all sequences of proofs of both kinds, all statements, bases and witnesses, repeated statements included",
  "The tests make one proof at a time and look at its verdict only.",
  [ZK], [("nonces and responses", f"{ZK}: NewZKEGKnow, NewZKEGRefresh")], ["parts of encoded proofs"])
p("S01", "A round delivers to each party exactly what each peer sent it, once",
  "When a round whose start time lies in the future completes without error at a party, its validation callback has been called exactly once for each other party and never for itself, each time with exactly the bytes which that peer passed for it in the same round: the common payload if one was given, or the one addressed to this party otherwise. A round in which nothing fails at any party does complete so, and the payloads that were passed are left unchanged. This holds for all payloads (including empty and large ones), all numbers of parties, and however the transport splits or delays the bytes.",
  ["schedules", "inputs", "histories"], "all payload matrices, all interleavings of the parties, all chunkings and delays of the byte streams, all sequences of rounds",
  "The tests run one round with tiny payloads over a well-behaved in-memory network, all parties in step, and only broadcast payloads.",
  [SYN], [("length-prefixed frames with sender and round number", f"{SYN}: sendToAll, receiveFromAll"), ("per-peer connections", f"{SYN}: Start")],
  ["callback arguments; bytes passed to the connections"],
  state=[("round counter", "number of the round in progress", f"{SYN}: server.roundID")])
p("S02", "Data of another round or sender, or malformed data, is never accepted",
  "A frame that carries another round number or another sender's identity, or that is truncated or has an impossible length, never reaches the validation callback: the receiving party's round fails with an error that identifies the peer it came from, and the process does not crash. Nothing of a party's earlier or failed round is ever transmitted or accepted as part of a later one.",
  ["inputs", "schedules", "fault_sequences"], "all frame contents a peer can send, at any round, in any schedule, including rounds started right after a failed one",
  "No test sends anything but well-formed frames of the current round.",
  [SYN, SERR], [("header validation", f"{SYN}: receiveFromAll"), ("sender completes before the round returns", f"{SYN}: Round")],
  ["callback arguments, Round's error, process survival"])
p("S03", "A failed round reports exactly the parties that failed",
  "A round returns success exactly when the exchange with every other party worked: its data arrived and the callback accepted it, and sending to it did not fail. Otherwise it returns a round error that lists exactly the other parties with whom that was not the case, while the callback is still applied to every payload that did arrive.",
  ["fault_sequences", "schedules"], "all subsets of peers that are silent, disconnect mid-frame, send malformed data, become unreachable, or are rejected by the callback, in any round",
  "The tests contain no failing round at all.",
  [SYN, SERR], [("collection of per-peer errors", f"{SYN}: Round, receiveFromAll, sendToAll"), ("RoundError.Missing", SERR)],
  ["Round's error and RoundError.Missing()"])
p("S04", "Rounds act as barriers and always terminate when the transport does",
  "With all parties running, every round completes at every party, whatever the order in which they start, connect and enter rounds; no party completes a round before every other party has entered it. If peers fail, a round still returns once the transport operations it is waiting for return, for every later round too.",
  ["schedules", "fault_sequences", "crash_points"], "all orders of starting, connecting and entering rounds, all points at which a peer can stop",
  "The tests start all parties together, run a single round and stop no party.",
  [SYN], [("connection set-up", f"{SYN}: Start"), ("wait for all senders and receivers", f"{SYN}: Round")],
  ["Round entry and return events per party"])
p("S05", "Every party ends up with exactly one connection to and from every other party",
  "When all parties are started, in whatever order and with whatever delays, Start returns at every party with exactly one connection to and one from every other party, and whatever is read from the connection attributed to a party was sent by that party. Connections whose greeting is cut off, or names the party itself, nobody, or a party that is already connected, neither crash the party, nor displace a connection that exists, nor keep another party from connecting; they are closed. A greeting that could not be sent is sent again on a new connection. Stop closes, even when closing one of them reports an error, all connections of both directions. (Connections that stay open without ever greeting are outside the property.)",
  ["schedules", "fault_sequences", "inputs"], "all orders and delays of starting and connecting, all sequences of connections with proper and improper greetings, whole or in pieces, all points at which a connection can break",
  "The tests connect two well-behaved parties that are started together.",
  [SYN], [("accepting connections and reading greetings", f"{SYN}: Start, accept"), ("dialling and greeting", f"{SYN}: Start"), ("closing", f"{SYN}: Stop")],
  ["connections dialled, accepted, closed; from whom the payload of each party is read"])
p("A01", "Distributed key generation gives all parties one matching public key",
  "After distributed key generation without cheating, every party holds the same public key, it is the sum of the published shares of all parties, and each published share is the generator scaled by that party's secret share. This holds for every number of parties and all secret shares, including zero shares and shares adding up to zero.",
  ["inputs", "configurations"], "all numbers of parties and all combinations of secret shares",
  "The tests only check that key generation returns no error; the keys are never compared with each other or with the shares.",
  [DK], [("commit, reveal and sum", f"{DK}: GenExpReveal, NewDKey")],
  ["DKey.PublicKey(), exchanged messages"])
p("A02", "Key shares are fixed before any is revealed",
  "In distributed key generation, and wherever values are published by commit-then-reveal, no party discloses its reveal message before it has received every other party's commitment, and a party whose reveal differs in any respect from what it committed to makes every receiver abort with an error naming it. No key, verdict or share results from such an execution.",
  ["schedules", "fault_sequences", "inputs"], "all parties and receivers, all ways a reveal can differ from the commitment, all orders of message arrival",
  "Tests contain only honest parties.",
  [DK, RS, DH], [("commit round before reveal round", f"{DK}: GenExpReveal; {RS}: STEP 4-5; {DH}: STEP 1-2"), ("opening check", f"{DK}: NMCtmp.Verify")],
  ["exchanged messages, returned errors"])
p("A03", "Resharing keeps the secret and makes any t shares sufficient",
  "After resharing with threshold t among n parties, the parties' shares lie on one polynomial of degree below t whose value at zero is the sum of the original secrets, so every t of them determine the same original secret. Every party ends with the same vector of public share commitments, each opened by the share and randomizer its owner holds, and the input secret remains usable. Thresholds outside 1..n are refused.",
  ["inputs", "configurations"], "all n, all t, all original secrets and random polynomials, all t-subsets of parties, repeated resharings",
  "The tests check only that resharing returns no error for n=2,10 and t=1,2; the shares are never combined.",
  [RS, PO, DS], [("polynomial sharing and aggregation", f"{RS}: STEP 2-9; {PO}: poly, polyEval"), ("commitment refresh", f"{RS}: STEP 10")],
  ["private messages of the resharing, Reveal, Exp, a second resharing"])
p("A04", "Fewer than t parties learn nothing about a reshared secret",
  "Each dealer shares with a polynomial of degree exactly t-1 whose other coefficients are fresh and random in every resharing, a party's share is sent to that party alone, and nothing published contains a share, a secret or a randomizer. Consequently the messages and shares seen by any t-1 parties are consistent with every possible value of the secret (the exact degree excludes at most one value per dealer).",
  ["inputs", "configurations", "histories"], "all coalitions of t-1 parties, all executions, all n and t",
  "No test looks at what is sent or at how the shares are distributed.",
  [RS, PO], [("random polynomial of exact degree", f"{PO}: poly"), ("private delivery of evaluations", f"{RS}: STEP 8")],
  ["messages per recipient"])
p("A05", "A cheating dealer is caught during resharing",
  "If a party deviates in resharing - proves or commits to another value than the one it generated, opens its commitments differently, publishes evaluations that do not match its polynomial, sends a party a share or randomizer that does not match the published commitment, or sends a malformed or truncated message - then every party that receives the deviating message returns an error naming the deviator. No receiver crashes, and none returns a threshold secret.",
  ["fault_sequences", "inputs"], "each round of the protocol, each field of each message, each deviating party and receiver",
  "Tests contain only honest parties.",
  [RS, DS, ZK], [("proof and commitment checks", f"{RS}: STEP 1, 5, 7, 8, 10 checks")],
  ["returned errors at each party"])
p("A06", "Revealing gives the shared secret to all, or an error, never a wrong value",
  "Revealing a threshold secret returns, at every party, exactly the shared secret (reduced modulo the group order) whenever the shares of at least t parties, its own included, are available to that party, no matter which other parties are silent. With fewer than t available it returns an error instead of a value.",
  ["fault_sequences", "inputs", "configurations"], "all n, t, secrets and all sets of unavailable parties, possibly different at each party",
  "Reveal is only reached through a signing test with two parties, all present, whose result is not examined.",
  [DS, PO, SYN], [("interpolation of available shares", f"{DS}: TDSecret.Reveal"), ("threshold test on missing parties", f"{DS}: TDSecret.Reveal")],
  ["Reveal's result"])
p("A07", "The public key of a threshold secret matches it for every quorum",
  "Computing the public key of a threshold secret returns, at every party, the generator scaled by the shared secret whenever at least t parties' contributions are available to it, whichever they are; with fewer it returns an error. It never crashes, and the resulting key keeps the secret's label and threshold.",
  ["fault_sequences", "inputs", "configurations"], "all n, t, secrets and all sets of unavailable parties, possibly different at each party",
  "The tests only check that no error is returned with everyone present.",
  [DS, PO, DK], [("interpolation in the exponent", f"{DS}: TDSecret.Exp"), ("Lagrange coefficients", f"{PO}: lagrangeCoef")],
  ["TDKey.PublicKey(), Label(), Threshold()"])
p("A08", "Linear combinations of threshold secrets are computed share-wise and exactly",
  "A linear combination of two threshold secrets behaves as a threshold secret for alpha*a + beta*b modulo the group order, with the same threshold: revealing it or computing its public key gives that value at every party and for every sufficient quorum, and combinations can be combined further. The operands are left unchanged.",
  ["inputs", "configurations", "histories"], "all coefficients (zero, above the order), all secrets, all parties, all nestings",
  "Linear combinations are only used inside the signing test, whose result is not examined.",
  [DS], [("share-wise combination", f"{DS}: Lin")], ["Reveal and Exp of the combination"])
p("A09", "Multiplying two shared secrets yields shares of the exact product",
  "The shares returned by the multiplication protocol add up to the product of the two shared secrets modulo the group order, for every number of parties and all secrets including zero and extreme ones, provided the Paillier moduli exceed the square of the group order with room to spare. The product is an ordinary distributed secret: it can be reshared, revealed and combined by every party.",
  ["inputs", "configurations"], "all n, all share vectors of both factors, all random masks",
  "The tests only check that multiplication returns no error; the product is never compared with the factors.",
  [MU], [("pairwise multiplicative-to-additive conversion", f"{MU}: PrivMult"), ("commitment to the product", f"{MU}: Mult")],
  ["PrivMult's result, Reveal after resharing Mult's result"])
p("A10", "The Diffie-Hellman check accepts exactly the correct tuples at all parties",
  "With honest parties the distributed Diffie-Hellman check succeeds at every party when v equals u scaled by the shared secret key, and fails at every party otherwise, for all u and v including the neutral element and values differing only by sign. All parties reach the same verdict.",
  ["inputs", "configurations"], "all n, all key shares, all u and v",
  "One positive and one negative example for two parties, in which v is off by u.",
  [DH, DK], [("blinded test values", f"{DH}: CheckDH STEP 1-3")], ["CheckDH's verdict at each party"])
p("A11", "Whatever hides a secret is fresh and of full width",
  "Secret shares, the randomizers of commitments to shares and products, the shares of keys and the blinding factors of the Diffie-Hellman check are random numbers below the group order of full width. None of them is used twice: not within an operation, not in later ones, not by two parties; so no two published values differ by something that can be computed from known values, and no published value is zero, the generator or the commitment key.",
  ["histories", "inputs", "configurations"], "all sequences of generations, products, keys and checks, all numbers of parties, all secrets",
  "No test looks at what is published, nor at two executions together.",
  [DS, DK, MU, DH], [("randomizer and share of a secret", f"{DS}: Gen"), ("randomizers of a product", f"{MU}: Mult"), ("share of a key", f"{DK}: GenExpReveal"), ("blinding factors", f"{DH}: CheckDH STEP 1")],
  ["values published in the protocol messages, numbers drawn"])
p("A12", "Messages that cannot be used are blamed on their sender",
  "In generation, multiplication, distributed key generation and the Diffie-Hellman check, a party to which a message of another party does not arrive, or arrives truncated, with coordinates of no point, or as a number that is no ciphertext, stops in that round with a round error that lists exactly the parties whose messages were unusable. Parties that sent usable messages are never named, unless they stopped in an earlier round themselves. Nothing crashes or hangs, and parties that are not affected finish normally. In computing a public key of a threshold secret an unusable message counts as missing. The same operation succeeds when it is repeated without faults.",
  ["fault_sequences", "inputs"], "all rounds of all operations, all senders and sets of receivers, all kinds of unusable messages, several at once",
  "The tests contain no unusable message.",
  [DS, DK, MU, DH], [("decoding of announced values", f"{DS}: Gen; {DK}: GenExpReveal; {DH}: CheckDH"), ("ciphertexts of shares and answers", f"{MU}: PrivMult"), ("commitments to products", f"{MU}: Mult")],
  ["error, Missing() and round of each party"])
p("A13", "A multiplication hides the factors of both parties",
  "In the multiplication of two shared secrets each party sends its share only encrypted under its own key with fresh randomness, and answers others only with the product of their share and its own minus a fresh mask that is drawn from (almost) the whole range of plaintexts, so that the answer tells the receiver, who can decrypt it and knows one factor, nothing about the other factor. The ciphertext of an answer is randomized anew: it is not the one that the receiver could compute from its question for a guessed factor.",
  ["inputs", "configurations", "histories"], "all share vectors including zero and extreme ones, all numbers of parties, repeated multiplications of the same factors",
  "The tests only check that multiplication returns no error.",
  [MU], [("mask of the answer", f"{MU}: PrivMult, genEncABmt"), ("encrypted share", f"{MU}: PrivMult, step 1")],
  ["ciphertexts exchanged and what they decrypt to"])
p("T01", "All parties finish signing with the same, correctly formed signature",
  "After initialisation, presigning and signing by honest parties, every party returns the same signature (r, s): r is the hash of the nonce public key of the presignature used, and s satisfies s*tau = m*rho + r*eta modulo the group order for the presignature's secrets tau, rho and eta. This also holds at every party when parties up to the threshold fall silent during signing; with fewer than t parties available signing fails with an error.",
  ["inputs", "configurations", "fault_sequences"], "all n, t, messages (zero, above the order) and secrets, all sets of parties silent during signing",
  "The signing tests check that some signature is returned; it is neither compared between parties nor examined.",
  [TE, DS, PO, HASH], [("presignature", f"{TE}: Presign"), ("online signing", f"{TE}: Sign")], ["Signature contents, exchanged messages"])
p("T02", "A presignature is used at most once and in order, by all parties alike",
  "Each signing consumes exactly one presignature, the oldest unused one, whether or not it succeeds; no presignature serves two signing attempts, and signing without one left fails with an error and sends nothing. A presigning that fails adds no presignature. Hence all parties that performed the same sequence of operations use the same presignature for the same message.",
  ["histories", "fault_sequences"], "all sequences of presign and sign operations, successful or failing, at each party",
  "The tests sign once with one presignature.",
  [TE], [("queue of presignatures", f"{TE}: Protocol.presig, Presign, Sign")], ["nonce public keys disclosed in each signing"],
  state=[("presignature queue", "presignatures generated and not yet consumed", f"{TE}: Protocol.presig")])
p("T03", "Initialisation separates the signing key from the commitment key",
  "Initialisation runs two independent key generations, and every commitment made afterwards is made under the second key and not under the signing key, identically at all parties. The discrete logarithm that opens commitments is thereby unrelated to the signing key.",
  ["inputs", "configurations", "histories"], "all n, all key shares, all later presignings",
  "The test checks only that initialisation returns without error.",
  [TE, COM], [("separate key for commitments", f"{TE}: Init")], ["commitments and proofs exchanged in presigning"])
p("T04", "A completed signature is a valid ECDSA signature under the joint key",
  "The pair (r, s) that signing returns verifies as an ordinary ECDSA signature on the message under the public key produced by initialisation.",
  ["inputs", "configurations"], "all n, t, keys and messages",
  "No test verifies a signature; none is accessible outside the package.",
  [TE, MU], [("presignature relations tau = k*rho, eta = rho*x", f"{TE}: Presign")], ["Signature contents against the public key"])
p("T05", "A presignature takes exactly t parties, and is never shared out again",
  "The four secrets of every presignature made with threshold t are held in shares of which any t determine the secret and fewer than t do not: the shares of all parties lie on one polynomial of degree exactly t - 1, for each of the secrets. Secrets and shares are new in every presignature, and different from one another. Signing publishes only shares of the nonce's public key, of tau and of s, each a reduced scalar (or point) shared with the same degree: again any t parties are enough, and no fewer.",
  ["inputs", "configurations", "histories"], "all n and t, all sequences of presignatures with different thresholds and of signatures by the same parties, also after failed attempts",
  "The tests neither look at shares nor make two presignatures.",
  [TE, DS, PO], [("presignature", f"{TE}: Presign"), ("sharing with threshold", f"{DS}: Reshare"), ("published shares", f"{DS}: Exp, Reveal")], ["shares held by the parties; messages of signing"])
p("K01", "Generated key files carry each party's complete key and are read back intact",
  "For every committee size and address list, the key generator writes for each party a file from which the signer recovers exactly that party's private key (all of its components) and identifier, and a committee file from which it recovers every party's public key and address, in order. Private keys match the public keys in the committee file. A committee of fewer than two, or an address list that is too short for it, is refused with a message and no committee file is written.",
  ["inputs", "configurations"], "all committee sizes, keys and address lists",
  "The two programs have no tests; no run reads back what was written.",
  [GK, CLI], [("file encoding", f"{GK}: encodePaillierPrivateKey, main"), ("file parsing", f"{CLI}: decodePaillierPrivateKey, getMember, getCommittee")],
  ["key files, and the values the signer parses from them"])
p("K02", "Malformed key files are refused; well-formed committees run to completion",
  "The signer refuses a malformed, truncated or incomplete key or committee file, an identifier outside the committee, a threshold outside 1..n, or a nonpositive number of signatures, with a logged message, and never crashes or starts the protocol. Given well-formed files, all signers of a committee run to completion with the requested number of presignatures and signatures.",
  ["inputs", "configurations"], "all corruptions of the two files, all committee sizes, thresholds and signature counts",
  "The programs have no tests.",
  [CLI], [("input validation", f"{CLI}: decodeBigInt, parseCommitteeLine, getMember, getCommittee, main")],
  ["exit and log of the signer"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
