EN = "shlib/shcrypto/encryption.go"
F = "shlib/shcrypto/feldman.go"
K = "shlib/shcrypto/keys.go"
C = "shlib/shcrypto/encoding.go"
H = "shlib/shcrypto/hash.go"
def q(text, over=("inputs",)):
    return {"over": list(over), "text": text}
def anch(files, mech, state=()):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]}
PROPS = [
 dict(id="C39", title="Decryption inverts encryption and rejects manipulated messages",
  statement="For every message, randomness, epoch and key, decrypting an encrypted message with the right epoch secret key succeeds and gives back exactly the message; every part of the ciphertext is what the scheme defines. An arbitrary ciphertext decrypts only if encrypting the result again with the recovered randomness gives the same first component. Neither operation changes its arguments, uses an out-of-range scalar or accesses memory out of range, whatever the ciphertext contains.",
  quantifier=q("every message of any length, every ciphertext, every key"), why_tests_cant="Tests try a few messages; wrong paddings, block keys that repeat, or a check that is skipped show only for particular lengths and manipulated ciphertexts.",
  anchors=anch([EN, H], [("Encrypt, Decrypt, Sigma, PadMessage, UnpadMessage", EN), ("Hash1 to Hash4", H)], []),
  technique="abstract interpretation into algebraic normal forms (loops solved as recurrences), composition of encryption and decryption"),
 dict(id="C40", title="Threshold keys follow the scheme and honest values always verify",
  statement="Polynomials, commitments, key shares, public keys, epoch secret key shares, Lagrange combination and the verification functions compute exactly what the threshold scheme defines, for all keyper sets and thresholds, modulo the order of the group. What an honest keyper computes is accepted by the corresponding verification, and verification accepts only values that satisfy its equation and have the right degree. Random polynomials have independent coefficients below the group order; no function changes its arguments.",
  quantifier=q("every polynomial, commitment, index, set of keypers and threshold"), why_tests_cant="Tests use small keyper sets and indices; an error that depends on an index, on a value close to the modulus, or on aliasing shows only for particular values.",
  anchors=anch([F, K, H], [("Polynomial, Gammas, VerifyPolyEval, RandomPolynomial", F), ("Compute... and Verify... functions, LagrangeCoeffs", K)], [("order", "order of the groups", F)]),
  technique="abstract interpretation into algebraic normal forms (loops solved as recurrences), compared with the definitions of the scheme; composition of the functions of honest parties with verification"),
 dict(id="C41", title="Cryptographic values survive their encodings, invalid ones are rejected",
  statement="Decoding what was encoded (in binary, text or gob form) gives back the same value, whatever the receiver held before. A decoder accepts bytes only if all of them belong to the value, every point in it was decoded without failure and lies in the right group, shares are below the group order, and messages have the right version. No input makes a decoder access memory out of range or change anything but its receiver.",
  quantifier=q("every value and every sequence of bytes"), why_tests_cant="Tests decode valid encodings and a few invalid ones; a missing group check matters only for points chosen by an attacker, and truncated inputs fail only at particular lengths.",
  anchors=anch([C, K, F], [("Marshal, Unmarshal, MarshalText, UnmarshalText", C), ("GobEncode, GobDecode", K), ("GobEncode, GobDecode of Gammas", F)], []),
  technique="abstract interpretation into algebraic normal forms over symbolic values and bytes; composition of encoder and decoder; path conditions of successful decoding"),
]
