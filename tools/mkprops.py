#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
DS="src/data_structures.rs"; GEN="src/generator.rs"; ST="src/statement.rs"; VER="src/verifier.rs"; COM="src/prover/commit.rs"; PRV="src/prover/prove.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=hook)))

p("C01","Honest proofs always verify (completeness)",
 "For each of the four equation types (pairing product, multi-scalar in G1, multi-scalar in G2, quadratic), if the witness satisfies the equation then committing, proving and verifying with the same CRS accepts, without panicking. This holds for every number of x variables and y variables from one up, every constant, coefficient, witness value (including zeros and identities) and every outcome of the random generator.",
 ["inputs","configurations"],"all witnesses, constants, coefficient matrices, CRS and prover randomness; all shapes m>=1, n>=1; four equation types; binding and hiding CRS",
 "tests/prover.rs runs one fixed instance per equation type (m=2,n=1 shapes with a fixed rng); wrong handling of particular values or other shapes is never reached",
 [PRV,VER,COM,DS],[("Provable::prove for PPE, MSMEG1, MSMEG2, QuadEqu",PRV),("Verifiable::verify for the four types",VER)],["return value of verify","panics of commit_and_prove / verify"])
p("C02","Accepted proofs are sound on a binding CRS",
 "With a CRS produced by the library's generator, whenever the verifier accepts a proof for an equation, the values uniquely determined by the commitments satisfy that equation; this holds for arbitrary, adversarially chosen commitments and proof elements. No false statement is ever accepted, for any of the four equation types.",
 ["inputs"],"all commitments, proof elements, constants, coefficients, targets; all binding CRSs; four equation types; all shapes m,n>=1",
 "the tests only feed honestly generated proofs (and a handful of altered ones); an adversary picks any group elements, and a dropped or weakened component of the verification equation accepts honest proofs just the same",
 [VER,DS],[("verification equation over the four target-group components",VER),("ComT equality and pairing_sum",DS)],["return value of verify"])
p("C03","Proofs are witness-indistinguishable on a hiding CRS",
 "With a perfectly hiding CRS, for any two witnesses of the same equation, the joint distribution of commitments and proof is identical: for every randomness used with one witness there is randomness that yields exactly the same commitments and proof with the other. This holds for all four equation types.",
 ["inputs"],"all pairs of satisfying witnesses, all constants/coefficients, all prover randomness, all hiding CRSs; four equation types",
 "no test uses a hiding CRS or compares proofs of two witnesses; a prover that leaks or under-randomises still produces proofs that verify",
 [PRV,COM,GEN],[("fresh proof randomness T in prove",PRV),("fresh commitment randomness R, S, r, s",COM)],["commitments, pi and theta of a proof"])
p("C04","Malformed proofs are never accepted",
 "The verifier never accepts (it returns false or refuses by panicking) a proof object whose declared equation type differs from the equation's, that carries no or several equation proofs, that has missing or surplus proof elements, or whose number of commitments does not match the equation. This holds whatever the contained group elements are.",
 ["inputs"],"all group-element contents for every malformed arrangement: counts 0..4 of pi, theta, commitments and equation proofs against the required counts; all type tags; four equation types",
 "no test verifies an ill-formed proof",
 [VER,DS],[("asserts on type and number of proofs",VER),("length assert in pairing_sum",DS)],["return value / panic of verify"])
p("C05","CRS generation yields a correct binding key",
 "A generated CRS always has two commitment keys on each side, with the first key (g, a*g), the second key a scalar multiple t of the first, the published generators equal to the first components of the first keys, and the target-group generator equal to the pairing of the two generators. The generators and the secrets a and t of the two sides are independent uniform draws from the caller's random generator.",
 ["inputs"],"all outcomes of the caller's random generator",
 "tests compare generators for one rng outcome; structure of the second keys and independence of the secrets are not observable from a sample",
 [GEN],[("CRS::generate_crs",GEN),("prepare_real_binding_key",GEN)],["fields of the returned CRS"])
p("C06","Commitments have the prescribed form with fresh randomness",
 "Committing to a group element x gives exactly i(x) + r1*u1 + r2*u2, and to a scalar x gives exactly i'(x) + r*u1, where all r are fresh independent draws from the caller's random generator, one set per committed value; batch commitments return one commitment per value in order. Consequently on a binding CRS the value is recovered exactly from the commitment with the key's trapdoor.",
 ["inputs","configurations"],"all committed values, CRSs, rng outcomes; batch sizes from one up; both sides (G1/B1, G2/B2); single and batch calls",
 "tests compare batch with single calls only; both could be wrong together and extraction is never exercised",
 [COM,DS],[("commit_G1/G2, commit_scalar_to_B1/B2 and batch variants",COM)],["coms field"])
p("C07","Commitments are perfectly hiding on a hiding key",
 "With a hiding CRS, for any two lists of values of equal length (group elements or scalars, either side), the distributions of their commitments are identical.",
 ["inputs"],"all pairs of value lists, all hiding keys, all randomness; group and scalar commitments on both sides; single and batch",
 "no test uses a hiding key; distribution equality cannot be sampled",
 [COM],[("commit randomness",COM)],["coms field"])
p("C08","Batch commitment equals appended single commitments",
 "Given the same random generator state, committing to a list in one batch gives the same commitment object as committing to each element in turn and appending the results, and consumes the same randomness. This holds for group elements and scalars on both sides.",
 ["inputs","configurations"],"all values, CRSs and rng outcomes; batch sizes from one up; four commitment kinds",
 "tests cover one list of three fixed values per kind",
 [COM],[("batch_commit_* versus commit_* and append",COM)],["Commit equality"])
p("C09","Inclusion maps commute with the pairings",
 "For every x and y, pairing the images of x and y in the commitment groups equals the target-group image of their product (pairing, scalar multiplication or field product, per equation type), the maps are additive homomorphisms, and batch maps act elementwise in order. This holds for every CRS.",
 ["inputs","configurations"],"all group elements and scalars, all CRSs (any key elements); batch sizes from zero up",
 "tests check single sampled values on one CRS",
 [DS],[("linear_map, scalar_linear_map, linear_map_PPE/MSMEG1/MSMEG2/quad and batch variants",DS)],["returned Com1, Com2, ComT"])
p("C10","The commitment-group pairing is bilinear",
 "Pairing two commitment-group elements gives the 2x2 matrix of component pairings; it is additive in each argument and compatible with scalar multiplication on either side, and the pairing of two equally long lists equals the sum of the pairwise pairings. Identity arguments give identity entries.",
 ["inputs","configurations"],"all elements of B1, B2, all scalars; list lengths from zero up",
 "tests use a few random points",
 [DS],[("ComT::pairing and pairing_sum",DS)],["returned ComT"])
p("C11","B1, B2 and BT obey the group and scalar-module laws",
 "Addition in each of the three commitment groups is componentwise, associative and commutative with a neutral zero and inverses; subtraction, negation, the assigning operators and summation over iterators agree with addition; scalar multiplication on B1 and B2 is componentwise and distributes over both additions. The zero test is true exactly for the zero element.",
 ["inputs"],"all elements of B1, B2, BT and all scalars, including identities, equal and opposite operands",
 "tests check single random pairs",
 [DS],[("Add/Sub/Neg/Sum/Zero and assign impls, scalar_mul",DS)],["results of the operators"])
p("C12","Matrix operations compute exact matrix algebra",
 "For rectangular matrices over the scalar field, B1 and B2, addition, negation, scalar multiplication, transposition and left/right multiplication return exactly the matrix that the definition prescribes, with the prescribed dimensions, in both the sequential and the parallel mode; a product with an empty matrix is the empty matrix.",
 ["inputs","configurations"],"all matrix entries, all rectangular dimensions from 1x1 up, both modes, three entry types",
 "tests use fixed small matrices with a few entries",
 [DS],[("Mat impls",DS)],["returned matrices"])
p("C13","Parallel and sequential products agree under any threading",
 "The parallel matrix products return exactly the sequential result, whatever the number of worker threads and whatever order they run in; consequently commitments, proofs and verification results do not depend on threading.",
 ["schedules","inputs"],"all entries and dimensions; all thread counts and task orders",
 "tests run one uncontrolled schedule on small fixed inputs",
 [DS,PRV,VER],[("rayon parallel iterators in left_mul/right_mul",DS)],["returned matrices, verify result"])
p("C14","Ill-dimensioned algebra is refused",
 "Adding matrices of different dimensions, multiplying matrices whose inner dimensions differ, pairing lists of different lengths, and converting a matrix of the wrong dimensions to a commitment-group element are refused with a panic and never return a value. This holds for rectangular non-empty operands whatever their entries; conversions also refuse rows of unequal length.",
 ["inputs","configurations"],"all entries; all pairs of mismatching dimensions, both multiplication modes, three entry types",
 "no test exercises a mismatch",
 [DS],[("dimension asserts",DS)],["panic or returned value"])
p("C15","Appending commitments concatenates and empties the source",
 "Appending one commitment object to another yields all commitments of the first followed by all of the second, in order, each still with its own opening randomness, and leaves the appended object empty; appending an empty object changes nothing. The result can be used to prove and verify exactly like a batch commitment to the concatenated values.",
 ["inputs","histories"],"all contents and lengths from zero up; sequences of appends; both sides",
 "tests append one-element objects only",
 [COM],[("Commit::append",COM)],["coms field, equality, prove/verify on the result"],[("coms/rand","commitments and their opening randomness, index-aligned",COM)])
p("C16","Serialization round-trips every public object",
 "Serializing the CRS, a commitment-group element, a commitment object, an equation proof, any equation or an equation type, in compressed or uncompressed form, produces exactly the announced number of bytes, and decoding those bytes in the same form (validated or not) yields an equal object and consumes exactly those bytes, also when several objects are concatenated in one stream.",
 ["inputs","configurations"],"all contents, all list lengths and matrix dimensions from zero up, both forms, validated and unvalidated decoding",
 "tests round-trip one or two random objects with one-element lists, in isolation",
 [GEN,DS,COM,PRV,ST],[("derived CanonicalSerialize/CanonicalDeserialize",GEN),("hand-written impls for EquType",ST)],["bytes, serialized_size, decoded object"])
p("C17","Validated decoding rejects invalid group elements",
 "Decoding with validation accepts an encoded CRS, commitment, proof or equation only if every contained group element is a valid element of its prime-order group, wherever in the object the invalid one is; decoding without validation does not reject on that ground.",
 ["inputs","configurations"],"every combination of valid and invalid elements over all positions; both encodings; all list lengths within bounds",
 "no test decodes an invalid element",
 [GEN,DS,COM,PRV,ST],[("derived Valid/CanonicalDeserialize",DS)],["Ok/Err of deserialize_compressed/uncompressed"])
p("C18","Equation-type tags are consistent",
 "Each equation type reports its own type, proofs produced for an equation carry exactly that type, and the type's encoding is a single byte that decodes to the same type in both forms; bytes that are no tag, and empty input, are refused with an error.",
 ["inputs"],"all 256 byte values, both encodings, validated or not, four types",
 "tests cover the four valid tags, no invalid byte",
 [ST,PRV],[("EquType serialization",ST),("get_type",ST)],["bytes, decode result, equ_type field"])
p("C19","Equality of objects is componentwise",
 "Two commitment-group elements, commitment objects, equation proofs, proof bundles or equations compare equal exactly when all their components are equal (same lengths, same elements, same randomness where it is part of the object, same type tag). Equality is therefore reflexive, symmetric and transitive and no differing component is overlooked.",
 ["inputs"],"all contents; every single differing component and every combination of them; lengths within bounds",
 "tests only compare equal objects or a couple of different ones",
 [DS,COM,PRV,ST],[("PartialEq impls",DS),("PartialEq for Commit1/Commit2",COM)],["== and !="])
p("C20","Vector and matrix conversions are faithful",
 "Converting a commitment-group element to its vector, column vector or matrix form and back yields the same element with components in row-major order, and turning a list into a column vector and back yields the same list, for every length and content.",
 ["inputs","configurations"],"all contents; list lengths from one up",
 "tests convert single samples and short lists",
 [DS],[("as_vec, as_col_vec, as_matrix, From<Matrix>, vec_to_col_vec, col_vec_to_vec",DS)],["returned values"])
p("C21","One-step proving equals committing then proving",
 "Committing and proving in one call returns exactly what committing to the x variables, then to the y variables, then proving with those commitments returns from the same random generator state: the same commitments and one equation proof with the same elements. The number of proof elements is the one the equation type prescribes.",
 ["inputs","configurations"],"all witnesses (satisfying or not), constants, CRSs and rng outcomes; shapes m,n>=1; four equation types",
 "tests use the one-step call only on fixed inputs",
 [PRV,COM],[("commit_and_prove",PRV)],["CProof contents"])
p("C22","Altered proofs and statements are rejected",
 "Take an honestly generated proof under a generated CRS. If the equation's target is changed to any other value, or exactly one component of one proof element is changed to any other value, the verifier rejects, apart from the negligible chance that a secret of the key generation is zero. This holds for all four equation types.",
 ["inputs"],"all honest instances, all replacement values, every target and proof component; non-degenerate binding CRSs; four equation types",
 "tests try no or a few altered proofs",
 [VER,DS],[("verification equation",VER)],["return value of verify"])
p("C23","Commitments can be shared between equations",
 "A commitment to a set of variables made once can be used to prove any number of equations over those variables, of any applicable types; each proof verifies with the shared commitments for its own equation, and proving leaves the commitments unchanged.",
 ["inputs","histories"],"all witnesses, constants, randomness; two or more equations of equal or different types over the same commitments, in any order",
 "the tests prove at most one or two fixed equations",
 [PRV,VER,COM],[("prove taking existing commitments",PRV)],["verify result, Commit equality before and after"])
p("C24","Verification depends only on public values",
 "The verifier's decision is a function of the equation, the public commitments, the proof elements and the CRS: the opening randomness stored in commitment objects has no influence, repeating the verification gives the same answer, and nothing is modified.",
 ["inputs","histories"],"all honest and arbitrary proofs; all values and shapes of the stored randomness; repeated verifications",
 "tests verify a proof once, always with the matching randomness present",
 [VER],[("verify reading only coms, pi, theta",VER)],["return value of verify"])
p("C25","The prover refuses inconsistent inputs",
 "Proving panics rather than returning a proof when the number of variables, the number of commitments and the dimensions of the coefficient matrix or of the constants disagree, or when commitments of the wrong kind (group-element commitments for scalar variables or the reverse) are supplied. This holds for rectangular coefficient matrices whatever the values.",
 ["inputs","configurations"],"all values; every mismatching combination of dimensions from one up; four equation types",
 "no test supplies inconsistent inputs",
 [PRV,DS],[("asserts at the start of prove",PRV),("dimension asserts of matrix products",DS)],["panic or returned proof"])
p("C26","All randomness comes from the caller's generator, fresh each time",
 "CRS generation, committing and proving are functions of their inputs and of the values drawn from the supplied random generator, with no other source of randomness and no draw used twice; two proofs of the same statement from one generator use disjoint draws. Each commitment coordinate and each proof is blinded by its full complement of independent draws.",
 ["inputs","histories"],"all inputs and rng outcomes; sequences of two calls on one generator; four equation types; four commitment kinds",
 "independence of blinding values cannot be observed on samples",
 [GEN,COM,PRV],[("UniformRand draws in generate_crs, commit_*, prove",PRV)],["draws and outputs"])
p("C27","Published (serialized) proofs reveal nothing about the witness",
 "With a hiding CRS, for any two witnesses of the same equation, the byte encodings of the commitments and of the proof have identical distributions, so publishing them does not reveal the witness.",
 ["inputs"],"all pairs of satisfying witnesses, all prover randomness, all hiding CRSs; four equation types; both encodings",
 "no test looks at what the encoding discloses",
 [COM,PRV],[("derived CanonicalSerialize of Commit1, Commit2, EquProof",COM)],["serialized bytes"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
