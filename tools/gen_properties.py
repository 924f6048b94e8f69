#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the entries stay uniform)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Goldilocks field arithmetic is exact mod 2^64-2^32+1",
 "For all elements, the Goldilocks field operations (add, sub, mul, neg, double, square, pow, inverse, division, equality, ordering, and conversions from and to integers, decimal strings and byte/limb representations) equal integer arithmetic modulo p = 2^64-2^32+1, and every result is the canonical representative. Conversions from out-of-range representations are refused, the inverse of a non-zero element times the element is one, and equality holds exactly when the represented integers are congruent.",
 ["inputs", "histories"], "all operands in [0,p), all u64/biguint/string inputs, all sequences of in-place operations",
 "Tests sample a handful of random operands; carry, borrow and reduction faults show only for operands near 0, 2^32, p and 2^64, of measure about 2^-32.",
 ["fields/src/field_gl.rs", "fields/src/lib.rs", "starky/src/constant.rs"],
 [("Montgomery multiplication and reduction", "fields/src/field_gl.rs: mul_assign, mont_reduce"), ("add/sub with carry", "fields/src/field_gl.rs: add_assign, sub_assign, reduce"), ("binary-gcd inverse", "fields/src/field_gl.rs: inverse")],
 ["fields::field_gl::Fr"])
prop("C02", "Cubic extension field F3G is F_p[x]/(x^3-x-1), mixed dimensions included",
 "For all base-field and cubic-extension elements in any mix, addition, subtraction, multiplication, scalar multiplication, negation, squaring, powers, inversion, division, batch inversion, equality by value, ordering (lexicographic, between elements of the same dimension) and text/serde conversion equal those of F_p[x]/(x^3-x-1) with the base field embedded as constants. Multiplying a non-zero element by its inverse gives one, and an element embedded from the base field behaves as the equal extension element.",
 ["inputs", "histories"], "all elements (sparse and dense coordinates, base or extension) and all operation sequences",
 "Tests use a few fixed triples; mistakes in one coordinate's formula or in one base/extension mix appear only with particular non-zero coordinates.",
 ["starky/src/f3g.rs", "starky/src/polutils.rs"],
 [("multiplication and inversion formulas", "starky/src/f3g.rs"), ("mixed dimension dispatch", "starky/src/f3g.rs"), ("batch_inverse", "starky/src/f3g.rs")],
 ["starky::f3g::F3G"])
prop("C03", "Quintic extension field F5G is F_p[x]/(x^5-3)",
 "For all base-field and quintic-extension elements in any mix, addition, subtraction, multiplication, negation, squaring, powers, inversion, division, batch inversion, equality by value, ordering (lexicographic, between elements of the same dimension) and text/serde conversion equal those of the quintic extension field with the base field embedded as constants. Multiplying a non-zero element by its inverse gives one.",
 ["inputs", "histories"], "all elements (sparse and dense coordinates, base or extension) and all operation sequences",
 "Tests use a few fixed tuples; negation, ordering and several mixed-dimension operations are never exercised on extension elements.",
 ["starky/src/f5g.rs"],
 [("multiplication and Frobenius-based inversion", "starky/src/f5g.rs"), ("mixed dimension dispatch", "starky/src/f5g.rs")],
 ["starky::f5g::F5G"])
prop("C04", "Serial FFT and polynomial utilities compute the defined polynomial maps",
 "For every power-of-two size and every input vector, the serial FFT returns the evaluations of the input polynomial at the powers of the canonical root of unity in natural order, the inverse FFT is its inverse, and the polynomial utilities (coset scaling, evaluation at a point, extension to a shifted larger domain, degree) return exactly the values defined by the polynomial. Results do not depend on sizes previously processed by the same FFT object.",
 ["inputs", "histories"], "all sizes 2^k, all base or extension coefficient vectors, all call histories of one FFT object",
 "Tests check a few sizes by a round trip, which a consistently permuted or scaled transform also passes; cached roots make results history-dependent.",
 ["starky/src/fft.rs", "starky/src/polutils.rs", "starky/src/constant.rs"],
 [("recursive butterflies and root cache", "starky/src/fft.rs"), ("pol_mul_axi, eval_pol, extend_pol", "starky/src/polutils.rs")],
 ["starky::fft::FFT", "starky::polutils"])
prop("C05", "Parallel multi-column FFT, inverse FFT and coset extension equal the definition",
 "For every column count, every power-of-two length from two and extension factor, and any number of worker threads, the parallel FFT and inverse FFT of an interleaved multi-column buffer equal the per-column transform, and the parallel interpolation equals evaluating each column's interpolant on the larger coset domain shifted by the fixed shift. Outputs depend on the input values only, not on thread count or scheduling.",
 ["inputs", "schedules", "configurations"], "all widths, lengths 2^k, extension factors and rayon pool sizes",
 "Tests compare few shapes under one thread pool; chunking, transposition and odd/even number of passes depend on size, width and thread count together.",
 ["starky/src/fft_p.rs", "starky/src/fft_worker.rs", "starky/src/helper.rs"],
 [("block transposition and chunk scheduling", "starky/src/fft_p.rs: _fft, interpolate"), ("per-block butterflies and inverse scaling", "starky/src/fft_worker.rs")],
 ["starky::fft_p"])
prop("C06", "Goldilocks Poseidon equals the reference permutation",
 "For every 8-element input and 4-element capacity, the optimised Goldilocks Poseidon hash returns the first output elements of the unoptimised reference permutation (width 12, 8 full rounds, 22 partial rounds, x^7, fixed constants and MDS). The requested number of outputs is returned in order and shorter calls agree with the prefix of longer ones.",
 ["inputs"], "all inputs and capacities, all output lengths",
 "Tests compare four fixed vectors; a wrong sparse-matrix entry or carry in a lane could be masked on structured inputs such as all zeros.",
 ["starky/src/poseidon_opt.rs", "starky/src/poseidon_constants_opt.rs"],
 [("sparse partial rounds", "starky/src/poseidon_opt.rs"), ("derived constants P, S, C, M", "starky/src/poseidon_constants_opt.rs")],
 ["starky::poseidon_opt::Poseidon::hash"])
prop("C07", "BN128 and BLS12-381 Poseidon equal the reference permutation at every width",
 "For every supported width and every input and initial state, the optimised and the plain Poseidon implementations over the BN128 and BLS12-381 scalar fields return exactly the reference Poseidon outputs (x^5, 8 full rounds, width-specific partial rounds, fixed constants), for one or several outputs. BN128 and the plain BLS12-381 hash are the paper's instance (Grain constants, digest = first element); the optimised BLS12-381 hash, the one the prover uses, is Neptune's instance (digest = second element). Unsupported input lengths are refused, not hashed.",
 ["inputs", "configurations"], "all widths 2..17, all inputs, initial states and output counts",
 "Tests cover a few widths and small inputs; each width has its own constants and partial round count.",
 ["starky/src/poseidon_bn128.rs", "starky/src/poseidon_bn128_opt.rs", "starky/src/poseidon_bls12381.rs", "starky/src/poseidon_bls12381_opt.rs", "starky/src/poseidon_bn128_constants.rs", "starky/src/poseidon_bn128_constants_opt.rs", "starky/src/poseidon_bls12381_constants.rs", "starky/src/poseidon_bls12381_constants_opt.rs"],
 [("optimised schedule", "starky/src/poseidon_bn128_opt.rs, poseidon_bls12381_opt.rs"), ("width table", "hash_inner / hash_ex width checks")],
 ["starky::poseidon_bn128_opt::Poseidon", "starky::poseidon_bls12381_opt::Poseidon"], hook="re-export of the private plain Poseidon modules")
prop("C08", "Goldilocks linear hash absorbs every element in order, by the sponge rule",
 "The linear hash of a sequence of field elements of any length equals the defined construction: up to four elements are returned zero-padded, longer inputs are absorbed in zero-padded blocks of eight, chaining the four-element capacity; the chunked variant hashes fixed-size batches and then the list of batch digests. A batch size of zero stands for the larger of eight and a quarter of the length; matrix layout (rows of vectors) and repeated calls on one hasher never change the result.",
 ["inputs", "histories", "configurations"], "all lengths, batch sizes, row splittings and element values",
 "Tests fix one long input; block boundaries (lengths 4, 5, 8, 9, 16, batch edges) and chaining errors need specific lengths.",
 ["starky/src/linearhash.rs"],
 [("sponge loop", "starky/src/linearhash.rs: hash, hash_element_matrix"), ("batching", "starky/src/linearhash.rs: hash_element_array / _hash_batch")],
 ["starky::linearhash::LinearHash"])
prop("C09", "Linear hash over BN128 and BLS12-381 packs and absorbs every element in order",
 "The 256-bit linear hash of any sequence of Goldilocks values equals the defined construction: values are packed three per field element in base 2^64, packed elements are absorbed sixteen at a time chaining the previous digest, and inputs that fit in one packed element are that element. Any change of one input value or of the order changes the packed absorption sequence.",
 ["inputs", "configurations"], "all lengths and element values, base and extension rows",
 "Tests fix a few lengths; packing and block boundaries (3, 4, 48, 49 values) need specific lengths.",
 ["starky/src/linearhash_bn128.rs", "starky/src/linearhash_bls12381.rs", "starky/src/digest.rs"],
 [("packing and block loop", "linearhash_bn128.rs, linearhash_bls12381.rs")],
 ["starky::linearhash_bn128::LinearHashBN128", "starky::linearhash_bls12381::LinearHashBLS12381"])
prop("C10", "Goldilocks Merkle tree: shape, openings and binding",
 "For every height and width, the Goldilocks Merkle tree commits to the linear hash of each row by a binary tree with zero padding, its root and node layout are those of that definition whatever the number of threads, and the opening of every row returns that row and verifies against the root. An opening with a changed value, changed sibling, another row index or another root does not verify, and saving and loading a tree preserves all openings.",
 ["inputs", "schedules", "configurations", "fault_sequences"], "all heights, widths, row indices, thread counts and single-component tamperings",
 "Tests open one row of few trees; odd level sizes, padding and batch splits depend on height, width and thread count, and negative cases are not tested.",
 ["starky/src/merklehash.rs", "starky/src/linearhash.rs"],
 [("level-by-level hashing with padding", "merklehash.rs: merkelize"), ("path computation and verification", "merklehash.rs: get_group_proof, verify_group_proof")],
 ["starky::merklehash::MerkleTreeGL"])
prop("C11", "BN128 and BLS12-381 Merkle trees: shape, openings and binding",
 "For every height and width, the 16-ary BN128 and BLS12-381 Merkle trees commit to the linear hash of each row with zero padding at every level, independent of the number of threads, and the opening of every row returns that row and verifies against the root. An opening with a changed row value, changed sibling, another row index or another root does not verify.",
 ["inputs", "schedules", "configurations", "fault_sequences"], "all heights, widths, row indices, thread counts and single-component tamperings",
 "Tests only check honest openings; binding to the row content and index has no test at all.",
 ["starky/src/merklehash_bn128.rs", "starky/src/merklehash_bls12381.rs"],
 [("16-ary levels", "merkelize"), ("path verification", "verify_group_proof, merkle_calculate_root_from_proof")],
 ["starky::merklehash_bn128::MerkleTreeBN128", "starky::merklehash_bls12381::MerkleTreeBLS12381"])
prop("C12", "Goldilocks transcript is a deterministic sponge over everything absorbed",
 "For every interleaving of absorbing elements or digests and drawing field challenges, the Goldilocks transcript returns the outputs of the defined sponge: inputs fill blocks of eight (zero-padded when a challenge is drawn), outputs are consumed in order, and absorbing invalidates unread outputs. Query positions are drawn as the defined consecutive bits of consecutive challenges, are below 2^bits, and have the requested number.",
 ["histories", "inputs"], "all put/get/permutation sequences",
 "Tests run one fixed sequence; block-boundary and pending-output behaviour depends on how many elements were absorbed and drawn before.",
 ["starky/src/transcript.rs"],
 [("pending/out buffers", "starky/src/transcript.rs: add_1, update_state, get_fields1"), ("query bits", "starky/src/transcript.rs: get_permutations")],
 ["starky::transcript::TranscriptGL"])
prop("C13", "BN128 and BLS12-381 transcripts are deterministic sponges over all absorbed",
 "For every interleaving of absorbing Goldilocks elements or digests and drawing challenges, the BN128 and BLS12-381 transcripts return the outputs of the defined sponge: sixteen-element blocks, each output word split into three 64-bit field challenges, unread outputs dropped on absorption. Query positions are the defined consecutive bits of consecutive output words, are below 2^bits, and have the requested number.",
 ["histories", "inputs"], "all put/get/permutation sequences",
 "Tests run one fixed sequence; block-boundary and pending-output behaviour depends on how many elements were absorbed and drawn before.",
 ["starky/src/transcript_bn128.rs", "starky/src/transcript_bls12381.rs"],
 [("pending/out/out3 buffers", "add_1, update_state, get_fields1/getField"), ("query bits", "get_permutations")],
 ["starky::transcript_bn128::TranscriptBN128", "starky::transcript_bls12381::TranscriptBLS128"])
prop("C14", "Digest and number conversions are lossless",
 "Converting a digest to a 256-bit scalar and back, between its element, decimal-string, byte and Montgomery/non-Montgomery forms, and converting big integers and helper values (bit lengths, powers of the coset generators) is lossless and equals positional base-2^64 notation for all representable values. Values that are not representable are refused, not truncated.",
 ["inputs"], "all four-limb digests, all scalars below the moduli, all integers",
 "Tests use a few constants; a swapped, dropped or doubly converted limb shows only with specific limbs.",
 ["starky/src/digest.rs", "starky/src/helper.rs", "starky/src/traits.rs", "starky/src/field_bn128.rs", "starky/src/field_bls12381.rs"],
 [("limb conversion", "starky/src/digest.rs: as_scalar, from_scalar, to/from_montgomery"), ("helper conversions", "starky/src/helper.rs")],
 ["starky::ElementDigest", "starky::helper"])
prop("C15", "FRI accepts low-degree polynomials and rejects everything altered",
 "For every step schedule, query count and polynomial within the degree bound, the FRI prover's proof is accepted by the FRI verifier with the same transcript, and each folded value equals the folding of the previous layer at the verifier's challenge. A proof in which any layer root, query value, Merkle sibling or final-polynomial coefficient is altered, or whose polynomial exceeds the degree bound, is rejected.",
 ["inputs", "configurations", "fault_sequences"], "all step schedules, polynomials, and single alterations of a proof",
 "No test runs FRI apart from whole-STARK happy paths; alterations at a particular round or query position are never tried.",
 ["starky/src/fri.rs", "starky/src/stark_verify.rs"],
 [("folding and transcript", "fri.rs: prove"), ("per-query consistency, final degree check", "fri.rs: verify")],
 ["starky::fri::FRI"], hook="re-export of the private fri module")
prop("C16", "STARK completeness: a satisfied PIL program always yields an accepted proof",
 "For every PIL program (polynomial identities with next-row references, plookup, permutation and connection identities, public inputs, array columns, several namespaces) and every trace satisfying it, setup, proving and verification succeed and the verifier accepts. This holds for the Goldilocks, BN128 and BLS12-381 hash variants and every consistent FRI step configuration.",
 ["programs", "inputs", "configurations"], "all PIL programs, satisfying traces and stark structures",
 "Tests prove four fixed programs; index arithmetic for column sections, next-row offsets and helper columns depends on the program's shape.",
 ["starky/src/stark_gen.rs", "starky/src/stark_verify.rs", "starky/src/starkinfo.rs", "starky/src/stark_setup.rs", "starky/src/interpreter.rs"],
 [("setup / starkinfo", "stark_setup.rs, starkinfo*.rs"), ("prover", "stark_gen.rs"), ("verifier", "stark_verify.rs")],
 ["starky::stark_gen::StarkProof::stark_gen", "starky::stark_verify::stark_verify"])
prop("C17", "STARK soundness: a violated constraint or altered proof is never accepted",
 "If any row of the trace violates any identity of the PIL program, or a lookup, permutation or connection does not hold, no proof the prover produces from that trace is accepted. Every challenge depends on everything that prover and verifier exchanged before it. An accepted proof stops being accepted when any root, evaluation, query value, Merkle path, final polynomial entry or public input is altered or exchanged.",
 ["programs", "inputs", "fault_sequences"], "all PIL programs, every violated row and identity, every single alteration of a proof",
 "Tests contain no negative case: an identity silently dropped from the constraint polynomial, or a check skipped for one row or one opening, passes all of them.",
 ["starky/src/stark_verify.rs", "starky/src/starkinfo_cp_prover.rs", "starky/src/starkinfo_cp_ver.rs", "starky/src/starkinfo_Z.rs", "starky/src/fri.rs"],
 [("constraint combination", "starkinfo_cp_prover.rs"), ("verifier equation and FRI", "stark_verify.rs")],
 ["starky::stark_verify::stark_verify"])
prop("C18", "Compiled expression code computes the PIL expressions",
 "For every PIL program, the code compiled for the prover domains and for the verifier computes, at every row or point, the value of the expression it stands for, including next-row references (wrapping at the end), numbers, public inputs, challenges and column sections. The constraint-degree reduction introduces intermediate columns without changing the meaning of any identity.",
 ["programs", "inputs"], "all expression trees, column layouts and rows",
 "Tests check fixed structural counts for two programs and never compare computed values with the expression's meaning.",
 ["starky/src/starkinfo_codegen.rs", "starky/src/interpreter.rs", "starky/src/expressionops.rs", "starky/src/starkinfo_cp_prover.rs"],
 [("code generation", "starkinfo_codegen.rs: pil_code_gen, build_code"), ("register allocation and reference resolution", "interpreter.rs")],
 ["starky::starkinfo::StarkInfo", "starky::interpreter"], hook="re-export of private modules")
prop("C19", "StarkInfo column map is a non-overlapping, complete, deterministic layout",
 "For every PIL program, the column map assigns every committed, quotient, intermediate, lookup, permutation and grand-product column a distinct position range inside its section, every section's width is the sum of its columns, base-domain and extended-domain layouts agree, and all evaluation and lookup indices point to the intended column. Building the info twice from the same program gives the same result.",
 ["programs"], "all PIL programs (column kinds, counts, identity kinds)",
 "Tests print or compare one program's counts; overlap needs specific mixes of base and extension columns and identity kinds.",
 ["starky/src/starkinfo_map.rs", "starky/src/starkinfo.rs", "starky/src/starkinfo_Z.rs"],
 [("map sections", "starkinfo_map.rs: map"), ("offset assignment", "starkinfo_map.rs: add_pol, map_section")],
 ["starky::starkinfo::StarkInfo"])
prop("C20", "Lookup, permutation and connection helper columns are the defined ones",
 "For every pair of columns with inclusion, the lookup helper columns are the table-order merge of the two columns split alternately, for every permutation or connection the grand-product column starts at one, advances by the defined ratio, and closes to one exactly when the relation holds. Columns for which the relation fails are refused or fail to close.",
 ["inputs", "configurations"], "all table and value columns with any multiplicities, base or extension valued",
 "Tests only reach these through one fixed program per kind; repeated table entries, repeated values and wrap-around need specific multiplicities.",
 ["starky/src/stark_gen.rs", "starky/src/starkinfo_Z.rs"],
 [("calculate_H1H2", "starky/src/stark_gen.rs"), ("calculate_Z", "starky/src/stark_gen.rs")],
 ["starky::stark_gen"], hook="wrapper of private functions")
prop("C21", "Proof JSON: serialisation is faithful and joining keeps both proofs",
 "Serialising a STARK proof to JSON and reading it back gives a proof with the same content, which the verifier accepts exactly when it accepted the original; every field of the proof appears under its defined key with its defined shape. Joining two proof inputs keeps every field of both under the prefixed keys, with public inputs and the recursion root constants handled as documented.",
 ["inputs", "configurations", "histories"], "all proofs (any number of FRI steps, columns, hash variants) and pairs of proofs",
 "Tests round-trip field elements only; dropped or reordered proof fields depend on the number of FRI steps, hash type and tree kind.",
 ["starky/src/serializer.rs", "starky/src/zkin_join.rs", "starky/src/digest.rs"],
 [("Serialize/Deserialize for StarkProof", "starky/src/serializer.rs"), ("join_zkin", "starky/src/zkin_join.rs")],
 ["starky::serializer", "starky::zkin_join::join_zkin"])
prop("C22", "Polynomial column files load back exactly what was stored",
 "For every PIL program and every column content, storing a column set and loading it gives the same columns, the file holds rows in order with columns in identifier order as 8-byte little-endian values, and column lookup by namespace, name and index reaches the declared column including array columns. Setting one cell changes only that cell, and a truncated file is refused, never silently misread.",
 ["programs", "inputs", "fault_sequences"], "all column declarations, contents, read chunk boundaries and truncation points",
 "Tests load one well-formed file; declarations mixing arrays and several namespaces, and short reads or truncation, are not covered.",
 ["starky/src/polsarray.rs", "starky/src/types.rs"],
 [("identifier mapping", "polsarray.rs: new"), ("chunked load/save", "polsarray.rs: load, save")],
 ["starky::polsarray::PolsArray"])
prop("C23", "R1CS and witness file readers decode exactly the file or refuse it",
 "For every well-formed R1CS file (any order of sections, any constraints, wire map, custom gates and uses) the readers return exactly the encoded header, constraints with terms sorted by wire, map and gates; for every witness file they return exactly the encoded values. Files with a wrong magic, version or field, an inconsistent header, constraint, map, custom gate or witness section size, an out-of-range value or a truncation are refused, never silently shortened or altered.",
 ["inputs", "fault_sequences"], "all files of the two formats, all truncation points and single-field corruptions",
 "Tests decode one sample file; section orders, custom gates, truncation points and out-of-range values are not covered.",
 ["algebraic-gpu/src/r1cs_file.rs", "algebraic-gpu/src/reader.rs", "algebraic/src/r1cs_file.rs", "algebraic/src/reader.rs"],
 [("section scan and parsing", "r1cs_file.rs: from_reader"), ("witness reader", "reader.rs: load_witness_from_bin_reader")],
 ["algebraic_gpu::r1cs_file::from_reader", "algebraic_gpu::reader"])
prop("C24", "Witness calculation passes inputs and results through unchanged",
 "For every circuit module and every assignment of input signals (decimal strings, numbers, booleans, arrays nested in any way, in any order of names, repeatedly on one calculator), the circuit is given exactly those values, under the 64-bit FNV-1a hash of the signal's name and in the order they are written, word for word, and the calculator returns the circuit's witness unchanged; the saved witness file is the specified encoding of it and is read back to the same values, also over an older longer file. A name that is not a signal of a circuit whose signals can be listed changes nothing. An exception raised by the circuit (failed assertion, too many values for a signal) and a value that does not fit the field's words or is negative are reported, and no witness is returned.",
 ["inputs", "histories"], "all circuits' signal layouts, input assignments, nestings and orders, repeated calculations on one instance",
 "Tests run one circuit with a few scalar inputs and no failing input; limb, hashing and flattening errors need particular values and names.",
 ["algebraic/src/witness/witness_calculator.rs", "algebraic/src/witness/circom.rs", "algebraic/src/witness/mod.rs", "algebraic-gpu/src/witness/witness_calculator.rs", "algebraic-gpu/src/witness/circom.rs", "algebraic-gpu/src/witness/mod.rs"],
 [("signal hashing and limb writing", "witness_calculator.rs: calculate_witness_circom, to_array32, from_array32"), ("flattening of JSON inputs", "witness/mod.rs: load_input_for_witness, flat_array"), ("witness file", "witness_calculator.rs: save_witness_from_bin_writer"), ("circuit exceptions", "witness_calculator.rs: runtime")],
 ["algebraic::witness::WitnessCalculator", "algebraic_gpu::witness::WitnessCalculator"])
prop("C25", "R1CS to PLONK conversion preserves satisfiability gate by gate",
 "For every R1CS over Goldilocks, an assignment satisfies all R1CS constraints if and only if, extended by the computed additional wires, it satisfies all PLONK gates produced; additional wires are the defined sums of earlier wires. This includes constraints with empty, constant, single-term and long linear combinations, zero coefficients and terms in any order. No assignment of the additional wires other than the computed one satisfies the gates.",
 ["programs", "inputs"], "all R1CS systems and all assignments, satisfying or not",
 "Tests convert one circuit and compare counts; normalisation cases (constant times linear, empty sides, long sums) depend on the shape of a single constraint.",
 ["recursion/src/r1cs2plonk.rs"],
 [("constraint case analysis and reduction", "r1cs2plonk.rs: process, reduce_coefs, join, normalize")],
 ["recursion::r1cs2plonk::r1cs2plonk"])
prop("C26", "Recursion trace layout realises every gate and every shared wire",
 "For every constraint system with the recursion custom gates, the generated fixed columns, row map and execution data make a filled trace satisfy the generated gate identities and copy constraints exactly when the wire values satisfy the gates and custom gates. Every use of a wire is connected to every other use, public inputs sit at their declared positions, and the execution file read back fills the same trace.",
 ["programs", "inputs"], "all mixes and orders of plain and custom gates, shared wires, public-input counts",
 "Tests build one circuit; row sharing (two gates per row, spare half rows, extra rows) depends on the order and mix of gates.",
 ["recursion/src/compressor12/plonk_setup.rs", "recursion/src/compressor12/compressor12_setup.rs", "recursion/src/compressor12/compressor12_exec.rs", "recursion/src/compressor12/compressor12_pil.rs"],
 [("row packing and copy constraints", "plonk_setup.rs"), ("exec file", "compressor12_setup.rs: write_exec_file; compressor12_exec.rs: read_exec_file")],
 ["recursion::compressor12"])
prop("C27", "Generated recursion PIL constrains exactly the custom gates' functions",
 "For every number of public inputs and size, the PIL text generated for the recursion circuit admits a row pair if and only if the selected gate's function holds: PLONK equation, extension-field multiply-add, the Goldilocks Poseidon round with the fixed constants and MDS, polynomial evaluation and 4-point FFT steps. Non-selected gates put no constraint on a row.",
 ["programs", "inputs", "configurations"], "all selector settings, all row values, all public-input counts",
 "Tests compare the rendered text with nothing or one stored string; a changed coefficient or index in the rendered constraints changes which traces are admitted.",
 ["recursion/src/compressor12/compressor12_pil.rs", "recursion/src/compressor12/constants.rs"],
 [("rendering", "compressor12_pil.rs: render"), ("constants", "constants.rs: CPOSEIDON, CMDS")],
 ["recursion::compressor12::compressor12_pil"])
prop("C28", "Groth16 JSON exchange types decode exactly valid data and refuse the rest",
 "Verification keys, proofs and public inputs for BLS12-381 Groth16 survive a JSON round trip unchanged in the decimal affine form, with coordinates in the defined order; the point at infinity and projective coordinates are read too, fields may come in any order and others are skipped. Malformed numbers, wrong types or lengths, missing or repeated fields and points off the curve or outside the subgroup are refused with an error, never accepted or turned into a crash.",
 ["inputs", "fault_sequences"], "all field values and points, all single corruptions of the JSON",
 "Tests decode one stored triple; no corrupted data is tried.",
 ["recursion-gnark/ffi/src/traits.rs", "recursion-gnark/ffi/src/json_util.rs"],
 [("visitors and curve checks", "recursion-gnark/ffi/src/traits.rs"), ("documents", "recursion-gnark/ffi/src/json_util.rs")],
 ["recursion_gnark_ffi"])
prop("C29", "Packed AVX2 and AVX-512 Goldilocks code equals the scalar code",
 "For all operands, every lane of the packed AVX2 and AVX-512 Goldilocks operations (add, sub, mul, square, negation, reduction, division, interleaving, views and conversions) equals the scalar field operation and is independent of the other lanes, and the packed Poseidon, linear hashes, Merkle trees and the prover built on them return the same results as the scalar ones. This includes operands near 0, 2^32, p and 2^64, and words at or above p where an operation is defined on them.",
 ["inputs", "configurations"], "all lane operands",
 "The default build and its tests do not compile this code at all.",
 ["fields/src/arch/x86_64", "starky/src/arch/x86_64"],
 [("packed reduction", "fields/src/arch/x86_64/avx2_field_gl.rs, avx512_field_gl.rs"), ("packed Poseidon", "starky/src/arch/x86_64")],
 ["fields::arch", "starky::arch"])
prop("C30", "PIL and STARK structure documents keep every value; malformed ones are refused",
 "Reading a PIL or STARK structure document keeps every expression, reference, array length, identity, relation and public definition, whatever the order of fields, spacing and escapes; numbers inside, given as decimal strings with or without a sign or as hexadecimal strings, are the same field value modulo p (numbers of 2^127 and more may be refused, but are never read as another value). A missing mandatory field, a field of another type or out of range, a field given twice and a cut or trailing document are refused; unknown fields are ignored. Writing and re-reading a program gives an equal program, and one program has one text.",
 ["inputs", "programs"], "all PIL and STARK structure documents and all numbers",
 "Tests load a few stock files and check they parse.",
 ["starky/src/types.rs", "starky/src/helper.rs"],
 [("serde types and number parser", "starky/src/types.rs")],
 ["starky::types::PIL", "starky::types::load_json"])
prop("C34", "Proving from files leaves an accepted proof exactly for a satisfying trace",
 "From the files of a PIL program, a STARK structure, fixed and committed columns, the file-level prover leaves, for every satisfying trace and each combination of its options, a proof document that the verifier accepts, with the trace's public values, and a verifier text with the requested main component. For a trace that violates the program, a polynomial file that lacks a value, or an unknown hash or malformed structure it fails and leaves no proof document.",
 ["programs", "inputs", "configurations"], "all programs, traces, structures, options and three hashes",
 "The tests prove three stock programs from files.",
 ["starky/src/prove.rs", "starky/src/polsarray.rs", "starky/src/pil2circom.rs"],
 [("file-level proving", "starky/src/prove.rs")],
 ["starky::prove::stark_prove"])
prop("C33", "PIL compilation keeps columns, publics, relations and their meaning",
 "Compiling PIL source gives a program with exactly the declared columns (number, name with namespace, kind, array length, row count, identifiers in declaration order), the declared public values in order, and every identity, lookup, permutation and connection with its selectors, source line and file name. Whatever the order of declarations, intermediates and relations in the source, every exported expression has on every row of every trace the value that the source text defines; degrees and quotient numbers follow from the text; and proofs for the compiled program are accepted exactly for satisfying traces.",
 ["programs", "inputs"], "all PIL programs (column kinds, arrays, namespaces, statement orders) and traces",
 "Tests compile two sample files and look at nothing but that the output is written; identifiers of intermediates and publics depend on the order of statements.",
 ["recursion/src/pilcom/export.rs", "recursion/src/pilcom/expression_counter.rs", "recursion/src/pilcom.rs"],
 [("expression and reference export", "pilcom/export.rs"), ("identifiers of intermediates", "pilcom/expression_counter.rs")],
 ["recursion::pilcom::compile_pil_from_str", "recursion::pilcom::compile_pil_from_path"])
prop("C31", "Generated circom verifiers accept exactly the proofs the native verifier accepts",
 "For every PIL program, stark structure and hash (GL, BN128, BLS12-381), the circom text generated for the verifier (plain, with main component, with the verification key as input, for aggregation, with an enable input) is a well-formed circuit whose constraints are satisfied by the inputs of the JSON proof exactly when the native verifier accepts that proof: same transcript, evaluation code, query and Merkle checks, FRI folding and last-polynomial degree check. Altering any root, evaluation, opened value, path, FRI layer, last polynomial, public value or verification key makes the circuit unsatisfied; with enable = 0 it accepts anything. The on-chain main outputs the SHA-256 of prover address and public values.",
 ["programs", "configurations", "inputs"], "all PIL programs, traces, stark structures and alterations of proofs",
 "Tests only check that a text is produced: no circom compiler is run on it.",
 ["starky/src/stark_verifier_circom.rs", "starky/src/stark_verifier_circom_onchain.rs", "starky/src/pil2circom.rs", "stark-circuits"],
 [("rendering", "stark_verifier_circom*.rs"), ("on-chain template library", "stark-circuits/circuits")],
 ["starky::pil2circom::pil2circom", "starky::prove::stark_prove"])
prop("C32", "The zkVM and circuit compiler front ends preserve statements end to end",
 "A program executed in the zkVM, or compiled with the bundled circuit compiler yields proofs accepted exactly for the statements executed.",
 ["programs", "inputs"], "all programs and inputs",
 "Tests run one fixture each.",
 ["zkvm", "dsl_compile", "zkit"],
 [("front ends", "zkvm/src, dsl_compile/src, zkit/src")])

prop("C35", "The Groth16 circuit has exactly the constraint system's constraints and inputs",
 "For every R1CS, witness, wire mapping and offset, the circuit synthesized for Groth16 (CPU and GPU crate) allocates one public variable per public wire, in order, and one auxiliary variable per other wire, with the witness's values (through the wire mapping); an assignment satisfies its constraints exactly when it satisfies the R1CS, whatever the shape of the constraints (empty sides, repeated wires, zero coefficients). Without a witness (set-up) it has the same variables and constraints. The public inputs and their JSON text are the values of the public wires in order, in decimal.",
 ["programs", "inputs"], "all constraint systems, witnesses, wire mappings and offsets",
 "Tests prove one or two fixture circuits; a constraint lost for one shape (an empty side, a constant) still lets every honest proof verify.",
 ["algebraic/src/circom_circuit.rs", "algebraic-gpu/src/circom_circuit.rs"],
 [("synthesis", "circom_circuit.rs: CircomCircuit::synthesize"), ("public inputs", "circom_circuit.rs: get_public_inputs, get_public_inputs_json, repr_to_big")],
 ["CircomCircuit::synthesize", "CircomCircuit::get_public_inputs_json"])
prop("C36", "Groth16 accepts a proof exactly for its key, public inputs and a good witness",
 "For every history of set-ups and proofs, through files or in memory and with numbers in decimal or hexadecimal: a proof made with a proving key from a witness that satisfies the circuit is accepted by the verification key of the same set-up with the published public inputs; it is rejected with another set-up's key, other, missing or surplus public inputs, an element exchanged with another proof's, or if the witness does not satisfy the circuit. Verification keys, proofs and public inputs read back from their documents are the ones written, coordinate by coordinate, and the Solidity verifier generated from a key contains exactly its points and number of inputs.",
 ["histories", "inputs"], "all circuits, witnesses, public inputs and histories of set-ups, proofs and checks",
 "Tests run one history: one set-up, one proof, one accepted verification, for one circuit; no test has a rejection.",
 ["groth16/src/api.rs", "groth16/src/groth16.rs", "groth16/src/json_utils.rs", "groth16/src/template.rs", "algebraic-gpu/src/circom_circuit.rs"],
 [("documents", "json_utils.rs"), ("commands", "api.rs: groth16_setup, groth16_prove, groth16_verify, generate_verifier")],
 ["groth16::api"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
