"""What each property's check runs: Quint jobs (specification, how to run it, driver module) and
TLC models.  `n` in init("@n") is the start of the process's share of a systematic sweep."""

PROPS = {}

PROPS["C01"] = dict(
    rule="register-machine behaviours of gl_field.qnt (boundary integers, boundary stored limbs, random), plus every "
         "pair of the 60 boundary values through every binary operation; an event is distinct when its "
         "action, operands and specified result differ",
    jobs=[
        dict(spec="gl_field.qnt", module="gl_field", inv="inv", traces=3, steps=500, procs=4,
             must=["add", "sub_assign", "inv", "div", "load_refused", "load_raw_refused", "sqrt", "into_u64"],
             thorough=dict(procs=24, traces=8, steps=800)),
        dict(spec="gl_field.qnt", module="gl_field", inv="inv", init="initSweep(@n)", step="stepSweep",
             steps=900, procs=4),
    ],
    assumptions=["Quint's integers are exact; `num_bigint` parses decimal correctly",
                 "operands are sampled (boundaries systematically), not all 2^128 pairs"],
)

for _p, _m, _d, _mod in (("C02", "f3", "f3g", 3), ("C03", "f5", "f5g", 5)):
    PROPS[_p] = dict(
        rule="register-machine behaviours of ext_field.qnt: base and full elements mixed, coefficients zero, boundary or "
             "random; plus every pair of systematic coefficient patterns through every operation",
        jobs=[
            dict(spec="ext_field.qnt", main=_m, module=_d, inv="inv", traces=2, steps=400 if _mod == 3 else 250, procs=6,
                 must=["div", "inv", "exp", "batch_inverse", "mul_scalar", "negate", "small", "constants"],
                 thorough=dict(procs=32, traces=6, steps=600)),
            dict(spec="ext_field.qnt", main=_m, module=_d, inv="inv", init="initSweep(@n)", step="stepSweep",
                 steps=180, procs=6 if _mod == 3 else 8, stride=181 if _mod == 3 else 181,
                 thorough=dict(procs=8, steps=181)),
        ],
        assumptions=["operands are sampled (patterns systematically), not all pairs"],
    )

PROPS["C06"] = dict(
    rule="all-zero, all -1, counting, single non-zero words, boundary and random states; 1 to 12 outputs; every other input or "
         "capacity length must be refused",
    jobs=[dict(spec="gl_poseidon.qnt", module="gl_poseidon", inv="inv", traces=1, steps=90, procs=8, must=["hash", "refuse"],
               thorough=dict(procs=64, steps=300))],
    assumptions=["the round constants of the published Goldilocks instance are those written in the specification",
                 "states are sampled; a wrong constant or index changes every output"],
)

PROPS["C07"] = dict(
    rule="every width 2..17 of both fields: zero, all -1, single and boundary/random inputs, 1 to t outputs; lengths 0 and above 16 refused",
    jobs=[dict(spec=f"poseidon/{f}_t{t}.qnt", main=f"{f}_t{t}", module=f + "_poseidon", inv="inv", traces=1,
               steps=4 if t > 8 else 6, procs=1, must=["hash"], thorough=dict(steps=40 if t > 8 else 80, procs=2))
          for t in range(17, 1, -1) for f in ("bn128", "bls12381", "neptune")],
    assumptions=["the reference constants are those of the Grain generator (tools/grain.py), computed independently of /repo"],
)

PROPS["C08"] = dict(
    rule="hash / matrix / sponge of lists of 0 to 545 boundary and pseudo-random values, batch sizes 0 to 91, 1 to 7 columns; every "
         "length 0..59 systematically",
    jobs=[dict(spec="linear_hash.qnt", main="lh_gl", module="lh_gl", inv="inv", traces=2, steps=120, procs=6,
               must=["hash", "sponge", "matrix"], thorough=dict(procs=32, traces=6, steps=300)),
          dict(spec="linear_hash.qnt", main="lh_gl", module="lh_gl", inv="inv", init="initSweep(@n)", step="stepSweep",
               steps=60, procs=2, thorough=dict(procs=8))],
    assumptions=["terms over permutation calls: the permutation is collision free and is the one decided by C06"],
)
PROPS["C09"] = dict(
    rule="as C08 for the 256-bit linear hashes of both fields: rows, matrices of one and three columns, nodes",
    jobs=[j for f in ("bn128", "bls12381") for j in (
          dict(spec="linear_hash.qnt", main="lh_" + f, module="lh_" + f, inv="inv", traces=2, steps=100, procs=3,
               must=["row", "node", "matrix"], thorough=dict(procs=16, traces=4, steps=300)),
          dict(spec="linear_hash.qnt", main="lh_" + f, module="lh_" + f, inv="inv", init="initSweep(@n)", step="stepSweep",
               steps=60, procs=2, thorough=dict(procs=8)))],
    assumptions=["terms over permutation calls: the permutation is collision free and is the one decided by C07"],
)
PROPS["C10"] = dict(
    rule="every tree of up to seven rows of few widths with every opening and every single alteration of one (TLC); sampled: trees of 1 to 281 rows of 1 to 49 values (all rows different, or few patterns), rebuilt in one object under 1 to 8 threads; "
         "openings of rows in and beyond the tree; twelve kinds of alteration of an opening; tall trees that cross the "
         "parallel chunk sizes",
    jobs=[dict(spec="merkle.qnt", main="mt_gl", module="mt_gl", inv="inv", traces=2, steps=90, procs=6, must=["build", "open", "check"],
               thorough=dict(procs=32, traces=4, steps=200)),
          dict(spec="merkle.qnt", main="mt_gl", module="mt_gl", inv="inv", init="initTall(164 + @n)", step="stepTall", stride=331,
               steps=4, procs=3, thorough=dict(procs=8)),
          # a machine with one CPU, and one with two
          dict(spec="merkle.qnt", main="mt_gl", module="mt_gl", inv="inv", traces=1, steps=40, procs=1, cpus=1, must=["build"]),
          dict(spec="merkle.qnt", main="mt_gl", module="mt_gl", inv="inv", traces=1, steps=40, procs=1, cpus=2, must=["build"]),
          dict(spec="merkle.qnt", main="mt_gl", module="mt_gl", inv="inv", init="initTall(8193 + @n)", step="stepTall", stride=1237,
               steps=4, procs=2, threads=2, thorough=dict(procs=8)),
          dict(tla="Merkle", cfg="MerkleGl", module="mt_gl", must=["build", "open", "check"]),
          dict(tla="Merkle", cfg="MerkleGlDeep", module="mt_gl", procs=0, thorough=dict(procs=8))],
    level="model_checking",
    assumptions=["terms over permutation calls: the permutation is collision free and is the one decided by C06"],
)
PROPS["C11"] = dict(
    rule="as C10 (TLC: up to fifteen rows, thorough nineteen) for the 16-ary trees of both fields, 1 to 297 rows; tall trees of more than 1000 and of more than 65536 rows cross the parallel chunk sizes",
    jobs=[j for f in ("bn128", "bls12381") for j in (
          dict(spec="merkle.qnt", main="mt_" + f, module="mt_" + f, inv="inv", traces=2, steps=90, procs=4, must=["build", "open", "check"],
               thorough=dict(procs=16, traces=4, steps=200)),
          dict(spec="merkle.qnt", main="mt_" + f, module="mt_" + f, inv="inv", init="initTall(1000 + @n)", step="stepTall", stride=900,
               steps=4, procs=2, thorough=dict(procs=4)),
          dict(spec="merkle.qnt", main="mt_" + f, module="mt_" + f, inv="inv", traces=1, steps=40, procs=1, cpus=1, must=["build"]),
          dict(spec="merkle.qnt", main="mt_" + f, module="mt_" + f, inv="inv", init="initTall(65630 + @n)", step="stepTall", stride=1236,
               steps=4, procs=1, threads=2, thorough=dict(procs=4, steps=6)))]
         + [dict(tla="Merkle", cfg="Merkle" + f.capitalize(), module="mt_" + f, must=["build", "open", "check"]) for f in ("bn128", "bls12381")]
         + [dict(tla="Merkle", cfg=f"Merkle{f.capitalize()}Deep", module="mt_" + f, procs=0, thorough=dict(procs=8)) for f in ("bn128", "bls12381")],
    level="model_checking",
    assumptions=["terms over permutation calls: the permutation is collision free and is the one decided by C07"],
)
PROPS["C12"] = dict(
    rule="every conversation of four operations (TLC; thorough: five), and sampled long ones: interleavings of put (elements, digests, exactly one block, nothing), challenges, single elements and query positions",
    jobs=[dict(spec="transcript.qnt", main="tr_gl", module="tr_gl", inv="inv", traces=4, steps=120, procs=6,
               must=["put", "field", "single", "queries"], thorough=dict(procs=32, traces=10, steps=300)),
          dict(tla="Transcript", cfg="TranscriptGl", module="tr_gl", must=["put", "field", "single", "queries"]),
          dict(tla="Transcript", cfg="TranscriptGlWide", module="tr_gl"),
          dict(tla="Transcript", cfg="TranscriptGlDeep", module="tr_gl", procs=0, thorough=dict(procs=8))],
    level="model_checking",
    assumptions=["terms over permutation calls: the permutation is the one decided by C06"],
)
PROPS["C13"] = dict(
    rule="as C12 for the transcripts of both 256-bit fields",
    jobs=[dict(spec="transcript.qnt", main="tr_" + f, module="tr_" + f, inv="inv", traces=4, steps=120, procs=4,
               must=["put", "field", "single", "queries"], thorough=dict(procs=16, traces=10, steps=300)) for f in ("bn128", "bls12381")]
         + [dict(tla="Transcript", cfg="TranscriptBig", module="tr_" + f, must=["put", "field", "single", "queries"]) for f in ("bn128", "bls12381")]
         + [dict(tla="Transcript", cfg="TranscriptBig" + c, module="tr_" + f, procs=0, thorough=dict(procs=8))
            for f in ("bn128", "bls12381") for c in ("Wide", "Deep")],
    level="model_checking",
    assumptions=["terms over permutation calls: the permutation is the one decided by C07"],
)
PROPS["C14"] = dict(
    rule="digests from scalars (boundaries, random, stored limbs at and above p) and from elements (boundary and random, near the field "
         "orders), through elements, scalar, text and back; texts out of range or of a wrong length; reductions, logarithms, shifts",
    jobs=[dict(spec="digest.qnt", module="digest", inv="inv", traces=6, steps=600, procs=8,
               must=["scalar", "elements", "packed", "mont", "to_base", "big", "log2", "ks", "text", "texts"],
               thorough=dict(procs=32, traces=8, steps=800))],
    assumptions=["sampled values; `num_bigint` writes decimal correctly"],
)
PROPS["C04"] = dict(
    rule="one or two transform objects with a history of sizes: dense, sparse, constant, base, mixed and extension vectors of 1 to 64 "
         "values in full, 128 to 2^20 values as monomials and progressions; coset scaling, evaluation, extension",
    jobs=[dict(spec="fft.qnt", main="fft" + d, module="fft" + d, inv="inv", step="stepSerial", traces=3, steps=90, procs=4,
               must=["fft", "ifft", "extend", "axi", "eval", "big_fft", "big_ifft", "big_extend"], thorough=dict(procs=32, traces=6, steps=200))
          for d in ("3", "5")] + [
          dict(spec="fft.qnt", main="fft" + d, module="fft" + d, inv="inv", step="stepHigh", traces=1, steps=n, procs=2,
               thorough=dict(procs=8, steps=24)) for d, n in (("3", 10), ("5", 6))],
    assumptions=["inputs are sampled; every output of a transform is compared (large ones through a random linear functional and at chosen positions)"],
)
PROPS["C05"] = dict(
    rule="1 to 5 interleaved columns of 2 to 32 rows, and 8 to 300 (once 4100) columns of 2 to 8 rows, in full under 1 to 8 threads; 2^6 to 2^10 rows of up to 33 columns; 2^11 to 2^14 rows (2^15 to 2^21 and, in the thorough tier, "
         "2^24, 2^25: below, at, one and two times above the block size) of 1 to 7 columns as monomials and progressions; 1, 2 and 8 CPUs",
    jobs=[dict(spec="fft.qnt", main="fft3", module="fft3", inv="inv", step="stepParallel", traces=3, steps=60, procs=4,
               must=["pfft", "pifft", "interp"], thorough=dict(procs=32, traces=6, steps=200)),
          dict(spec="fft.qnt", main="fft5", module="fft5", inv="inv", step="stepParallel", traces=1, steps=60, procs=1, thorough=dict(procs=8)),
          dict(spec="fft.qnt", main="fft3", module="fft3", inv="inv", step="stepAround", traces=1, steps=24, procs=4,
               must=["big_pfft", "big_pifft", "big_interp"], thorough=dict(procs=16, steps=60)),
          dict(spec="fft.qnt", main="fft3", module="fft3", inv="inv", step="stepAround", traces=1, steps=20, procs=2, cpus=1),
          dict(spec="fft.qnt", main="fft3", module="fft3", inv="inv", step="stepTall", traces=1, steps=8, procs=2, threads=2, thorough=dict(procs=4)),
          dict(spec="fft.qnt", main="fft3", module="fft3", inv="inv", step="stepVast", traces=1, steps=5, procs=2, threads=2, thorough=dict(procs=8)),
          dict(spec="fft.qnt", main="fft3", module="fft3", inv="inv", step="stepTall", traces=1, steps=6, procs=2, cpus=1, threads=1, thorough=dict(procs=4)),
          dict(spec="fft.qnt", main="fft3", module="fft3", inv="inv", step="stepHuge", traces=1, steps=2, procs=0, threads=1, limit=1500, thorough=dict(procs=2)),
          dict(spec="fft.qnt", main="fft3", module="fft3", inv="inv", step="stepWide", traces=1, steps=24, procs=3, thorough=dict(procs=16, steps=60))],
    assumptions=["lengths from 2; inputs are sampled; the destination buffer is zero, as in every caller"],
)
PROPS["C22"] = dict(
    rule="1 to 6 declarations (arrays, several namespaces, committed, constant and intermediate kinds, any order), 1 to 32 rows: cells, "
         "lookups, files saved, loaded, cut at every kind of place or with a word out of range; files above the 32M-word transfer buffer",
    jobs=[dict(spec="polsarray.qnt", module="polsarray", inv="inv", traces=8, steps=120, procs=6,
               must=["new", "hole", "set", "get", "save", "load", "load_bad", "buffer"], thorough=dict(procs=32, traces=20, steps=300)),
          dict(spec="polsarray.qnt", module="polsarray", inv="inv", step="stepLarge", traces=1, steps=1, procs=1, threads=1,
               must=["large"], thorough=dict(steps=6))],
    assumptions=["a little-endian machine; sampled declarations and contents"],
)
PROPS["C23"] = dict(
    rule="systems over three primes: 0 to 4 constraints (few with up to 300, or up to 270 terms), wires, labels, custom gates and uses, sections in any order with unknown sections "
         "between; 18 kinds of faults in R1CS files, 13 in witness files, every cut position of a set of files; the JSON forms; four readers",
    jobs=[dict(spec="r1cs.qnt", module="r1cs", inv="inv", traces=6, steps=250, procs=6,
               must=["r1cs", "wtns", "json", "json_wtns"], thorough=dict(procs=32, traces=20, steps=400)),
          dict(spec="r1cs.qnt", module="r1cs", inv="inv", init="initSweep(@n)", step="stepSweep", traces=1, steps=1200, procs=3, thorough=dict(procs=24, steps=2000)),
          # linear combinations of up to 270 terms, up to 300 constraints and 1100 wires
          dict(spec="r1cs.qnt", module="r1cs", inv="inv", step="stepLarge", traces=1, steps=8, procs=3, must=["r1cs", "json"], thorough=dict(procs=16))],
    assumptions=["sampled systems; `ff` and `ff_ce` decode field representations"],
)
PROPS["C24"] = dict(
    rule="circuit modules over three primes with and without a version, 1 to 4 signals of 0 to 6 elements, assertions: scalars and nested arrays "
         "of boundary and random values as text, numbers and booleans; unknown names, surplus, wide and negative values; two calculators",
    jobs=[dict(spec="witness.qnt", module="witness", inv="winv", step="wstep", traces=4, steps=130, procs=8,
               must=["circuit", "calculate", "refuse"], thorough=dict(procs=32, traces=10, steps=400))],
    assumptions=["circuit modules are assembled stand-ins with circom's interface; `wasmer` executes them correctly",
                 "every input is given (a circuit does not run otherwise); values are below the prime or do not fit its words"],
)
PROPS["C28"] = dict(
    rule="proofs, keys and inputs with points of both groups (multiples of the generators, infinity, Jacobian coordinates, points of order 3 and "
         "2713 and others outside the subgroups), fields in any order, unknown fields; every kind of single change to a document; points and scalars in "
         "Montgomery form",
    jobs=[dict(spec="gnark.qnt", module="gnark", inv="ginv", step="gstep", traces=6, steps=100, procs=8,
               must=["decode", "refuse", "points", "scalar"], thorough=dict(procs=32, traces=12, steps=300))],
    assumptions=["numbers in a document denote residues (`ark_ff`'s reading of decimal text: taken modulo the order, sign allowed)",
                 "coordinates with z = 0 denote the point at infinity whatever x and y are"],
)
_STARK_OPS = ["data", "define", "recur", "boolean", "gated", "lookup", "permutation", "connection", "publish", "prove", "prove_alter", "prove_broken"]
PROPS["C16"] = dict(
    rule="every satisfying trace of bits of every small program of one relation over four rows (TLC: inclusions, permutations, connections, identities); "
         "programs of 8 to 32 rows grown from random columns, definitions, recurrences, gates, lookups (with selectors), permutations, "
         "connections and public values, every FRI step schedule, 1 to 86 queries, three hashes, several naming schemes: the proof of each satisfying "
         "trace; traces repeated to 2^12..2^13 rows so that the parallel blocks are crossed (with 3 workers they start at rows that are no multiple of the blow-up factor)",
    jobs=[dict(spec="stark.qnt", main="stark", module="stark_complete", inv="inv", traces=3, steps=96, procs=8,
               must=_STARK_OPS, thorough=dict(procs=64, traces=6, steps=192)),
          dict(spec="stark.qnt", main="stark", module="stark_complete", inv="invTall", init="initTall(4, 8)", step="stepTall",
               traces=1, steps=24, procs=2, threads=2, must=["prove", "repeats"], thorough=dict(procs=8)),
          dict(spec="stark.qnt", main="stark", module="stark_complete", inv="invTall", init="initTall(4, 9)", step="stepTall",
               traces=1, steps=20, procs=3, threads=2, cpus=4, must=["prove"], thorough=dict(procs=8)),
          dict(spec="stark.qnt", main="stark", module="stark_complete", inv="invTall", init="initTall(4, 11)", step="stepTall",
               traces=1, steps=16, procs=0, threads=1, must=["prove"], thorough=dict(procs=4)),
          dict(spec="stark.qnt", main="stark", module="stark_complete", inv="inv", init="initMany", traces=1, steps=60, procs=2, must=["prove"],
               thorough=dict(procs=8)),
          # every trace of every small program of one relation
          dict(tla="Programs", cfg="ProgramsPlainSat", module="stark_complete", must=["prove"]),
          dict(tla="Programs", cfg="ProgramsSelSat", module="stark_complete", must=["prove"]),
          dict(tla="Programs", cfg="ProgramsIdsSat", module="stark_complete", must=["prove"])],
    level="model_checking",
    assumptions=["programs and traces are sampled", "challenges meet no exceptional point (probability about 2^-180)",
                 "tables of lookups have no next-row reference, as in the reference implementation (setup refuses them)"],
)
PROPS["C31"] = dict(
    rule="as C17, for the circom text of the verifier: six ways to generate it (plain, main, verification key as input, aggregation, with "
         "and without enable) and three hashes; the text is parsed and its circuit evaluated on the native proof (must be satisfiable exactly "
         "when the native verifier accepts), then on altered proofs (refused; accepted when switched off), with the hash transcript and with challenges that no alteration moves",
    jobs=[dict(spec="stark.qnt", main="stark", module="stark_circuit", inv="inv", traces=2, steps=72, procs=8,
               must=_STARK_OPS, thorough=dict(procs=48, traces=4, steps=144))],
    assumptions=["programs, traces and alterations are sampled",
                 "Goldilocks texts include the circuit library of pil-stark (circuits.gl) and on-chain texts that of circomlib, neither of which is in the "
                 "repository: their templates are evaluated as documented; templates in stark-circuits are read from their text",
                 "witness values behind `<--` are those the text computes: another prover's choice is not explored",
                 "aggregation circuits are generated for four public values or more"],
)
PROPS["C17"] = dict(
    rule="as C16 and every violating trace of the small programs (TLC), and every single alteration of some of their proofs; cells of satisfied traces are overwritten, and the proofs of traces that then break a relation must not be accepted; "
         "what prover and verifier absorb before each challenge; 24 kinds of alterations of accepted proofs (ten random ones and six aimed at the degree of the last layer and at pairs of evaluations each), with the hash transcript "
         "and with challenges that no alteration moves",
    jobs=[dict(spec="stark.qnt", main="stark", module="stark_sound", inv="inv", traces=4, steps=96, procs=8,
               must=_STARK_OPS, thorough=dict(procs=64, traces=8, steps=192)),
          # every identity and every opened column is in the verifier's equations: no random trace need show that one is missing
          dict(spec="stark_code.qnt", main="stark_code", module="stark_code", inv="inv", traces=2, steps=64, procs=8,
               must=["lookup", "code"], thorough=dict(procs=32, traces=8, steps=128)),
          dict(spec="stark.qnt", main="stark", module="stark_sound", inv="inv", init="initMany", traces=1, steps=60, procs=4, must=["prove_alter"],
               thorough=dict(procs=8)),
          # every trace of every small program of one relation, and every single alteration of some of its proofs
          dict(tla="Programs", cfg="ProgramsPlain", module="stark_sound", must=["prove", "prove_broken"]),
          dict(tla="Programs", cfg="ProgramsSel", module="stark_sound", must=["prove", "prove_broken"]),
          dict(tla="Programs", cfg="ProgramsIds", module="stark_sound", must=["prove", "prove_broken"]),
          dict(tla="Programs", cfg="ProgramsAltered", module="stark_sound", must=["prove"])]
         + [dict(tla="Programs", cfg=f"Programs{c}Deep", module="stark_sound", procs=0, limit=1800, thorough=dict(procs=8)) for c in ("Plain", "Conn", "Sel", "Ids", "Altered")],
    level="model_checking",
    assumptions=["programs, traces and alterations are sampled", "a random evaluation point or combination hides a difference with probability about 2^-180",
                 "what is sampled is that altered proofs fail; that nobody can make an accepted proof of a false statement is the theorem of the protocol"],
)
PROPS["C15"] = dict(
    rule="polynomials of 2 to 32 coefficients within the bound and up to the whole domain beyond it, every layer schedule including equal "
         "to a single value, scripted challenges (zero, one, base, random) and query positions, three hashes: every layer, opened row, message "
         "and verdict; proofs built from the specified layers; layers that are not foldings; twelve kinds of alterations",
    jobs=[dict(spec="fri.qnt", main="fri", module="fri", inv="inv", traces=3, steps=60, procs=8,
               must=["honest", "beyond", "forged"], thorough=dict(procs=64, traces=8, steps=120))],
    assumptions=["the trees are those of C10 and C11", "polynomials, challenges and positions are sampled"],
)
_CODE_OPS = ["define", "recur", "boolean", "gated", "lookup", "permutation", "connection", "publish", "code"]
PROPS["C18"] = dict(
    rule="programs grown as for C16; every compiled segment (public values, lookup, permutation and connection columns, intermediate columns, "
         "constraint polynomial and FRI polynomial on both domains, verifier equation) is run at each row or at a point of no domain "
         "with random column, constant, challenge, public and evaluation values, by the prover's own interpreter and by an independent one, "
         "against the specification's value of the expression",
    jobs=[dict(spec="stark_code.qnt", main="stark_code", module="stark_code", inv="inv", traces=3, steps=64, procs=8, must=_CODE_OPS,
               thorough=dict(procs=64, traces=8, steps=128))],
    assumptions=["programs and values are sampled", "two expressions that differ agree on random values with probability about 2^-60"],
)
PROPS["C19"] = dict(
    rule="programs grown as for C16: ranges and widths of every section on both domains, which column each index of the map points to, "
         "evaluation map against the columns and rows the specification says identities and relations read; the setup built three more times",
    jobs=[dict(spec="stark_code.qnt", main="stark_code", module="stark_map", inv="inv", traces=3, steps=64, procs=8, must=_CODE_OPS,
               thorough=dict(procs=64, traces=8, steps=128))],
    assumptions=["programs are sampled"],
)
PROPS["C20"] = dict(
    rule="lookups with selectors, permutations and connections over random rows with repeated values, satisfied and spoilt: the merge "
         "and the running product made of the specification's columns; of accepted proofs (three hashes) every committed column, recovered "
         "from openings at every position, against the specification's columns under the same challenges",
    jobs=[dict(spec="stark_cols.qnt", main="stark_cols", module="stark_cols", inv="inv", traces=2, steps=40, procs=8,
               must=["lookup", "permutation", "connection", "spoil", "columns"], thorough=dict(procs=64, traces=6, steps=80))],
    assumptions=["programs and challenges are sampled", "on the extended domain the openings determine the columns"],
)
PROPS["C21"] = dict(
    rule="proofs of every shape (three hashes, 0 to 17 layers, 0 to 4 queries, empty rows and paths, single-number digests, boundary values): "
         "every leaf of the document, read back from its own and from the specified document; joins of documents, also of joined ones; "
         "accepted and altered proofs of random programs: the same verdict before and after the document",
    jobs=[dict(spec="proof_json.qnt", main="proof_json", module="proof_json", inv="inv", traces=1, steps=24, procs=8, must=["write", "join"],
               thorough=dict(procs=64, traces=4, steps=60)),
          dict(spec="stark.qnt", main="stark", module="stark_json", inv="inv", traces=1, steps=36, procs=8, must=["prove"],
               thorough=dict(procs=64, traces=4, steps=96))],
    assumptions=["proofs and documents are sampled", "numbers in documents are canonical"],
)
PROPS["C25"] = dict(
    rule="every constraint of at most two terms a side over three wires with every assignment of small values (TLC; thorough: also every pair of "
         "small constraints, and three terms over four wires); systems of 1 to 15 constraints of 14 shapes (linear, constant factors, zero coefficients, empty sides, 0 to 7 terms a side) over Goldilocks; "
         "each is converted whole and constraint by constraint; five assignments each, the satisfying one and near ones: the gates hold exactly "
         "when the constraints do, and every added wire is determined by the gates",
    jobs=[dict(spec="plonk.qnt", main="plonk", module="plonk", inv="inv", traces=4, steps=100, procs=8, must=["convert"],
               thorough=dict(procs=64, traces=8, steps=200)),
          dict(tla="Plonk", cfg="PlonkOne", module="plonk", must=["convert"]),
          dict(tla="Plonk", cfg="PlonkOrder", module="plonk", must=["convert"]),
          dict(tla="Plonk", cfg="PlonkTwo", module="plonk", procs=0, thorough=dict(procs=8)),
          dict(tla="Plonk", cfg="PlonkDeep", module="plonk", procs=0, thorough=dict(procs=8))],
    level="model_checking",
    assumptions=["systems and assignments are sampled"],
)
PROPS["C26"] = dict(
    rule="systems of 0 to 16 (some: up to 70) constraints and uses of 0 to 5 gate kinds (multiply-add, hash, polynomial evaluation, transforms of 4 and 2 with random "
         "roots and scales) in every order, 0 to 25 (some: up to 60) public values, smallest or given size: set up, executed on the satisfying and four near "
         "assignments, every identity and copy evaluated on every row, unused cells also randomised; which wire is in which cell is learnt "
         "from a run with pairwise different values; some traces are proved and verified",
    jobs=[dict(spec="compressor.qnt", main="compressor", module="compressor", inv="inv", traces=2, steps=30, procs=8, must=["plain", "gates"],
               thorough=dict(procs=64, traces=6, steps=40)),
          # large systems: up to some seventy constraints and 60 public values
          dict(spec="compressor.qnt", main="compressor", module="compressor", inv="inv", step="stepMany", traces=1, steps=10, procs=3,
               thorough=dict(procs=16, traces=2, steps=14))],
    assumptions=["systems and assignments are sampled", "PIL text is analysed by a stand-in of the `powdr` crates (they cannot be fetched); the exporter is the real one",
                 "no custom gate has the constant wire among its signals, as circom guarantees"],
)
PROPS["C27"] = dict(
    rule="tables of 4 to 16 rows with one selected row (every subset of one whole-row kind, one next-row kind and partial rounds; the last row too), "
         "random and boundary cells and constants, solved so that the functions hold or one cell off; marked public rows; 0 to 25 public values; "
         "all other rows random: every identity of the rendered program on every row",
    jobs=[dict(spec="gates.qnt", main="gates", module="gates", inv="inv", traces=3, steps=250, procs=8, must=["row", "free"],
               thorough=dict(procs=64, traces=8, steps=400)),
          # the constants and partial rounds as the setup puts them in: whole hashes of circuits
          dict(spec="compressor.qnt", main="compressor", module="compressor", inv="inv", traces=2, steps=24, procs=2, must=["gates"],
               thorough=dict(procs=16, traces=4, steps=30))],
    assumptions=["tables are sampled", "PIL text is analysed by a stand-in of the `powdr` crates (they cannot be fetched); the exporter is the real one"],
)
PROPS["C33"] = dict(
    rule="programs grown as in C16, written as PIL source with declarations, intermediates and relations in any order, arrays, lists, four namespaces "
         "(one nested) entered again and again, names or whole expressions in relations: compiled, every declaration, number, degree, line and "
         "public compared, every expression evaluated on every row of a trace; proofs for satisfying and for spoiled traces",
    jobs=[dict(spec="source.qnt", main="source", module="source", inv="inv", traces=3, steps=55, procs=8, must=["compile", "prove"],
               thorough=dict(procs=64, traces=8, steps=77))],
    assumptions=["programs are sampled", "PIL text is analysed by a stand-in of the `powdr` crates (they cannot be fetched); the exporter is the real one"],
)

PROPS["C29"] = dict(
    rule="on builds for AVX2 and for AVX-512: every pair of 39 boundary words (canonical and not) and random words through every packed "
         "operation in every operand form; the packed permutation, linear hash, tree, transcript and the prover on the behaviours of "
         "C06, C08, C10, C12 and C16",
    jobs=[j for simd, w in (("avx2", 4), ("avx512", 8)) for j in (
          dict(spec="packed.qnt", main=f"packed{w}", module="packed", simd=simd, inv="inv", traces=2, steps=500, procs=3,
               must=["add", "sub", "mul", "square", "neg", "reduce", "div", "interleave", "view", "constants"],
               thorough=dict(procs=24, traces=8, steps=800)),
          dict(spec="packed.qnt", main=f"packed{w}", module="packed", simd=simd, inv="inv", init="initSweep(@n)", step="stepSweep",
               steps=490 if w == 4 else 330, procs=4 if w == 4 else 3, thorough=dict(procs=8)),
          dict(spec="gl_poseidon.qnt", module="packed_poseidon", simd=simd, inv="inv", traces=1, steps=70, procs=3, must=["hash", "refuse"],
               thorough=dict(procs=32, steps=300)),
          dict(spec="linear_hash.qnt", main="lh_gl", module="lh_gl", simd=simd, inv="inv", traces=1, steps=100, procs=2,
               must=["hash", "sponge", "matrix"], thorough=dict(procs=16, traces=6, steps=300)),
          dict(spec="linear_hash.qnt", main="lh_gl", module="lh_gl", simd=simd, inv="inv", init="initSweep(@n)", step="stepSweep", steps=60, procs=1),
          dict(spec="merkle.qnt", main="mt_gl", module="mt_gl", simd=simd, inv="inv", traces=1, steps=90, procs=3,
               must=["build", "open", "check"], thorough=dict(procs=16, traces=4, steps=200)),
          dict(spec="merkle.qnt", main="mt_gl", module="mt_gl", simd=simd, inv="inv", init="initTall(8193 + @n)", step="stepTall", stride=1237,
               steps=2, procs=1, threads=2, thorough=dict(procs=4)),
          dict(spec="transcript.qnt", main="tr_gl", module="tr_gl", simd=simd, inv="inv", traces=2, steps=120, procs=1, must=["put", "queries"]),
          dict(spec="stark.qnt", main="stark", module="stark_complete", simd=simd, inv="inv", traces=1, steps=96, procs=2, must=["prove"],
               thorough=dict(procs=16)))],
    assumptions=["lists hashed two at a time (AVX-512) have one length", "words at or above p are operands only of the operations that are defined on them"],
)

PROPS["C30"] = dict(
    rule="PIL and structure documents with random contents, orders of fields, spacing and escapes: every value read is the written one, and written "
         "again; every one of 55 fields with each of 15 alterations (absent, null, another type, out of range, twice, cut documents, ...); "
         "decimal and hexadecimal numbers around 0, p, 2p, 2^64, 2^127 and random ones",
    jobs=[dict(spec="documents.qnt", module="documents", inv="inv", traces=1, steps=220, procs=5, must=["read", "fault", "number"],
               thorough=dict(procs=64, traces=4, steps=400)),
          dict(spec="documents.qnt", module="documents", inv="inv", init="initSweep(@n)", step="stepSweep", stride=413, steps=412, procs=2,
               must=["fault"], thorough=dict(procs=8))],
    assumptions=["documents are sampled", "unknown fields are ignored"],
)
PROPS["C34"] = dict(
    rule="programs and traces grown as for C16, written as files and proven by the command line's entry point with each combination of its options, three "
         "hashes: the document is an accepted proof with the trace's public values and a verifier text with the requested main component; "
         "violating traces, cut polynomial files and malformed structures are refused and leave no proof",
    jobs=[dict(spec="stark.qnt", main="stark", module="stark_files", inv="inv", traces=2, steps=96, procs=8,
               must=["prove", "prove_broken"], thorough=dict(procs=64, traces=6, steps=192))],
    assumptions=["programs and traces are sampled", "programs that need the setup's external lookup numerators are left out"],
)

PROPS["C35"] = dict(
    rule="every constraint of at most two terms a side over three wires with every assignment of small values (TLC; thorough: also pairs of constraints); "
         "systems of 1 to 15 constraints of ten shapes over the scalar field of BLS12-381 (empty sides, repeated wires, zero coefficients, nothing to "
         "check), 0 to 6 public values, with and without a wire mapping and an offset, made into circuits of both crates for proving and for setting "
         "up; seven assignments each, satisfying and near: variables, their values, and constraints whole and one by one; public inputs and their text",
    jobs=[dict(spec="groth.qnt", main="groth", module="groth_circuit", inv="inv", traces=6, steps=60, procs=8, must=["synthesize"],
               thorough=dict(procs=64, traces=20, steps=150)),
          dict(tla="Plonk", cfg="PlonkOne", module="groth_circuit", must=["convert"]),
          dict(tla="Plonk", cfg="PlonkTwo", module="groth_circuit", procs=0, thorough=dict(procs=8))],
    level="model_checking",
    assumptions=["a recording constraint system stands in for bellman's (whose interface is a stand-in too) and bellperson's",
                 "systems beyond the small ones are sampled"],
)
PROPS["C36"] = dict(
    rule="every history of two set-ups and two proofs over two small circuits, good and bad assignments, followed by every check of a key, a proof, public "
         "inputs and an element exchanged between proofs (TLC); histories of up to five keys over random systems and witnesses: keys from files and in memory, "
         "documents in decimal and hexadecimal, wrong, missing and surplus public inputs, keys of other set-ups; what is written is what is read back; "
         "verifier contracts for keys over BN254 with one to five points",
    jobs=[dict(spec="groth.qnt", main="groth", module="groth", inv="inv", step="work", traces=3, steps=60, procs=8,
               must=["setup", "prove", "verify", "contract"], thorough=dict(procs=64, traces=8, steps=120)),
          dict(tla="Groth", cfg="GrothTwo", module="groth", must=["setup", "prove", "verify"]),
          dict(tla="Groth", cfg="GrothDeep", module="groth", procs=0, thorough=dict(procs=8))],
    level="model_checking",
    assumptions=["bellperson's processor back end: `groth16` is built in its variant for graphics processors, over BLS12-381; the other variant needs git "
                 "dependencies", "witness programs are assembled stand-ins with circom's interface", "wrong proofs are accepted with negligible probability"],
)

# the random jobs of these run with more seeds than listed above
for _p, _n in dict(C01=2, C02=2, C04=2, C05=2, C08=2, C09=2, C14=2, C15=2, C18=3, C19=2, C20=3, C22=2, C23=2, C24=2, C25=3, C28=2,
                   C30=3, C33=2, C34=2, C12=2, C13=2, C10=2, C21=2).items():
    PROPS[_p]["boost"] = _n
