//! What the evidence states about each check.

const COMMIT: &[&str] = &[
    "prover::commit::{commit_G1, batch_commit_G1, commit_scalar_to_B1, batch_commit_scalar_to_B1}",
    "prover::commit::{commit_G2, batch_commit_G2, commit_scalar_to_B2, batch_commit_scalar_to_B2}",
];
const PROVE: &[&str] = &[
    "prover::prove: Provable::{prove, commit_and_prove} for PPE, MSMEG1, MSMEG2, QuadEqu",
    "data_structures: Mat for Matrix<F>, Matrix<Com1>, Matrix<Com2>; B1/B2/BT maps and batch maps; vec_to_col_vec, col_vec_to_vec",
];
const VERIFY: &[&str] = &["verifier: Verifiable::verify for PPE, MSMEG1, MSMEG2, QuadEqu", "data_structures: ComT::{pairing, pairing_sum, linear_map_*}, Add/Sub/Eq of ComT"];
const GEN: &[&str] = &["generator: CRS::generate_crs"];
const SERDE: &[&str] = &[
    "CanonicalSerialize/CanonicalDeserialize/Valid of CRS, Com1, Com2, Commit1, Commit2, EquProof, PPE, MSMEG1, MSMEG2, QuadEqu, EquType",
];

pub fn functions(pid: &str) -> Vec<&'static str> {
    let parts: &[&[&str]] = match pid {
        "C01" | "C02" | "C22" | "C23" | "C24" => &[GEN, COMMIT, PROVE, VERIFY],
        "C04" => &[COMMIT, PROVE, VERIFY],
        "C03" | "C21" | "C25" => &[COMMIT, PROVE],
        "C05" => &[GEN],
        "C06" | "C07" | "C08" => &[GEN, COMMIT, &["data_structures: B1/B2 maps, matrix product and sum behind the commitments"]],
        "C15" => &[COMMIT, PROVE, VERIFY, &["prover::commit::Commit::append"]],
        "C09" => &[&["data_structures: Com1/Com2 {linear_map, scalar_linear_map, batch_*}, ComT {linear_map_PPE, linear_map_MSMEG1, linear_map_MSMEG2, linear_map_quad}, ComT::pairing"]],
        "C10" => &[&["data_structures: ComT::pairing, ComT::pairing_sum, Add/Neg/Mul of Com1, Com2, ComT"]],
        "C11" => &[&["data_structures: Add, AddAssign, Sub, SubAssign, Neg, Mul, Sum, Zero of Com1, Com2, ComT"]],
        "C12" | "C13" | "C14" => &[&["data_structures: Mat::{add, neg, scalar_mul, transpose, left_mul, right_mul} for Matrix<F>, Matrix<Com1>, Matrix<Com2>, both modes, through rayon's real iterators and a scheduler under solver control"], if matches!(pid, "C12") { &[] } else { PROVE }],
        "C20" => &[&["data_structures: From/Into between Com1/Com2/ComT and vectors, column vectors, matrices; vec_to_col_vec, col_vec_to_vec; B1/B2/BT as_col_vec, as_vec, as_matrix"]],
        "C16" | "C17" => &[SERDE, COMMIT],
        "C18" => &[SERDE, PROVE, &["EquType codec once more under Kani (CBMC) as compiled code"]],
        "C19" => &[&["PartialEq of Com1, Com2, ComT, Commit1, Commit2, EquProof, CProof, PPE, MSMEG1, MSMEG2, QuadEqu, EquType"], COMMIT, PROVE],
        "C26" => &[GEN, COMMIT, PROVE],
        "C27" => &[COMMIT, PROVE, SERDE],
        _ => &[],
    };
    parts.iter().flat_map(|p| p.iter().cloned()).collect()
}

pub fn bounds(pid: &str, thorough: bool) -> String {
    let t = |q: &'static str, d: &'static str| if thorough { d } else { q };
    let per = match pid {
        "C16" | "C17" | "C18" | "C19" => "object shapes: lists of 0 to 5 elements and lengths around integer literals of the source, equations up to 3x2 (thorough 9x2), every element symbolic; the tag byte ranges over all 256 values",
        "C05" => "one and several key generations, all draws symbolic; generators other than the identity (a draw of the identity has probability 1/r)",
        "C03" | "C27" => "hiding key with all parameters symbolic; every pair of witnesses, every randomness of the first; shapes m x n as listed per instance",
        "C26" => "hiding key with all parameters symbolic; shapes as listed per instance; up to two proofs or two keys from one generator",
        "C07" => "lists of the listed lengths; beyond 17 values five positions stay symbolic",
        "C12" | "C14" | "C20" => "matrix shapes as listed per instance; entries symbolic (large shapes keep the first, middle and last rows and columns symbolic)",
        "C13" => "schedules: every decision of the scheduler (which worker takes which task, when a join is waited for) is a symbolic boolean; large shapes bound the number of schedules",
        _ => "equations with m x variables and n y variables as listed per instance (both from one up; sizes around integer literals of the source are added); every scalar, group element, key parameter and draw symbolic unless the instance is a large one",
    };
    format!("{per}; at most {} paths per instance; the loops run over these concrete sizes, nothing is cut off inside them", t("200", "2000"))
}

pub fn assumptions() -> Vec<&'static str> {
    vec![
        "arkworks' groups, fields and pairing are a bilinear group of prime order r: the library's generic code is instantiated with a type whose group elements are their discrete logarithms (terms over F_r, r the BLS12-381 scalar modulus) and whose pairing multiplies them",
        "every explored path is also run on the real BLS12-381 types (first six paths of an instance) and all observed values compared; counterexamples count only if the real code reproduces them there",
        "SMT solver z3 (QF_FF) and, for the tag codec, CBMC are correct",
        "sizes outside the listed shapes are not covered; branches on the integer representation of scalars (bits, order) are followed for sampled integers only and reported as BOUNDED",
        "leaf tasks of parallel iterators run atomically in the schedule model; memory-order effects inside rayon are outside",
    ]
}
