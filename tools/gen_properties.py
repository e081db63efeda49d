#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so anchors stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=False, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = "re-exports of private operator modules and proof parts under cfg(zksql_verif)"
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

A="src/arithmetic/"; S="src/subroutines/"; T="src/tracker/"; Z="src/zksql_poly_iop/"
prop("C01","Multilinear extension arithmetic agrees with its definition",
 "Evaluating, partially fixing (first or last variables), merging, batching-index and eq-polynomial helpers, and growing the number of variables at either end all return exactly what the definition of a multilinear extension gives, in parallel and sequential variants alike. Generated permutations are permutations, the generated random/zero polynomial lists really have the product sum they report. Malformed arguments (mismatching lengths) are rejected, not silently accepted.",
 ["inputs"],"every multilinear polynomial, every point over the field, every split of the variables and every number of added variables",
 "Unit tests sample a few random dense polynomials at one size; index order errors, structured points (0/1 coordinates, repeated values) and odd splits stay invisible.",
 [A+"multilinear_polynomial.rs",A+"util.rs",A+"virtual_polynomial.rs",T+"dmle_utils.rs"],
 [("evaluation and variable fixing",A+"multilinear_polynomial.rs evaluate_opt, fix_variables, fix_last_variables, merge_polynomials"),
  ("eq polynomial",A+"virtual_polynomial.rs build_eq_x_r_vec, eq_eval; "+T+"dmle_utils.rs"),
  ("growing the number of variables",T+"dmle_utils.rs dmle_increase_nv_front/back"),
  ("index helpers",A+"util.rs bit_decompose, gen_eval_point, get_index")],
 ["public functions of zk_sql::arithmetic and zk_sql::tracker::prelude"])
prop("C02","Virtual polynomials compute the algebra they were built from",
 "A virtual polynomial built by any sequence of constructing, adding product terms, multiplying by a multilinear polynomial and adding polynomials evaluates at every point to the corresponding field expression, reports the right maximum degree and number of variables, and random constructions report their true sum over the hypercube (zero everywhere for the zero variant). Multiplying by the eq polynomial multiplies the value by eq. Operations on mismatching numbers of variables or on empty product lists are refused.",
 ["inputs","histories"],"every sequence of construction operations over shared and distinct multilinear polynomials, every coefficient and evaluation point",
 "The tests use fixed small term counts; sharing of factors, repeated factors, zero coefficients and long operation sequences are not sampled.",
 [A+"virtual_polynomial.rs"],
 [("construction and algebra",A+"virtual_polynomial.rs add_mle_list, mul_by_mle, Add, new_from_mle"),
  ("evaluation",A+"virtual_polynomial.rs evaluate, build_f_hat, rand, rand_zero")],
 ["VirtualPolynomial public API"])
prop("C03","Sumcheck accepts every honest proof",
 "For every virtual polynomial, the sumcheck prover's proof for the true sum over the hypercube is accepted, the sum extracted from the proof is the true sum, and the resulting subclaim's expected evaluation equals the polynomial at the subclaim's point, which is the point the prover reports. This holds for every degree, number of variables and number of product terms.",
 ["inputs"],"every virtual polynomial (degree including those beyond the fixed interpolation sizes), every transcript prefix",
 "Tests run a few random shapes of small degree; interpolation switches implementation by degree and the higher ones are never executed.",
 [S+"poly_iop/sum_check/mod.rs",S+"poly_iop/sum_check/prover.rs",S+"poly_iop/sum_check/verifier.rs"],
 [("prover rounds",S+"poly_iop/sum_check/prover.rs prove_round_and_update_state"),
  ("verifier checks and interpolation",S+"poly_iop/sum_check/verifier.rs check_and_generate_subclaim, interpolate_uni_poly")],
 ["<PolyIOP as SumCheck>::{prove,verify,extract_sum}"])
prop("C04","Sumcheck never accepts a wrong sum or an altered proof",
 "A sumcheck proof presented with any claimed sum other than the true one, with any altered, dropped or reordered round message, or with auxiliary information other than the one used to prove is either refused or yields a subclaim whose expected evaluation differs from the polynomial at the subclaim point. The subclaim point depends on the transcript history and on every round message before it: a proof presented under another history is refused or leads to another point, never to the one it was made for.",
 ["inputs","fault_sequences"],"every honest proof and every alteration of its messages, claimed sum, auxiliary information or transcript",
 "The tests only feed honest proofs plus one random wrong sum; a verifier that skips one round check or one degree check passes them all.",
 [S+"poly_iop/sum_check/mod.rs",S+"poly_iop/sum_check/verifier.rs","src/transcript/mod.rs"],
 [("round consistency check",S+"poly_iop/sum_check/verifier.rs check_and_generate_subclaim"),
  ("challenge derivation",S+"poly_iop/sum_check/verifier.rs verify_round_and_update_state; "+S+"poly_iop/sum_check/mod.rs verify")],
 ["SumCheck::verify and its subclaim"],True)
prop("C05","Zerocheck succeeds exactly for polynomials vanishing on the hypercube",
 "A zerocheck proof of a polynomial that is zero at every hypercube point is accepted with a subclaim consistent with that polynomial, and for a polynomial that is non-zero at even one hypercube point the proof is refused or its subclaim is inconsistent. Altering any message of a zerocheck proof has the same effect as a false statement.",
 ["inputs","fault_sequences"],"every virtual polynomial, zero on the hypercube or not (including a single non-zero point and sums that cancel), every tampering of the proof",
 "Tests use random polynomials, which are non-zero almost everywhere; polynomials whose sum is zero but which are not identically zero, or non-zero at one vertex, are not sampled.",
 [S+"poly_iop/zero_check/mod.rs",A+"virtual_polynomial.rs",S+"poly_iop/sum_check/mod.rs"],
 [("masking with eq and reduction to sumcheck",S+"poly_iop/zero_check/mod.rs prove, verify"),("eq polynomial",A+"virtual_polynomial.rs build_f_hat, build_eq_x_r")],
 ["<PolyIOP as ZeroCheck>::{prove,verify}"])
prop("C06","Polynomial commitments open completely and bind",
 "For every polynomial within the parameters' size, the opening returned for any point carries the polynomial's true value there and verifies; any different value, point, commitment or altered proof is refused. Commitments are a deterministic, linear, injective function of the evaluation table and do not change when variables are added in front; oversized polynomials or mismatching points are errors; parameters, commitments and proofs survive serialization.",
 ["inputs","fault_sequences"],"every polynomial and point for every parameter size, trimmed or not, and every alteration of an opening",
 "Tests open one random polynomial at a random point; sparse, constant and smaller-than-parameter polynomials, special points and forged openings are not covered.",
 [S+"pcs/multilinear_kzg/mod.rs",S+"pcs/multilinear_kzg/srs.rs",S+"pcs/structs.rs"],
 [("commit, open, verify",S+"pcs/multilinear_kzg/mod.rs"),("parameter generation and trimming",S+"pcs/multilinear_kzg/srs.rs")],
 ["PolynomialCommitmentScheme for MultilinearKzgPCS"])
prop("C07","Batched openings verify exactly when every claimed value is true",
 "A batch opening of any number of polynomials (one included) at any points, equal or distinct, with their true values verifies. A batch whose claimed values, points, commitments, order, sumcheck messages or inner opening differ from the honest ones is refused, including combinations of changes chosen so that their effects cancel under guessable coefficients. Commitments are taken to be in the transcript before the opening, as the trackers put them.",
 ["inputs","fault_sequences"],"every list of polynomials and points (lists of every length, repeated points and polynomials) and every alteration of the proof or statement",
 "Tests batch a few polynomials honestly and check one wrong value; batches of one, repeated points and coordinated forgeries of several values are not sampled.",
 [S+"pcs/multilinear_kzg/batching.rs"],
 [("batch prover",S+"pcs/multilinear_kzg/batching.rs multi_open_internal"),("batch verifier",S+"pcs/multilinear_kzg/batching.rs batch_verify_internal")],
 ["PolynomialCommitmentScheme::{multi_open,batch_verify}"],True)
prop("C08","Fiat-Shamir challenges are a function of the whole transcript",
 "Two transcripts fed the same sequence of labelled messages, field elements and serializable elements produce the same challenges, and any difference in the initial label, a message's label, content, order or presence, or in an earlier challenge changes every later challenge. A challenge is never produced from an empty transcript, consecutive challenges differ, and challenges spread over the whole field. The prover and verifier trackers put every commitment and every appended message into their transcript, and the point of a compiled proof depends on all of them.",
 ["histories"],"every sequence of appends and challenge requests and every single edit of such a sequence",
 "Tests never compare transcripts that differ in one step; a dropped or reordered absorption leaves honest proofs working.",
 ["src/transcript/mod.rs",T+"prover_tracker.rs",T+"verifier_tracker.rs"],
 [("absorb and squeeze","src/transcript/mod.rs append_message, append_serializable_element, get_and_append_challenge, get_and_append_challenge_vectors"),("absorbing commitments",T+"prover_tracker.rs track_and_commit_mat_poly; "+T+"verifier_tracker.rs track_mat_comm")],
 ["IOPTranscript public API, tracker challenges, sc_proof.point"])
prop("C09","The prover's tracked polynomials follow field algebra",
 "After any sequence of tracking, adding, subtracting, multiplying, scaling, shifting by a constant and growing the number of variables, every tracked polynomial still evaluates, on the hypercube and at arbitrary points, to the field expression that created it, and its exported virtual polynomial agrees (growing a product of polynomials is specified on the hypercube). Combining polynomials of different numbers of variables or of different trackers is refused. Reading a polynomial changes nothing; identifiers are unique and deep copies are independent.",
 ["histories"],"every sequence of tracker operations over shared operands, materialized or virtual",
 "Tests exercise a handful of two-operand combinations; aliasing (an operand used twice), long chains, reads in between and mixtures of materialized and virtual operands are not sampled.",
 [T+"prover_tracker.rs",T+"prover_wrapper.rs",T+"dmle_utils.rs"],
 [("operation algebra",T+"prover_tracker.rs add_sub_polys, mul_polys, add_scalar, mul_scalar, increase_nv_front/back"),("reading",T+"prover_tracker.rs evaluate, evaluations, to_arithmatic_virtual_poly")],
 ["ProverTrackerRef and TrackedPoly"],state=[{"name":"tracked polynomials","meaning":"materialized tables and sums of products by identifier ("+T+"prover_tracker.rs)"}])
prop("C10","Verifier commitments mirror the prover's polynomials step for step",
 "When the verifier repeats the operations of the prover, every commitment it derives has the same identifier as the prover's polynomial and, given the true values of the base polynomials, evaluates at every point to the prover's polynomial there; both transcripts stay in step, so both sides draw the same challenges. This holds for every sequence of operations.",
 ["histories"],"every operation sequence applied on both sides and every evaluation point",
 "Tests compare two or three hand-written sequences; an operation that consumes a different number of identifiers or swaps operands on one side only shows for particular sequences.",
 [T+"verifier_tracker.rs",T+"verifier_wrapper.rs",T+"prover_tracker.rs"],
 [("virtual commitments",T+"verifier_tracker.rs add_comms, sub_comms, mul_comms, add_scalar, mul_scalar, increase_nv_front/back"),("commitment transfer",T+"verifier_wrapper.rs transfer_prover_comm")],
 ["VerifierTrackerRef, TrackedComm::eval_virtual_comm"],state=[{"name":"virtual commitments","meaning":"evaluation closures by identifier and known evaluations ("+T+"verifier_tracker.rs)"}])
prop("C11","Every set of true claims compiles into a proof that verifies",
 "For every tracker history that registers only true sum claims and zero claims over committed and derived polynomials, of equal or different numbers of variables and in any number and order, the compiled proof is accepted by a verifier that repeats the history, with the mock-free commitment scheme as well. The claimed sums in the proof are the true sums.",
 ["histories","inputs"],"every history of operations and claims, with any mixture of polynomial sizes",
 "Tests compile two fixed claim sets; mixed sizes, several claims on the same polynomial, claims only of one kind and a single commitment are not sampled.",
 [T+"prover_tracker.rs",T+"verifier_tracker.rs",T+"prover_wrapper.rs",T+"verifier_wrapper.rs"],
 [("compilation",T+"prover_tracker.rs compile_proof, equalize_materialized_poly_nv, convert_zerocheck_claims_to_sumcheck_claim"),("verification",T+"verifier_tracker.rs verify_claims")],
 ["ProverTrackerRef::compile_proof, VerifierTrackerRef::verify_claims"])
prop("C12","A compiled proof of a false claim or a tampered proof is rejected",
 "If any registered sum claim or zero claim is false, or the compiled proof is altered in any part that carries evidence (claimed sums used by the verifier, sumcheck messages, auxiliary information, commitments, batch opening), the verifier rejects. A proof made for one history is rejected by a verifier following another one.",
 ["histories","fault_sequences"],"every history with at least one false claim, and every alteration of an honest compiled proof",
 "Tests verify honest proofs and hardly any forged ones; a verifier that ignores one part of the proof passes every test.",
 [T+"verifier_tracker.rs",T+"prover_tracker.rs",S+"poly_iop/sum_check/verifier.rs",S+"pcs/multilinear_kzg/batching.rs"],
 [("verification",T+"verifier_tracker.rs verify_claims, convert_zerocheck_claims_to_sumcheck_claim")],
 ["VerifierTrackerRef::verify_claims"],True)
def op(id,title,st,q,why,d,mech,extra=[]):
    prop(id,title,st,["inputs"],q,why,[Z+x for x in d]+extra,[(n,Z+w) for n,w in mech],
      ["operator prove/verify followed by compile_proof and verify_claims"],True)
op("C13","Bag equality, sum and multiplicity arguments accept exactly equal multisets",
 "The bag equality, bag sum and general keyed-multiplicity operators produce an accepted proof if and only if the two sides contain the same active values with the same total multiplicities (modulo the field), whatever the order, padding, splitting over several bags or inactive values. Mismatching list lengths or sizes are refused.",
 "all bags over all selectors and multiplicity columns, of every power-of-two size and number of bags, equal or differing in a single multiplicity",
 "Tests perturb a dense random bag in one place; sparse selectors, values occurring many times, active zeros, and differences hidden in inactive rows are not sampled.",
 ["bag_multitool/bag_multitool.rs","bag_eq/bag_eq.rs","bag_sum/bag_sum.rs"],
 [("log-derivative argument","bag_multitool/bag_multitool.rs prove, verify"),("reductions","bag_eq/bag_eq.rs; bag_sum/bag_sum.rs")])
op("C14","Bag inclusion is accepted exactly when the multiplicities explain it",
 "Inclusion of one bag in another is accepted, with computed multiplicities, whenever every active value of the first occurs among the active values of the second, and, with given multiplicities, exactly when for every value the occurrences in the first equal the sum of the multiplicities over the active rows of the second. A bag with an active value missing from the other is never accepted.",
 "all pairs of bags of any two sizes, with every selector and multiplicity column",
 "Tests use one included and one non-included bag; duplicates on both sides, inactive rows holding the missing value and sizes differing either way are not sampled.",
 ["bag_inclusion/bag_inclusion.rs","bag_inclusion/utils.rs","util/intermed_bag_calc.rs"],
 [("inclusion","bag_inclusion/bag_inclusion.rs"),("multiplicities","bag_inclusion/utils.rs; util/intermed_bag_calc.rs")])
op("C15","Strict sortedness and prescribed permutation are decided exactly",
 "The strict-sort operator accepts a bag exactly when consecutive values all increase within the given range and never repeat where active; the prescribed-permutation operator accepts exactly when the second column is the first one rearranged by the prescribed permutation. Equal neighbours, descending steps, wrap-around and steps outside the range are rejected.",
 "all bags, selectors, range columns and permutation columns",
 "Tests take one sorted and one unsorted list; a repeated value, a violation at the first or last position or a permutation correct as a set but not as prescribed are not sampled.",
 ["bag_sort/bag_sort.rs","bag_presc_perm/bag_presc_perm.rs"],
 [("strict sort","bag_sort/bag_sort.rs"),("prescribed permutation","bag_presc_perm/bag_presc_perm.rs")])
op("C16","A support is accepted exactly when it is the bag's strictly sorted value set",
 "The support operator accepts, with computed or given multiplicities, exactly when the second bag is strictly sorted, contains every active value of the first, and claims a non-zero multiplicity for each active value that accounts exactly for its occurrences. Supports with a missing, duplicated or extra value are rejected.",
 "all bags (duplicates, inactive rows), all candidate supports and multiplicity columns",
 "Tests use one correct support and one obviously wrong one; extra values with zero multiplicity, near-duplicates and all-equal bags are not sampled.",
 ["bag_supp/bag_supp.rs","bag_supp/utils.rs","bag_no_zeros/mod.rs"],
 [("support argument","bag_supp/bag_supp.rs"),("advice","bag_supp/utils.rs")])
op("C17","Disjointness is accepted exactly for bags or sets without a common value",
 "The bag and set disjointness operators accept whenever the active values of both inputs have no value in common, whatever the order, repetitions (bags) and padding, and never accept when they share an active value, also not with adversarial advice for the merged bag (also with rows activated more than once) and multiplicities.",
 "all pairs of bags or sets of any sizes and selectors, honest and manipulated advice",
 "Tests share many values or none; a single shared value, sharing only in inactive rows, and forged advice are not sampled.",
 ["bag_disjoint/bag_disjoint.rs","bag_disjoint/utils.rs","set_disjoint/set_disjoint.rs"],
 [("bag disjointness","bag_disjoint/bag_disjoint.rs"),("advice","bag_disjoint/utils.rs"),("set disjointness","set_disjoint/set_disjoint.rs")])
op("C18","Set union, intersection and difference are accepted exactly when correct",
 "The union, intersection and difference operators accept whenever the claimed result (and its claimed parts) is the mathematical union, intersection split or difference of the two sets, and reject a result with any element missing, added, misplaced or repeated.",
 "all pairs of sets of any sizes and overlap, with padding, and all claimed results",
 "Tests use fixed example sets with one bad variant; empty overlap, full overlap, one-sided inclusion and single-element errors are not sampled.",
 ["set_union/set_union.rs","set_intersect/set_intersect.rs","set_diff/set_diff.rs","util/intermed_bag_calc.rs"],
 [("union","set_union/set_union.rs"),("intersection","set_intersect/set_intersect.rs"),("difference","set_diff/set_diff.rs")])
op("C19","Join reduction selects exactly the rows with and without a partner",
 "The join-reduction operator accepts exactly when the two given selectors are boolean and mark the rows whose keys do not occur (or do occur) on the other side, so that left-only, matching and right-only rows are separated correctly. A selector wrong in a single active row is rejected.",
 "all pairs of key columns with duplicates, padding and any overlap, and all selectors",
 "Tests use fixed tables with one wrong selector; many-to-many keys, empty sides and single-row errors are not sampled.",
 ["join_reduction/join_reduction.rs","join_reduction/utils.rs","selector_valid/selector_valid.rs"],
 [("join reduction","join_reduction/join_reduction.rs"),("selector advice","join_reduction/utils.rs")])
op("C20","The cross product contains every pair of rows and is mirrored by the verifier",
 "The cross product of two tables has, for every pair of row indices, the row formed by the first table's columns followed by the second's, and its activator is the product of both; the verifier's derived columns evaluate to the same polynomials at every point. It takes part in later claims like any other table.",
 "all pairs of tables of any column counts and sizes, and all evaluation points",
 "Tests compare one small example; asymmetric sizes, distinguishable row orders and evaluation away from the hypercube are not sampled.",
 ["cross_product/cross_product.rs","cross_product/utils.rs"],
 [("cross product","cross_product/cross_product.rs; cross_product/utils.rs"),("variable growth","cross_product/utils.rs (through the trackers' increase_nv_back)")])
op("C21","Index transforms are accepted exactly when every output row is an input row",
 "The index-transform operator accepts whenever every active row of the output table equals, in all columns at once, some active row of the input table, and rejects an output containing an active row that is not one, even if every single cell occurs in its column; tables with different numbers of columns are refused. Row fingerprints are linear with independent coefficients per column.",
 "all tables with any number of columns, sizes, selectors and all index maps, and single-cell or cross-row perturbations",
 "Tests take one gather of random rows and random perturbations; mixing cells of two rows, permuting cells within a row and inactive input rows are not sampled.",
 ["index_transform/index_transform.rs","index_transform/utils.rs","util/mod.rs"],
 [("index transform","index_transform/index_transform.rs"),("row fingerprint","index_transform/utils.rs")])
op("C22","The one-to-many join returns the joined table and rejects wrong matches",
 "For a table with unique keys and a table whose active keys all occur there, the final join is accepted and its result holds, for every active row of the second table, the first table's matching row followed by it, with the second table's activator. Matches to a wrong row, a wrong number of matched columns and join columns outside the tables are rejected, an unmatched active key is refused, and padding never matters.",
 "all pairs of tables with any column counts, sizes, key columns and activators, and all candidate transformed tables",
 "Tests use fixed joins; non-leading key columns, repeated foreign keys, inactive rows with colliding keys, and transformed columns with a plausible wrong row are not sampled.",
 ["final_join_one_to_many/final_join_one_to_many.rs","final_join_one_to_many/utils.rs"],
 [("final join","final_join_one_to_many/final_join_one_to_many.rs"),("advice","final_join_one_to_many/utils.rs")])
op("C23","Group-by returns each group once with correct aggregates",
 "The group-by operator accepts exactly when the supporting table lists every active group once and each count or sum column holds that group's number of rows or total, and returns a table consisting of the group columns' support and all aggregate columns. A wrong group, count or sum in a single active group is rejected, and so is a group row whose activator is neither 0 nor 1.",
 "all tables, grouping columns, activators, lists of aggregates and all candidate outputs",
 "Tests use one example table per aggregate; several grouping columns, several aggregates, inactive rows and off-by-one aggregates in one group are not sampled.",
 ["group_by/group_by.rs"],
 [("group by","group_by/group_by.rs prove_with_advice, verify_with_advice")])
op("C24","Selector validity and no-zeros are decided exactly",
 "The selector-validity operator accepts a column exactly when every entry is 0 or 1, and the no-zeros operator accepts a bag exactly when no active entry is zero. One offending entry at any position is rejected; inactive entries never matter for no-zeros.",
 "all columns and selectors of every size, with zero or one or many offending entries anywhere",
 "Tests use random data; a single offending entry, and entries such as 2 or -1 whose polynomial value could cancel, are not sampled.",
 ["selector_valid/selector_valid.rs","bag_no_zeros/mod.rs"],
 [("selector validity","selector_valid/selector_valid.rs"),("no zeros","bag_no_zeros/mod.rs")])
op("C25","Advice generators return exactly the intermediate results they name",
 "Multiplicity counts, supports, disjointness merges, left/middle/right splits of bags and sets, join selectors and index maps computed for the prover equal a direct computation over the active rows, conserve every active value and its number of occurrences, and have consistent sizes. Inactive rows contribute nothing and missing matches are reported as errors.",
 "all bags, sets and tables with any duplicates, sizes, overlap and activators",
 "Tests compare fixed examples, mostly without duplicates and with full selectors; one-sided exhaustion, repeated values on both sides and inactive rows are not sampled.",
 ["util/intermed_bag_calc.rs","bag_supp/utils.rs","bag_disjoint/utils.rs","bag_inclusion/utils.rs","join_reduction/utils.rs","final_join_one_to_many/utils.rs","index_transform/utils.rs"],
 [("splits","util/intermed_bag_calc.rs"),("advice","*/utils.rs")])
prop("C26","Proving is deterministic and independent of parallelism",
 "Running the same operations on the same inputs gives byte-identical commitments, claims and proofs on every run and with every number of worker threads, and verification gives the same answer every time. Proving or verifying one statement never affects another tracker, and working on a deep copy of a tracker never changes what the original already holds.",
 ["schedules","histories"],"every program of operations, every number of threads and repetition",
 "Tests never compare two runs; a dependency on hash-map order or on the split of parallel work shows only between runs.",
 [T+"prover_tracker.rs",A+"virtual_polynomial.rs",S+"poly_iop/sum_check/prover.rs",S+"pcs/multilinear_kzg/mod.rs"],
 [("ordering of commitments and claims",T+"prover_tracker.rs compile_proof"),("parallel rounds",S+"poly_iop/sum_check/prover.rs")],
 ["compiled proofs of repeated runs"])
prop("C27","Operators compose: a proof of several statements is accepted iff all hold",
 "A prover and a verifier may run any sequence of operators on the same trackers before they compile and check one proof: with claims, challenges and messages in between, over columns of different sizes, columns shared by several operators, columns derived from others (sums, differences, multiples, products) and result tables of earlier operators (a join's result grouped, a grouping joined). The one proof is accepted if every statement is true, refused if any of them is false, wherever it stands, and both trackers stay in step throughout.",
 ["inputs","histories"],"every sequence of operators and tracker operations, all choices of shared and derived columns, every position of a false statement",
 "Every test runs one operator, on freshly committed columns, and compiles the proof at once; no test joins and then groups, or gives one column to two operators.",
 [T+"prover_tracker.rs",T+"verifier_tracker.rs",Z+"mod.rs",Z+"bag_multitool/bag_multitool.rs",Z+"final_join_one_to_many/final_join_one_to_many.rs"],
 [("aggregation of all claims at the common size",T+"prover_tracker.rs compile_proof, "+T+"verifier_tracker.rs verify_claims"),("result tables",Z+"final_join_one_to_many, group_by, cross_product")],
 ["verdict of verify_claims after several operators"])
prop("C28","Malformed proofs get an answer: verifiers never crash or run without end",
 "Whatever the shape of the proof a verifier is handed (rounds, evaluations, coordinates, quotients, commitments, points, values or batch openings missing or surplus, lists of the wrong or of different lengths, commitments under identifiers that were never tracked, auxiliary information that does not fit the proof, up to the largest numbers), the sumcheck, zerocheck, opening, batched-opening and compiled-proof verifiers return an answer: an error or a refusal if the proof does not verify. They do not panic or overflow, and do no work whose size is a number in the proof rather than the size of the proof. Refusing a malformed proof does not affect the verification of an honest one.",
 ["inputs"],"every proof obtained from an honest one by any changes of its shape",
 "Tests hand verifiers only proofs that their own provers made, whose parts always fit together.",
 [S+"poly_iop/sum_check/mod.rs",S+"poly_iop/sum_check/verifier.rs",S+"poly_iop/zero_check/mod.rs",S+"pcs/multilinear_kzg/mod.rs",S+"pcs/multilinear_kzg/batching.rs",T+"verifier_tracker.rs"],
 [("rounds and evaluations",S+"poly_iop/sum_check/mod.rs verify, "+S+"poly_iop/sum_check/verifier.rs check_and_generate_subclaim, interpolate_uni_poly; "+S+"poly_iop/zero_check/mod.rs verify"),
  ("openings",S+"pcs/multilinear_kzg/mod.rs verify_internal, "+S+"pcs/multilinear_kzg/batching.rs batch_verify_internal"),
  ("compiled proofs",T+"verifier_tracker.rs verify_claims")],
 ["return values of the verifying functions"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(P))
