#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that it is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
M='mpnum/mparray.py'; S='mpnum/mpstruct.py'; L='mpnum/linalg.py'; O='mpnum/mpsmpo.py'; F='mpnum/factory.py'
PV='mpnum/povm/mppovm.py'; LP='mpnum/povm/localpovm.py'; X='mpnum/utils/extmath.py'; T='mpnum/utils/array_transforms.py'

prop('C01','Dense arrays survive the round trip through matrix product form',
 'Converting a dense array to matrix product form (from local or from global leg order, with the same or with individually given numbers of legs per site (at least one on the last), optionally with already existing virtual legs, or as a Kronecker product of given factors) and converting back returns exactly the original array, and the reported length, site shapes, leg counts, ranks, size and (floating point) data type describe it correctly with outer ranks of one. The conversions between global and local leg order are mutually inverse permutations of the axes that leave skipped outer axes in place; leg counts that do not use up the legs of the array exactly are rejected.',
 ['inputs'],'all array shapes, leg counts per site, numbers of sites, entries and data types',
 'Tests use a few random arrays with uniform small dimensions; the claim is for every shape (including size-one and non-uniform legs) and all entries.',
 [M,T],[('repeated QR factoring',M+':_extract_factors'),('chain contraction',M+':_ltens_to_array'),('axis permutations',T)],
 ['MPArray.from_array','MPArray.from_array_global','MPArray.from_kron','MPArray.to_array','MPArray.to_array_global'])

prop('C02','Linear arithmetic is exact element-wise arithmetic on the dense arrays',
 'Addition, subtraction, negation, multiplication and division by a scalar (also the in-place forms) and plain or weighted summation of any number of matrix product arrays represent exactly the element-wise combination of the represented dense arrays, for every mixture of real and complex operands of any precision, any ranks and any canonical form. Operands of different length, and non-scalar factors, are rejected with an error.',
 ['inputs'],'all operands, lengths >= 1, ranks, leg counts, dtypes, canonical forms, weights',
 'Tests add a few uniform complex128 arrays; block placement, single-site special cases, dtype promotion and the interplay with canonical form are sampled only.',
 [M],[('block-diagonal local tensors',M+':_local_add'),('boundary concatenation',M+':MPArray.__add__, sumup'),('scaling one site',M+':MPArray.__mul__/__imul__')])

prop('C03','Contractions of matrix product arrays equal the dense contractions',
 'Site-wise contraction over any chosen legs (single, several, positive or negative leg numbers), partial contraction of chains of different length at a given start site, the site-wise outer product, the inner product (conjugating its first argument), the operator sandwich between one or two states, and the fast inner product with a product state all return exactly the corresponding contraction of the represented dense arrays. The resulting legs are the uncontracted legs of the first factor followed by those of the second at every site, and the site-wise contraction, inner product and outer product reject chains of different length.',
 ['inputs'],'all pairs/triples of compatible chains, all leg selections, all ranks and dtypes',
 'Tests fix two legs per site, equal dimensions and a handful of axes; index bookkeeping for other leg counts/axes/ranks is unsampled.',
 [M,L,'mpnum/special.py','mpnum/_named_ndarray.py'],[('local contraction with fused virtual legs',M+':_local_dot'),('left environment update',L+':_eig_leftvec_add')])

prop('C04','Leg and site rearrangements represent the rearranged dense array',
 'Transposing or permuting the legs of every site, complex conjugation, the adjoint, reshaping or flattening the legs of every site, grouping and splitting sites, turning a bond into a pair of physical legs and back, cutting the chain at a bond, reversing the chain, and concatenating chains represent exactly the correspondingly rearranged dense array with the documented site shapes. Grouping then splitting, bond-to-legs then legs-to-bond, and reversing twice give back the same represented array.',
 ['inputs'],'all chains, leg permutations, new shapes, group sizes, cut positions',
 'Tests check a few shapes per operation; non-uniform shapes, first/last bond and arbitrary permutations are not covered.',
 [M],[('local transposition/reshape',M+':_local_transpose, _local_reshape'),('bond/leg conversion',M+':MPArray.vleg2leg, leg2vleg, split'),('grouping',M+':MPArray.group_sites, split_sites'),('concatenation',M+':chain')])

prop('C05','Summing, tracing, selecting and pruning legs match the dense result',
 'Summing over legs of plain matrix product arrays (all, the same legs everywhere, or per-site choices), full and partial traces over chosen leg pairs, fixing the first leg of every site to given indices or slices, iterating over or taking the diagonal of a leg, contracting away sites without legs (optionally also sites with only size-one legs) and zero-padding of ranks yield exactly the corresponding result of the dense array. Iteration visits all index combinations in row-major order of the sites, nothing ever sums, traces or selects a virtual leg, and padding gives the documented ranks.',
 ['inputs'],'all chains, leg selections per site (also negative leg numbers), index choices, padding ranks',
 'Tests use fixed shapes and axes; per-site mixtures, leg-less sites at either end and negative leg numbers are unsampled.',
 [M],[('leg sums',M+':MPArray.sum'),('traces',M+':partialtrace, trace'),('pruning',M+':_prune_ltens, prune'),('selection',M+':MPArray.get, axis_iter, diag'),('padding',M+':MPArray.pad_ranks, full_rank')])

prop('C06','The reported canonical form is always truthful',
 'After any sequence of public operations on a matrix product array, starting from any freshly built one, all sites left of the reported left boundary are left-normalized and all sites from the reported right boundary on are right-normalized. This includes direct replacement of local tensors (with correctly declared normalization), scaling, compression, conversions, rearrangements, factories and de-serialization.',
 ['histories','inputs'],'all operation histories over all chains',
 'Quantifies over histories; tests check the form after single operations from a fresh array. A wrong flag silently corrupts later norms and compressions.',
 [S,M,F,'mpnum/special.py'],[('flag bookkeeping on replacement',S+':LocalTensors._update'),('flags passed to new chains',M+': cform= arguments')],
 ['canonical_form of any result'],[('canonical form','numbers of left/right normalized sites',S+':LocalTensors._lcanonical/_rcanonical')])

prop('C07','Canonicalization preserves the array, reaches the request; norms are exact',
 'Canonicalizing in place, from any previous canonical form and to any valid request (integers, negative integers, maximal, one-sided or unspecified), leaves the represented array unchanged up to rounding and reaches at least the requested form, never increasing a rank. Out-of-range requests raise an index error and requests which normalize all sites or overlap a value error, leaving the array unchanged; norm and distance equal the dense 2-norm of the array and of the difference.',
 ['inputs','histories'],'all chains, previous forms and requests',
 'Tests canonicalize small random chains; the product over (length, previous form, request) and rank-deficient or over-ranked tensors is not covered.',
 [M],[('QR sweeps',M+':MPArray._rcanonicalize, _lcanonicalize'),('request handling',M+':MPArray.canonicalize'),('norm from one tensor',M+':norm, normdist')])

prop('C08','SVD compression respects rank, overlap identity and optimality bounds',
 'Compressing by singular value truncation never exceeds the requested maximal rank, returns the overlap of the original with the compressed array which equals the squared norm of the compressed array, is lossless if the requested rank suffices or no truncation is requested, and has a squared error of at most the sum over bonds of the discarded squared singular values; this holds for both sweep directions, any previous canonical form and any length. With a relative error bound every bond keeps exactly the smallest number of singular values (of the partly compressed chain) whose sum reaches the fraction 1 - relerr, or fewer if limited by the maximal rank; the reported singular values are those of the dense bipartitions and computing them leaves the represented array unchanged.',
 ['inputs'],'all chains, ranks, relative errors, directions, canonical forms',
 'Tests check a few random chains for selected ranks; non-uniform legs, mixed canonical forms, length-one/two chains and rank-deficient tensors are unsampled.',
 [M,X],[('SVD sweeps',M+':MPArray._compress_svd_l, _compress_svd_r'),('truncation',X+':truncated_svd'),('direction choice',M+':MPArray._compress_svd')])

prop('C09','Variational compression returns a rank-bounded projection',
 'Variational compression (in double precision) returns an array with the original shape and at most the requested rank (or the ranks of the given start array) and returns as overlap a value which equals both its squared norm and its inner product with the original, for any number of sweeps of at least one and any number of simultaneously varied sites up to the length. If the requested rank exceeds all ranks of the original it is lossless, with one or two varied sites it never is farther from the original than the start array, and neither the original nor the start array is modified when a new object is requested.',
 ['inputs'],'all originals, start arrays, ranks, sweep counts, numbers of varied sites, dtypes',
 'Tests run a few random instances; complex start arrays, extreme numbers of varied sites and non-uniform shapes are unsampled.',
 [M],[('alternating optimization',M+':MPArray._adapt_to, _compression_var'),('environments and local optimum',M+':_adapt_to_add_l, _adapt_to_add_r, _adapt_to_new_lten')])

prop('C10','Operations leave their operands intact and copies are independent',
 'No operation other than the documented in-place ones changes the array represented by any of its matrix product operands or by any other existing matrix product array, and later in-place changes to a result never change an operand (nor the other way round). Copies share no memory with the original, dense arrays handed out are writable and independent, and local tensors handed out cannot be used to modify the chain.',
 ['histories','inputs'],'all operations, operands and later in-place operations',
 'Aliasing shows only in multi-step histories (derive, then modify one of the two), which the tests do not explore.',
 [M,S],[('read-only views',S+':_roview, LocalTensors.__getitem__, __iter__'),('copies',S+':LocalTensors.copy, '+M+':MPArray.copy'),('replacement instead of mutation',M+':MPArray.__imul__')])

prop('C11','Chains stay structurally consistent and reject inconsistent updates',
 'Every chain that can be observed has at least one site, matching bond dimensions between neighbouring sites and unit outer bonds whenever it is built from legs only; building with non-matching bonds or too few axes and replacing tensors by ones with non-matching bonds (or, for a single site, too few axes) is rejected with an error and an update that is rejected leaves the chain exactly as before. Replacing one or several neighbouring local tensors replaces exactly those tensors in the given order and keeps all others.',
 ['inputs','histories'],'all chains, site indices (also negative), slices, replacement tensors and their shapes',
 'Tests cover a few valid updates and hardly any rejected ones.',
 [S],[('checks on construction',S+':LocalTensors.__init__'),('checked replacement',S+':LocalTensors.update')])

prop('C12','Embedded local terms sum up to the dense sum of embedded operators',
 'Summing local operators over a chain equals the dense sum of the operators each embedded with identities (or the given embedding tensor) at its position, for every width, number and rank of terms, for the default positions as well as for explicitly given positions, and for real and complex terms. Embedding a short chain, injecting tensors or identities at one or several positions of a chain, and enumerating regular slices give exactly the documented positions, and embeddings which do not fit on the chain are rejected.',
 ['inputs'],'all term widths, counts, ranks, dimensions, positions and dtypes',
 'The low-rank construction has separate cases by width and position; tests cover a few uniform instances.',
 [M],[('low-rank operator sum',M+':_local_sum_identity, local_sum'),('embedding',M+':embed_slice, _embed_ltens_identity'),('injection',M+':inject'),('slices',M+':regular_slices')])

prop('C13','State conversions and reduced states equal the dense density matrices',
 'Converting between pure, purified and mixed state representations and to a dense density matrix represents the same state, and the reduced states of mixed, purified or pure states on any consecutive sites, or on any set of sites for purified states, equal the dense partial traces in the requested order. Reductions do not change the state represented by their input, also when consumed lazily, in any order of start positions.',
 ['inputs','histories'],'all states, supports, orders of start sites',
 'Tests check uniform qubits and ascending windows; caches and in-place canonicalization make order and laziness matter.',
 [O],[('cached partial traces',O+':reductions_mpo'),('gauge based reductions',O+':reductions_pmps'),('conversion',O+':pmps_to_mpo, mps_to_pmps, pmps_to_mps, pmps_reduction, pmps_dm_to_array')])

prop('C14','Eigenvalue search solves exact projected problems and is variational',
 'Every local problem solved in the eigenvalue search is exactly the projection of the operator (or of the sum of operators and of projectors onto given states) onto the free sites of the current state, so with the smallest-eigenvalue solver the returned value is an upper bound of the smallest eigenvalue, is real for Hermitian operators and equals the expectation value in the returned normalized state unless that state was truncated. With a full-rank start vector and all but one site varied it is exact, the start vector and operators are not modified, the same random state gives the same result, and the summed form gives the same result as the search on the explicit sum.',
 ['inputs'],'all Hermitian operators, start vectors, ranks, numbers of varied sites and sweeps',
 'Tests compare a few random ground state energies with loose tolerances.',
 [L],[('environments',L+':_eig_leftvec_add, _eig_rightvec_add, _eig_leftvec_add_mps, _eig_rightvec_add_mps'),('local operator',L+':_eig_local_op, _eig_local_op_mps'),('sweeps',L+':eig, eig_sum')])

prop('C15','POVM probabilities equal the Born rule for all methods',
 'The outcome probabilities of a matrix product POVM in a pure, purified or mixed state equal the trace of POVM element times state for every outcome, in the documented outcome order, for every available computation method, as matrix product array or dense array, for the full chain as well as for all reduced states on neighbouring sites. The returned dense distributions are real, non-negative and normalized and omit exactly the sites with a single outcome; embedding, blocking and repeating a POVM corresponds to measuring only the respective sites.',
 ['inputs'],'all POVMs, states, state representations, methods and chain lengths',
 'Tests compare methods on uniform qubit/qutrit chains; non-uniform outcomes and dimensions, complex non-symmetric elements and rank patterns steering the fast path are unsampled.',
 [PV,'mpnum/utils/pmf.py'],[('probability map',PV+':MPPovm.probability_map, expectations'),('fast paths',PV+':_pmf_as_array_pmps_ltr, _pmf_as_array_pmps_symm'),('projection',  'mpnum/utils/pmf.py:project_pmf'),('construction',PV+':embed, block, repeat, from_local_povm, eye')])

prop('C16','Sampling draws from the exact outcome distribution; sample packing is exact',
 'Direct and conditional sampling draw every outcome with exactly its probability under the POVM and state, for every number of sites sampled at a time, and return outcomes for exactly the sites with more than one outcome in chain order. Packing samples to integers and unpacking are mutually inverse in row-major outcome order, and the empirical distribution of samples contains exactly the relative (or absolute) frequencies of all outcomes.',
 ['inputs'],'all POVMs, states, group sizes, random streams and sample sets',
 'Tests are statistical with few samples and loose thresholds, so wrong conditional probabilities of rare outcomes pass.',
 [PV],[('conditional sampling',PV+':_sample_cond, _sample_cond_single'),('direct sampling',PV+':_sample_direct, sample'),('packing',PV+':pack_samples, unpack_samples, est_pmf')])

prop('C17','Estimators of functions and probabilities follow their exact formulas',
 'The exact value and covariance of functions of POVM outcomes equal their expectation and covariance under the outcome distribution; the estimates from (weighted) samples equal the weighted sample mean and the unbiased estimate of the variance of that mean. Estimates of probabilities of one POVM, or of linear functions of a list of POVMs, from samples or probabilities of other POVMs use exactly the matching outcomes with the correct prefactors and sample-number weights, reduce to the exact value for exact inputs, and are reported as not available when information is missing.',
 ['inputs'],'all POVMs, functions, coefficients, weights, sample sets, lists of POVMs',
 'Tests check consistency on Pauli measurements with equal weights only.',
 [PV],[('function values',PV+':MPPovm.lfun, est_lfun'),('element matching',PV+':match_elems, _elemsum_identity'),('estimators from other POVMs',PV+':est_pmf_from, est_pmf_from_mpps, _mppl_lfun_estimator, MPPovmList.lfun_from, est_lfun_from')])

prop('C18','Provided local and product POVMs are valid measurements in every dimension',
 'For every dimension of at least two, the provided X-, Y-, Z- and Pauli-type POVMs and their tensor product versions consist of Hermitian positive semidefinite elements that sum to the identity, combining POVMs with weights that sum to one preserves this, and for two levels they are the Pauli eigenprojectors in the documented order. The probability map applied to a state gives the trace of each element with the state, POVMs claimed to be informationally complete are, and their linear inversion map recovers every state from its probabilities.',
 ['inputs'],'all dimensions, states and weights',
 'Tests look at dimensions 2 and 3 (to 5).',
 [LP,PV],[('element vectors',LP+':x_povm, y_povm, z_povm, pauli_parts'),('combination',LP+':concat, pauli_povm'),('maps',LP+':POVM.probability_map, linear_inversion_map'),('products',PV+':pauli_mpp, pauli_mpps')])

prop('C19','Factories build arrays with the promised shape, value, norm and symmetry',
 'Zero, identity, diagonal and random factories return chains with exactly the requested sites, leg dimensions and ranks (capped at the maximal useful rank unless forced) representing the promised array: zeros, the identity, the given diagonal; random ones are normalized, Hermitian, positive semidefinite with unit trace, or sums of local Hermitian terms of the requested interaction length where promised. Random factories draw all randomness from the supplied random state, so equal random states give equal results and global random state is untouched.',
 ['inputs','configurations'],'all sizes, dimension specifications, ranks, flags, dtypes and random states',
 'Tests try few sizes and never check where randomness comes from.',
 [F],[('generic construction',F+':_generate'),('identity, diagonal',F+':eye, diagonal_mpa'),('random objects',F+':random_mpa, random_mps, random_mpo, random_mpdo, random_local_ham, _unitary_haar')])

prop('C20','Dense helper routines and the optimized sum match their definitions',
 'The block-diagonal sum places every summand on its diagonal block along the chosen axes and zeros elsewhere, the dense partial trace traces exactly the listed sites, the multi-factor Kronecker product is the iterated one, and operations on arrays with named axes address axes by name only. Truncated and randomized singular value decompositions return descending singular values with orthonormal vectors and reproduce every matrix whose rank does not exceed the requested number; the optimized sum of product arrays equals the plain (weighted) sum when the rank suffices and otherwise respects the rank.',
 ['inputs'],'all shapes, axes, dtypes, ranks, weights, numbers of summands',
 'Tests use fixed small shapes and real data for several of these.',
 [X,'mpnum/_named_ndarray.py','mpnum/special.py'],[('block diagonal',X+':block_diag'),('SVDs',X+':truncated_svd, randomized_svd, approx_range_finder'),('names','mpnum/_named_ndarray.py'),('sparse sum','mpnum/special.py:sumup, _local_add_sparse')])

prop('C21','Cyclic Hamiltonians and the XY model match their definition',
 'The cyclic nearest-neighbour Hamiltonians built in matrix product form and as sparse matrix both equal the dense sum of all terms, with the last term acting on the first and the last site (its first tensor factor on the first site), for any lists of two-site terms. The local XY terms are the documented combination of spin operators, and the exact ground state energy equals the smallest eigenvalue of that Hamiltonian for all sizes which are odd multiples of two and asymmetries of modulus at most one, other sizes being rejected.',
 ['inputs'],'all numbers of sites, lists of terms, asymmetry parameters',
 'Tests check one or two sizes and homogeneous terms.',
 ['mpnum/utils/physics.py'],[('Hamiltonian construction','mpnum/utils/physics.py:mpo_cH, sparse_cH'),('XY model','mpnum/utils/physics.py:cXY_local_terms, cXY_E0')])

prop('C22','Serialization preserves array, data types and canonical form',
 'Dumping a matrix product array to a file path or to a group of an open file and loading it again yields an equal array with bitwise equal local tensors, the same data types, ranks and shapes and the same (truthful) canonical form. Dumping does not change the array and loading yields an object that is independent of the file.',
 ['inputs'],'all chains, dtypes, canonical forms, targets',
 'The existing round-trip test does not even run with the installed file library version.',
 [M],[('serialization',M+':MPArray.dump, MPArray.load')])
if __name__=='__main__':
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
        for p in P: f.write(json.dumps(p)+'\n')
