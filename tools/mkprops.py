"""Writes properties.jsonl (kept as a script so the texts are editable)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INP = lambda t: dict(over=['inputs'], text=t)
IPA = 'src/ipa/no_zk.rs'; ALM = 'src/ipa/alm_zk.rs'; GS = 'src/ipa/gramschmidt.rs'; QI = 'src/ipa/qesa_inner.rs'
ZK = 'src/qesa_zk.rs'; CP = 'src/copy/copy.rs'; MP = 'src/copy/mapping.rs'; LM = 'src/lmpa/no_zk.rs'; SZ = 'src/lmpa/simple_zk.rs'
MX = 'src/matrix.rs'; MU = 'src/math_utils.rs'; TR = 'src/transcript.rs'
P = []
def prop(id, title, statement, q, why, files, mech, observe=None, hook=None, over=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over or ['inputs'], text=q), why_tests_cant=why, anchors=a))
H = 'cfg(qesa_verif) child module giving access to private proof fields'
ONE = 'The existing tests run one or two sizes with random vectors and honest proofs only; they never see '

prop('P01', 'Inner product argument: honest proofs are accepted',
 'For every vector length that is a power of two, all generators and all vectors a and b, the inner product proof made for them is accepted by the verifier given the commitment <a,G>+<b,H>+tQ with t=<a,b>. This includes zero, equal and orthogonal vectors and vectors with zero halves.',
 'every length n=2^k, every a, b in Z_l^n, every generator vector, every challenge value', ONE + 'special vectors (t=0, zero halves, a=b) or lengths other than the sampled one.',
 [IPA, MU], [('folding of a, b, G, H', IPA + ' create'), ('folded commitment check', IPA + ' NoZK::verify')], ['NoZK::verify result'], H)
prop('P02', 'Inner product argument: acceptance implies knowledge of the opening',
 'A prover who is accepted for enough different challenges, on a commitment P and a value t fixed in advance, knows vectors a and b with P = <a,G>+<b,H>+tQ and t = <a,b>. In particular no change to P, t or any element of an accepted proof is accepted.',
 'every proof a prover can compute (arbitrary group elements over the generators and scalars), every statement (P,t), every tree of challenges of the stated arity', ONE + 'a dishonest proof; soundness quantifies over all provers.',
 [IPA], [('challenge alpha scales Q', IPA), ('round challenges x_i drawn after L, R', IPA), ('final comparison', IPA + ' NoZK::verify')], ['NoZK::verify result'], H)
prop('P03', 'Masked inner product argument: honest proofs are accepted',
 'For every length n>=2 that is a power of two and all vectors a, b that are zero or have nonzero squared norm, the masked inner product proof for C_w=<a,G>+<b,H> and t=<a,b> is accepted. This holds for every outcome of the random masks, and also when a, b are zero, equal, proportional or orthogonal.',
 'every power of two n>=2, all a, b (non-isotropic or zero), all mask randomness, all challenges', ONE + 'zero, orthogonal or proportional vectors, for which the mask construction divides by squared norms.',
 [ALM, GS, IPA], [('masking of a and b', ALM + ' create'), ('orthogonal masks', GS)], ['AlmZK::verify result'], H)
prop('P04', 'Masked inner product argument: acceptance implies knowledge of the opening',
 'A prover accepted for enough different challenges on a commitment C_w and value t fixed in advance knows a and b with C_w=<a,G>+<b,H> (no other component) and t=<a,b>. No change to C_w, t or any element of an accepted proof is accepted.',
 'every proof, every statement, every tree of challenges of the stated arity', ONE + 'a dishonest proof.',
 [ALM, IPA], [('challenge beta after C_r', ALM), ('beta^2 t as target of the inner proof', ALM + ' AlmZK::verify')], ['AlmZK::verify result'], H)
prop('P05', 'Masked inner product argument: the proof hides the witness',
 'For vectors of length at least 8 the masked proof reveals nothing about a and b beyond C_w and t: every (small) change of a and b that keeps C_w and t can be undone, in all proof elements and even over several proofs, by a change of the random masks. The masks are drawn fresh from the system random generator for every proof.',
 'every witness, every witness change that keeps the statement, all challenge values (generic point), every proof', ONE + 'what a proof reveals; hiding is a statement about distributions over all witnesses and masks.',
 [ALM, GS, IPA], [('mask support in the folding tree', GS + ' sample_m_n_plus'), ('r_prime and r_prime_prime', ALM + ' create')], ['elements of the proof'], H)
prop('P06', 'Random masks are orthogonal to their vectors and use fresh randomness',
 'The mask sampled for one vector has zero inner product with it, and the mask sampled for two vectors has zero inner product with both, for every outcome of the randomness. Every free coordinate of the mask is an independent uniform draw from the system random generator.',
 'all vectors whose squared norms do not vanish (or zero vectors), every length 2^k from 4, all randomness', ONE + 'lengths other than 4 and never the distribution of the masks.',
 [GS], [('projection', GS + ' orth'), ('sampling', GS + ' sample_m_n_plus')], ['returned vectors'], H)
prop('P07', 'Quadratic equations: honest proofs are accepted',
 'For every system of quadratic equations w^T Gamma_i w = 0 and every witness w with first element 1 that satisfies it, the proof created by the zero knowledge quadratic equation argument is accepted. This holds for any number of equations, including more equations than generators, and for the inner argument with externally supplied blinding.',
 'every n=2^k>=4, any number of equations, all satisfied systems and witnesses, all randomness and challenges', ONE + 'arbitrary satisfied systems: the test uses one fixed family of matrices and one size.',
 [QI, ZK, MX, MU], [('batching of equations', MX + ' block_matrix_batch'), ('reduction to one inner product', QI)], ['Zk::verify result'], H)
prop('P08', 'Quadratic equations: acceptance implies a satisfying committed witness',
 'A prover accepted for enough different challenges has committed to a witness with first element 1 that satisfies every one of the equations given to the verifier, however many there are. The proof is not accepted for a changed equation the witness does not satisfy, nor with any proof element changed.',
 'every proof, every system of equations (arbitrary matrices), every tree of challenges of the stated arity', ONE + 'a false statement or a dishonest proof.',
 [QI, ZK, MX, MU], [('challenges x, beta, delta, s', QI), ('forcing the first element to 1', QI), ('batching', MX)], ['Zk::verify result'], H)
prop('P09', 'Quadratic equations: the proof hides the witness',
 'For generator vectors of length at least 8, the quadratic equation proof reveals nothing about the witness beyond the fact that it satisfies the equations: every (small) change of the witness that keeps all equations satisfied can be undone, in all proof elements, by a change of the blinding values and masks. All blinding is drawn fresh from the system random generator for every proof.',
 'every witness and every infinitesimal change of it that keeps the equations satisfied, generic challenges', ONE + 'what a proof reveals.',
 [QI, ZK, ALM, GS], [('r_prime, r_prime_prime blinding', QI), ('blinding of c_prime_w', ZK + ' create')], ['elements of the proof'], H)
prop('P10', 'Copy argument: honest proofs are accepted',
 'For every valid statement (commitments over declared index sets, a witness that leaves those indices free and satisfies the equations together with the committed messages at their mapped positions) the copy proof is accepted. This holds for any number of commitments, overlapping index sets, zero messages and equal messages, and also without any messages or commitments.',
 'every valid combination of n, witness size, index sets, messages, blinders, witness and satisfied equations', ONE + 'more than one random configuration (and its mapping tests are random and flaky).',
 [CP, MP, QI], [('placing messages in the witness', CP + ' create'), ('copy matrices', CP), ('mapping', MP)], ['Copy::verify result'], H)
prop('P11', 'Copy argument: acceptance links commitments and witness',
 'A prover accepted for enough different challenges has a witness that satisfies every equation and that contains, at the positions given by the mapping, exactly the messages committed in the external commitments. Changing a commitment or any proof element makes the verifier reject.',
 'every proof, all opened commitments, all equations (arbitrary matrices that leave the commitment indices free), every tree of challenges of the stated arity', ONE + 'a commitment to anything other than the honest messages.',
 [CP, MP, QI], [('alpha challenge after C_w', CP), ('aggregated commitment', CP + ' Copy::verify'), ('copy matrices', CP)], ['Copy::verify result'], H)
prop('P12', 'Message mapping: every message gets its own free position',
 'For every valid request the mapping assigns each message, in order of commitment and index, a distinct witness position at or after the user witness, before the two blinding positions, and not among the commitment indices. It records the right commitment and generator index for each message, the union of all indices, the number of commitments and (if there are messages) the last used position, and it does not panic.',
 'every n, witness size and list of index sets that fits', 'The existing tests of the mapping draw random sets and check only the shape of the result on one size.',
 [MP], [('available positions', MP + ' compute_mapping')], ['fields of the mapping'], H)
prop('P13', 'Message mapping: requests that do not fit are refused',
 'A request is refused (no mapping is returned) when a commitment uses the reserved first position or one of the two blinding positions or an index beyond the generators, when the witness does not fit, or when there are more messages than free positions. No such request ever yields a mapping.',
 'every n, witness size and list of index sets that does not fit, indices over the whole 16-bit range', 'No test requests an invalid mapping.',
 [MP], [('assertions', MP + ' compute_mapping')], ['whether a mapping is returned'], H)
prop('P14', 'Commitments are linear, position-faithful and blinded',
 'A commitment to messages over an index set is the sum of each message, in ascending index order, times the generator at its index plus the blinding scalar times the last generator; commitments therefore add up homomorphically. A vector Pedersen commitment is the same with all generators, and mismatched lengths are refused.',
 'all messages, blinders, generator vectors, index sets (sizes as listed)', 'No test checks the value of a commitment, only that a proof using it verifies.',
 [MP, SZ, MX], [('commit', MP + ' commit'), ('matrix-vector product over points', MX)], ['returned group element'], H)
prop('P15', 'Linear map argument (binary): honest proofs are accepted',
 'For every power-of-two number of columns, any number of rows, every matrix of group elements and every witness, the proof for t=[A]w is accepted.',
 'every n=2^k, every m>=1, all A and w, all challenges', ONE + 'other sizes than the sampled one or witnesses with zeros.',
 [LM, MX], [('folding of A and w', LM + ' create'), ('folding of t', LM + ' NoZK::verify')], ['NoZK::verify result'], H)
prop('P16', 'Linear map argument (binary): acceptance implies a preimage',
 'A prover accepted for enough different challenges on a matrix A and image t fixed in advance knows one vector w with [A]w=t in every row. Changing t, A or any proof element of an accepted proof makes the verifier reject.',
 'every proof, every image t, every tree of challenges of the stated arity', ONE + 'a wrong image or dishonest proof.',
 [LM], [('challenge per round after L, R', LM), ('comparison of every row', LM + ' NoZK::verify')], ['NoZK::verify result'], H)
prop('P17', 'Linear map argument (k-ary): honest proofs are accepted',
 'For every arity k>=2, every number of columns that is a power of k and any number of rows, the k-ary proof for t=[A]w is accepted for all matrices and witnesses.',
 'every k, n=k^d, m, all A and w, all challenges', ONE + 'arities and depths other than the sampled one.',
 [LM, MX], [('splitting in k blocks', MX + ' matrix_split'), ('Vandermonde folding', LM + ' create_lmpa_noZK')], ['verify_lmpa_noZK result'], H)
prop('P18', 'Linear map argument (k-ary): acceptance implies a preimage',
 'A prover accepted for enough different challenges on a matrix A and image t supplied to the verifier knows one vector w with [A]w=t in every row. Changing t, A or any proof element of an accepted proof makes the verifier reject.',
 'every proof, every image t, every tree of challenges of the stated arity', ONE + 'a wrong image or dishonest proof.',
 [LM, MX], [('challenge per round after the u vectors', LM), ('final comparison of every row', LM + ' verify_lmpa_noZK')], ['verify_lmpa_noZK result'], H)
prop('P19', 'Zero knowledge linear map arguments: honest proofs are accepted',
 'For every supported size both zero knowledge linear map arguments (binary and k-ary) accept honest proofs of t=[A]w, for all matrices and witnesses and every outcome of the blinding.',
 'every size, all A, w, blinders and challenges', ONE + 'other sizes or special witnesses.',
 [SZ, LM], [('blinded witness and image', SZ)], ['verify / verify_general result'], H)
prop('P20', 'Zero knowledge linear map arguments: acceptance implies a preimage',
 'A prover accepted for enough different challenges by either zero knowledge linear map argument knows one vector w with [A]w=t in every row. Changing t, A or any proof element of an accepted proof makes the verifier reject.',
 'every proof, every image t, every tree of challenges of the stated arity', ONE + 'a wrong image or dishonest proof.',
 [SZ, LM], [('challenge beta after a', SZ), ('t_prime = beta t + a', SZ)], ['verify / verify_general result'], H)
prop('P21', 'Zero knowledge linear map arguments: the proof hides the witness',
 'Both zero knowledge linear map proofs have the same distribution for every witness of the same image: any change of the witness can be undone by a change of the blinding vector. The blinding vector has full length and is drawn fresh from the system random generator for every proof.',
 'every witness, every change of the witness, all challenges', ONE + 'what a proof reveals.',
 [SZ], [('blinding vector r', SZ + ' create, create_general')], ['elements of the proof'], H)
prop('P22', 'Fiat-Shamir: challenges depend on the whole history',
 'Every challenge a verifier draws depends on the transcript the caller supplied and on every proof element and claim absorbed before it: changing any of them changes all later challenges. A proof made under one transcript is not accepted under another.',
 'every proof element of every protocol, every difference, every caller transcript', 'The tests use one transcript label on both sides; a challenge that ignores a message still verifies.',
 [IPA, ALM, QI, CP, LM, SZ, TR], [('append_message before challenge_scalar', 'all protocol files')], ['challenges of the verifier'], H, over=['inputs', 'histories'])
prop('P23', 'Malformed proofs are rejected without a panic',
 'A proof in which any vector is shortened, emptied or lengthened, or any compressed group element is not a valid encoding, is rejected by returning failure. The verifier never panics on it.',
 'every proof of every protocol damaged in any one of these ways (alone or in the paired vectors), all values', 'No test verifies a malformed proof.',
 [IPA, ALM, QI, ZK, CP, LM, SZ], [('length checks and decompression', 'verify functions')], ['verifier result'], H)
prop('P24', 'Challenges and random values range over the whole field',
 'Every challenge and every random scalar is computed from enough source output that all field elements are equally likely, up to a negligible difference. No challenge or mask is truncated, constant or derived from a predictable source, and random matrices consist of independent draws.',
 'every challenge and draw of every protocol', 'A truncated challenge or mask still makes every honest proof verify.',
 [TR, GS, QI, ZK, SZ, CP], [('challenge_scalar', TR), ('Scalar::random', 'provers')], ['challenge and draw sources'], H)
prop('P25', 'Matrix and vector operations compute their textbook results',
 'Scaling, adding, subtracting, transposing, multiplying by a vector, batching with challenges, splitting in column blocks and Vandermonde vectors return exactly the values of their textbook definitions, for rectangular shapes too. Adding or subtracting rows or matrices of different sizes, and splitting into blocks that do not divide the columns, is refused.',
 'all entries; shapes as listed', 'Few of these functions have a direct test, and none with rectangular or single-row shapes.',
 [MX, MU], [('matrix functions', MX), ('vandermonde', MU)], ['returned matrices'], None)
prop('P26', 'Accepted proofs cannot be altered',
 'Adding any nonzero difference to any one element (scalar or group element) of an accepted proof makes the verifier reject, in every protocol.',
 'every element of every proof, every nonzero difference, every statement and randomness (up to coincidences of negligible probability)', 'No test verifies an altered proof.',
 [IPA, ALM, QI, ZK, CP, LM, SZ], [('final comparisons', 'verify functions')], ['verifier result'], H)
prop('P27', 'Prover and verifier leave the transcript in the same state',
 'For every honest proof, prover and verifier absorb the same messages with the same labels in the same order and draw the same challenges, so the transcripts of both sides are identical afterwards and can be used for further protocols.',
 'every protocol, all inputs', 'The tests throw the transcripts away after verifying.',
 [IPA, ALM, QI, ZK, CP, LM, SZ], [('append_message / challenge_scalar sequences', 'create and verify functions')], ['state of the transcripts'], H, over=['inputs', 'histories'])

prop('P28', 'Copy argument: the proof hides the witness and the committed messages',
 'For generator vectors of length at least 8, the copy proof reveals nothing about the witness, the committed messages and their blinding beyond the commitments and the fact that the equations are satisfied: every (small) change of them that keeps the commitments and the equations can be undone, in all proof elements, by a change of the blinding values and masks. All blinding is drawn fresh from the system random generator for every proof.',
 'every witness and opening and every infinitesimal change of them that keeps commitments and equations, generic challenges', ONE + 'what a proof reveals.',
 [CP, QI, ALM, GS], [('r_prime', CP + ' create'), ('blinding of the inner argument', QI)], ['elements of the proof'], H)

prop('P29', 'Accepted proofs do not carry over to statements of another size',
 'When any vector of the public statement (generators the proof uses, matrix rows or columns, images, equations, commitments) is made shorter or longer, or the verifier is told another size than the statement has, a proof made for the original statement is not accepted: the verifier returns failure or refuses. The elements left out or repeated are nonzero, and so is the witness of a linear map.',
 'every statement and proof of every protocol, every one of these changes (alone, in pairs, in groups), all values', 'No test verifies a proof against a statement of another size.',
 [IPA, ALM, QI, ZK, CP, LM, SZ], [('size checks', 'verify functions'), ('multi-scalar multiplications over equal lengths', 'verify functions')], ['verifier result'], H)

prop('P30', 'Verification has no memory',
 'The verdict depends only on the statement, the proof and the transcript the caller supplies. An honest proof is accepted any number of times on fresh transcripts, also after other statements were proved and after altered proofs were rejected in the same process; an altered proof is rejected also after the original was accepted, and so is a proof under another transcript.',
 'every protocol, all inputs, histories of up to three kinds of earlier calls', 'The tests verify a proof once or twice and never mix accepted and rejected ones.',
 [IPA, ALM, QI, ZK, CP, LM, SZ], [('verify functions take all state from their arguments', 'verify functions')], ['verifier result'], H, over=['inputs', 'histories'])

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
