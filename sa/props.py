"""The table of properties: id -> tasks, rule, explanation."""
import p_sym

NF = ('Abstract interpretation of the monomorphised MIR (all callees resolved down to core intrinsics) in a value-numbering '
      'domain: every byte of the inputs is an unknown, every computed value carries an algebraic normal form (integer polynomial, '
      'sum modulo a power of two, or GF(2) polynomial), states are joined at control-flow merges. ')

PROPS = {
    'C01': dict(tasks=p_sym.c01, exhaustive=True,
                rule='normal forms of the 16 output bytes of new(key).permute(block) equal those of FIPS 197 for symbolic key and block',
                explanation=NF + 'The length space of the property is finite (three key sizes), so the obligations are exhaustive: equal normal '
                'forms mean equality for every key and every block.'),
    'C02': dict(tasks=p_sym.c02,
                rule='output bytes of interleaved encrypt / next / decrypt calls equal input xor RFC 8439 key stream as normal forms',
                explanation=NF + 'Key, nonce and data are unknown; call lengths are enumerated around block boundaries; far positions are reached by '
                'advancing the block counter found in the state.'),
    'C03': dict(tasks=p_sym.c03,
                rule='digest normal forms equal FIPS 180-4 for each enumerated message length; length field checked far out by advancing the state counter',
                explanation=NF + 'Message contents are unknown; lengths are enumerated over all residues that matter for padding.'),
    'C04': dict(tasks=p_sym.c04, rule='digest normal form after three updates equals the one after a single update of the concatenation',
                explanation=NF + 'Split points are enumerated around block boundaries, contents are unknown.'),
    'C05': dict(tasks=p_sym.c05, rule='tag normal forms equal RFC 2104 over FIPS 180-4; the verify verdict is the equality predicate on all tag bits',
                explanation=NF + 'Keys, messages and tags are unknown; lengths are enumerated around the block and digest sizes.'),
    'C06': dict(tasks=p_sym.c06, rule='PRK and OKM normal forms equal RFC 5869',
                explanation=NF + 'Salt, IKM, PRK and info are unknown; lengths are enumerated around the digest size.'),
}

import p_aead                                                        # noqa: E402
import p_light                                                       # noqa: E402
IV = ('Abstract interpretation of the monomorphised MIR in an interval domain with relational refinement and a taint mask per value; '
      'all branches undecided by the lengths are followed and joined. ')
PROPS.update({
    'S01': dict(tasks=p_light.s01,
                rule='no branch, memory index, division or early-exit comparison depends on a secret, except the accept/reject decision, which must depend on every tag byte',
                explanation=IV + 'Keys, plaintexts and private scalars are tainted; lengths are enumerated.'),
    'S02': dict(tasks=p_light.s02,
                rule='no reachable panic, bounds failure or overflow of control quantities for documented lengths',
                explanation=IV + 'Input contents are unknown; lengths are enumerated over the documented domain.'),
    'S06': dict(tasks=p_light.s06,
                rule='interval of every checked arithmetic operation on data fits its machine type',
                explanation=IV + 'Input contents are unknown (full byte range).'),
})

TM = ('Abstract interpretation of the monomorphised MIR (all callees resolved) in a term domain: values the algebraic normal forms do not '
      'keep become hash-consed terms, so equal computations on equal values stay equal; states are joined at control-flow merges with the '
      'branch condition as selector. ')
PROPS.update({
    'C07': dict(tasks=p_aead.c07, rule='ciphertext and tag normal forms of encrypt equal SP 800-38D over FIPS 197',
                explanation=NF + 'Key, nonce, associated data and message contents are unknown, lengths enumerated around block boundaries; block cipher '
                'outputs are computed and then named, GHASH operands with long forms are named identically on both sides.'),
    'C09': dict(tasks=p_aead.c09, rule='open(seal(m)) returns the constant true and the message cells themselves',
                explanation=TM + 'Contents are unknown, lengths enumerated.'),
    'A01': dict(tasks=p_aead.a01, rule='every output cell of decrypt equals mux(verdict, plaintext, previous content)',
                explanation=TM + 'The presented tag, the ciphertext and the previous output are unknown; lengths enumerated.'),
    'A02': dict(tasks=p_aead.a02, rule='the verdict of decrypt is the equality predicate of all 128 presented tag bits with the tag encrypt computes',
                explanation=TM + 'The presented tag and the sealed message are unknown; lengths (message, associated data, tag) enumerated.'),
})

import p_curve                                                       # noqa: E402
RV = ('Abstract interpretation of the monomorphised MIR with a two-level value numbering: limb arithmetic is tracked exactly as integer '
      'polynomials; at function boundaries each limb vector is named by the residue class mod 2^255-19 (mod the group order for scalars) it '
      'represents, a ring polynomial over input bits; encodings are proved to be the canonical residue by an interval argument on the quotient '
      'estimate; table look-ups are summarised over their 17 possible digits. ')
PROPS.update({
    'C10': dict(tasks=p_curve.c10, rule='ring normal forms of public key and signature bytes equal RFC 8032', explanation=RV +
                'Key and message are unknown; message lengths enumerated around the SHA-512 block size.'),
    'C11': dict(tasks=p_curve.c11, exhaustive=True, rule='ring normal forms of the output bytes equal the RFC 7748 Montgomery ladder', explanation=RV +
                'Secret key and peer value are unknown 32-byte strings; the input space is covered completely.'),
    'C12': dict(tasks=p_curve.c12, rule='verdict of verify = key decodes and enc([h](-A) + [S]B) = R, as normal forms; signed-digit recoding keeps the value; '
                'double multiplication computes the sum of the multiples for the enumerated digit vectors',
                explanation=RV + 'Public key, message, R and S (below the order) are unknown; message lengths enumerated. The recoding into signed odd digits is '
                'covered for every scalar by a ghost sum checked at every store; the double multiplication for an arbitrary point and enumerated digit vectors '
                'that together hold every pair of digits and a non-zero digit at every position.'),
    'C08': dict(tasks=p_aead.c08, rule='tag and ciphertext normal forms of ChaCha20Poly1305::encrypt equal RFC 8439', explanation=RV.replace('2^255-19', '2^130-5') +
                'Key, nonce, associated data and message contents are unknown, lengths enumerated around block boundaries.'),
})

import p_misuse                                                      # noqa: E402
PROPS.update({
    'S03': dict(tasks=p_misuse.s03, rule='every path of a call with lengths outside the documented ones ends in a panic before any write to an output buffer; documented maxima are not refused',
                explanation=IV + 'Lengths are constants (wrong key, nonce, buffer and digest sizes; sizes around and far beyond the documented maxima), contents unknown. '
                'A call counts as accepted when it returns or has made 20000 calls.'),
    'A03': dict(tasks=p_misuse.a03, rule='verify returns the constant false, without a reachable panic, on each class of malformed signatures',
                explanation=IV + 'The scalars S not below the group order are partitioned by the first byte that exceeds the order (33 classes, exhaustive); '
                'other signature lengths are enumerated; message, key and the rest of the signature are unknown.'),
})

import p_ctr                                                         # noqa: E402
PROPS.update({
    'S05': dict(tasks=p_ctr.s05, rule='data block i is XORed with the key-stream block of counter i + first, near the start and after the counter variable is set far out',
                explanation=TM + 'The local variable that determines the block counter is identified by its recurrence over successive blocks (advancing it by 40 and by 100 must '
                'advance the counter of the following blocks by as much); it is then set to values around every power of two up to 2^32 and the following blocks are compared '
                'with the key stream of the reference. Key, nonce and message are unknown.'),
})

import p_state                                                       # noqa: E402
PROPS.update({
    'S04': dict(tasks=p_state.s04, rule='no reachable function of the crate refers to a mutable or interior-mutable static, a thread-local or the environment; no type of the crate '
                'holds an interior-mutable cell or raw pointer; the second call on a used AEAD object equals the same call on a fresh one as terms',
                explanation='Reference scan over the monomorphised MIR of every function of the crate reachable from its public operations and over all its types, plus: ' + TM +
                'Key, nonces, messages and tags of both calls are unknown, lengths enumerated.'),
})
