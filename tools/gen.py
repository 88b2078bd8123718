#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import props

I, H, C = 'inputs', 'histories', 'configurations'
P = []


def p(id, title, st, over, q, why, files, mech, tech='', note='', na=None):
    P.append(dict(id=id, title=title, statement=st, over=over, q=q, why=why, files=files, mech=mech, tech=tech, note=note, na=na))


NF = 'abstract interpretation of monomorphised MIR, algebraic value numbering (normal-form equality with the standard)'
IVT = 'abstract interpretation of monomorphised MIR, interval and taint domain'
TB = 'Trusts rustc\'s MIR and layouts, the exporter, the transfer functions of the engine and the written reference; '

p('C01', 'AES block encryption equals FIPS 197',
  'For AES-128, AES-192 and AES-256, encrypting one 16-byte block under a key of the matching length yields exactly the FIPS 197 cipher output, for every key and every block.',
  [I], 'all 2^128 / 2^192 / 2^256 keys and all 2^128 blocks',
  'the tests compare three published vectors; no finite set of vectors settles a permutation family over 2^384 inputs',
  ['src/aes.rs'], [('BlockCipher::new / permute', 'src/aes.rs: impl_cipher!'), ('bit-sliced S-box', 'src/aes.rs: s_box'), ('key schedule', 'src/aes.rs: expand_key')],
  NF, TB + 'covers every key and block (no bound).')
p('C02', 'ChaCha20 stream equals RFC 8439 across any call sequence',
  'The stream cipher outputs the input XORed with the RFC 8439 key stream starting at block 0, for every key, nonce and data. Successive encrypt, decrypt and single-byte calls consume the key stream contiguously: how a message is divided into calls, and how far into the stream a call happens, never changes the bytes produced.',
  [I, H], 'all keys, nonces and data; call sequences whose total stays below the 2^32-block limit',
  'the tests run a few RFC vectors in single calls; alignment of call boundaries with block boundaries and late counters are not sampled',
  ['src/chacha20.rs'], [('Stream', 'src/chacha20.rs: Stream::{new,process,next}'), ('ChaCha20 block', 'src/chacha20.rs: ChaCha20::{block,inner_block,quarter_round}')],
  NF, TB + 'call lengths are enumerated around block boundaries, data/keys/nonces are arbitrary, the block counter is set to far values found structurally in the state.')
p('C03', 'SHA-2 digests equal FIPS 180-4 for every message',
  'For SHA-224, SHA-256, SHA-384 and SHA-512 the digest written for a message equals FIPS 180-4, for every message content and every length below 2^61 bytes, including all padding cases. The one-call wrappers and the incremental interface agree.',
  [I], 'all message contents; all lengths modulo the block size and the length field up to 2^61 bytes',
  'tests use a handful of NIST vectors; padding depends on the length residue and content errors can hide in any round',
  ['src/sha2.rs'], [('Processor256/512', 'src/sha2.rs: impl_processor!'), ('padding', 'src/sha2.rs: pad'), ('constants', 'src/sha2.rs: K256, K512, initial states')],
  NF, TB + 'lengths are enumerated (boundary set quick, every length to 3 blocks thorough); far lengths by advancing the byte counter in the state.')
p('C04', 'SHA-2 digest does not depend on how the message is split',
  'Feeding a message to a SHA-2 hash in any sequence of updates, including empty ones, produces the same digest as feeding it in one update.',
  [H, I], 'all split points of all messages',
  'tests split two or three messages at fixed points; the buffer state machine has block-size many states times the update length',
  ['src/sha2.rs'], [('buffering', 'src/sha2.rs: update'), ('final block', 'src/sha2.rs: pad, write_digest')],
  NF, TB + 'split points are enumerated around block boundaries (three updates), contents are arbitrary.')
p('C05', 'HMAC equals RFC 2104 and verify accepts exactly the correct tag',
  'The HMAC tag equals RFC 2104 over each supported hash for every key (shorter than, equal to or longer than the hash block) and every message fed in any number of updates; the tag has exactly digest length. Verification returns true exactly when the presented tag has digest length and every byte equals the computed tag.',
  [I, H], 'all keys, messages and presented tags',
  'tests use RFC 4231 vectors and one forged message; forged tags differing in single or cancelling bits are not sampled',
  ['src/hmac.rs', 'src/util.rs'], [('Hmac', 'src/hmac.rs: Hmac::{new,update,tag}'), ('verify', 'src/hmac.rs: verify'), ('comparison', 'src/util.rs: verify_inner')],
  NF, TB + 'key/message lengths enumerated around block and digest sizes, contents arbitrary; the verdict is compared as a Boolean function of all tag bits.')
p('C06', 'HKDF extract and expand equal RFC 5869',
  'Extract and expand produce exactly the RFC 5869 pseudorandom key and output key material for every salt, input key, pseudorandom key, info string and output length, including lengths that are and are not multiples of the digest size.',
  [I], 'all contents; output lengths up to 255 digests',
  'tests use three RFC vectors with SHA-256 and two output lengths',
  ['src/hkdf.rs', 'src/hmac.rs'], [('extract', 'src/hkdf.rs: extract'), ('expand chaining and counter', 'src/hkdf.rs: expand')],
  NF, TB + 'contents arbitrary; output lengths enumerated up to a few digests (value equality), longer ones are covered for panics by S02.')
TMT = 'abstract interpretation of monomorphised MIR, hash-consed value numbering with joins at merges'
AEADF = ['src/gcm.rs', 'src/ghash.rs', 'src/poly1305.rs', 'src/util.rs']
p('C07', 'AES-GCM sealing equals SP 800-38D',
  'For AES-128-GCM, AES-192-GCM and AES-256-GCM with a 96-bit nonce, the ciphertext and the 16-byte tag equal NIST SP 800-38D for every key, nonce, associated data and message, for every combination of lengths of associated data and message, including empty ones and partial blocks.',
  [I], 'all keys, nonces, associated data and messages',
  'the tests use the published vectors, a few lengths each; GHASH errors in single bit positions and length-encoding errors escape them',
  ['src/gcm.rs', 'src/ghash.rs', 'src/aes.rs'], [('Gcm', 'src/gcm.rs: Processor::{process,tag,block}, counter'), ('GHASH', 'src/ghash.rs: GHash, PolyFunction::process')],
  NF, TB + 'lengths enumerated around block boundaries; contents arbitrary. Counters far out are the subject of S05.')
p('C08', 'ChaCha20-Poly1305 sealing equals RFC 8439',
  'The ciphertext and the 16-byte tag produced by ChaCha20Poly1305::encrypt equal RFC 8439 for every key, nonce, associated data and message, for every combination of lengths, including the cases where the Poly1305 accumulator ends at or above 2^130 - 5.',
  [I], 'all keys, nonces, associated data and messages',
  'the tests use the RFC vectors; an accumulator that ends in the last five values before 2^130 has probability 2^-127 and single limbs or clamping bits go unnoticed',
  ['src/poly1305.rs', 'src/chacha20.rs'], [('MAC', 'src/poly1305.rs: PolyFunction::{process,mulmod,squeeze,freeze,write_value}, load_r'), ('lengths and padding', 'src/poly1305.rs: Poly1305::{process,write_tag}'), ('one-time key', 'src/poly1305.rs: poly_key_gen')],
  'abstract interpretation of monomorphised MIR, value numbering over limb polynomials and the ring Z/(2^130-5)', TB + 'lengths enumerated around block boundaries (both empty excepted); contents arbitrary. Counters far out are the subject of S05.')
p('C09', 'Opening what was sealed succeeds and returns the message',
  'For each of the four AEAD constructions, decrypting the ciphertext and tag produced by encrypt under the same key, nonce and associated data returns true and writes exactly the original message, for every key, nonce, associated data and message.',
  [I], 'all keys, nonces, associated data and messages',
  'the tests only round-trip published vectors', AEADF,
  [('Gcm::decrypt', 'src/gcm.rs'), ('ChaCha20Poly1305::decrypt', 'src/poly1305.rs')],
  TMT, TB + 'lengths enumerated around block boundaries; contents arbitrary.')
p('A01', 'AEAD decryption writes no output unless the tag verified',
  'When decrypt of any AEAD construction returns false, the caller\'s output buffer holds exactly what it held before the call; it is written, with the plaintext, only when the result is true. This holds for every ciphertext, tag (of any length) and buffer content.',
  [I, H], 'all inputs, presented tags and previous buffer contents',
  'tests check a flipped tag bit at most, and never look at the output buffer after a rejection', AEADF,
  [('verify-then-process', 'src/gcm.rs: Gcm::decrypt; src/poly1305.rs: ChaCha20Poly1305::decrypt')],
  TMT, TB + 'lengths enumerated; contents arbitrary.')
p('A02', 'AEAD decryption accepts exactly the computed tag',
  'decrypt of any AEAD construction returns true if and only if the presented tag is 16 bytes long and equal in all 128 bits to the tag encrypt computes for the same key, nonce, associated data and ciphertext; every other tag is rejected.',
  [I], 'all keys, nonces, associated data, ciphertexts and presented tags',
  'tests present one or two wrong tags; a comparison that ignores or cancels some bits passes them', AEADF,
  [('tag comparison', 'src/util.rs: verify_16, verify_inner'), ('decrypt', 'src/gcm.rs, src/poly1305.rs')],
  TMT, TB + 'lengths enumerated; the verdict is compared as a Boolean function of all tag bits.')
p('S01', 'No secret-dependent control flow or memory access',
  'In AES, ChaCha20, both AEAD modes, SHA-2, HMAC, HKDF, X25519, Ed25519 key generation and Ed25519 signing, neither branches nor memory addresses nor early-exit comparisons depend on keys, plaintexts, expected tags or private scalars. The only permitted secret-dependent decision is acting on the final accept/reject verdict after every byte of a presented tag has been compared. (Ed25519 verification handles public data only and is exempt.)',
  [I], 'all secret values, all lengths',
  'timing and access patterns are invisible to value-checking tests',
  ['src/aes.rs', 'src/chacha20.rs', 'src/gcm.rs', 'src/ghash.rs', 'src/poly1305.rs', 'src/sha2.rs', 'src/hmac.rs', 'src/hkdf.rs', 'src/curve25519.rs', 'src/ed25519.rs', 'src/util.rs'],
  [('bit-sliced S-box', 'src/aes.rs: s_box'), ('constant-time table selection', 'src/ed25519.rs: GePrecomp::select'), ('conditional swap', 'src/curve25519.rs: cswap_with'), ('tag comparison', 'src/util.rs: verify_inner')],
  IVT + ' (taint)', TB + 'source-level (MIR) constant time; what LLVM does afterwards and variable-latency instructions are outside; lengths enumerated.')
p('S02', 'No panic on any input within the documented preconditions',
  'Every public operation returns normally for all inputs whose lengths satisfy its documented preconditions: no index or slice failure, no failed internal assertion and no overflow of a length, offset or block counter, also with overflow checks enabled. Malformed or wrong-length tags and signatures lead to a false verdict, never a panic.',
  [I], 'all contents; all documented lengths including the documented maxima',
  'tests sample a few lengths per function; boundary lengths and the documented maxima are not reached',
  ['src/hkdf.rs', 'src/hmac.rs', 'src/sha2.rs', 'src/chacha20.rs', 'src/gcm.rs', 'src/ghash.rs', 'src/poly1305.rs', 'src/util.rs', 'src/curve25519.rs', 'src/ed25519.rs'],
  [('block counters', 'src/hkdf.rs: expand; src/gcm.rs, src/poly1305.rs: process'), ('buffers', 'src/sha2.rs: update, pad')],
  IVT, TB + 'lengths enumerated, contents arbitrary.')
p('S06', 'Arithmetic on data never exceeds its machine type',
  'No addition, subtraction, multiplication, negation or shift performed on key, message or field-element data can overflow its integer type for any input, unless the operation is explicitly a wrapping one. In particular the limb arithmetic of Poly1305, X25519, Ed25519 and the scalar reduction stays within its 32/64-bit words.',
  [I], 'all input contents',
  'a limb overflow needs near-extreme limbs in several places at once; random or published vectors practically never produce it',
  ['src/poly1305.rs', 'src/curve25519.rs', 'src/ed25519.rs', 'src/sha2.rs', 'src/chacha20.rs', 'src/aes.rs', 'src/ghash.rs'],
  [('limb multiplication and carries', 'src/curve25519.rs: fe_mul!, fe_sq!, mul121666; src/ed25519.rs: sc_reduce, sc_muladd'), ('Poly1305 limbs', 'src/poly1305.rs: mulmod, squeeze, freeze')],
  IVT, TB + 'sound interval propagation from the full input range through every operation.')

RVT = 'abstract interpretation of monomorphised MIR, value numbering over limb polynomials and residue rings'
p('C10', 'Ed25519 public keys and signatures equal RFC 8032',
  'gen_pk and sign produce exactly the RFC 8032 Ed25519 public key and the 64-byte signature (R, S with S reduced below the group order) for every 32-byte secret key and every message.',
  [I], 'all secret keys and all messages',
  'the tests sign a few RFC messages; carries in field and scalar reduction, single entries of the precomputed table and digit recoding cases are hit by few keys',
  ['src/ed25519.rs', 'src/curve25519.rs', 'src/const_curve25519.rs', 'src/sha2.rs'],
  [('base point multiplication', 'src/ed25519.rs: from_scalarmult_base, select, ge_madd'), ('scalar arithmetic', 'src/ed25519.rs: sc_reduce, sc_muladd'), ('tables', 'src/const_curve25519.rs: BASE'), ('encoding', 'src/curve25519.rs: write_bytes')],
  RVT, TB + 'every key and every content; message lengths enumerated around block boundaries.')
p('C11', 'X25519 equals RFC 7748 for every scalar and peer value',
  'dh and gen_pk yield exactly the RFC 7748 X25519 result for every 32-byte scalar (clamped) and every 32-byte u-coordinate, including non-canonical encodings and low-order points; the top bit of the u-coordinate is ignored.',
  [I], 'all 2^256 scalars and all 2^256 peer values',
  'the tests use the RFC vectors; limb carries, the final reduction and non-canonical inputs are not sampled',
  ['src/curve25519.rs'],
  [('ladder', 'src/curve25519.rs: scalarmult, cswap_with'), ('field arithmetic', 'src/curve25519.rs: fe_mul!, fe_sq!, mul121666, fe_invert!'), ('decoding and encoding', 'src/curve25519.rs: assign_from_bytes, write_bytes')],
  RVT, TB + 'covers every scalar and every peer value (no bound).')

p('C12', 'Ed25519 verification decides the RFC 8032 equation',
  'For every message, 32-byte public key, and signature (R, S) with S below the group order, verify returns true exactly when the public key decodes to a curve point A and the encoding of [S]B - [SHA-512(R, A, M) mod L]A equals the 32 bytes R (the cofactorless check, every bit of R compared). In particular every signature made by sign verifies, whatever the scalars: the recoding of scalars into signed odd digits keeps their value, stays within the precomputed tables, and the double multiplication adds exactly the multiples the digits name.',
  [I], 'all messages of the enumerated lengths, all public keys, all R, all S below the order (by class), all scalars in the recoding, all points in the double multiplication',
  'a wrong table entry, a carry lost in the recoding, a sign or square-root case in point decoding shows only for rare keys or scalars; tests use a few vectors',
  ['src/ed25519.rs', 'src/const_curve25519.rs', 'src/sha2.rs'],
  [('verify', 'src/ed25519.rs: verify'), ('decoding', 'src/ed25519.rs: from_bytes_negate_vartime'), ('recoding', 'src/ed25519.rs: slide'), ('double multiplication', 'src/ed25519.rs: from_double_scalarmult_vartime; src/const_curve25519.rs: BI')],
  RVT + '; ghost-sum analysis of the digit recoding', TB + 'message lengths enumerated; digit vectors of the double multiplication enumerated (each pair of digits, each position); the step from the recoding to the multiplication is a hand argument (a scalar below the order loses no carry at position 255). Public keys with y >= p or x = 0 with the sign bit set are accepted, as in the reference implementation this code follows.')

p('S03', 'Calls outside the documented lengths are refused before any output',
  'Every public operation called outside its documented length preconditions - a key, nonce, prk or digest buffer of the wrong size, an output buffer of another length than the input, a message or associated data above the documented maximum of the construction, HKDF output above 255 digests - panics before it writes anything to a caller-provided output buffer; it never returns normally. Lengths up to and including the documented maxima are not refused.',
  [I], 'all lengths outside the documented preconditions, all contents',
  'tests cannot pass 2^36-byte messages or 2^61-byte associated data, and only a few wrong lengths are tried; the output buffer is lost after the panic',
  ['src/aes.rs', 'src/chacha20.rs', 'src/gcm.rs', 'src/poly1305.rs', 'src/sha2.rs', 'src/hkdf.rs', 'src/curve25519.rs', 'src/ed25519.rs'],
  [('length checks', 'src/gcm.rs, src/poly1305.rs: encrypt, decrypt; src/hkdf.rs: expand'), ('fixed-size arguments', 'src/aes.rs: new; src/chacha20.rs: new; src/sha2.rs: write_digest; src/ed25519.rs, src/curve25519.rs')],
  'abstract interpretation of monomorphised MIR with constant lengths (all paths panic) and unknown contents', TB + 'wrong lengths enumerated, including the first lengths above each maximum and far ones up to 2^63-1.')
p('A03', 'Malformed Ed25519 signatures are rejected',
  'Ed25519 verify returns false, without a panic, for every signature whose length is not 64 bytes and for every signature whose scalar S is not below the group order, whatever the message, the public key and the other signature bytes are.',
  [I], 'all signatures of other lengths; all S in [L, 2^256); all messages and keys',
  'the tests contain no non-canonical scalar; signatures made malleable by adding the group order verify unless every byte of S is compared',
  ['src/ed25519.rs'], [('verify', 'src/ed25519.rs: verify'), ('scalar range check', 'src/ed25519.rs: verify')],
  'abstract interpretation of monomorphised MIR, interval domain over a partition of the inputs', TB + 'the classes of S are exhaustive; signature lengths enumerated.')

p('S05', 'No key-stream block is used twice within an AEAD message',
  'In AES-GCM and ChaCha20-Poly1305, block i of a message is combined with the key-stream block of counter i + 2 (GCM) or i + 1 (ChaCha20-Poly1305), in encryption and decryption, for every i up to the documented maximum message length. No counter value repeats, wraps or meets the one that produces the tag mask or the one-time MAC key, and no part of a long message is left unencrypted.',
  [I], 'every block index below 2^32, every key, nonce and message',
  'tests encrypt a few blocks; a counter that wraps at 2^8, 2^16 or 2^24 blocks shows only in messages of up to 64 GB',
  ['src/gcm.rs', 'src/poly1305.rs', 'src/chacha20.rs'], [('counter', 'src/gcm.rs: Processor::{process,block}; src/poly1305.rs: ChaCha20Poly1305::process')],
  'abstract interpretation of monomorphised MIR, term domain; induction variable of the block counter located and advanced to far values', TB + 'far counters are values around every power of two (three successive blocks each); key, nonce, message arbitrary.')

p('S04', 'Calls are independent: no hidden or shared state',
  'The result of an operation depends only on its arguments and on the object it is called on. The crate keeps no mutable global or thread-local state and consults neither environment nor clock; its objects hold no interior-mutable state, so operations through a shared reference never change them, and an AEAD object that has been used (including for rejected decryptions) behaves exactly like a freshly constructed one.',
  [H, 'schedules', I], 'all call histories on shared and reused objects, all schedules of concurrent callers, all inputs',
  'each test makes a new object, calls it once, in one thread',
  ['src/gcm.rs', 'src/poly1305.rs', 'src/aes.rs', 'src/chacha20.rs', 'src/sha2.rs', 'src/hmac.rs', 'src/curve25519.rs', 'src/ed25519.rs'], [('objects', 'src/gcm.rs: Gcm; src/poly1305.rs: ChaCha20Poly1305; src/aes.rs: Aes128..256'), ('statics', 'src/const_curve25519.rs, src/sha2.rs: constants only')],
  'effect analysis over monomorphised MIR (statics, thread-locals, interior mutability in types, environment calls) and value numbering of second calls', TB + 'the reference scan is exhaustive over the reachable code; reuse is compared for enumerated lengths.')


def main():
    done = [x for x in P if x['id'] in props.PROPS]
    na = [x for x in P if x['na']]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            if x in done or x in na:
                f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['q']),
                                        why_tests_cant=x['why'], anchors=dict(files=x['files'], mechanism=[dict(name=n, where=w) for n, w in x['mech']]))) + '\n')
    m = dict(version=1, setup_cmd='bash setup.sh',
             checks=[dict(property=x['id'], quick_cmd='./check %s quick' % x['id'], thorough_cmd='./check %s thorough' % x['id'],
                          technique='static analysis: ' + x['tech'], level='other', level_note=x['note']) for x in done],
             not_applicable=[dict(property=x['id'], reason=x['na']) for x in na],
             notes='All checks read the MIR of /repo\'s current tree as type-checked by the installed nightly; nothing of /repo is executed. See DESIGN.md.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    for x in P:
        assert len(x['title']) <= 80, x['title']
    print(len(done), 'claimed', len(na), 'n/a', [x['id'] for x in P if x not in done and x not in na])


main()
