//! Roots for the MIR exporter: every public entry point of crypto-pure, instantiated
//! at every concrete type it is offered for.  Nothing here is ever run.
use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::chacha20::Stream;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hkdf;
use crypto_pure::hmac::{self, Hmac};
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::{self, HashFunction, Sha224, Sha256, Sha384, Sha512};
use crypto_pure::{curve25519, ed25519, util};

macro_rules! block_cipher {
    ($f:ident, $t:ty) => {
        pub fn $f(k: &[u8], b: &[u8; 16]) -> [u8; 16] {
            <$t as BlockCipher>::new(k).permute(b)
        }
    };
}
block_cipher!(aes128, Aes128);
block_cipher!(aes192, Aes192);
block_cipher!(aes256, Aes256);

macro_rules! aead {
    ($f:ident, $s:ident, $p:ident, $r:ident, $ss:ident, $os:ident, $oo:ident, $t:ty) => {
        /// seal then open: the union of both, for the information-flow and range rules
        pub fn $f(k: &[u8], n: &[u8], d: &[u8], i: &[u8], o: &mut [u8], t: &[u8]) -> bool {
            let c = <$t as AeadCipher>::new(k);
            c.encrypt(i, n, d, o);
            c.decrypt(i, n, d, t, o)
        }
        pub fn $s(k: &[u8], n: &[u8], d: &[u8], i: &[u8], o: &mut [u8]) -> [u8; 16] {
            <$t as AeadCipher>::new(k).encrypt(i, n, d, o)
        }
        pub fn $p(k: &[u8], n: &[u8], d: &[u8], i: &[u8], o: &mut [u8], t: &[u8]) -> bool {
            <$t as AeadCipher>::new(k).decrypt(i, n, d, t, o)
        }
        /// open(seal(i)) with the tag seal returned
        pub fn $r(k: &[u8], n: &[u8], d: &[u8], i: &[u8], o: &mut [u8], p: &mut [u8]) -> bool {
            let c = <$t as AeadCipher>::new(k);
            let t = c.encrypt(i, n, d, o);
            c.decrypt(o, n, d, &t, p)
        }
        /// two operations on one object; only the second one's results are looked at
        pub fn $ss(k: &[u8], n: &[u8], d: &[u8], i: &[u8], o: &mut [u8], m: &[u8], e: &[u8], j: &[u8], p: &mut [u8]) -> [u8; 16] {
            let c = <$t as AeadCipher>::new(k);
            c.encrypt(i, n, d, o);
            c.encrypt(j, m, e, p)
        }
        pub fn $os(k: &[u8], n: &[u8], d: &[u8], i: &[u8], o: &mut [u8], t: &[u8], m: &[u8], e: &[u8], j: &[u8], p: &mut [u8]) -> [u8; 16] {
            let c = <$t as AeadCipher>::new(k);
            c.decrypt(i, n, d, t, o);
            c.encrypt(j, m, e, p)
        }
        pub fn $oo(k: &[u8], n: &[u8], d: &[u8], i: &[u8], o: &mut [u8], t: &[u8], m: &[u8], e: &[u8], j: &[u8], p: &mut [u8], u: &[u8]) -> bool {
            let c = <$t as AeadCipher>::new(k);
            c.decrypt(i, n, d, t, o);
            c.decrypt(j, m, e, u, p)
        }
    };
}
aead!(gcm128, gcm128_s, gcm128_o, gcm128_r, gcm128_ss, gcm128_os, gcm128_oo, Gcm<Aes128>);
aead!(gcm192, gcm192_s, gcm192_o, gcm192_r, gcm192_ss, gcm192_os, gcm192_oo, Gcm<Aes192>);
aead!(gcm256, gcm256_s, gcm256_o, gcm256_r, gcm256_ss, gcm256_os, gcm256_oo, Gcm<Aes256>);
aead!(chapoly, chapoly_s, chapoly_o, chapoly_r, chapoly_ss, chapoly_os, chapoly_oo, ChaCha20Poly1305);

pub fn stream(k: &[u8], n: &[u8], i: &[u8], o: &mut [u8]) -> Option<u8> {
    let mut s = Stream::new(k, n);
    s.encrypt(i, o);
    s.decrypt(i, o);
    s.next()
}
/// three calls on one stream: encrypt, single key-stream byte, decrypt
pub fn stream3(
    k: &[u8],
    n: &[u8],
    i: &[u8],
    o: &mut [u8],
    j: &[u8],
    p: &mut [u8],
) -> (Option<u8>, Option<u8>) {
    let mut s = Stream::new(k, n);
    s.encrypt(i, o);
    let a = s.next();
    s.decrypt(j, p);
    let b = s.next();
    (a, b)
}
pub fn stream_new(k: &[u8], n: &[u8]) -> Stream {
    Stream::new(k, n)
}
pub fn stream_next(s: &mut Stream) -> Option<u8> {
    s.next()
}

macro_rules! hash {
    ($h:ident, $h3:ident, $n:ident, $u:ident, $w:ident, $f:ident, $d:literal, $t:ty) => {
        pub fn $h(i: &[u8], o: &mut [u8]) {
            let mut h = <$t>::default();
            h.update(i);
            h.write_digest(o);
        }
        pub fn $h3(a: &[u8], b: &[u8], c: &[u8], o: &mut [u8]) {
            let mut h = <$t>::default();
            h.update(a);
            h.update(b);
            h.update(c);
            h.write_digest(o);
        }
        pub fn $n() -> $t {
            <$t>::default()
        }
        pub fn $u(h: &mut $t, i: &[u8]) {
            h.update(i)
        }
        pub fn $w(h: $t, o: &mut [u8]) {
            h.write_digest(o)
        }
        pub fn $f(i: &[u8]) -> [u8; $d] {
            sha2::$f(i)
        }
    };
}
hash!(h512, h512_3, h512_n, h512_u, h512_w, sha512, 64, Sha512);
hash!(h384, h384_3, h384_n, h384_u, h384_w, sha384, 48, Sha384);
hash!(h256, h256_3, h256_n, h256_u, h256_w, sha256, 32, Sha256);
hash!(h224, h224_3, h224_n, h224_u, h224_w, sha224, 28, Sha224);

macro_rules! mac {
    ($h:ident, $v:ident, $x:ident, $e:ident, $one:ident, $d:literal, $t:ty) => {
        pub fn $h(k: &[u8], i: &[u8], j: &[u8], o: &mut [u8]) -> usize {
            let mut h = Hmac::<$t>::new(k);
            h.update(i);
            h.update(j);
            let t = h.tag();
            let r: &[u8] = t.as_ref();
            o.copy_from_slice(r);
            t.len()
        }
        pub fn $one(k: &[u8], i: &[u8]) -> [u8; $d] {
            hmac::$one(k, i)
        }
        pub fn $v(k: &[u8], i: &[u8], t: &[u8]) -> bool {
            hmac::verify::<$t>(k, i, t)
        }
        pub fn $x(a: &[u8], b: &[u8], c: &mut [u8]) {
            hkdf::extract::<$t>(a, b, c)
        }
        pub fn $e(a: &[u8], b: &[u8], c: &mut [u8]) {
            hkdf::expand::<$t>(a, b, c)
        }
    };
}
mac!(m512, v512, x512, e512, hmac_sha512, 64, Sha512);
mac!(m384, v384, x384, e384, hmac_sha384, 48, Sha384);
mac!(m256, v256, x256, e256, hmac_sha256, 32, Sha256);
mac!(m224, v224, x224, e224, hmac_sha224, 28, Sha224);

pub fn x_pk(k: &[u8]) -> [u8; 32] {
    curve25519::gen_pk(k)
}
pub fn x_dh(p: &[u8], k: &[u8]) -> [u8; 32] {
    curve25519::dh(p, k)
}
pub fn e_pk(k: &[u8]) -> [u8; 32] {
    ed25519::gen_pk(k)
}
pub fn e_sign(m: &[u8], k: &[u8]) -> [u8; 64] {
    ed25519::sign(m, k)
}
pub fn e_verify(m: &[u8], s: &[u8], p: &[u8]) -> bool {
    ed25519::verify(m, s, p)
}
pub fn u_verify(x: &[u8; 16], y: &[u8]) -> bool {
    util::verify_16(x, y)
}
