//! Reference RSA: keys of any length, encoded as PEM, and OAEP decryption.
use base64::Engine;
use num::{bigint::BigInt, BigUint, Integer, One, Zero};
use sha1::Digest;

#[derive(Debug)]
pub struct Key {
    pub n: BigUint,
    pub e: BigUint,
    pub d: BigUint,
}

/// Deterministic stream of numbers.
pub struct Lcg(pub u64);

impl Lcg {
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn bits(&mut self, bits: usize) -> BigUint {
        let mut x = BigUint::zero();
        for _ in 0..bits.div_ceil(64) {
            x = (x << 64) | BigUint::from(self.next());
        }
        let mask = (BigUint::one() << bits) - 1u8;
        x & mask
    }
}

fn is_prime(n: &BigUint) -> bool {
    const SMALL: [u32; 30] = [
        2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89,
        97, 101, 103, 107, 109, 113,
    ];
    for p in SMALL {
        if (n % p).is_zero() {
            return *n == BigUint::from(p);
        }
    }
    let one = BigUint::one();
    let m = n - 1u8;
    let s = m.trailing_zeros().unwrap();
    let d = &m >> s;
    'outer: for a in [2u32, 3, 5, 7, 11, 13, 17, 19] {
        let mut x = BigUint::from(a).modpow(&d, n);
        if x == one || x == m {
            continue;
        }
        for _ in 1..s {
            x = x.modpow(&BigUint::from(2u8), n);
            if x == m {
                continue 'outer;
            }
        }
        return false;
    }
    true
}

fn prime(rng: &mut Lcg, bits: usize) -> BigUint {
    loop {
        let mut x = rng.bits(bits) | BigUint::one();
        x |= BigUint::one() << (bits - 1);
        if bits > 2 {
            x |= BigUint::one() << (bits - 2);
        }
        if is_prime(&x) {
            return x;
        }
    }
}

fn der_len(out: &mut Vec<u8>, n: usize) {
    if n < 128 {
        out.push(n as u8);
    } else {
        let b: Vec<u8> = n.to_be_bytes().into_iter().skip_while(|x| *x == 0).collect();
        out.push(0x80 | b.len() as u8);
        out.extend_from_slice(&b);
    }
}

pub fn der(tag: u8, content: &[u8]) -> Vec<u8> {
    let mut out = vec![tag];
    der_len(&mut out, content.len());
    out.extend_from_slice(content);
    out
}

pub fn der_uint(x: &BigUint) -> Vec<u8> {
    let mut b = x.to_bytes_be();
    if b[0] & 0x80 != 0 {
        b.insert(0, 0);
    }
    der(2, &b)
}

pub fn pem(label: &str, data: &[u8]) -> String {
    let b64 = base64::engine::general_purpose::STANDARD.encode(data);
    let mut out = format!("-----BEGIN {label}-----\n");
    for line in b64.as_bytes().chunks(64) {
        out += std::str::from_utf8(line).unwrap();
        out.push('\n');
    }
    out + &format!("-----END {label}-----\n")
}

fn mgf1(seed: &[u8], n: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0u32;
    while out.len() < n {
        let mut h = sha1::Sha1::new();
        h.update(seed);
        h.update(i.to_be_bytes());
        out.extend_from_slice(&h.finalize());
        i += 1;
    }
    out.truncate(n);
    out
}

impl Key {
    /// A key whose modulus has exactly `bits` bits.
    pub fn generate(bits: usize, seed: u64) -> Self {
        let mut rng = Lcg(seed ^ (bits as u64) << 32);
        let e = BigUint::from(65537u32);
        loop {
            let p = prime(&mut rng, bits / 2);
            let q = prime(&mut rng, bits - bits / 2);
            let n = &p * &q;
            if p == q || n.bits() as usize != bits {
                continue;
            }
            let phi = (&p - 1u8) * (&q - 1u8);
            let g = BigInt::from(e.clone()).extended_gcd(&BigInt::from(phi.clone()));
            if !g.gcd.is_one() {
                continue;
            }
            let d = g.x.mod_floor(&BigInt::from(phi)).to_biguint().unwrap();
            return Self { n, e, d };
        }
    }

    /// A key of many small primes, which is found at once. The modulus has exactly `bits` bits.
    pub fn composed(bits: usize, e: u32, seed: u64) -> Self {
        let mut rng = Lcg(seed ^ (bits as u64) << 32);
        let e = BigUint::from(e);
        let fits = |p: &BigUint| (p - 1u8).gcd(&e).is_one();
        loop {
            let mut primes: Vec<BigUint> = Vec::new();
            let mut n = BigUint::one();
            while bits - n.bits() as usize > 56 {
                let p = prime(&mut rng, 28);
                if fits(&p) && !primes.contains(&p) {
                    n *= &p;
                    primes.push(p);
                }
            }
            // the last one makes the length exact
            let left = bits - n.bits() as usize + 1;
            for _ in 0..50 {
                let p = prime(&mut rng, left);
                let all = &n * &p;
                if !fits(&p) || primes.contains(&p) || all.bits() as usize != bits {
                    continue;
                }
                primes.push(p);
                let phi = primes.iter().fold(BigUint::one(), |a, p| a * (p - 1u8));
                let g = BigInt::from(e.clone()).extended_gcd(&BigInt::from(phi.clone()));
                let d = g.x.mod_floor(&BigInt::from(phi)).to_biguint().unwrap();
                return Self { n: all, e, d };
            }
        }
    }

    pub fn octets(&self) -> usize {
        (self.n.bits() as usize + 7) / 8
    }

    pub fn pkcs1_der(&self) -> Vec<u8> {
        pkcs1(&self.n, &self.e)
    }

    pub fn pem_pkcs1(&self) -> String {
        pem("RSA PUBLIC KEY", &self.pkcs1_der())
    }

    pub fn pem_pkcs8(&self) -> String {
        pem("PUBLIC KEY", &pkcs8(&self.n, &self.e))
    }

    /// RSAES-OAEP-DECRYPT of RFC 8017 with SHA-1 and an empty label.
    pub fn decrypt_oaep(&self, c: &[u8]) -> Result<Vec<u8>, String> {
        let k = self.octets();
        if c.len() != k {
            return Err(format!("ciphertext of {} instead of {k} bytes", c.len()));
        }
        let c = BigUint::from_bytes_be(c);
        if c >= self.n {
            return Err("ciphertext is not smaller than the modulus".into());
        }
        let m = c.modpow(&self.d, &self.n).to_bytes_be();
        let mut em = vec![0; k.saturating_sub(m.len())];
        if m != [0] || k == 0 {
            em.extend_from_slice(&m);
        } else {
            em.push(0);
        }
        if em.len() != k || k < 42 {
            return Err("wrong length".into());
        }
        if em[0] != 0 {
            return Err("first octet is not zero".into());
        }
        let (seed, db) = em[1..].split_at(20);
        let seed: Vec<u8> = seed.iter().zip(mgf1(db, 20)).map(|(a, b)| a ^ b).collect();
        let db: Vec<u8> = db
            .iter()
            .zip(mgf1(&seed, db.len()))
            .map(|(a, b)| a ^ b)
            .collect();
        let (lhash, rest) = db.split_at(20);
        if lhash != sha1::Sha1::digest(b"").as_slice() {
            return Err("wrong label".into());
        }
        match rest.iter().position(|x| *x != 0) {
            Some(i) if rest[i] == 1 => Ok(rest[i + 1..].to_vec()),
            _ => Err("no separator".into()),
        }
    }
}

pub fn pkcs1(n: &BigUint, e: &BigUint) -> Vec<u8> {
    let mut x = der_uint(n);
    x.extend(der_uint(e));
    der(0x30, &x)
}

pub fn pkcs8(n: &BigUint, e: &BigUint) -> Vec<u8> {
    let alg = der(
        0x30,
        &[
            0x06, 0x09, 0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 0x01, 0x01, 0x01, 0x05, 0x00,
        ],
    );
    let mut bits = vec![0];
    bits.extend(pkcs1(n, e));
    let mut x = alg;
    x.extend(der(3, &bits));
    der(0x30, &x)
}
