//! Keccak-256, for the selector macros (runs at compile time).
pub struct Keccak256;
pub trait Digest {
	fn digest(d: impl AsRef<[u8]>) -> [u8; 32];
}
const RC: [u64; 24] = [
	0x1, 0x8082, 0x800000000000808a, 0x8000000080008000, 0x808b, 0x80000001, 0x8000000080008081, 0x8000000000008009, 0x8a, 0x88, 0x80008009, 0x8000000a, 0x8000808b, 0x800000000000008b,
	0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008,
];
const ROT: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
const PIL: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
fn keccakf(a: &mut [u64; 25]) {
	for rc in RC {
		let mut c = [0u64; 5];
		for x in 0..5 {
			c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
		}
		for x in 0..5 {
			let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
			for y in 0..5 {
				a[x + 5 * y] ^= d;
			}
		}
		let mut t = a[1];
		for i in 0..24 {
			let u = a[PIL[i]];
			a[PIL[i]] = t.rotate_left(ROT[i]);
			t = u;
		}
		for y in 0..5 {
			let r = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
			for x in 0..5 {
				a[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
			}
		}
		a[0] ^= rc;
	}
}
impl Digest for Keccak256 {
	fn digest(d: impl AsRef<[u8]>) -> [u8; 32] {
		let mut m = d.as_ref().to_vec();
		m.push(1);
		while m.len() % 136 != 0 {
			m.push(0);
		}
		*m.last_mut().unwrap() |= 0x80;
		let mut a = [0u64; 25];
		for b in m.chunks(136) {
			for (i, w) in b.chunks(8).enumerate() {
				a[i] ^= u64::from_le_bytes(w.try_into().unwrap());
			}
			keccakf(&mut a);
		}
		let mut o = [0; 32];
		for i in 0..4 {
			o[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes());
		}
		o
	}
}
#[test]
fn known() {
	let h = Keccak256::digest(b"transfer(address,uint256)");
	assert_eq!(h[..4], [0xa9, 0x05, 0x9c, 0xbb]);
}
