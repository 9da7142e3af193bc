//! A stand-in for the crate `concrete-ntt` (a git dependency that is not available here), used only where the library is
//! built with its feature of that name: plans that do what their names promise, by definition and not by butterflies.
//! Point `i` is the value at `root^(2 rev(i) + 1)`; `inv` leaves out the division by the size, which `normalize` does.
macro_rules! plans {
    ($name:ident, $t:ty) => {
        pub mod $name {
            pub struct Plan { n: usize, p: u128, powers: Vec<u128> }
            fn pow(mut b: u128, mut e: u128, m: u128) -> u128 {
                let mut x = 1 % m;
                while e > 0 { if e & 1 == 1 { x = x * b % m; } b = b * b % m; e >>= 1; }
                x
            }
            impl Plan {
                pub fn try_new(n: usize, modulus: $t) -> Option<Self> {
                    let (p, two) = (modulus as u128, 2 * n as u128);
                    if !n.is_power_of_two() || n < 2 || p < 3 || (p - 1) % two != 0 { return None; }
                    if [2u128, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37].iter().any(|&a| a % p != 0 && pow(a, p - 1, p) != 1) { return None; }
                    let root = (2..p).map(|g| pow(g, (p - 1) / two, p)).find(|&w| pow(w, n as u128, p) == p - 1)?;
                    let powers = (0..2 * n).scan(1u128, |x, _| { let y = *x; *x = *x * root % p; Some(y) }).collect();
                    Some(Self { n, p, powers })
                }
                pub fn root(&self) -> $t { self.powers[1] as $t }
                fn place(&self, i: usize) -> usize { 2 * (i.reverse_bits() >> (usize::BITS - self.n.trailing_zeros())) + 1 }
                pub fn fwd(&self, buf: &mut [$t]) {
                    assert_eq!(buf.len(), self.n);
                    let a: Vec<u128> = buf.iter().map(|x| *x as u128 % self.p).collect();
                    for (i, o) in buf.iter_mut().enumerate() {
                        let k = self.place(i);
                        *o = (0..self.n).filter(|&j| a[j] != 0).fold(0u128, |s, j| (s + a[j] * self.powers[k * j % (2 * self.n)]) % self.p) as $t;
                    }
                }
                pub fn inv(&self, buf: &mut [$t]) {
                    assert_eq!(buf.len(), self.n);
                    let a: Vec<u128> = buf.iter().map(|x| *x as u128 % self.p).collect();
                    for (j, o) in buf.iter_mut().enumerate() {
                        *o = (0..self.n).fold(0u128, |s, i| (s + a[i] * self.powers[(2 * self.n - self.place(i) * j % (2 * self.n)) % (2 * self.n)]) % self.p) as $t;
                    }
                }
                pub fn normalize(&self, buf: &mut [$t]) {
                    let k = pow(self.n as u128, self.p - 2, self.p);
                    for x in buf { *x = (*x as u128 % self.p * k % self.p) as $t; }
                }
                pub fn fwd_monomial(&self, coeff: $t, degree: usize, buf: &mut [$t]) {
                    assert_eq!(buf.len(), self.n);
                    for (i, o) in buf.iter_mut().enumerate() { *o = (coeff as u128 % self.p * self.powers[self.place(i) * degree % (2 * self.n)] % self.p) as $t; }
                }
                pub fn fwd_coeff_one_monomial(&self, degree: usize, buf: &mut [$t]) { self.fwd_monomial(1, degree, buf) }
                pub fn fwd_coeff_neg_one_monomial(&self, degree: usize, buf: &mut [$t]) { self.fwd_monomial((self.p - 1) as $t, degree, buf) }
            }
        }
    };
}
plans!(prime32, u32);
plans!(prime64, u64);
