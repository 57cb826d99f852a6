//! Feasibility of small systems of linear inequalities over the non-negative rationals,
//! decided exactly by the dual simplex method with Bland's rule.
//! This is the emptiness test of the polyhedral abstract domain of the analyser.
#![crate_type = "cdylib"]

#[derive(Clone, Copy, PartialEq, Eq)]
struct R { n: i128, d: i128 }

fn gcd(mut a: i128, mut b: i128) -> i128 {
	if a < 0 { a = -a }
	if b < 0 { b = -b }
	while b != 0 { let t = a % b; a = b; b = t; }
	a
}

impl R {
	const ZERO: R = R { n: 0, d: 1 };
	const ONE: R = R { n: 1, d: 1 };
	fn mk(n: i128, d: i128) -> Option<R> {
		if d == 1 { return Some(R { n, d }) }
		let g = gcd(n, d);
		let (mut n, mut d) = if g > 1 { (n / g, d / g) } else { (n, d) };
		if d < 0 { n = n.checked_neg()?; d = d.checked_neg()?; }
		Some(R { n, d })
	}
	fn mul(self, o: R) -> Option<R> {
		if self.n == 0 || o.n == 0 { return Some(R::ZERO) }
		let g1 = gcd(self.n, o.d);
		let g2 = gcd(o.n, self.d);
		R::mk((self.n / g1).checked_mul(o.n / g2)?, (self.d / g2).checked_mul(o.d / g1)?)
	}
	fn add(self, o: R) -> Option<R> {
		if self.d == o.d { return R::mk(self.n.checked_add(o.n)?, self.d) }
		R::mk(self.n.checked_mul(o.d)?.checked_add(o.n.checked_mul(self.d)?)?, self.d.checked_mul(o.d)?)
	}
	fn neg(self) -> R { R { n: -self.n, d: self.d } }
	fn inv(self) -> Option<R> { R::mk(self.d, self.n) }
}

/// Input: "<vars> <rows>\n" and per row: "<b> <k> <var> <coef> ...\n" meaning sum coef*var <= b, var >= 0.
/// Returns 1 if infeasible, 0 if feasible, 2 if undecided (overflow).
fn solve(text: &str) -> Option<i32> {
	let mut it = text.split_ascii_whitespace();
	let nv: usize = it.next()?.parse().ok()?;
	let nr: usize = it.next()?.parse().ok()?;
	// Tableau: rows of non-basic coefficients; basic = b - sum coef * nonbasic.
	let mut a = vec![R::ZERO; nr * nv];
	let mut b = vec![R::ZERO; nr];
	for i in 0..nr {
		let v: i128 = it.next()?.parse().ok()?;
		b[i] = R { n: v, d: 1 };
		let k: usize = it.next()?.parse().ok()?;
		for _ in 0..k {
			let j: usize = it.next()?.parse().ok()?;
			let c: i128 = it.next()?.parse().ok()?;
			a[i * nv + j] = R { n: c, d: 1 };
		}
	}
	let mut nonbasic: Vec<usize> = (0..nv).collect();
	let mut basic: Vec<usize> = (nv..nv + nr).collect();
	for _iter in 0..5000 {
		// Leaving row: smallest basic index with negative value.
		let mut r = None;
		for i in 0..nr {
			if b[i].n < 0 && r.map_or(true, |x: usize| basic[i] < basic[x]) { r = Some(i) }
		}
		let r = match r { None => return Some(0), Some(r) => r };
		// Entering column: smallest nonbasic index with negative coefficient (increasing it increases the row's value).
		let mut c = None;
		for j in 0..nv {
			if a[r * nv + j].n < 0 && c.map_or(true, |x: usize| nonbasic[j] < nonbasic[x]) { c = Some(j) }
		}
		let c = match c { None => return Some(1), Some(c) => c };
		// Pivot: row r: basic_r + sum a_rj x_j = b_r; solve for x_c.
		let inv = a[r * nv + c].inv()?;
		for j in 0..nv {
			if j != c { let v = a[r * nv + j]; if v.n != 0 { a[r * nv + j] = v.mul(inv)?; } }
		}
		a[r * nv + c] = inv;
		b[r] = b[r].mul(inv)?;
		for i in 0..nr {
			if i == r { continue }
			let f = a[i * nv + c];
			if f.n == 0 { continue }
			for j in 0..nv {
				if j == c { continue }
				let v = a[r * nv + j];
				if v.n != 0 { a[i * nv + j] = a[i * nv + j].add(f.mul(v)?.neg())?; }
			}
			a[i * nv + c] = f.mul(inv)?.neg();
			b[i] = b[i].add(f.mul(b[r])?.neg())?;
		}
		std::mem::swap(&mut basic[r], &mut nonbasic[c]);
	}
	let _ = R::ONE;
	None
}

#[no_mangle]
pub extern "C" fn lp_infeasible(text: *const u8, len: usize) -> i32 {
	let s = unsafe { std::slice::from_raw_parts(text, len) };
	match std::str::from_utf8(s) { Ok(t) => solve(t).unwrap_or(2), Err(_) => 2 }
}
