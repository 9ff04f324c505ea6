// Written by tools/mkparts.py.
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct K1 { pub g0: u16 }
impl Le for K1 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>()], None) }
	fn nth(k: u64) -> Self { K1 { g0: <u16 as Le>::nth(if k == 0 { 0 } else { k + 0 }) } }
	fn any(cx: &mut Cx) -> Self { K1 { g0: <u16 as Le>::any(cx) } }
}
impl Part for K1 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <u16 as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u16 as Part>::put(&mut v.g0, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u16 as Part>::add(&mut v.g0, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct K2 { pub g0: u8, pub f1: u64 }
impl Le for K2 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f1.spec::<C>()], None) }
	fn nth(k: u64) -> Self { K2 { g0: <u8 as Le>::nth(if k == 0 { 0 } else { k + 0 }), f1: <u64 as Le>::nth(if k == 0 { 0 } else { k + 1 }) } }
	fn any(cx: &mut Cx) -> Self { K2 { g0: <u8 as Le>::any(cx), f1: <u64 as Le>::any(cx) } }
}
impl Part for K2 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f1.spots(&[at, &[1]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <u8 as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <u64 as Part>::look(&mut v.f1, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::put(&mut v.g0, &p[1..], k), 1 => <u64 as Part>::put(&mut v.f1, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::add(&mut v.g0, &p[1..], k), 1 => <u64 as Part>::add(&mut v.f1, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f1.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f1.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f1.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct K3 { pub g0: u8, pub f2: U256, pub g2: H256 }
impl Le for K3 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f2.spec::<C>(), self.g2.spec::<C>()], None) }
	fn nth(k: u64) -> Self { K3 { g0: <u8 as Le>::nth(if k == 0 { 0 } else { k + 0 }), f2: <U256 as Le>::nth(if k == 0 { 0 } else { k + 1 }), g2: <H256 as Le>::nth(if k == 0 { 0 } else { k + 2 }) } }
	fn any(cx: &mut Cx) -> Self { K3 { g0: <u8 as Le>::any(cx), f2: <U256 as Le>::any(cx), g2: <H256 as Le>::any(cx) } }
}
impl Part for K3 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f2.spots(&[at, &[1]].concat(), out); self.g2.spots(&[at, &[2]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <u8 as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <U256 as Part>::look(&mut v.f2, &p[1..], fetch, raw, db), 2 => <H256 as Part>::look(&mut v.g2, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::put(&mut v.g0, &p[1..], k), 1 => <U256 as Part>::put(&mut v.f2, &p[1..], k), 2 => <H256 as Part>::put(&mut v.g2, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::add(&mut v.g0, &p[1..], k), 1 => <U256 as Part>::add(&mut v.f2, &p[1..], k), 2 => <H256 as Part>::add(&mut v.g2, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f2.m_look(&p[1..]), 2 => self.g2.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f2.m_put(&p[1..], k), 2 => self.g2.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f2.m_add(&p[1..], k), 2 => self.g2.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct K4 { pub g0: u128, pub f3: u32, pub g2: u8, pub f1: u16 }
impl Le for K4 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f3.spec::<C>(), self.g2.spec::<C>(), self.f1.spec::<C>()], None) }
	fn nth(k: u64) -> Self { K4 { g0: <u128 as Le>::nth(if k == 0 { 0 } else { k + 0 }), f3: <u32 as Le>::nth(if k == 0 { 0 } else { k + 1 }), g2: <u8 as Le>::nth(if k == 0 { 0 } else { k + 2 }), f1: <u16 as Le>::nth(if k == 0 { 0 } else { k + 3 }) } }
	fn any(cx: &mut Cx) -> Self { K4 { g0: <u128 as Le>::any(cx), f3: <u32 as Le>::any(cx), g2: <u8 as Le>::any(cx), f1: <u16 as Le>::any(cx) } }
}
impl Part for K4 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f3.spots(&[at, &[1]].concat(), out); self.g2.spots(&[at, &[2]].concat(), out); self.f1.spots(&[at, &[3]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <u128 as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <u32 as Part>::look(&mut v.f3, &p[1..], fetch, raw, db), 2 => <u8 as Part>::look(&mut v.g2, &p[1..], fetch, raw, db), 3 => <u16 as Part>::look(&mut v.f1, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u128 as Part>::put(&mut v.g0, &p[1..], k), 1 => <u32 as Part>::put(&mut v.f3, &p[1..], k), 2 => <u8 as Part>::put(&mut v.g2, &p[1..], k), 3 => <u16 as Part>::put(&mut v.f1, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u128 as Part>::add(&mut v.g0, &p[1..], k), 1 => <u32 as Part>::add(&mut v.f3, &p[1..], k), 2 => <u8 as Part>::add(&mut v.g2, &p[1..], k), 3 => <u16 as Part>::add(&mut v.f1, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f3.m_look(&p[1..]), 2 => self.g2.m_look(&p[1..]), 3 => self.f1.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f3.m_put(&p[1..], k), 2 => self.g2.m_put(&p[1..], k), 3 => self.f1.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f3.m_add(&p[1..], k), 2 => self.g2.m_add(&p[1..], k), 3 => self.f1.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct K5 { pub g0: u8, pub f4: u8, pub g2: u8, pub f2: u8, pub g4: u8 }
impl Le for K5 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f4.spec::<C>(), self.g2.spec::<C>(), self.f2.spec::<C>(), self.g4.spec::<C>()], None) }
	fn nth(k: u64) -> Self { K5 { g0: <u8 as Le>::nth(if k == 0 { 0 } else { k + 0 }), f4: <u8 as Le>::nth(if k == 0 { 0 } else { k + 1 }), g2: <u8 as Le>::nth(if k == 0 { 0 } else { k + 2 }), f2: <u8 as Le>::nth(if k == 0 { 0 } else { k + 3 }), g4: <u8 as Le>::nth(if k == 0 { 0 } else { k + 4 }) } }
	fn any(cx: &mut Cx) -> Self { K5 { g0: <u8 as Le>::any(cx), f4: <u8 as Le>::any(cx), g2: <u8 as Le>::any(cx), f2: <u8 as Le>::any(cx), g4: <u8 as Le>::any(cx) } }
}
impl Part for K5 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f4.spots(&[at, &[1]].concat(), out); self.g2.spots(&[at, &[2]].concat(), out); self.f2.spots(&[at, &[3]].concat(), out); self.g4.spots(&[at, &[4]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <u8 as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <u8 as Part>::look(&mut v.f4, &p[1..], fetch, raw, db), 2 => <u8 as Part>::look(&mut v.g2, &p[1..], fetch, raw, db), 3 => <u8 as Part>::look(&mut v.f2, &p[1..], fetch, raw, db), 4 => <u8 as Part>::look(&mut v.g4, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::put(&mut v.g0, &p[1..], k), 1 => <u8 as Part>::put(&mut v.f4, &p[1..], k), 2 => <u8 as Part>::put(&mut v.g2, &p[1..], k), 3 => <u8 as Part>::put(&mut v.f2, &p[1..], k), 4 => <u8 as Part>::put(&mut v.g4, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::add(&mut v.g0, &p[1..], k), 1 => <u8 as Part>::add(&mut v.f4, &p[1..], k), 2 => <u8 as Part>::add(&mut v.g2, &p[1..], k), 3 => <u8 as Part>::add(&mut v.f2, &p[1..], k), 4 => <u8 as Part>::add(&mut v.g4, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f4.m_look(&p[1..]), 2 => self.g2.m_look(&p[1..]), 3 => self.f2.m_look(&p[1..]), 4 => self.g4.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f4.m_put(&p[1..], k), 2 => self.g2.m_put(&p[1..], k), 3 => self.f2.m_put(&p[1..], k), 4 => self.g4.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f4.m_add(&p[1..], k), 2 => self.g2.m_add(&p[1..], k), 3 => self.f2.m_add(&p[1..], k), 4 => self.g4.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct K6 { pub g0: u8, pub f5: u16, pub g2: u8, pub f3: u16, pub g4: u8, pub f1: u16 }
impl Le for K6 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f5.spec::<C>(), self.g2.spec::<C>(), self.f3.spec::<C>(), self.g4.spec::<C>(), self.f1.spec::<C>()], None) }
	fn nth(k: u64) -> Self { K6 { g0: <u8 as Le>::nth(if k == 0 { 0 } else { k + 0 }), f5: <u16 as Le>::nth(if k == 0 { 0 } else { k + 1 }), g2: <u8 as Le>::nth(if k == 0 { 0 } else { k + 2 }), f3: <u16 as Le>::nth(if k == 0 { 0 } else { k + 3 }), g4: <u8 as Le>::nth(if k == 0 { 0 } else { k + 4 }), f1: <u16 as Le>::nth(if k == 0 { 0 } else { k + 5 }) } }
	fn any(cx: &mut Cx) -> Self { K6 { g0: <u8 as Le>::any(cx), f5: <u16 as Le>::any(cx), g2: <u8 as Le>::any(cx), f3: <u16 as Le>::any(cx), g4: <u8 as Le>::any(cx), f1: <u16 as Le>::any(cx) } }
}
impl Part for K6 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f5.spots(&[at, &[1]].concat(), out); self.g2.spots(&[at, &[2]].concat(), out); self.f3.spots(&[at, &[3]].concat(), out); self.g4.spots(&[at, &[4]].concat(), out); self.f1.spots(&[at, &[5]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <u8 as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <u16 as Part>::look(&mut v.f5, &p[1..], fetch, raw, db), 2 => <u8 as Part>::look(&mut v.g2, &p[1..], fetch, raw, db), 3 => <u16 as Part>::look(&mut v.f3, &p[1..], fetch, raw, db), 4 => <u8 as Part>::look(&mut v.g4, &p[1..], fetch, raw, db), 5 => <u16 as Part>::look(&mut v.f1, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::put(&mut v.g0, &p[1..], k), 1 => <u16 as Part>::put(&mut v.f5, &p[1..], k), 2 => <u8 as Part>::put(&mut v.g2, &p[1..], k), 3 => <u16 as Part>::put(&mut v.f3, &p[1..], k), 4 => <u8 as Part>::put(&mut v.g4, &p[1..], k), 5 => <u16 as Part>::put(&mut v.f1, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::add(&mut v.g0, &p[1..], k), 1 => <u16 as Part>::add(&mut v.f5, &p[1..], k), 2 => <u8 as Part>::add(&mut v.g2, &p[1..], k), 3 => <u16 as Part>::add(&mut v.f3, &p[1..], k), 4 => <u8 as Part>::add(&mut v.g4, &p[1..], k), 5 => <u16 as Part>::add(&mut v.f1, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f5.m_look(&p[1..]), 2 => self.g2.m_look(&p[1..]), 3 => self.f3.m_look(&p[1..]), 4 => self.g4.m_look(&p[1..]), 5 => self.f1.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f5.m_put(&p[1..], k), 2 => self.g2.m_put(&p[1..], k), 3 => self.f3.m_put(&p[1..], k), 4 => self.g4.m_put(&p[1..], k), 5 => self.f1.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f5.m_add(&p[1..], k), 2 => self.g2.m_add(&p[1..], k), 3 => self.f3.m_add(&p[1..], k), 4 => self.g4.m_add(&p[1..], k), 5 => self.f1.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct K7 { pub g0: u64, pub f6: u8, pub g2: u64, pub f4: u8, pub g4: u64, pub f2: u8, pub g6: u64 }
impl Le for K7 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f6.spec::<C>(), self.g2.spec::<C>(), self.f4.spec::<C>(), self.g4.spec::<C>(), self.f2.spec::<C>(), self.g6.spec::<C>()], None) }
	fn nth(k: u64) -> Self { K7 { g0: <u64 as Le>::nth(if k == 0 { 0 } else { k + 0 }), f6: <u8 as Le>::nth(if k == 0 { 0 } else { k + 1 }), g2: <u64 as Le>::nth(if k == 0 { 0 } else { k + 2 }), f4: <u8 as Le>::nth(if k == 0 { 0 } else { k + 3 }), g4: <u64 as Le>::nth(if k == 0 { 0 } else { k + 4 }), f2: <u8 as Le>::nth(if k == 0 { 0 } else { k + 5 }), g6: <u64 as Le>::nth(if k == 0 { 0 } else { k + 6 }) } }
	fn any(cx: &mut Cx) -> Self { K7 { g0: <u64 as Le>::any(cx), f6: <u8 as Le>::any(cx), g2: <u64 as Le>::any(cx), f4: <u8 as Le>::any(cx), g4: <u64 as Le>::any(cx), f2: <u8 as Le>::any(cx), g6: <u64 as Le>::any(cx) } }
}
impl Part for K7 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f6.spots(&[at, &[1]].concat(), out); self.g2.spots(&[at, &[2]].concat(), out); self.f4.spots(&[at, &[3]].concat(), out); self.g4.spots(&[at, &[4]].concat(), out); self.f2.spots(&[at, &[5]].concat(), out); self.g6.spots(&[at, &[6]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <u64 as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <u8 as Part>::look(&mut v.f6, &p[1..], fetch, raw, db), 2 => <u64 as Part>::look(&mut v.g2, &p[1..], fetch, raw, db), 3 => <u8 as Part>::look(&mut v.f4, &p[1..], fetch, raw, db), 4 => <u64 as Part>::look(&mut v.g4, &p[1..], fetch, raw, db), 5 => <u8 as Part>::look(&mut v.f2, &p[1..], fetch, raw, db), 6 => <u64 as Part>::look(&mut v.g6, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u64 as Part>::put(&mut v.g0, &p[1..], k), 1 => <u8 as Part>::put(&mut v.f6, &p[1..], k), 2 => <u64 as Part>::put(&mut v.g2, &p[1..], k), 3 => <u8 as Part>::put(&mut v.f4, &p[1..], k), 4 => <u64 as Part>::put(&mut v.g4, &p[1..], k), 5 => <u8 as Part>::put(&mut v.f2, &p[1..], k), 6 => <u64 as Part>::put(&mut v.g6, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u64 as Part>::add(&mut v.g0, &p[1..], k), 1 => <u8 as Part>::add(&mut v.f6, &p[1..], k), 2 => <u64 as Part>::add(&mut v.g2, &p[1..], k), 3 => <u8 as Part>::add(&mut v.f4, &p[1..], k), 4 => <u64 as Part>::add(&mut v.g4, &p[1..], k), 5 => <u8 as Part>::add(&mut v.f2, &p[1..], k), 6 => <u64 as Part>::add(&mut v.g6, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f6.m_look(&p[1..]), 2 => self.g2.m_look(&p[1..]), 3 => self.f4.m_look(&p[1..]), 4 => self.g4.m_look(&p[1..]), 5 => self.f2.m_look(&p[1..]), 6 => self.g6.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f6.m_put(&p[1..], k), 2 => self.g2.m_put(&p[1..], k), 3 => self.f4.m_put(&p[1..], k), 4 => self.g4.m_put(&p[1..], k), 5 => self.f2.m_put(&p[1..], k), 6 => self.g6.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f6.m_add(&p[1..], k), 2 => self.g2.m_add(&p[1..], k), 3 => self.f4.m_add(&p[1..], k), 4 => self.g4.m_add(&p[1..], k), 5 => self.f2.m_add(&p[1..], k), 6 => self.g6.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct K8 { pub g0: u8, pub f7: u8, pub g2: u8, pub f5: u8, pub g4: u8, pub f3: u8, pub g6: u8, pub f1: H256 }
impl Le for K8 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f7.spec::<C>(), self.g2.spec::<C>(), self.f5.spec::<C>(), self.g4.spec::<C>(), self.f3.spec::<C>(), self.g6.spec::<C>(), self.f1.spec::<C>()], None) }
	fn nth(k: u64) -> Self { K8 { g0: <u8 as Le>::nth(if k == 0 { 0 } else { k + 0 }), f7: <u8 as Le>::nth(if k == 0 { 0 } else { k + 1 }), g2: <u8 as Le>::nth(if k == 0 { 0 } else { k + 2 }), f5: <u8 as Le>::nth(if k == 0 { 0 } else { k + 3 }), g4: <u8 as Le>::nth(if k == 0 { 0 } else { k + 4 }), f3: <u8 as Le>::nth(if k == 0 { 0 } else { k + 5 }), g6: <u8 as Le>::nth(if k == 0 { 0 } else { k + 6 }), f1: <H256 as Le>::nth(if k == 0 { 0 } else { k + 7 }) } }
	fn any(cx: &mut Cx) -> Self { K8 { g0: <u8 as Le>::any(cx), f7: <u8 as Le>::any(cx), g2: <u8 as Le>::any(cx), f5: <u8 as Le>::any(cx), g4: <u8 as Le>::any(cx), f3: <u8 as Le>::any(cx), g6: <u8 as Le>::any(cx), f1: <H256 as Le>::any(cx) } }
}
impl Part for K8 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f7.spots(&[at, &[1]].concat(), out); self.g2.spots(&[at, &[2]].concat(), out); self.f5.spots(&[at, &[3]].concat(), out); self.g4.spots(&[at, &[4]].concat(), out); self.f3.spots(&[at, &[5]].concat(), out); self.g6.spots(&[at, &[6]].concat(), out); self.f1.spots(&[at, &[7]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <u8 as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <u8 as Part>::look(&mut v.f7, &p[1..], fetch, raw, db), 2 => <u8 as Part>::look(&mut v.g2, &p[1..], fetch, raw, db), 3 => <u8 as Part>::look(&mut v.f5, &p[1..], fetch, raw, db), 4 => <u8 as Part>::look(&mut v.g4, &p[1..], fetch, raw, db), 5 => <u8 as Part>::look(&mut v.f3, &p[1..], fetch, raw, db), 6 => <u8 as Part>::look(&mut v.g6, &p[1..], fetch, raw, db), 7 => <H256 as Part>::look(&mut v.f1, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::put(&mut v.g0, &p[1..], k), 1 => <u8 as Part>::put(&mut v.f7, &p[1..], k), 2 => <u8 as Part>::put(&mut v.g2, &p[1..], k), 3 => <u8 as Part>::put(&mut v.f5, &p[1..], k), 4 => <u8 as Part>::put(&mut v.g4, &p[1..], k), 5 => <u8 as Part>::put(&mut v.f3, &p[1..], k), 6 => <u8 as Part>::put(&mut v.g6, &p[1..], k), 7 => <H256 as Part>::put(&mut v.f1, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::add(&mut v.g0, &p[1..], k), 1 => <u8 as Part>::add(&mut v.f7, &p[1..], k), 2 => <u8 as Part>::add(&mut v.g2, &p[1..], k), 3 => <u8 as Part>::add(&mut v.f5, &p[1..], k), 4 => <u8 as Part>::add(&mut v.g4, &p[1..], k), 5 => <u8 as Part>::add(&mut v.f3, &p[1..], k), 6 => <u8 as Part>::add(&mut v.g6, &p[1..], k), 7 => <H256 as Part>::add(&mut v.f1, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f7.m_look(&p[1..]), 2 => self.g2.m_look(&p[1..]), 3 => self.f5.m_look(&p[1..]), 4 => self.g4.m_look(&p[1..]), 5 => self.f3.m_look(&p[1..]), 6 => self.g6.m_look(&p[1..]), 7 => self.f1.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f7.m_put(&p[1..], k), 2 => self.g2.m_put(&p[1..], k), 3 => self.f5.m_put(&p[1..], k), 4 => self.g4.m_put(&p[1..], k), 5 => self.f3.m_put(&p[1..], k), 6 => self.g6.m_put(&p[1..], k), 7 => self.f1.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f7.m_add(&p[1..], k), 2 => self.g2.m_add(&p[1..], k), 3 => self.f5.m_add(&p[1..], k), 4 => self.g4.m_add(&p[1..], k), 5 => self.f3.m_add(&p[1..], k), 6 => self.g6.m_add(&p[1..], k), 7 => self.f1.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct K9 { pub g0: u8, pub f8: u8, pub g2: u8, pub f6: u8, pub g4: u8, pub f4: u8, pub g6: u8, pub f2: u8, pub g8: u16 }
impl Le for K9 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f8.spec::<C>(), self.g2.spec::<C>(), self.f6.spec::<C>(), self.g4.spec::<C>(), self.f4.spec::<C>(), self.g6.spec::<C>(), self.f2.spec::<C>(), self.g8.spec::<C>()], None) }
	fn nth(k: u64) -> Self { K9 { g0: <u8 as Le>::nth(if k == 0 { 0 } else { k + 0 }), f8: <u8 as Le>::nth(if k == 0 { 0 } else { k + 1 }), g2: <u8 as Le>::nth(if k == 0 { 0 } else { k + 2 }), f6: <u8 as Le>::nth(if k == 0 { 0 } else { k + 3 }), g4: <u8 as Le>::nth(if k == 0 { 0 } else { k + 4 }), f4: <u8 as Le>::nth(if k == 0 { 0 } else { k + 5 }), g6: <u8 as Le>::nth(if k == 0 { 0 } else { k + 6 }), f2: <u8 as Le>::nth(if k == 0 { 0 } else { k + 7 }), g8: <u16 as Le>::nth(if k == 0 { 0 } else { k + 8 }) } }
	fn any(cx: &mut Cx) -> Self { K9 { g0: <u8 as Le>::any(cx), f8: <u8 as Le>::any(cx), g2: <u8 as Le>::any(cx), f6: <u8 as Le>::any(cx), g4: <u8 as Le>::any(cx), f4: <u8 as Le>::any(cx), g6: <u8 as Le>::any(cx), f2: <u8 as Le>::any(cx), g8: <u16 as Le>::any(cx) } }
}
impl Part for K9 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f8.spots(&[at, &[1]].concat(), out); self.g2.spots(&[at, &[2]].concat(), out); self.f6.spots(&[at, &[3]].concat(), out); self.g4.spots(&[at, &[4]].concat(), out); self.f4.spots(&[at, &[5]].concat(), out); self.g6.spots(&[at, &[6]].concat(), out); self.f2.spots(&[at, &[7]].concat(), out); self.g8.spots(&[at, &[8]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <u8 as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <u8 as Part>::look(&mut v.f8, &p[1..], fetch, raw, db), 2 => <u8 as Part>::look(&mut v.g2, &p[1..], fetch, raw, db), 3 => <u8 as Part>::look(&mut v.f6, &p[1..], fetch, raw, db), 4 => <u8 as Part>::look(&mut v.g4, &p[1..], fetch, raw, db), 5 => <u8 as Part>::look(&mut v.f4, &p[1..], fetch, raw, db), 6 => <u8 as Part>::look(&mut v.g6, &p[1..], fetch, raw, db), 7 => <u8 as Part>::look(&mut v.f2, &p[1..], fetch, raw, db), 8 => <u16 as Part>::look(&mut v.g8, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::put(&mut v.g0, &p[1..], k), 1 => <u8 as Part>::put(&mut v.f8, &p[1..], k), 2 => <u8 as Part>::put(&mut v.g2, &p[1..], k), 3 => <u8 as Part>::put(&mut v.f6, &p[1..], k), 4 => <u8 as Part>::put(&mut v.g4, &p[1..], k), 5 => <u8 as Part>::put(&mut v.f4, &p[1..], k), 6 => <u8 as Part>::put(&mut v.g6, &p[1..], k), 7 => <u8 as Part>::put(&mut v.f2, &p[1..], k), 8 => <u16 as Part>::put(&mut v.g8, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::add(&mut v.g0, &p[1..], k), 1 => <u8 as Part>::add(&mut v.f8, &p[1..], k), 2 => <u8 as Part>::add(&mut v.g2, &p[1..], k), 3 => <u8 as Part>::add(&mut v.f6, &p[1..], k), 4 => <u8 as Part>::add(&mut v.g4, &p[1..], k), 5 => <u8 as Part>::add(&mut v.f4, &p[1..], k), 6 => <u8 as Part>::add(&mut v.g6, &p[1..], k), 7 => <u8 as Part>::add(&mut v.f2, &p[1..], k), 8 => <u16 as Part>::add(&mut v.g8, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f8.m_look(&p[1..]), 2 => self.g2.m_look(&p[1..]), 3 => self.f6.m_look(&p[1..]), 4 => self.g4.m_look(&p[1..]), 5 => self.f4.m_look(&p[1..]), 6 => self.g6.m_look(&p[1..]), 7 => self.f2.m_look(&p[1..]), 8 => self.g8.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f8.m_put(&p[1..], k), 2 => self.g2.m_put(&p[1..], k), 3 => self.f6.m_put(&p[1..], k), 4 => self.g4.m_put(&p[1..], k), 5 => self.f4.m_put(&p[1..], k), 6 => self.g6.m_put(&p[1..], k), 7 => self.f2.m_put(&p[1..], k), 8 => self.g8.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f8.m_add(&p[1..], k), 2 => self.g2.m_add(&p[1..], k), 3 => self.f6.m_add(&p[1..], k), 4 => self.g4.m_add(&p[1..], k), 5 => self.f4.m_add(&p[1..], k), 6 => self.g6.m_add(&p[1..], k), 7 => self.f2.m_add(&p[1..], k), 8 => self.g8.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct M1 { pub g0: K1 }
impl Le for M1 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>()], None) }
	fn nth(k: u64) -> Self { M1 { g0: <K1 as Le>::nth(if k == 0 { 0 } else { k + 0 }) } }
	fn any(cx: &mut Cx) -> Self { M1 { g0: <K1 as Le>::any(cx) } }
}
impl Part for M1 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <K1 as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <K1 as Part>::put(&mut v.g0, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <K1 as Part>::add(&mut v.g0, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct M2 { pub g0: K2, pub f1: u8 }
impl Le for M2 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f1.spec::<C>()], None) }
	fn nth(k: u64) -> Self { M2 { g0: <K2 as Le>::nth(if k == 0 { 0 } else { k + 0 }), f1: <u8 as Le>::nth(if k == 0 { 0 } else { k + 1 }) } }
	fn any(cx: &mut Cx) -> Self { M2 { g0: <K2 as Le>::any(cx), f1: <u8 as Le>::any(cx) } }
}
impl Part for M2 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f1.spots(&[at, &[1]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <K2 as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <u8 as Part>::look(&mut v.f1, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <K2 as Part>::put(&mut v.g0, &p[1..], k), 1 => <u8 as Part>::put(&mut v.f1, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <K2 as Part>::add(&mut v.g0, &p[1..], k), 1 => <u8 as Part>::add(&mut v.f1, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f1.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f1.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f1.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct M3 { pub g0: u8, pub f2: M2, pub g2: K3 }
impl Le for M3 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f2.spec::<C>(), self.g2.spec::<C>()], None) }
	fn nth(k: u64) -> Self { M3 { g0: <u8 as Le>::nth(if k == 0 { 0 } else { k + 0 }), f2: <M2 as Le>::nth(if k == 0 { 0 } else { k + 1 }), g2: <K3 as Le>::nth(if k == 0 { 0 } else { k + 2 }) } }
	fn any(cx: &mut Cx) -> Self { M3 { g0: <u8 as Le>::any(cx), f2: <M2 as Le>::any(cx), g2: <K3 as Le>::any(cx) } }
}
impl Part for M3 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f2.spots(&[at, &[1]].concat(), out); self.g2.spots(&[at, &[2]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <u8 as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <M2 as Part>::look(&mut v.f2, &p[1..], fetch, raw, db), 2 => <K3 as Part>::look(&mut v.g2, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::put(&mut v.g0, &p[1..], k), 1 => <M2 as Part>::put(&mut v.f2, &p[1..], k), 2 => <K3 as Part>::put(&mut v.g2, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::add(&mut v.g0, &p[1..], k), 1 => <M2 as Part>::add(&mut v.f2, &p[1..], k), 2 => <K3 as Part>::add(&mut v.g2, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f2.m_look(&p[1..]), 2 => self.g2.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f2.m_put(&p[1..], k), 2 => self.g2.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f2.m_add(&p[1..], k), 2 => self.g2.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct M5 { pub g0: K2, pub f4: K1, pub g2: M1, pub f2: u16, pub g4: K5 }
impl Le for M5 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f4.spec::<C>(), self.g2.spec::<C>(), self.f2.spec::<C>(), self.g4.spec::<C>()], None) }
	fn nth(k: u64) -> Self { M5 { g0: <K2 as Le>::nth(if k == 0 { 0 } else { k + 0 }), f4: <K1 as Le>::nth(if k == 0 { 0 } else { k + 1 }), g2: <M1 as Le>::nth(if k == 0 { 0 } else { k + 2 }), f2: <u16 as Le>::nth(if k == 0 { 0 } else { k + 3 }), g4: <K5 as Le>::nth(if k == 0 { 0 } else { k + 4 }) } }
	fn any(cx: &mut Cx) -> Self { M5 { g0: <K2 as Le>::any(cx), f4: <K1 as Le>::any(cx), g2: <M1 as Le>::any(cx), f2: <u16 as Le>::any(cx), g4: <K5 as Le>::any(cx) } }
}
impl Part for M5 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f4.spots(&[at, &[1]].concat(), out); self.g2.spots(&[at, &[2]].concat(), out); self.f2.spots(&[at, &[3]].concat(), out); self.g4.spots(&[at, &[4]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <K2 as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <K1 as Part>::look(&mut v.f4, &p[1..], fetch, raw, db), 2 => <M1 as Part>::look(&mut v.g2, &p[1..], fetch, raw, db), 3 => <u16 as Part>::look(&mut v.f2, &p[1..], fetch, raw, db), 4 => <K5 as Part>::look(&mut v.g4, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <K2 as Part>::put(&mut v.g0, &p[1..], k), 1 => <K1 as Part>::put(&mut v.f4, &p[1..], k), 2 => <M1 as Part>::put(&mut v.g2, &p[1..], k), 3 => <u16 as Part>::put(&mut v.f2, &p[1..], k), 4 => <K5 as Part>::put(&mut v.g4, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <K2 as Part>::add(&mut v.g0, &p[1..], k), 1 => <K1 as Part>::add(&mut v.f4, &p[1..], k), 2 => <M1 as Part>::add(&mut v.g2, &p[1..], k), 3 => <u16 as Part>::add(&mut v.f2, &p[1..], k), 4 => <K5 as Part>::add(&mut v.g4, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f4.m_look(&p[1..]), 2 => self.g2.m_look(&p[1..]), 3 => self.f2.m_look(&p[1..]), 4 => self.g4.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f4.m_put(&p[1..], k), 2 => self.g2.m_put(&p[1..], k), 3 => self.f2.m_put(&p[1..], k), 4 => self.g4.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f4.m_add(&p[1..], k), 2 => self.g2.m_add(&p[1..], k), 3 => self.f2.m_add(&p[1..], k), 4 => self.g4.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct L1 { pub g0: LVec<u8> }
impl Le for L1 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>()], None) }
	fn nth(k: u64) -> Self { L1 { g0: <LVec<u8> as Le>::nth(if k == 0 { 0 } else { k + 0 }) } }
	fn any(cx: &mut Cx) -> Self { L1 { g0: <LVec<u8> as Le>::any(cx) } }
}
impl Part for L1 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <LVec<u8> as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <LVec<u8> as Part>::put(&mut v.g0, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <LVec<u8> as Part>::add(&mut v.g0, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct L2 { pub g0: LVec<u16>, pub f1: u8 }
impl Le for L2 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f1.spec::<C>()], None) }
	fn nth(k: u64) -> Self { L2 { g0: <LVec<u16> as Le>::nth(if k == 0 { 0 } else { k + 0 }), f1: <u8 as Le>::nth(if k == 0 { 0 } else { k + 1 }) } }
	fn any(cx: &mut Cx) -> Self { L2 { g0: <LVec<u16> as Le>::any(cx), f1: <u8 as Le>::any(cx) } }
}
impl Part for L2 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f1.spots(&[at, &[1]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <LVec<u16> as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <u8 as Part>::look(&mut v.f1, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <LVec<u16> as Part>::put(&mut v.g0, &p[1..], k), 1 => <u8 as Part>::put(&mut v.f1, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <LVec<u16> as Part>::add(&mut v.g0, &p[1..], k), 1 => <u8 as Part>::add(&mut v.f1, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f1.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f1.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f1.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct L3 { pub g0: u8, pub f2: LVec<K2>, pub g2: LVec<u64> }
impl Le for L3 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f2.spec::<C>(), self.g2.spec::<C>()], None) }
	fn nth(k: u64) -> Self { L3 { g0: <u8 as Le>::nth(if k == 0 { 0 } else { k + 0 }), f2: <LVec<K2> as Le>::nth(if k == 0 { 0 } else { k + 1 }), g2: <LVec<u64> as Le>::nth(if k == 0 { 0 } else { k + 2 }) } }
	fn any(cx: &mut Cx) -> Self { L3 { g0: <u8 as Le>::any(cx), f2: <LVec<K2> as Le>::any(cx), g2: <LVec<u64> as Le>::any(cx) } }
}
impl Part for L3 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f2.spots(&[at, &[1]].concat(), out); self.g2.spots(&[at, &[2]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <u8 as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <LVec<K2> as Part>::look(&mut v.f2, &p[1..], fetch, raw, db), 2 => <LVec<u64> as Part>::look(&mut v.g2, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::put(&mut v.g0, &p[1..], k), 1 => <LVec<K2> as Part>::put(&mut v.f2, &p[1..], k), 2 => <LVec<u64> as Part>::put(&mut v.g2, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::add(&mut v.g0, &p[1..], k), 1 => <LVec<K2> as Part>::add(&mut v.f2, &p[1..], k), 2 => <LVec<u64> as Part>::add(&mut v.g2, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f2.m_look(&p[1..]), 2 => self.g2.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f2.m_put(&p[1..], k), 2 => self.g2.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f2.m_add(&p[1..], k), 2 => self.g2.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct L4 { pub g0: LVec<LVec<u8>>, pub f1: LVec<L2> }
impl Le for L4 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f1.spec::<C>()], None) }
	fn nth(k: u64) -> Self { L4 { g0: <LVec<LVec<u8>> as Le>::nth(if k == 0 { 0 } else { k + 0 }), f1: <LVec<L2> as Le>::nth(if k == 0 { 0 } else { k + 1 }) } }
	fn any(cx: &mut Cx) -> Self { L4 { g0: <LVec<LVec<u8>> as Le>::any(cx), f1: <LVec<L2> as Le>::any(cx) } }
}
impl Part for L4 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f1.spots(&[at, &[1]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <LVec<LVec<u8>> as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <LVec<L2> as Part>::look(&mut v.f1, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <LVec<LVec<u8>> as Part>::put(&mut v.g0, &p[1..], k), 1 => <LVec<L2> as Part>::put(&mut v.f1, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <LVec<LVec<u8>> as Part>::add(&mut v.g0, &p[1..], k), 1 => <LVec<L2> as Part>::add(&mut v.f1, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f1.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f1.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f1.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct L5 { pub g0: u8, pub f4: u8, pub g2: u8, pub f2: u8, pub g4: LVec<H256> }
impl Le for L5 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f4.spec::<C>(), self.g2.spec::<C>(), self.f2.spec::<C>(), self.g4.spec::<C>()], None) }
	fn nth(k: u64) -> Self { L5 { g0: <u8 as Le>::nth(if k == 0 { 0 } else { k + 0 }), f4: <u8 as Le>::nth(if k == 0 { 0 } else { k + 1 }), g2: <u8 as Le>::nth(if k == 0 { 0 } else { k + 2 }), f2: <u8 as Le>::nth(if k == 0 { 0 } else { k + 3 }), g4: <LVec<H256> as Le>::nth(if k == 0 { 0 } else { k + 4 }) } }
	fn any(cx: &mut Cx) -> Self { L5 { g0: <u8 as Le>::any(cx), f4: <u8 as Le>::any(cx), g2: <u8 as Le>::any(cx), f2: <u8 as Le>::any(cx), g4: <LVec<H256> as Le>::any(cx) } }
}
impl Part for L5 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f4.spots(&[at, &[1]].concat(), out); self.g2.spots(&[at, &[2]].concat(), out); self.f2.spots(&[at, &[3]].concat(), out); self.g4.spots(&[at, &[4]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <u8 as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <u8 as Part>::look(&mut v.f4, &p[1..], fetch, raw, db), 2 => <u8 as Part>::look(&mut v.g2, &p[1..], fetch, raw, db), 3 => <u8 as Part>::look(&mut v.f2, &p[1..], fetch, raw, db), 4 => <LVec<H256> as Part>::look(&mut v.g4, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::put(&mut v.g0, &p[1..], k), 1 => <u8 as Part>::put(&mut v.f4, &p[1..], k), 2 => <u8 as Part>::put(&mut v.g2, &p[1..], k), 3 => <u8 as Part>::put(&mut v.f2, &p[1..], k), 4 => <LVec<H256> as Part>::put(&mut v.g4, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <u8 as Part>::add(&mut v.g0, &p[1..], k), 1 => <u8 as Part>::add(&mut v.f4, &p[1..], k), 2 => <u8 as Part>::add(&mut v.g2, &p[1..], k), 3 => <u8 as Part>::add(&mut v.f2, &p[1..], k), 4 => <LVec<H256> as Part>::add(&mut v.g4, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f4.m_look(&p[1..]), 2 => self.g2.m_look(&p[1..]), 3 => self.f2.m_look(&p[1..]), 4 => self.g4.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f4.m_put(&p[1..], k), 2 => self.g2.m_put(&p[1..], k), 3 => self.f2.m_put(&p[1..], k), 4 => self.g4.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f4.m_add(&p[1..], k), 2 => self.g2.m_add(&p[1..], k), 3 => self.f2.m_add(&p[1..], k), 4 => self.g4.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct Q3 { pub g0: Whole<Option<u8>>, pub f2: Whole<Vec<u8>>, pub g2: Whole<MaxVec<u16, U5>> }
impl Le for Q3 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f2.spec::<C>(), self.g2.spec::<C>()], None) }
	fn nth(k: u64) -> Self { Q3 { g0: <Whole<Option<u8>> as Le>::nth(if k == 0 { 0 } else { k + 0 }), f2: <Whole<Vec<u8>> as Le>::nth(if k == 0 { 0 } else { k + 1 }), g2: <Whole<MaxVec<u16, U5>> as Le>::nth(if k == 0 { 0 } else { k + 2 }) } }
	fn any(cx: &mut Cx) -> Self { Q3 { g0: <Whole<Option<u8>> as Le>::any(cx), f2: <Whole<Vec<u8>> as Le>::any(cx), g2: <Whole<MaxVec<u16, U5>> as Le>::any(cx) } }
}
impl Part for Q3 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f2.spots(&[at, &[1]].concat(), out); self.g2.spots(&[at, &[2]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <Whole<Option<u8>> as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <Whole<Vec<u8>> as Part>::look(&mut v.f2, &p[1..], fetch, raw, db), 2 => <Whole<MaxVec<u16, U5>> as Part>::look(&mut v.g2, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <Whole<Option<u8>> as Part>::put(&mut v.g0, &p[1..], k), 1 => <Whole<Vec<u8>> as Part>::put(&mut v.f2, &p[1..], k), 2 => <Whole<MaxVec<u16, U5>> as Part>::put(&mut v.g2, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <Whole<Option<u8>> as Part>::add(&mut v.g0, &p[1..], k), 1 => <Whole<Vec<u8>> as Part>::add(&mut v.f2, &p[1..], k), 2 => <Whole<MaxVec<u16, U5>> as Part>::add(&mut v.g2, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f2.m_look(&p[1..]), 2 => self.g2.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f2.m_put(&p[1..], k), 2 => self.g2.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f2.m_add(&p[1..], k), 2 => self.g2.m_add(&p[1..], k), _ => unreachable!() } }
}
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct Q2 { pub g0: LVec<Whole<H512>>, pub f1: Whole<(u8, u16)> }
impl Le for Q2 {
	fn spec<C: LeC>(&self) -> Value { spec_vec::<C>(&[self.g0.spec::<C>(), self.f1.spec::<C>()], None) }
	fn nth(k: u64) -> Self { Q2 { g0: <LVec<Whole<H512>> as Le>::nth(if k == 0 { 0 } else { k + 0 }), f1: <Whole<(u8, u16)> as Le>::nth(if k == 0 { 0 } else { k + 1 }) } }
	fn any(cx: &mut Cx) -> Self { Q2 { g0: <LVec<Whole<H512>> as Le>::any(cx), f1: <Whole<(u8, u16)> as Le>::any(cx) } }
}
impl Part for Q2 {
	fn spots(&self, at: &[usize], out: &mut Vec<Spot>) { self.g0.spots(&[at, &[0]].concat(), out); self.f1.spots(&[at, &[1]].concat(), out); }
	fn look<R: RootStatus, DB: ReadBackend>(v: &mut Self::Value, p: &[usize], fetch: bool, raw: &Raw<R, DB::Construct>, db: &mut DB) -> Result<String, Error<DB::Error>> where DB::Construct: CompatibleConstruct { match p[0] { 0 => <LVec<Whole<H512>> as Part>::look(&mut v.g0, &p[1..], fetch, raw, db), 1 => <Whole<(u8, u16)> as Part>::look(&mut v.f1, &p[1..], fetch, raw, db), _ => unreachable!() } }
	fn put(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <LVec<Whole<H512>> as Part>::put(&mut v.g0, &p[1..], k), 1 => <Whole<(u8, u16)> as Part>::put(&mut v.f1, &p[1..], k), _ => unreachable!() } }
	fn add(v: &mut Self::Value, p: &[usize], k: u64) { match p[0] { 0 => <LVec<Whole<H512>> as Part>::add(&mut v.g0, &p[1..], k), 1 => <Whole<(u8, u16)> as Part>::add(&mut v.f1, &p[1..], k), _ => unreachable!() } }
	fn m_look(&self, p: &[usize]) -> Option<String> { match p[0] { 0 => self.g0.m_look(&p[1..]), 1 => self.f1.m_look(&p[1..]), _ => unreachable!() } }
	fn m_put(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_put(&p[1..], k), 1 => self.f1.m_put(&p[1..], k), _ => unreachable!() } }
	fn m_add(&mut self, p: &[usize], k: u64) { match p[0] { 0 => self.g0.m_add(&p[1..], k), 1 => self.f1.m_add(&p[1..], k), _ => unreachable!() } }
}
