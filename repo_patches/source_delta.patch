From 274d0f61806e97b3dd97de4c5a9f9de95aa7ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 01/14] fix: record the children of a node already known as a
 child or a root

InMemoryBackend::insert ignored a node whose key was already present without
children (because a parent was inserted first, it was held as a root, or a
proof was populated). The node then stayed unreadable, and writes below it
silently produced a wrong root.
---
 src/memory.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index 5e20b53..96d3aeb 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -258,7 +258,7 @@ impl<C: Construct> WriteBackend for InMemoryBackend<C> where
 		key: C::Value,
 		value: (C::Value, C::Value)
 	) -> Result<(), Self::Error> {
-		if self.0.contains_key(&key) {
+		if self.0.get(&key).map(|v| v.0.is_some()).unwrap_or(false) {
 			return Ok(())
 		}
 
@@ -269,7 +269,7 @@ impl<C: Construct> WriteBackend for InMemoryBackend<C> where
 		self.0.entry(right.clone()).or_insert((None, Some(0))).1
 			.as_mut().map(|v| *v += 1);
 
-		self.0.insert(key, (Some((left, right)), Some(0)));
+		self.0.entry(key).or_insert((None, Some(0))).0 = Some((left, right));
 		Ok(())
 	}
 }
-- 
2.43.0


From 106a35660c6a02cfb39d1ff78d20acfb7192c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 02/14] fix: allow creating bounded vectors and lists that are
 not full

The length check in Vector::create was inverted: creating any list with a
maximum length failed, while a vector longer than its maximum was accepted.
---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index 08fcab1..2db43f9 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -234,7 +234,7 @@ impl<C: Construct> Vector<Owned, C> {
 		max_len: Option<u64>
 	) -> Result<Self, Error<DB::Error>> {
 		if let Some(max_len) = max_len {
-			if (len as u64) < max_len || max_len == 0 {
+			if (len as u64) > max_len || max_len == 0 {
 				return Err(Error::InvalidParameter)
 			}
 		}
-- 
2.43.0


From 6b374b533fbb6b43963c535ed98a1fb6407d9b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 03/14] fix: keep the other values of a shared host when
 popping a packed vector

PackedVector::pop cleared the whole last host and restored only one value,
so all other values packed into the same host became zero.
---
 src/packed.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/packed.rs b/src/packed.rs
index 506bd61..5a1b2d2 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -102,22 +102,11 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 		let index = self.len - 1;
 		let ret = self.get(db, index)?;
 
-		if self.len == 1 {
-			while self.tuple.len() > 0 {
-				self.tuple.pop(db)?;
-			}
-		} else {
-			let last_index = index - 1;
-
-			let (covering_base, covering_ranges) = coverings::<H, V>(last_index);
-			while self.tuple.len() > covering_base + covering_ranges.len() {
-				self.tuple.pop(db)?;
-			}
-
-			let last_value = self.get(db, last_index)?;
+		// Clear the popped value, as its first host may be shared with
+		// remaining values, then remove the hosts that are no longer used.
+		self.set(db, index, GenericArray::<u8, V>::default().into())?;
+		while self.tuple.len() > host_len::<H, V>(index) {
 			self.tuple.pop(db)?;
-			self.tuple.push(db, Default::default())?;
-			self.set(db, last_index, last_value)?;
 		}
 
 		self.len -= 1;
-- 
2.43.0


From 6e0515572843702383a4297b7b4a66ea958e2216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 04/14] fix: check packed vector bounds at the level of values

PackedVector only checked bounds at the level of hosts, so values beyond the
length could be read and written in the padding of the last host, and a
packed list could grow beyond its maximum length.
---
 src/packed.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/packed.rs b/src/packed.rs
index 5a1b2d2..acd2058 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -51,6 +51,10 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 {
 	/// Get value at index.
 	pub fn get<DB: ReadBackend<Construct=C> + ?Sized>(&self, db: &mut DB, index: usize) -> Result<T, Error<DB::Error>> {
+		if index >= self.len {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let mut ret = GenericArray::<u8, V>::default();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
@@ -66,6 +70,14 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 
 	/// Set value at index.
 	pub fn set<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
+		if index >= self.len {
+			return Err(Error::AccessOverflowed)
+		}
+
+		self.set_covered(db, index, value)
+	}
+
+	fn set_covered<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
 		let value: GenericArray<u8, V> = value.into();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
@@ -83,12 +95,15 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 	/// Push a new value to the tuple.
 	pub fn push<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, value: T) -> Result<(), Error<DB::Error>> {
 		let index = self.len;
+		if self.max_len.map(|max_len| index as u64 >= max_len).unwrap_or(false) {
+			return Err(Error::AccessOverflowed)
+		}
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
 		while self.tuple.len() < covering_base + covering_ranges.len() {
 			self.tuple.push(db, Default::default())?;
 		}
-		self.set(db, index, value)?;
+		self.set_covered(db, index, value)?;
 		self.len += 1;
 		Ok(())
 	}
@@ -184,6 +199,10 @@ impl<C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> PackedVector<Owned
 {
 	/// Create a new tuple.
 	pub fn create<DB: WriteBackend<Construct=C> + ?Sized>(db: &mut DB, value_len: usize, value_max_len: Option<u64>) -> Result<Self, Error<DB::Error>> {
+		if value_max_len.map(|l| value_len as u64 > l).unwrap_or(false) {
+			return Err(Error::InvalidParameter)
+		}
+
 		let host_max_len = value_max_len.map(|l| host_max_len::<H, V>(l));
 		let host_len = host_len::<H, V>(value_len);
 
-- 
2.43.0


From b9b4461f6e9202b39a30c7ccb04e046af158ec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 05/14] fix: decode all 64 bytes of H512

H512::from_tree decoded 32 bytes and then always panicked.
---
 le/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/le/src/fixed.rs b/le/src/fixed.rs
index b932c2b..bda7c0a 100644
--- a/le/src/fixed.rs
+++ b/le/src/fixed.rs
@@ -107,7 +107,7 @@ impl FromTree for H512 {
 	fn from_tree<DB: ReadBackend>(root: &<DB::Construct as Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct,
 	{
-		let value = ElementalFixedVec::<u8>::from_compact_vector_tree(root, db, 32, None)?;
+		let value = ElementalFixedVec::<u8>::from_compact_vector_tree(root, db, 64, None)?;
 		Ok(Self::from_slice(value.0.as_ref()))
 	}
 }
-- 
2.43.0


From 414217f5182cad73f2ad2d7e06798774324cd4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 06/14] fix: decode compact U256 vectors as little endian

They are encoded as little endian, but were decoded as big endian.
---
 le/src/elemental_fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/le/src/elemental_fixed.rs b/le/src/elemental_fixed.rs
index 4cfc61a..28b2a7c 100644
--- a/le/src/elemental_fixed.rs
+++ b/le/src/elemental_fixed.rs
@@ -161,7 +161,7 @@ impl FromCompactVectorTree for ElementalFixedVec<U256> {
 		let mut ret = Vec::new();
 		for i in 0..len {
 			let value = vector.get(db, i)?;
-			ret.push(U256::from(value.as_ref()));
+			ret.push(U256::from_little_endian(value.as_ref()));
 		}
 
 		Ok(Self(ret))
-- 
2.43.0


From 6c14dbde8d56ecac9555e7426575a8f1d13545d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 07/14] fix: refuse to merkleize more values than the maximum
 length

Values beyond the maximum were silently dropped, so that different values got
the same merkle root.
---
 le/src/elemental_variable.rs | 10 ++++++++++
 src/utils.rs                 |  6 +++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/le/src/elemental_variable.rs b/le/src/elemental_variable.rs
index 857274e..ad63abd 100644
--- a/le/src/elemental_variable.rs
+++ b/le/src/elemental_variable.rs
@@ -62,6 +62,14 @@ pub struct ElementalVariableVecRef<'a, T>(pub &'a [T]);
 /// Variable `Vec` value. In `ssz`'s definition, this is a "list".
 pub struct ElementalVariableVec<T>(pub Vec<T>);
 
+fn check_max_len<DBError>(len: usize, max_len: Option<u64>) -> Result<(), Error<DBError>> {
+	if max_len.map(|max_len| len as u64 > max_len).unwrap_or(false) {
+		Err(Error::InvalidParameter)
+	} else {
+		Ok(())
+	}
+}
+
 macro_rules! impl_packed {
 	( $t:ty ) => {
 		impl<'a> IntoCompactListTree for ElementalVariableVecRef<'a, $t> {
@@ -73,6 +81,7 @@ macro_rules! impl_packed {
 				DB::Construct: CompatibleConstruct,
 			{
 				let len = self.0.len();
+				check_max_len(len, max_len)?;
 
 				mix_in_length(&ElementalFixedVecRef(&self.0).into_compact_vector_tree(db, max_len)?,
 							  db, len)
@@ -100,6 +109,7 @@ impl<'a, T> IntoCompositeListTree for ElementalVariableVecRef<'a, T> where
 		DB::Construct: CompatibleConstruct,
 	{
 		let len = self.0.len();
+		check_max_len(len, max_len)?;
 
 		mix_in_length(&ElementalFixedVecRef(&self.0).into_composite_vector_tree(db, max_len)?,
 					  db, len)
diff --git a/src/utils.rs b/src/utils.rs
index 575efd5..da5c0e1 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -17,7 +17,11 @@ pub fn required_depth(len: u64) -> usize {
 
 /// Serialize a vector at given depth.
 pub fn vector_tree<DB: WriteBackend>(values: &[<DB::Construct as Construct>::Value], db: &mut DB, max_len: Option<u64>) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> {
-	let total_depth = required_depth(max_len.unwrap_or(values.len() as u64));
+	let max_len = max_len.unwrap_or(values.len() as u64);
+	if values.len() as u64 > max_len {
+		return Err(Error::InvalidParameter)
+	}
+	let total_depth = required_depth(max_len);
 
 	let mut current = values.iter().cloned().collect::<VecDeque<_>>();
 	let mut next = VecDeque::new();
-- 
2.43.0


From 4979844feb6f0fdb8cd1966af0fc135822a5fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 08/14] fix: reject list trees whose length exceeds the maximum
 or is not addressable

A recorded length above the maximum was accepted, reading elements from
unrelated nodes or padding. A recorded length above 2^63 panicked with an
arithmetic overflow (or looped forever without overflow checks).
---
 le/src/elemental_variable.rs |  5 +++++
 src/list.rs                  |  4 ++++
 src/utils.rs                 | 10 +++++-----
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/le/src/elemental_variable.rs b/le/src/elemental_variable.rs
index ad63abd..5d99e9f 100644
--- a/le/src/elemental_variable.rs
+++ b/le/src/elemental_variable.rs
@@ -127,6 +127,11 @@ fn from_list_tree<T, F, DB: ReadBackend>(
 {
 	let (vector_root, len) = decode_with_length::<<DB::Construct as Construct>::Value, _>(root, db)?;
 
+	// Longer lists are either not allowed, or not addressable by an index.
+	if len as u64 > max_len.unwrap_or(1 << 63) {
+		return Err(Error::CorruptedDatabase)
+	}
+
 	let vector = f(
 		&vector_root, db, len, max_len
 	)?;
diff --git a/src/list.rs b/src/list.rs
index abcee0f..8615064 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -43,6 +43,10 @@ impl<R: RootStatus, C: Construct> List<R, C> where
 	/// Reconstruct the vector from a single hash value.
 	pub fn reconstruct<DB: WriteBackend<Construct=C> + ?Sized>(root: C::Value, db: &mut DB, max_len: Option<u64>) -> Result<Self, Error<DB::Error>> {
 		Ok(Self(LengthMixed::reconstruct(root, db, |tuple_raw, _db, len| {
+			// Longer lists are either not allowed, or not addressable by an index.
+			if len as u64 > max_len.unwrap_or(1 << 63) {
+				return Err(Error::CorruptedDatabase)
+			}
 			Ok(Vector::<Dangling, C>::from_raw(tuple_raw, len, max_len))
 		})?))
 	}
diff --git a/src/utils.rs b/src/utils.rs
index da5c0e1..4b74e77 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -49,14 +49,14 @@ pub fn vector_tree<DB: WriteBackend>(values: &[<DB::Construct as Construct>::Val
 
 /// Get the host len of a packed vector.
 pub fn host_max_len<Host: ArrayLength<u8>, Value: ArrayLength<u8>>(value_len: u64) -> u64 {
-	let host_array_len = Host::to_u64();
-	let value_array_len = Value::to_u64();
+	let host_array_len = Host::to_u64() as u128;
+	let value_array_len = Value::to_u64() as u128;
 
-	let bytes = value_array_len * value_len;
+	let bytes = value_array_len * value_len as u128;
 	if bytes % host_array_len == 0 {
-		bytes / host_array_len
+		(bytes / host_array_len) as u64
 	} else {
-		bytes / host_array_len + 1
+		(bytes / host_array_len + 1) as u64
 	}
 }
 
-- 
2.43.0


From 9654b3de1c11fde1e3c87d935490f0f352afaf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 09/14] fix: resolve partial list indices below the element
 tree of the list

The elements of a list are in the left child of its root, the right one being
the length. Also report positions beyond the end of the list, which otherwise
resolve to unrelated nodes.
---
 le/src/partial.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 870556e..b790f35 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -71,17 +71,19 @@ impl PartialIndex {
 			None => Index::root(),
 		};
 
-		let (index, len) = match self.sub {
+		let (parent, index, len) = match self.sub {
 			PartialSubIndex::Raw(raw) => return Ok(parent.sub(raw)),
-			PartialSubIndex::Vector(index, len) => (index, len),
+			PartialSubIndex::Vector(index, len) => (parent, index, len),
 			PartialSubIndex::List(index) => {
 				let len_root = raw.get(db, parent.right())?.ok_or(Error::CorruptedDatabase)?;
 				let len = U256::from_tree(&len_root, db)?;
 
 				if len > U256::from(usize::max_value()) {
 					return Err(Error::CorruptedDatabase)
+				} else if len <= U256::from(index) {
+					return Err(Error::AccessOverflowed)
 				} else {
-					(index, len.as_usize())
+					(parent.left(), index, len.as_usize())
 				}
 			},
 		};
-- 
2.43.0


From 0c5e843cd0cfee916697f2cb17c86f029bd1bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 10/14] fix: write pushed values of a partial list back into
 the tree

PartialVec::flush pushed to a list reconstructed from the root of the whole
tree instead of the one at its own index, and then dropped the result.
---
 le/src/partial.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index b790f35..4fdedd5 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -217,13 +217,20 @@ impl<T: Partialable + IntoTree> PartialItem for PartialVec<T> {
 			value.flush(raw, db)?;
 		}
 
+		if self.pushed.is_empty() {
+			return Ok(())
+		}
+
 		let mut pushed = Vec::default();
 		mem::swap(&mut pushed, &mut self.pushed);
-		let mut list = DanglingList::reconstruct(raw.root(), db, None)?;
+		let index = self.index.resolve(raw, db)?;
+		let list_root = raw.get(db, index)?.ok_or(Error::CorruptedDatabase)?;
+		let mut list = DanglingList::reconstruct(list_root, db, None)?;
 		for value in pushed {
 			let value_root = value.into_tree(db)?;
 			list.push(db, value_root)?;
 		}
+		raw.set(db, index, list.root())?;
 
 		Ok(())
 	}
-- 
2.43.0


From d850f23119ec76b536ae87ab1f853bdcea7c3916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 11/14] fix: do not leave unreferenced nodes behind when an
 unbounded list grows or shrinks

Growing inserted a temporary parent and shrinking a temporary emptied
right half while the old root was replaced, neither of which was ever
released when the list was dropped.
---
 src/vector.rs | 85 ++++++++++++++++++++++++++-------------------------
 1 file changed, 44 insertions(+), 41 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 2db43f9..b90ff47 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -4,7 +4,6 @@ use crate::index::Index;
 
 const ROOT_INDEX: Index = Index::root();
 const EXTEND_INDEX: Index = Index::root().left();
-const EMPTY_INDEX: Index = Index::root().right();
 
 /// `Vector` with owned root.
 pub type OwnedVector<C> = Vector<Owned, C>;
@@ -26,27 +25,35 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 
 	fn extend<DB: WriteBackend<Construct=C> + ?Sized>(
 		&mut self,
-		db: &mut DB
+		db: &mut DB,
+		value: C::Value
 	) -> Result<(), Error<DB::Error>> {
-		let root = self.root();
-		let mut new_raw = Raw::default();
-		let empty = C::empty_at(db, self.depth())?;
-		new_raw.set(db, EXTEND_INDEX, root)?;
-		new_raw.set(db, EMPTY_INDEX, empty)?;
-		self.raw.set(db, ROOT_INDEX, Default::default())?;
-		self.raw = new_raw;
-		Ok(())
+		// Build the new right half with the value in its first position
+		// directly, so that a dangling root leaves no temporary nodes behind.
+		let mut right = value;
+		for depth_to_bottom in 0..self.depth() {
+			let empty = C::empty_at(db, depth_to_bottom)?;
+			let key = C::intermediate_of(&right, &empty);
+			db.insert(key.clone(), (right, empty))?;
+			right = key;
+		}
+
+		let left = self.root();
+		let root = C::intermediate_of(&left, &right);
+		db.insert(root.clone(), (left, right))?;
+		self.raw.set(db, ROOT_INDEX, root)
 	}
 
 	fn shrink<DB: WriteBackend<Construct=C> + ?Sized>(
 		&mut self,
 		db: &mut DB
 	) -> Result<(), Error<DB::Error>> {
-		match self.raw.get(db, EXTEND_INDEX)? {
-			Some(extended_value) => { self.raw.set(db, ROOT_INDEX, extended_value)?; },
-			None => { self.raw.set(db, ROOT_INDEX, Default::default())?; },
-		}
-		Ok(())
+		let root = if self.depth() == 0 {
+			Default::default()
+		} else {
+			self.raw.get(db, EXTEND_INDEX)?.ok_or(Error::CorruptedDatabase)?
+		};
+		self.raw.set(db, ROOT_INDEX, root)
 	}
 
 	/// Current maximum length of the vector.
@@ -112,20 +119,18 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		db: &mut DB,
 		value: C::Value
 	) -> Result<(), Error<DB::Error>> {
-		let old_len = self.len();
-		if (old_len as u64) == self.current_max_len() {
+		let index = self.len();
+		if (index as u64) == self.current_max_len() {
 			if self.max_len.is_some() {
 				return Err(Error::AccessOverflowed)
 			} else {
-				self.extend(db)?;
+				self.extend(db, value)?;
 			}
+		} else {
+			let raw_index = self.raw_index(index);
+			self.raw.set(db, raw_index, value)?;
 		}
-		let len = old_len + 1;
-		let index = old_len;
-		self.len = len;
-
-		let raw_index = self.raw_index(index);
-		self.raw.set(db, raw_index, value)?;
+		self.len = index + 1;
 		Ok(())
 	}
 
@@ -144,27 +149,25 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		let raw_index = self.raw_index(index);
 		let value = self.raw.get(db, raw_index)?.ok_or(Error::CorruptedDatabase)?;
 
-		let mut empty_depth_to_bottom = 0;
-		let mut replace_index = raw_index;
-		loop {
-			if let Some(parent) = replace_index.parent() {
-				if parent.left() == replace_index {
-					replace_index = parent;
-					empty_depth_to_bottom += 1;
+		if self.max_len.is_none() && (len as u64) <= self.current_max_len() / 2 {
+			self.shrink(db)?;
+		} else {
+			let mut empty_depth_to_bottom = 0;
+			let mut replace_index = raw_index;
+			loop {
+				if let Some(parent) = replace_index.parent() {
+					if parent.left() == replace_index {
+						replace_index = parent;
+						empty_depth_to_bottom += 1;
+					} else {
+						break
+					}
 				} else {
 					break
 				}
-			} else {
-				break
-			}
-		}
-		let empty = C::empty_at(db, empty_depth_to_bottom)?;
-		self.raw.set(db, replace_index, empty)?;
-
-		if (len as u64) <= self.current_max_len() / 2 {
-			if self.max_len.is_none() {
-				self.shrink(db)?;
 			}
+			let empty = C::empty_at(db, empty_depth_to_bottom)?;
+			self.raw.set(db, replace_index, empty)?;
 		}
 		self.len = len;
 		Ok(Some(value))
-- 
2.43.0


From c8b2b6d620bd2e7b105d2cc8b763a613cd0edfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:09 +0000
Subject: [PATCH 12/14] fix: recorded list lengths beyond usize are not
 truncated to a small length

A list tree with a recorded length of 2^64 + n was taken to have length n
by List::reconstruct, and refused by from_tree.
---
 le/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/le/src/lib.rs b/le/src/lib.rs
index 378da09..88e07a0 100644
--- a/le/src/lib.rs
+++ b/le/src/lib.rs
@@ -6,6 +6,8 @@
 
 extern crate alloc;
 
+use core::mem;
+
 #[cfg(feature = "serde")]
 use serde::{Serialize, Deserialize};
 use typenum::U32;
@@ -76,6 +78,11 @@ impl From<usize> for Value {
 
 impl Into<usize> for Value {
 	fn into(self) -> usize {
+		// Values too large for usize saturate, rather than becoming some
+		// unrelated small number.
+		if self.0[mem::size_of::<usize>()..].iter().any(|b| *b != 0) {
+			return usize::max_value()
+		}
 		let mut raw = [0u8; 8];
 		(&mut raw).copy_from_slice(&self.0[0..8]);
 		u64::from_le_bytes(raw) as usize
-- 
2.43.0


From f29799e19e03e331ef0f55830344059b5a923e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 13/14] fix: reject partial list positions that no index can
 address

---
 le/src/partial.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 4fdedd5..860dc23 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -1,4 +1,4 @@
-use bm::{Index, Error, ReadBackend, RootStatus, Raw, DanglingList, Tree, WriteBackend};
+use bm::{Index, IndexRoute, Error, ReadBackend, RootStatus, Raw, DanglingList, Tree, WriteBackend};
 use primitive_types::{U256, H256};
 use core::mem;
 #[cfg(not(feature = "std"))]
@@ -25,6 +25,13 @@ pub enum PartialSubIndex {
 	Vector(usize, usize),
 }
 
+fn depth_of(index: Index) -> usize {
+	match index.route() {
+		IndexRoute::Root => 0,
+		IndexRoute::Select(selections) => selections.len(),
+	}
+}
+
 impl PartialIndex {
 	/// Partial index from root.
 	pub fn root() -> Self {
@@ -75,6 +82,9 @@ impl PartialIndex {
 			PartialSubIndex::Raw(raw) => return Ok(parent.sub(raw)),
 			PartialSubIndex::Vector(index, len) => (parent, index, len),
 			PartialSubIndex::List(index) => {
+				if depth_of(parent) + 1 >= mem::size_of::<usize>() * 8 {
+					return Err(Error::CorruptedDatabase)
+				}
 				let len_root = raw.get(db, parent.right())?.ok_or(Error::CorruptedDatabase)?;
 				let len = U256::from_tree(&len_root, db)?;
 
@@ -88,12 +98,15 @@ impl PartialIndex {
 			},
 		};
 
-		let mut max_len = 1;
+		let mut max_len = 1usize;
 		let mut depth = 0;
 		while max_len < len {
-			max_len *= 2;
+			max_len = max_len.checked_mul(2).ok_or(Error::CorruptedDatabase)?;
 			depth += 1;
 		}
+		if depth_of(parent) + depth >= mem::size_of::<usize>() * 8 {
+			return Err(Error::CorruptedDatabase)
+		}
 		let sub = Index::from_one((1 << depth) + index).expect("
 		  result is greater or equal to 1;
 		  Index::from_one always return Some; qed");
-- 
2.43.0


From 34b5d51e8dc66653ef916fc4d73fe9e53cd3d7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 14/14] fix: flush the elements of a partial list in a fixed
 order

---
 le/src/partial.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 860dc23..b312ddb 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -1,10 +1,8 @@
 use bm::{Index, IndexRoute, Error, ReadBackend, RootStatus, Raw, DanglingList, Tree, WriteBackend};
 use primitive_types::{U256, H256};
 use core::mem;
-#[cfg(not(feature = "std"))]
+// Ordered, so that flushing accesses the database in a fixed order.
 use alloc::collections::BTreeMap as Map;
-#[cfg(feature = "std")]
-use std::collections::HashMap as Map;
 use crate::{FromTree, IntoTree, CompatibleConstruct};
 
 /// Partial index for le binary tree.
-- 
2.43.0

