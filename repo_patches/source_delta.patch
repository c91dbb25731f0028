From 508cf2d3f99ffaf917b4632f43c2c3f1e7722ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:32 +0000
Subject: [PATCH 01/23] fix: make nth() of the state and channel iterators
 return the nth id

---
 client/rust/src/contract/properties/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/rust/src/contract/properties/mod.rs b/client/rust/src/contract/properties/mod.rs
index 4e7a0d7..83064c7 100644
--- a/client/rust/src/contract/properties/mod.rs
+++ b/client/rust/src/contract/properties/mod.rs
@@ -37,17 +37,17 @@ macro_rules! prop_iter {
 
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
                 let n_fields = S::enumerate_types().len();
-                let new_pos = self.pos + n;
+                let new_pos = self.pos.saturating_add(n);
                 if new_pos >= n_fields {
                     self.pos = n_fields;
                     return None;
                 }
                 let prop_type = S::enumerate_types()
-                    .get(self.pos)
+                    .get(new_pos)
                     .copied()
                     .expect("Should be impossible to be `None`");
-                self.pos += 1; // also discard the element at the new position
-                Some($dyn_name::new(self.contract, self.pos, prop_type))
+                self.pos = new_pos + 1; // also discard the element at the new position
+                Some($dyn_name::new(self.contract, new_pos, prop_type))
             }
         }
     };
-- 
2.43.0


From 260843af3d7866687d38c2f8b77f05b49b84817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:32 +0000
Subject: [PATCH 02/23] fix: remove an object's fields and its contract entry
 along with it

object_remove took the object out of the baseline before looking its states
and channels up through it, so every removal of an object with fields failed,
leaked the fields and left the object listed in its contract; unregistering
such a contract panicked. It also accepted a contract type other than the
object's own.
---
 client/rust/src/baseline.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index 09f749d..d25646b 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -191,15 +191,19 @@ impl Baseline {
     }
 
     pub fn object_remove<C: Contract>(&mut self, obj: ObjectHandle) -> Result<()> {
-        let o = if let Some(o) = self.objects.remove(obj) {
-            o
+        let contract = if let Some(o) = self.objects.get(obj) {
+            o.contract()
         } else {
             return Err(eyre!("Object did not exist, so it could not be removed"));
         };
+        if self.contract_data(contract)?.id() != C::ID {
+            return Err(eyre!("Object did not match the provided contract type!"));
+        }
 
-        // remove all fields of the object
-        let states = StatesIter::<C::States>::new(o.contract());
-        let channels = ChannelsIter::<C::Channels>::new(o.contract());
+        // remove all fields of the object. The object itself has to stay around
+        // until its fields are gone, since they are found through it
+        let states = StatesIter::<C::States>::new(contract);
+        let channels = ChannelsIter::<C::Channels>::new(contract);
 
         for s in states {
             apply_to_state_id!(s, |id| {
@@ -221,6 +225,10 @@ impl Baseline {
             })?;
         }
 
+        self.objects.remove(obj);
+        if let Some(c_data) = self.contracts.get_mut(contract) {
+            c_data.objects_mut().remove(&obj);
+        }
         Ok(())
     }
 
-- 
2.43.0


From 1a470d9076244578e57bf945ec64635525d1105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:32 +0000
Subject: [PATCH 03/23] fix: reject object_create with a handle of another
 contract type

A contract registered in another baseline can carry the handle of a different
contract here; its objects would be filed under that contract with fields it
does not have.
---
 client/rust/src/baseline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index d25646b..de03e46 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -131,6 +131,9 @@ impl Baseline {
         if !self.contracts.contains(contract.handle()) {
             return Err(eyre!("No such contract for that handle"));
         }
+        if self.contract_data(contract.handle())?.id() != C::ID {
+            return Err(eyre!("Handle did not match the provided contract type!"));
+        }
 
         let state_types = C::States::enumerate_types();
         let channel_types = C::Channels::enumerate_types();
-- 
2.43.0


From 88e4fbcf46327f82bb17bbd938582d2ead356d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 04/23] fix: apply state writes instead of panicking

StateAction::Write was left as todo!(), so any collaction with a write brought
the engine down.
---
 client/rust/src/engine.rs | 50 +++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/client/rust/src/engine.rs b/client/rust/src/engine.rs
index b118553..ac91f47 100644
--- a/client/rust/src/engine.rs
+++ b/client/rust/src/engine.rs
@@ -1,6 +1,11 @@
 use crate::action::property::{PropertyAction, StateAction};
 use crate::action::{Action, ActionKind, ActionResult, Collaction, CollactionResult, IAction};
 use crate::baseline::BaselineKind;
+use crate::contract::properties::dynamic::{DynTpPrimitive, DynTpProperty, DynTpVec};
+use crate::contract::properties::primitives;
+use crate::contract::properties::states::dyn_handle::{
+    DynStateHandle, DynStateHandlePrimitive, DynStateHandleVec,
+};
 use crate::realm::Realm;
 use crate::time::Ticks;
 
@@ -118,23 +123,44 @@ impl Engine {
                     }
                     StateAction::Write { handle, data } => {
                         // Get data from the Action and apply it to the BaselineFork.
-                        let state = self
-                            .realm_mut()
-                            .baseline_mut(BaselineKind::Fork)
-                            .state_mut(*handle)
-                            .wrap_err("Invalid Handle")?;
-
-                        // Sanity check that all types remain the same
-                        debug_assert!(state.0.prop_type() == data.prop_type());
-                        // TODO[SER-272]: handle DynTpProperty<DynTpData> and DynTpData in general
+                        let baseline = self.realm_mut().baseline_mut(BaselineKind::Fork);
 
                         // Swap the current value with the new data.
                         // This optimizes applying the Action and allows
                         // for its simple reversal if needed.
+                        macro_rules! swap_helper {
+                            ($handle:ident, $handle_type:ident, $data:ident, $data_type:ident, $($variant:ident),+ $(,)?) => {
+                                match ($handle, $data) {
+                                    $(
+                                        ($handle_type::$variant(handle), $data_type::$variant(data)) => {
+                                            let state = baseline
+                                                .state_mut(*handle)
+                                                .wrap_err("Invalid Handle")?;
+                                            std::mem::swap(&mut state.value, data);
+                                            Ok(())
+                                        }
+                                    )+
+                                    _ => Err(eyre!("Data did not match the type of the state!")),
+                                }
+                            };
+                        }
 
-                        // TODO: hard ;(
-                        //mem::swap(&mut state.value, data);
-                        todo!("Figure out how to swap")
+                        match (handle, data) {
+                            (DynStateHandle::Primitive(h), DynTpProperty::Primitive(d)) => {
+                                primitives!(
+                                    idents,
+                                    swap_helper,
+                                    h,
+                                    DynStateHandlePrimitive,
+                                    d,
+                                    DynTpPrimitive
+                                )
+                            }
+                            (DynStateHandle::Vec(h), DynTpProperty::Vec(d)) => {
+                                primitives!(idents, swap_helper, h, DynStateHandleVec, d, DynTpVec)
+                            }
+                            _ => Err(eyre!("Data did not match the type of the state!")),
+                        }
                     }
                 }
             }
-- 
2.43.0


From efcbb4385f3a8f29896d591624af6b488661f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 05/23] fix: don't reverse the action a collaction failed on

Reversing means applying again, so a write through an invalid handle failed
once more and panicked instead of rejecting the collaction.
---
 client/rust/src/engine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/engine.rs b/client/rust/src/engine.rs
index ac91f47..480ccdd 100644
--- a/client/rust/src/engine.rs
+++ b/client/rust/src/engine.rs
@@ -90,8 +90,8 @@ impl Engine {
                     applied_actions.push(action);
                 }
                 Err(_) => {
-                    // Reverse previously-applied Actions within this Collaction.
-                    applied_actions.push(action);
+                    // Reverse previously-applied Actions within this Collaction. The
+                    // failed Action had no effect, so it is not one of them.
                     // Go in FIFO order
                     self.reverse_actions(applied_actions.into_iter().rev());
 
-- 
2.43.0


From 6a2104569cb025c624aa703ceaf98fee1a1c7851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 06/23] fix: saturate when scaling ticks

Addition and subtraction of ticks saturate, but a scaled time beyond the range
of an i32 wrapped around, throwing it to the other end of the timeline.
---
 client/rust/src/time/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/rust/src/time/mod.rs b/client/rust/src/time/mod.rs
index 1dc0a01..8e5769b 100644
--- a/client/rust/src/time/mod.rs
+++ b/client/rust/src/time/mod.rs
@@ -57,7 +57,7 @@ impl Mul<TimeScale> for Ticks {
         let mut val = self.0 as i64;
         val *= other.numerator_as_i64();
         val >>= TimeScale::denominator_as_log2();
-        Self(val as i32)
+        Self(val.clamp(i32::MIN.into(), i32::MAX.into()) as i32)
     }
 }
 
-- 
2.43.0


From bec1b0823a9c2f2a1840cc4ac3277475efd669e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 07/23] fix: convert ticks to seconds by ticks_per_second()

as_secs() and as_secs_f32() divided by 1024, the denominator of TimeScale,
although there are 1000 ticks in a second.
---
 client/rust/src/time/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/time/mod.rs b/client/rust/src/time/mod.rs
index 8e5769b..0b0234b 100644
--- a/client/rust/src/time/mod.rs
+++ b/client/rust/src/time/mod.rs
@@ -26,11 +26,11 @@ impl Ticks {
     /// The return value of this function truncates the actual `seconds` value.
     /// Use `Time.as_secs_f32()` for more precision.
     pub fn as_secs(&self) -> i32 {
-        self.0 >> 10 // normalize scalar factor (1024 denominator)
+        self.0 / Self::ticks_per_second()
     }
 
     pub fn as_secs_f32(&self) -> f32 {
-        (self.0 as f32) / 1024.0
+        (self.0 as f32) / (Self::ticks_per_second() as f32)
     }
 }
 
-- 
2.43.0


From ce224442f969dbb162645d446715a62edc2180c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 08/23] fix: tween integers downwards and across their whole
 range

The difference was computed in the integer type itself and cast to u32, so a
descending tween never moved, and tweens spanning more than half of a type's
range panicked.
---
 .../src/contract/properties/channels/misc.rs     | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/misc.rs b/client/rust/src/contract/properties/channels/misc.rs
index 520a0d0..8eeb9c8 100644
--- a/client/rust/src/contract/properties/channels/misc.rs
+++ b/client/rust/src/contract/properties/channels/misc.rs
@@ -25,9 +25,19 @@ impl<T: keyframe::num_traits::PrimInt + AsPrimitive<f32> + FromPrimitive> CanTwe
     for IntTweenable<T>
 {
     fn ease(mut from: Self, to: Self, time: impl Float) -> Self {
-        let diff: f32 = (to.0 - from.0).as_();
-        let scaled_diff: u32 = (time.to_f32().unwrap() * diff) as _;
-        from.0 = from.0 + FromPrimitive::from_u32(scaled_diff).unwrap();
+        if time.is_one() {
+            return to;
+        }
+        // Widen, so that neither the difference nor its direction gets lost
+        let start = from.0.to_i128().unwrap();
+        let diff = to.0.to_i128().unwrap() - start;
+        let scaled_diff = (time.to_f64().unwrap() * diff as f64) as i128;
+        // Easing functions may overshoot, but not past what a `T` can hold
+        from.0 = T::from_i128(start.saturating_add(scaled_diff)).unwrap_or(if scaled_diff < 0 {
+            T::min_value()
+        } else {
+            T::max_value()
+        });
         from
     }
 }
-- 
2.43.0


From e6f9e0b8f9c991ead64cb34f75f869773aefa830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 09/23] fix: keep keyframes in order when one has no valid time

Comparing a NaN time as equal to every other time is not a consistent order,
and left the other keyframes unsorted.
---
 client/rust/src/contract/properties/channels/channel.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/channel.rs b/client/rust/src/contract/properties/channels/channel.rs
index d70efce..cd4fa4b 100644
--- a/client/rust/src/contract/properties/channels/channel.rs
+++ b/client/rust/src/contract/properties/channels/channel.rs
@@ -26,11 +26,7 @@ impl<T: ITpProperty> Channel<T> {
     pub fn new(keyframes: impl Iterator<Item = Keyframe<T>>) -> Self {
         let mut keyframes: Vec<_> = keyframes.collect();
         // Sort keyframes by time
-        keyframes.sort_unstable_by(|a, b| {
-            a.time()
-                .partial_cmp(&b.time())
-                .unwrap_or(std::cmp::Ordering::Equal)
-        });
+        keyframes.sort_unstable_by(|a, b| a.time().total_cmp(&b.time()));
         Self(keyframes)
     }
 
-- 
2.43.0


From 8c85efec2336f7c899691b1b3950f490cbd05659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 10/23] fix: export ChannelId's contract getter under its
 namespaced symbol

It was the only function of the library without the tp_client__ prefix.
---
 client/rust/src/contract/properties/channels/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/rust/src/contract/properties/channels/mod.rs b/client/rust/src/contract/properties/channels/mod.rs
index 80232c1..2de1efe 100644
--- a/client/rust/src/contract/properties/channels/mod.rs
+++ b/client/rust/src/contract/properties/channels/mod.rs
@@ -131,6 +131,7 @@ pub mod c_api {
                     }
                     pub use [<ChannelId_ $t:camel>] as Monomorphized;
 
+                    #[remangle($path)]
                     #[ffi_export]
                     pub fn [<ChannelId_ $t:camel __contract>]<'a>(id: &'a Monomorphized) -> repr_c::Box<CContractDataHandle> {
                         repr_c::Box::new(CContractDataHandle::from(id.inner.contract()))
-- 
2.43.0


From f987d70d89b5b9c44b3bdcb9d5d9f9c1430501d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 11/23] verif hooks: construct collactions, reach the
 tweenables (cfg constellation_verif)

---
 client/rust/src/action/mod.rs                       | 8 ++++++++
 client/rust/src/contract/properties/channels/mod.rs | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/client/rust/src/action/mod.rs b/client/rust/src/action/mod.rs
index 2e1f0c8..41e3e09 100644
--- a/client/rust/src/action/mod.rs
+++ b/client/rust/src/action/mod.rs
@@ -33,6 +33,14 @@ impl Collaction {
     }
 }
 
+#[cfg(constellation_verif)]
+impl Collaction {
+    /// Verification hook: nothing in the public API builds a `Collaction` yet.
+    pub fn verif_new(actions: Vec<Action>) -> Self {
+        Self { actions }
+    }
+}
+
 pub type CollactionResult = Result<Collaction, Collaction>;
 
 // ---- ObjectAction types ----
diff --git a/client/rust/src/contract/properties/channels/mod.rs b/client/rust/src/contract/properties/channels/mod.rs
index 2de1efe..6e391d4 100644
--- a/client/rust/src/contract/properties/channels/mod.rs
+++ b/client/rust/src/contract/properties/channels/mod.rs
@@ -4,6 +4,9 @@ pub mod dyn_handle;
 mod handle;
 
 mod misc;
+/// Verification hook: the tweenables are private.
+#[cfg(constellation_verif)]
+pub use self::misc::{IntTweenable, JumpTweenable};
 
 pub use self::channel::{Channel, Keyframe};
 pub use self::dyn_channel::{apply_to_channel, apply_to_channel_mut, apply_to_channel_ref};
-- 
2.43.0


From 509b7ae728f62d6ef95ea6b20039e57ada366c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 12/23] fix: make the ids of Vec fields Copy, which the
 contract macros rely on

---
 client/rust/src/contract/properties/channels/mod.rs | 4 ++--
 client/rust/src/contract/properties/states/id.rs    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/mod.rs b/client/rust/src/contract/properties/channels/mod.rs
index 6e391d4..35ab667 100644
--- a/client/rust/src/contract/properties/channels/mod.rs
+++ b/client/rust/src/contract/properties/channels/mod.rs
@@ -17,7 +17,7 @@ pub use crate::contract::properties::dynamic::apply_to_channel_id;
 
 use crate::contract::properties::dynamic::TpPropertyType;
 use crate::contract::properties::dynamic::__macro::{DynEnum, DynTpPropId};
-use crate::contract::properties::traits::{ITpData, ITpProperty, ITpPropertyStatic};
+use crate::contract::properties::traits::{ITpProperty, ITpPropertyStatic};
 use crate::contract::ContractDataHandle;
 
 use std::any::TypeId;
@@ -73,7 +73,7 @@ impl<T: ITpProperty> ChannelId<T> {
         }
     }
 }
-impl<T: ITpData> Copy for ChannelId<T> {}
+impl<T: ITpProperty> Copy for ChannelId<T> {}
 
 pub trait IChannels {
     fn type_ids() -> &'static [TypeId];
diff --git a/client/rust/src/contract/properties/states/id.rs b/client/rust/src/contract/properties/states/id.rs
index a50d73f..cbdbc3e 100644
--- a/client/rust/src/contract/properties/states/id.rs
+++ b/client/rust/src/contract/properties/states/id.rs
@@ -1,5 +1,5 @@
 use crate::contract::properties::dynamic::__macro::{DynEnum, DynTpPropId};
-use crate::contract::properties::traits::{ITpData, ITpProperty};
+use crate::contract::properties::traits::ITpProperty;
 use crate::contract::ContractDataHandle;
 
 use std::marker::PhantomData;
@@ -36,7 +36,7 @@ impl<T: ITpProperty> StateId<T> {
         }
     }
 }
-impl<T: ITpData> Copy for StateId<T> {}
+impl<T: ITpProperty> Copy for StateId<T> {}
 
 DynTpPropId!(DynStateId, StateId);
 
-- 
2.43.0


From 153543d1cbe7666f9c7c874f2f82b0c517f2a5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 13/23] fix: keep an arena intact when zero additional capacity
 is reserved

---
 crates/datastructures/arena/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/datastructures/arena/src/lib.rs b/crates/datastructures/arena/src/lib.rs
index 8476511..52343ff 100644
--- a/crates/datastructures/arena/src/lib.rs
+++ b/crates/datastructures/arena/src/lib.rs
@@ -73,7 +73,10 @@ impl<T> Arena<T> {
     }
 
     pub fn reserve(&mut self, additional_capacity: usize) {
-        self.0.reserve(additional_capacity)
+        // Reserving nothing would make `ga::Arena` take the slot past its end as free
+        if additional_capacity > 0 {
+            self.0.reserve(additional_capacity)
+        }
     }
 }
 impl<T> Default for Arena<T> {
-- 
2.43.0


From b5962deb210972d62a261ff366af2f0c93060866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 14/23] fix: keep a jump tween at its start at fractions of -1
 and below

---
 client/rust/src/contract/properties/channels/misc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/misc.rs b/client/rust/src/contract/properties/channels/misc.rs
index 8eeb9c8..c61ee6d 100644
--- a/client/rust/src/contract/properties/channels/misc.rs
+++ b/client/rust/src/contract/properties/channels/misc.rs
@@ -1,4 +1,4 @@
-use keyframe::num_traits::{AsPrimitive, Float, FromPrimitive};
+use keyframe::num_traits::{AsPrimitive, Float, FromPrimitive, One};
 use keyframe::CanTween;
 
 /// Wraps any `T: Copy`, making it tweenable. Easing jumps from the starting
@@ -9,7 +9,7 @@ use keyframe::CanTween;
 pub struct JumpTweenable<T>(pub T);
 impl<T> CanTween for JumpTweenable<T> {
     fn ease(from: Self, to: Self, time: impl Float) -> Self {
-        if time.trunc().is_zero() {
+        if time < One::one() {
             from
         } else {
             to
-- 
2.43.0


From 08eb37889ac80ce24d986b1ce3fa183c8d617ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 15/23] fix: contract macros no longer depend on names in scope
 at the declaration

---
 client/contract_macro/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/contract_macro/src/lib.rs b/client/contract_macro/src/lib.rs
index 8e49c06..4afe281 100644
--- a/client/contract_macro/src/lib.rs
+++ b/client/contract_macro/src/lib.rs
@@ -121,7 +121,7 @@ macro_rules! template_impl {
                 // Add the field name
                 field_names.push({
                     quote_spanned! {f_name.span()=>
-                        std::stringify!(#f_name)
+                        ::std::stringify!(#f_name)
                     }
                 });
             }
@@ -139,21 +139,21 @@ macro_rules! template_impl {
                 impl $trait_name for #s_name {
                     fn #type_ids_ident() -> &'static [::std::any::TypeId] {
                         ::tp_client::lazy_static::lazy_static! {
-                            static ref TYPE_IDS: Vec<::std::any::TypeId> = vec![#(#typeids),*];
+                            static ref TYPE_IDS: ::std::vec::Vec<::std::any::TypeId> = ::std::vec![#(#typeids),*];
                         }
                         TYPE_IDS.as_slice()
                     }
 
                     fn #enumerate_types_ident() -> &'static [::tp_client::contract::properties::dynamic::TpPropertyType] {
                         ::tp_client::lazy_static::lazy_static! {
-                            static ref PROP_TYPES: Vec<::tp_client::contract::properties::dynamic::TpPropertyType> = vec![#(#prop_types),*];
+                            static ref PROP_TYPES: ::std::vec::Vec<::tp_client::contract::properties::dynamic::TpPropertyType> = ::std::vec![#(#prop_types),*];
                         }
                         PROP_TYPES.as_slice()
                     }
 
                     fn #field_names_ident() -> &'static [&'static str] {
                         ::tp_client::lazy_static::lazy_static! {
-                            static ref FIELD_NAMES: Vec<&'static str> = vec![#(#field_names),*];
+                            static ref FIELD_NAMES: ::std::vec::Vec<&'static str> = ::std::vec![#(#field_names),*];
                         }
                         FIELD_NAMES.as_slice()
                     }
-- 
2.43.0


From f0554d524877b3207456a24898c623d28caba312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 16/23] fix: substitute! keeps an expression of operators
 together

---
 crates/rsharp/rust/macro/src/substitute.rs | 23 +++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/rsharp/rust/macro/src/substitute.rs b/crates/rsharp/rust/macro/src/substitute.rs
index 5a307ae..2cfd8b1 100644
--- a/crates/rsharp/rust/macro/src/substitute.rs
+++ b/crates/rsharp/rust/macro/src/substitute.rs
@@ -12,6 +12,27 @@ impl VisitAndSub {
         syn::parse2::<syn::Expr>(value.clone())?;
         Ok(Self { value })
     }
+
+    /// The value as a single operand, whatever operators surround it
+    fn operand(&self) -> syn::Expr {
+        use syn::Expr as E;
+        let expr = syn::parse2::<E>(self.value.clone()).unwrap();
+        match expr {
+            E::Array(_)
+            | E::Call(_)
+            | E::Lit(_)
+            | E::Macro(_)
+            | E::MethodCall(_)
+            | E::Paren(_)
+            | E::Path(_)
+            | E::Tuple(_) => expr,
+            _ => E::Paren(syn::ExprParen {
+                attrs: Vec::new(),
+                paren_token: Default::default(),
+                expr: Box::new(expr),
+            }),
+        }
+    }
 }
 impl VisitMut for VisitAndSub {
     fn visit_expr_mut(&mut self, node: &mut syn::Expr) {
@@ -23,7 +44,7 @@ impl VisitMut for VisitAndSub {
                     if !m.attrs.is_empty() {
                         return; // Don't try to step on another substitution's toes
                     }
-                    Some(syn::parse2::<syn::Expr>(self.value.clone()).unwrap())
+                    Some(self.operand())
                 } else {
                     None
                 }
-- 
2.43.0


From 7ef62639ee99f0761ba1af3c1d7484b0def4218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 17/23] fix: a state of an unknown type is refused without a
 panic

The error for a state whose stored type does not match its contract asked
for the name of the stored type, which a type the schema does not know has
not got.
---
 client/serialize/rust/src/deserializer/new/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/serialize/rust/src/deserializer/new/mod.rs b/client/serialize/rust/src/deserializer/new/mod.rs
index 7e0fa65..5790962 100644
--- a/client/serialize/rust/src/deserializer/new/mod.rs
+++ b/client/serialize/rust/src/deserializer/new/mod.rs
@@ -320,7 +320,7 @@ fn validate_obj_matches_contract<'a, C: rs::Contract>(
         if obj_state_t.p_type() != *expected_typ {
             return Err(eyre!(
                 "state {i}'s type was {:?} but expected {:?}",
-                obj_state_t.p_type().variant_name().unwrap(),
+                obj_state_t.p_type(),
                 *expected_typ,
             ));
         }
-- 
2.43.0


From e58f42054c3e563967d4780c5881a226eb6869d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 18/23] fix: a state index out of bounds is refused, as step 5
 promises

Nothing compared the index an object gives for a state with how many states
there are.
---
 client/serialize/rust/src/deserializer/new/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/serialize/rust/src/deserializer/new/mod.rs b/client/serialize/rust/src/deserializer/new/mod.rs
index 5790962..c9d01a8 100644
--- a/client/serialize/rust/src/deserializer/new/mod.rs
+++ b/client/serialize/rust/src/deserializer/new/mod.rs
@@ -310,13 +310,15 @@ fn validate_obj_matches_contract<'a, C: rs::Contract>(
     let obj_states_t = obj_states_t
         .into_iter()
         .map(|s: fb::StateHandle| StatesIdx(usize::try_from(s.idx()).unwrap()))
-        .map(|s_idx: StatesIdx| states_t.get(s_idx.0));
+        .map(|s_idx: StatesIdx| (s_idx.0 < states_t.len()).then(|| states_t.get(s_idx.0)));
 
     let zip_states_and_expected_types =
         std::iter::zip(obj_states_t, C::States::enumerate_types().into_iter());
 
     // Check that state types match contract
     for (i, (obj_state_t, expected_typ)) in zip_states_and_expected_types.enumerate() {
+        let obj_state_t =
+            obj_state_t.ok_or_else(|| eyre!("state {i} was out of the bounds of the baseline"))?;
         if obj_state_t.p_type() != *expected_typ {
             return Err(eyre!(
                 "state {i}'s type was {:?} but expected {:?}",
-- 
2.43.0


From 6c97b84479463cb6b2bc4050f5c56ea71938450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 19/23] fix: a string state without its value is refused
 without a panic

---
 client/serialize/rust/src/deserializer/new/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/serialize/rust/src/deserializer/new/mod.rs b/client/serialize/rust/src/deserializer/new/mod.rs
index c9d01a8..838a8a6 100644
--- a/client/serialize/rust/src/deserializer/new/mod.rs
+++ b/client/serialize/rust/src/deserializer/new/mod.rs
@@ -387,7 +387,10 @@ impl<'a> Deserializer<'a> {
                 P::Bool => helper!(obj_state_t.p_as_bool().unwrap().v()),
                 P::F32 => helper!(obj_state_t.p_as_f32().unwrap().v()),
                 P::F64 => helper!(obj_state_t.p_as_f64().unwrap().v()),
-                P::FbString => helper!(obj_state_t.p_as_fb_string().unwrap().v().unwrap()),
+                P::FbString => {
+                    let s = obj_state_t.p_as_fb_string().unwrap();
+                    helper!(s.v().ok_or_else(|| eyre!("String was missing its value"))?)
+                }
                 P::tp_serialize_object_ObjectHandle => {
                     // Figure out what object was referenced in the state, and track it.
                     let referenced_obj_handle_t: fb::ObjectHandle = obj_state_t
-- 
2.43.0


From 30b6d7e8ea39bc7c2f75ae8c7b21b2d441610216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 20/23] fix: the stored types U32 and U64 equal themselves

TpPrimitive::U32 compared equal to TpPrimitiveKind::U64, and neither it nor
U64 to its own kind.
---
 client/serialize/rust/src/types/eq_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/serialize/rust/src/types/eq_impl.rs b/client/serialize/rust/src/types/eq_impl.rs
index cb93862..0d15b87 100644
--- a/client/serialize/rust/src/types/eq_impl.rs
+++ b/client/serialize/rust/src/types/eq_impl.rs
@@ -67,7 +67,8 @@ impl PartialEq<crate::primitive::TpPrimitiveKind> for crate::primitive::TpPrimit
         match (*self, *other) {
             (Self::U8, O::U8)
             | (Self::U16, O::U16)
-            | (Self::U32, O::U64)
+            | (Self::U32, O::U32)
+            | (Self::U64, O::U64)
             | (Self::I8, O::I8)
             | (Self::I16, O::I16)
             | (Self::I32, O::I32)
-- 
2.43.0


From e9163d53f0835142423a5c32866a4cfbbab48fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 21/23] fix: apply_to_prop_ref! and apply_to_prop_mut! can be
 used outside of tp_client

---
 client/rust/src/contract/properties/dynamic/__macro.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/contract/properties/dynamic/__macro.rs b/client/rust/src/contract/properties/dynamic/__macro.rs
index 42fc99b..1a0a5bc 100644
--- a/client/rust/src/contract/properties/dynamic/__macro.rs
+++ b/client/rust/src/contract/properties/dynamic/__macro.rs
@@ -375,7 +375,7 @@ pub use apply_to_channel_handle;
 macro_rules! apply_to_prop_ref {
     ($dyn_prop_ref:expr, $closure:expr) => {
         $crate::contract::properties::dynamic::__macro::apply_to_dyn!(
-            $crate::contract::properties::dynamic::property,
+            $crate::contract::properties::dynamic,
             DynTpPropertyRef,
             DynTpPrimitiveRef,
             DynTpVecRef,
@@ -394,7 +394,7 @@ pub use apply_to_prop_ref;
 macro_rules! apply_to_prop_mut {
     ($dyn_prop_mut:expr, $closure:expr) => {
         $crate::contract::properties::dynamic::__macro::apply_to_dyn!(
-            $crate::contract::properties::dynamic::property,
+            $crate::contract::properties::dynamic,
             DynTpPropertyMut,
             DynTpPrimitiveMut,
             DynTpVecMut,
-- 
2.43.0


From fe850305bf0a0c805f4a00ac40f5a032bc79388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 22/23] fix: the apply_to macros leave the names of their
 caller alone

---
 .../contract/properties/dynamic/__macro.rs    | 66 +++++++++----------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/client/rust/src/contract/properties/dynamic/__macro.rs b/client/rust/src/contract/properties/dynamic/__macro.rs
index 1a0a5bc..ca88b39 100644
--- a/client/rust/src/contract/properties/dynamic/__macro.rs
+++ b/client/rust/src/contract/properties/dynamic/__macro.rs
@@ -173,42 +173,42 @@ pub(in crate::contract::properties) use DynTpPropId;
 macro_rules! apply_to_dyn {
     ($mod_path:path, $enum_type:ident, $prim_type:ident, $vec_type:ident, $dyn_prop:expr, $closure:expr) => {{
         ::tp_client::paste::paste! {
-            use $mod_path::$enum_type;
-            use $mod_path::$prim_type as PS;
-            use $mod_path::$vec_type as PV;
+            // Items aren't hygienic, so this is the only name that `$dyn_prop` and
+            // `$closure` get to see
+            use $mod_path as __apply_to_dyn;
         }
         match $dyn_prop {
-            $enum_type::Primitive(s) => match s {
-                PS::U8(id) => $closure(id),
-                PS::U16(id) => $closure(id),
-                PS::U32(id) => $closure(id),
-                PS::U64(id) => $closure(id),
-                PS::I8(id) => $closure(id),
-                PS::I16(id) => $closure(id),
-                PS::I32(id) => $closure(id),
-                PS::I64(id) => $closure(id),
-                PS::Bool(id) => $closure(id),
-                PS::F32(id) => $closure(id),
-                PS::F64(id) => $closure(id),
-                PS::String(id) => $closure(id),
-                PS::ObjectHandle(id) => $closure(id),
-                PS::ContractDataHandle(id) => $closure(id),
+            __apply_to_dyn::$enum_type::Primitive(s) => match s {
+                __apply_to_dyn::$prim_type::U8(id) => $closure(id),
+                __apply_to_dyn::$prim_type::U16(id) => $closure(id),
+                __apply_to_dyn::$prim_type::U32(id) => $closure(id),
+                __apply_to_dyn::$prim_type::U64(id) => $closure(id),
+                __apply_to_dyn::$prim_type::I8(id) => $closure(id),
+                __apply_to_dyn::$prim_type::I16(id) => $closure(id),
+                __apply_to_dyn::$prim_type::I32(id) => $closure(id),
+                __apply_to_dyn::$prim_type::I64(id) => $closure(id),
+                __apply_to_dyn::$prim_type::Bool(id) => $closure(id),
+                __apply_to_dyn::$prim_type::F32(id) => $closure(id),
+                __apply_to_dyn::$prim_type::F64(id) => $closure(id),
+                __apply_to_dyn::$prim_type::String(id) => $closure(id),
+                __apply_to_dyn::$prim_type::ObjectHandle(id) => $closure(id),
+                __apply_to_dyn::$prim_type::ContractDataHandle(id) => $closure(id),
             },
-            $enum_type::Vec(s) => match s {
-                PV::U8(id) => $closure(id),
-                PV::U16(id) => $closure(id),
-                PV::U32(id) => $closure(id),
-                PV::U64(id) => $closure(id),
-                PV::I8(id) => $closure(id),
-                PV::I16(id) => $closure(id),
-                PV::I32(id) => $closure(id),
-                PV::I64(id) => $closure(id),
-                PV::Bool(id) => $closure(id),
-                PV::F32(id) => $closure(id),
-                PV::F64(id) => $closure(id),
-                PV::String(id) => $closure(id),
-                PV::ObjectHandle(id) => $closure(id),
-                PV::ContractDataHandle(id) => $closure(id),
+            __apply_to_dyn::$enum_type::Vec(s) => match s {
+                __apply_to_dyn::$vec_type::U8(id) => $closure(id),
+                __apply_to_dyn::$vec_type::U16(id) => $closure(id),
+                __apply_to_dyn::$vec_type::U32(id) => $closure(id),
+                __apply_to_dyn::$vec_type::U64(id) => $closure(id),
+                __apply_to_dyn::$vec_type::I8(id) => $closure(id),
+                __apply_to_dyn::$vec_type::I16(id) => $closure(id),
+                __apply_to_dyn::$vec_type::I32(id) => $closure(id),
+                __apply_to_dyn::$vec_type::I64(id) => $closure(id),
+                __apply_to_dyn::$vec_type::Bool(id) => $closure(id),
+                __apply_to_dyn::$vec_type::F32(id) => $closure(id),
+                __apply_to_dyn::$vec_type::F64(id) => $closure(id),
+                __apply_to_dyn::$vec_type::String(id) => $closure(id),
+                __apply_to_dyn::$vec_type::ObjectHandle(id) => $closure(id),
+                __apply_to_dyn::$vec_type::ContractDataHandle(id) => $closure(id),
             },
         }
     }};
-- 
2.43.0


From 9a28d88d4415f29aa6939b06d1ec79f6988a6df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:52 +0000
Subject: [PATCH 23/23] fix: substitute inside let-else statements

---
 crates/rsharp/rust/macro/src/substitute.rs | 27 ++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/rsharp/rust/macro/src/substitute.rs b/crates/rsharp/rust/macro/src/substitute.rs
index 2cfd8b1..ca64cc7 100644
--- a/crates/rsharp/rust/macro/src/substitute.rs
+++ b/crates/rsharp/rust/macro/src/substitute.rs
@@ -1,7 +1,7 @@
 use std::str::FromStr;
 
-use proc_macro2::TokenStream;
-use quote::ToTokens;
+use proc_macro2::{TokenStream, TokenTree};
+use quote::{quote, ToTokens};
 use syn::{self, visit_mut::VisitMut, Error, Result};
 
 struct VisitAndSub {
@@ -33,6 +33,23 @@ impl VisitAndSub {
             }),
         }
     }
+
+    /// `let ... else` has no node of its own in `syn`, only its tokens
+    fn let_else(&mut self, tokens: &TokenStream) -> Result<TokenStream> {
+        let mut tokens: Vec<TokenTree> = tokens.clone().into_iter().collect();
+        let mut diverge: syn::Block = syn::parse2(tokens.pop().into_iter().collect())?;
+        let else_token: syn::Token![else] = syn::parse2(tokens.pop().into_iter().collect())?;
+        match syn::parse2(quote! { #(#tokens)* ; })? {
+            syn::Stmt::Local(mut local) => {
+                self.visit_local_mut(&mut local);
+                self.visit_block_mut(&mut diverge);
+                let mut tokens: Vec<TokenTree> = local.to_token_stream().into_iter().collect();
+                tokens.pop(); // The semicolon
+                Ok(quote! { #(#tokens)* #else_token #diverge })
+            }
+            stmt => Err(Error::new_spanned(stmt, "Not a `let ... else`")),
+        }
+    }
 }
 impl VisitMut for VisitAndSub {
     fn visit_expr_mut(&mut self, node: &mut syn::Expr) {
@@ -49,6 +66,12 @@ impl VisitMut for VisitAndSub {
                     None
                 }
             }
+            E::Verbatim(ref mut tokens) => {
+                if let Ok(new_tokens) = self.let_else(tokens) {
+                    *tokens = new_tokens;
+                }
+                return;
+            }
             _ => return syn::visit_mut::visit_expr_mut(self, node),
         };
         if let Some(new_node) = new_node {
-- 
2.43.0

