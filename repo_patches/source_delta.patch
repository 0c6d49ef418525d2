From f70c88c62dfe5156322a787ce9bbd6b99473485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:41 +0000
Subject: [PATCH 01/26] verif: guarded hooks (cfg hodor_verif) for an external
 harness

---
 src/experiments/mod.rs         |   3 +
 src/fft/multicore.rs           |   7 ++
 src/iop/blake2s_trivial_iop.rs |   7 ++
 src/lib.rs                     |   3 +
 src/verif_hooks.rs             | 119 +++++++++++++++++++++++++++++++++
 5 files changed, 139 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/experiments/mod.rs b/src/experiments/mod.rs
index 1e0c0ec..4365020 100644
--- a/src/experiments/mod.rs
+++ b/src/experiments/mod.rs
@@ -2,6 +2,9 @@ pub(crate) mod vdf;
 pub(crate) mod cubic_vdf;
 mod square_root_calculator;
 
+#[cfg(hodor_verif)]
+pub use self::square_root_calculator::fp2::Fq2;
+
 /*
 
 This module contains a set of experiments like proving of a proper evaluation of VDF that itself is a square/cube root calculation.
diff --git a/src/fft/multicore.rs b/src/fft/multicore.rs
index 1736c2e..79743fa 100644
--- a/src/fft/multicore.rs
+++ b/src/fft/multicore.rs
@@ -31,6 +31,13 @@ impl Worker {
     }
 
     pub fn new() -> Worker {
+        #[cfg(hodor_verif)]
+        {
+            if let Some(cpus) = crate::verif_hooks::forced_cpus() {
+                return Self::new_with_cpus(cpus);
+            }
+        }
+
         let cpus = num_cpus::get();
         Self::new_with_cpus(cpus)
     }
diff --git a/src/iop/blake2s_trivial_iop.rs b/src/iop/blake2s_trivial_iop.rs
index 4f08daa..7fdd2a9 100644
--- a/src/iop/blake2s_trivial_iop.rs
+++ b/src/iop/blake2s_trivial_iop.rs
@@ -353,6 +353,13 @@ pub struct TrivialBlake2sIopQuery<F: PrimeField> {
     path: Vec<[u8; 32]>,
 }
 
+#[cfg(hodor_verif)]
+impl<F: PrimeField> TrivialBlake2sIopQuery<F> {
+    pub(crate) fn from_parts(index: usize, value: F, path: Vec<[u8; 32]>) -> Self {
+        Self { index, value, path }
+    }
+}
+
 impl<F: PrimeField> IopQuery<F> for TrivialBlake2sIopQuery<F> {
     type Hasher = Blake2sTreeHasher<F>;
 
diff --git a/src/lib.rs b/src/lib.rs
index 10694a5..09a3cc2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -28,6 +28,9 @@ pub mod prover;
 
 mod experiments;
 
+#[cfg(hodor_verif)]
+pub mod verif_hooks;
+
 pub(crate) mod bn256;
 
 use ff::{Field, PrimeField, PrimeFieldRepr};
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..a711c67
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,119 @@
+//! Instrumentation surface for the external verification harness.
+//!
+//! Compiled only with `--cfg hodor_verif`. It changes no behaviour of its own: it re-exports
+//! crate-private items, and lets a harness choose the number of threads that `Worker::new()`
+//! assumes, so that one machine can exercise the work splitting of many.
+
+use ff::PrimeField;
+use std::sync::atomic::{AtomicUsize, Ordering};
+
+pub use crate::bn256::Fr as Fr255;
+pub use crate::experiments::cubic_vdf::CubicVDF;
+pub use crate::experiments::vdf::VDF;
+pub use crate::experiments::Fq2;
+pub use crate::experiments::Fr as Fr252;
+pub use crate::fft::multicore::Worker;
+
+use crate::air::{Fibonacci, IntoAIR, TestTraceSystem};
+use crate::arp::{InstanceProperties, IntoARP};
+use crate::iop::blake2s_trivial_iop::TrivialBlake2sIopQuery;
+
+static FORCED_CPUS: AtomicUsize = AtomicUsize::new(0);
+
+/// Makes every following `Worker::new()` in this process assume `cpus` CPUs; 0 restores the default.
+pub fn force_cpus(cpus: usize) {
+    FORCED_CPUS.store(cpus, Ordering::SeqCst);
+}
+
+pub(crate) fn forced_cpus() -> Option<usize> {
+    match FORCED_CPUS.load(Ordering::SeqCst) {
+        0 => None,
+        n => Some(n),
+    }
+}
+
+pub fn worker_with_cpus(cpus: usize) -> Worker {
+    Worker::new_with_cpus(cpus)
+}
+
+/// The crate's own example: traces `Fibonacci` and turns it into an instance and its witness.
+pub fn trace_fibonacci<F: PrimeField>(
+    final_b: u64,
+    at_step: usize,
+    steps: usize,
+) -> (Option<Vec<Vec<F>>>, InstanceProperties<F>) {
+    let fib = Fibonacci::<F> {
+        final_b: Some(final_b),
+        at_step: Some(at_step),
+        _marker: std::marker::PhantomData,
+    };
+    let mut tracer = TestTraceSystem::<F>::new();
+    fib.trace(&mut tracer).expect("fibonacci traces");
+    tracer.calculate_witness(1, 1, steps);
+
+    tracer.into_arp()
+}
+
+/// An opening as a prover that does not follow the protocol could write it.
+pub fn forge_query<F: PrimeField>(
+    index: usize,
+    value: F,
+    path: Vec<[u8; 32]>,
+) -> TrivialBlake2sIopQuery<F> {
+    TrivialBlake2sIopQuery::from_parts(index, value, path)
+}
+
+/// The transform strategies behind `Polynomial`'s operations.
+pub mod transforms {
+    use super::Worker;
+    use crate::fft;
+    use ff::PrimeField;
+
+    pub fn best_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, cpus_hint: Option<usize>) {
+        fft::best_fft(a, worker, omega, log_n, cpus_hint)
+    }
+
+    pub fn serial_fft<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32) {
+        fft::serial_fft(a, omega, log_n)
+    }
+
+    pub fn parallel_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, log_cpus: u32) {
+        fft::fft::parallel_fft(a, worker, omega, log_n, log_cpus)
+    }
+
+    pub fn best_lde<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, lde_factor: usize) {
+        fft::best_lde(a, worker, omega, log_n, lde_factor)
+    }
+
+    pub fn serial_lde<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32, lde_factor: usize) {
+        fft::lde::serial_lde(a, omega, log_n, lde_factor)
+    }
+
+    pub fn parallel_lde<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, log_cpus: u32, lde_factor: usize) {
+        fft::lde::parallel_lde(a, worker, omega, log_n, log_cpus, lde_factor)
+    }
+
+    pub fn radix_4_serial<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32) {
+        fft::radix4_fft::serial_fft_radix_4(a, omega, log_n)
+    }
+
+    pub fn radix_4_parallel<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, log_cpus: u32) {
+        fft::radix4_fft::parallel_fft_radix_4(a, worker, omega, log_n, log_cpus)
+    }
+
+    pub fn radix_4_best<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32) {
+        fft::radix4_fft::best_fft(a, worker, omega, log_n)
+    }
+
+    pub fn dit_serial<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32, non_zero: usize) {
+        fft::dit_fft::serial_DIT_fft(a, omega, log_n, non_zero)
+    }
+
+    pub fn dit_parallel<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, log_cpus: u32, non_zero: usize) {
+        fft::dit_fft::parallel_DIT_fft(a, worker, omega, log_n, log_cpus, non_zero)
+    }
+
+    pub fn dit_best<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, non_zero: usize) {
+        fft::dit_fft::best_DIT_fft(a, worker, omega, log_n, non_zero)
+    }
+}
-- 
2.43.0


From 9f607f13f99b656caf7e0e4311c04621cb543082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 02/26] fix: start every batch of constraints from zero when
 calculating G

With constraints of two or more densities every batch (and every constraint in it)
started from what earlier batches had accumulated, so that an honest proof was rejected.
---
 src/ali/per_register/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ali/per_register/mod.rs b/src/ali/per_register/mod.rs
index 62ac346..621f1ec 100644
--- a/src/ali/per_register/mod.rs
+++ b/src/ali/per_register/mod.rs
@@ -252,7 +252,8 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
         assert!(witness.len() == self.properties.num_registers);
 
         // all zeroes
-        let mut g_values = Polynomial::<F, Values>::new_for_size(self.constraints_domain.size as usize)?;
+        let zero_values = Polynomial::<F, Values>::new_for_size(self.constraints_domain.size as usize)?;
+        let mut g_values = zero_values.clone();
 
         fn evaluate_for_mask<F: PrimeField> (
             mut f: Polynomial<F, Coefficients>,
@@ -423,7 +424,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
 
         // now evaluate normal constraints
         for (density, batch) in self.constraints_batched_by_density.iter() {
-            let mut batch_values = g_values.clone();
+            let mut batch_values = zero_values.clone();
             for c in batch.iter()   {
                 let constraint_power = c.degree;
                 assert!(self.max_constraint_power >= constraint_power);
@@ -446,7 +447,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
                     Some(adj_poly)
                 };
 
-                let mut constraint_values = g_values.clone();
+                let mut constraint_values = zero_values.clone();
                 for t in c.terms.iter() {
                     let subval = evaluate_constraint_term_into_values(
                         t, 
-- 
2.43.0


From a06d76c3837cbdd999e3cb931b882da2250a1095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 03/26] fix: calculate G for constraints of a degree that is
 not a power of two

---
 src/ali/per_register/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ali/per_register/mod.rs b/src/ali/per_register/mod.rs
index 621f1ec..a88f96e 100644
--- a/src/ali/per_register/mod.rs
+++ b/src/ali/per_register/mod.rs
@@ -422,6 +422,9 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
 
         let mut evaluated_terms_map: IndexMap::<WitnessEvaluationData<F>, Polynomial<F, Values>> = IndexMap::new();
 
+        // maximum power of constraints may not be a power of two, but size of the domain is
+        let constraints_lde_factor = self.constraints_domain.size / self.column_domain.size;
+
         // now evaluate normal constraints
         for (density, batch) in self.constraints_batched_by_density.iter() {
             let mut batch_values = zero_values.clone();
@@ -453,7 +456,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
                         t, 
                         &mask_applied_polynomials, 
                         &mut evaluated_terms_map, 
-                        self.max_constraint_power, 
+                        constraints_lde_factor, 
                         &worker
                     )?;
                     constraint_values.add_assign(&worker, &subval);
@@ -477,7 +480,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
             g_values.add_assign(&worker, &batch_values);
         }
 
-        let boundary_lde_factor = self.max_constraint_power;
+        let boundary_lde_factor = constraints_lde_factor;
 
         // now evaluate normal constraints
         for b_c in self.properties.boundary_constraints.iter() {
-- 
2.43.0


From 588cc33a29e0d3f38017c44105a91e84d3c67658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 04/26] fix: interpolate witness with number of rows that is
 not a power of two

---
 src/arp/per_register/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arp/per_register/mod.rs b/src/arp/per_register/mod.rs
index d78b9ba..c5c37e8 100644
--- a/src/arp/per_register/mod.rs
+++ b/src/arp/per_register/mod.rs
@@ -42,6 +42,8 @@ fn make_witness_polymonials<F: PrimeField>(
 
     worker.scope(0, |scope, _| {
         for w in witness.iter_mut() {
+            // rows outside of the trace are never constrained
+            w.resize(num_rows_sup, F::zero());
             scope.spawn(move |_| {
                 best_fft(&mut w[..], &worker, &omega_inv, log_n as u32, num_cpus_hint);
             });
-- 
2.43.0


From 7c28563d7a099afeb83772521f31f409cadf560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 05/26] fix: return an error and do not panic for an empty or
 ragged witness

---
 src/arp/per_register/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/arp/per_register/mod.rs b/src/arp/per_register/mod.rs
index c5c37e8..5580eab 100644
--- a/src/arp/per_register/mod.rs
+++ b/src/arp/per_register/mod.rs
@@ -76,17 +76,15 @@ impl<F: PrimeField> ARP<F> for ARPInstance<F, PerRegisterARP> {
         worker: &Worker
     ) -> Result<Vec<Polynomial<F, Coefficients>>, SynthesisError> {
         let num_registers = witness.len();
-        let num_rows = (&witness[0]).len();
-        for w in witness.iter() {
-            assert!(num_rows == w.len());
-        }
 
         if num_registers != self.properties.num_registers {
             return Err(SynthesisError::Error);
         }
 
-        if num_rows != self.properties.num_rows {
-            return Err(SynthesisError::Error);
+        for w in witness.iter() {
+            if w.len() != self.properties.num_rows {
+                return Err(SynthesisError::Error);
+            }
         }
 
         make_witness_polymonials(witness, worker)
-- 
2.43.0


From 8900b2854a1cac1f9ae01cf1b400ba14ff64a4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 06/26] fix: raise coefficient of the univariate term along
 with its register

---
 src/air/constraint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/air/constraint.rs b/src/air/constraint.rs
index dbb59d5..04990e4 100644
--- a/src/air/constraint.rs
+++ b/src/air/constraint.rs
@@ -186,6 +186,7 @@ impl<F: PrimeField> UnivariateTerm<F> {
         let new_power = self.power.checked_mul(power).expect("maximum power is limited to U64MAX");
         let mut new = self.clone();
         new.power = new_power;
+        new.coeff = self.coeff.pow([power]);
 
         new
     }
-- 
2.43.0


From e70a01e93adee43ca0358c1a8d385e23e2828d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 07/26] fix: derive challenges for fields whose top limb does
 not hold the top bits

Shaving assumed that the highest limb of the representation holds bits of the modulus, so
for example for a 64 bit modulus (two limbs) a challenge was almost never in the field.
---
 src/iop/blake2s_trivial_iop.rs | 14 ++++++++++----
 src/transcript/mod.rs          | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/iop/blake2s_trivial_iop.rs b/src/iop/blake2s_trivial_iop.rs
index 7fdd2a9..8d393b4 100644
--- a/src/iop/blake2s_trivial_iop.rs
+++ b/src/iop/blake2s_trivial_iop.rs
@@ -20,7 +20,6 @@ pub struct Blake2sLeafEncoder<F: PrimeField> {
 }
 
 impl<F: PrimeField> Blake2sLeafEncoder<F>  {
-    const SHAVE_BITS: u32 = 256 - F::CAPACITY;
     pub fn new() -> Self {
         assert!(F::NUM_BITS < 256);
 
@@ -48,11 +47,18 @@ impl<F: PrimeField> HashEncoder<F> for Blake2sLeafEncoder<F>{
     fn interpret_hash(value: &Self::Input) -> F {
         let value = *value;
         let mut repr = F::Repr::default();
-        let shaving_mask: u64 = 0xffffffffffffffff >> (Self::SHAVE_BITS % 64);
         repr.read_be(&value[..]).expect("will read");
         // repr.read_le(&value[..]).expect("will read");
-        let last_limb_idx = repr.as_ref().len() - 1;
-        repr.as_mut()[last_limb_idx] &= shaving_mask;
+        // only F::CAPACITY lowest bits can be kept for a value to be in a field
+        let mut bits_to_keep = F::CAPACITY;
+        for limb in repr.as_mut().iter_mut() {
+            if bits_to_keep >= 64 {
+                bits_to_keep -= 64;
+            } else {
+                *limb &= (1u64 << bits_to_keep) - 1;
+                bits_to_keep = 0;
+            }
+        }
         // let value = F::from_raw_repr(repr).expect("in a field");
         let value = F::from_repr(repr).expect("in a field");
 
diff --git a/src/transcript/mod.rs b/src/transcript/mod.rs
index ce3e407..6bf3c2c 100644
--- a/src/transcript/mod.rs
+++ b/src/transcript/mod.rs
@@ -32,7 +32,6 @@ pub struct Blake2sTranscript<F: PrimeField> {
 }
 
 impl<F: PrimeField> Blake2sTranscript<F> {
-    const SHAVE_BITS: u32 = 256 - F::CAPACITY;
     const REPR_SIZE: usize = std::mem::size_of::<F::Repr>();
 }
 
@@ -69,10 +68,17 @@ impl<F: PrimeField> Transcript<F> for Blake2sTranscript<F> {
         self.state.update(&value[..]);
         
         let mut repr = F::Repr::default();
-        let shaving_mask: u64 = 0xffffffffffffffff >> (Self::SHAVE_BITS % 64);
         repr.read_be(&value[..]).expect("will read");
-        let last_limb_idx = repr.as_ref().len() - 1;
-        repr.as_mut()[last_limb_idx] &= shaving_mask;
+        // only F::CAPACITY lowest bits can be kept for a value to be in a field
+        let mut bits_to_keep = F::CAPACITY;
+        for limb in repr.as_mut().iter_mut() {
+            if bits_to_keep >= 64 {
+                bits_to_keep -= 64;
+            } else {
+                *limb &= (1u64 << bits_to_keep) - 1;
+                bits_to_keep = 0;
+            }
+        }
         let value = F::from_repr(repr).expect("in a field");
 
         value
-- 
2.43.0


From c8418fa4a4561233155c866758c35972f2e51fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 08/26] fix: bind claimed witness values to the transcript
 before combining them

Values of the witness at z*mask did not get into the transcript, so a prover could choose
them after all the challenges that combine them were known and prove a false statement.
Their number was not checked either.
---
 src/ali/per_register/deep.rs | 2 ++
 src/verifier/mod.rs          | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ali/per_register/deep.rs b/src/ali/per_register/deep.rs
index ab69ef7..c4b9848 100644
--- a/src/ali/per_register/deep.rs
+++ b/src/ali/per_register/deep.rs
@@ -53,6 +53,8 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
             let witness_value_at_z = f_polys[reg_num].evaluate_at(&worker, root);
 
             f_at_z_m.push(witness_value_at_z);
+            // bind the value before the challenge that it is combined with is known
+            transcript.commit_field_element(&witness_value_at_z);
         
             let divisor = if let Some(d) = divisors_for_masks.get(&m.steps_difference) {
                 d
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 98d3f13..ed2e19d 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -293,7 +293,12 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
 
         let z = scratch_space.transcript.get_challenge();
 
-        for _ in self.all_masks.iter() {
+        if proof.f_at_z_m.len() != self.all_masks.len() {
+            return Err(SynthesisError::Unsatisfied(format!("expected {} witness values under masks, proof contains {}", self.all_masks.len(), proof.f_at_z_m.len())));
+        }
+
+        for f_at_z_m in proof.f_at_z_m.iter() {
+            scratch_space.transcript.commit_field_element(f_at_z_m);
             let alpha = scratch_space.transcript.get_challenge();
 
             scratch_space.h1_poly_challenges.push(alpha);
-- 
2.43.0


From 8fcaa219635da18a3ebaf72b4d5df299243531af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 09/26] fix: compare the last FRI oracle with the final
 coefficients without folding it

Verifier folded once more than the prover had, so that an honest proof was rejected unless
the final polynomial was a constant.
---
 src/fri/verifier.rs | 50 +++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/fri/verifier.rs b/src/fri/verifier.rs
index dd40c3f..ae5199d 100644
--- a/src/fri/verifier.rs
+++ b/src/fri/verifier.rs
@@ -209,8 +209,6 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
                 }
             }
             
-            let iop_challenge = I::encode_root_into_challenge(root);
-
             let f_at_omega = (&queries[0]).value();
             if let Some(value) = expected_value {
 
@@ -230,6 +228,34 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
                 }
             }
 
+            if round + 1 == proof.roots.len() {
+                // the last oracle is not folded any further, it has to be equal
+                // to the polynomial given by the final coefficients
+
+                for q in queries.iter() {
+                    let evaluation_point = omega.pow([q.natural_index() as u64]);
+
+                    let mut value_from_coefficients = F::zero();
+                    let mut power = F::one();
+
+                    for c in proof.final_coefficients.iter() {
+                        let mut tmp = power;
+                        tmp.mul_assign(c);
+
+                        value_from_coefficients.add_assign(&tmp);
+                        power.mul_assign(&evaluation_point);
+                    }
+
+                    if q.value() != value_from_coefficients {
+                        return Ok(false);
+                    }
+                }
+
+                return Ok(true);
+            }
+
+            let iop_challenge = I::encode_root_into_challenge(root);
+
             let f_at_minus_omega = (&queries[1]).value();
             let divisor = omega_inv.pow([coset_values[0] as u64]);
 
@@ -267,24 +293,8 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
         }
 
 
-        // finally we need to get expected value from coefficients
+        // there were no oracles to check
 
-        let mut expected_value_from_coefficients = F::zero();
-        let mut power = F::one();
-        let evaluation_point = omega.pow([domain_idx as u64]);
-
-        for c in proof.final_coefficients.iter() {
-            let mut tmp = power;
-            tmp.mul_assign(c);
-
-            expected_value_from_coefficients.add_assign(&tmp);
-            power.mul_assign(&evaluation_point);
-        }
-        
-        let expected_value = expected_value.expect("is some");
-
-        let valid = expected_value_from_coefficients == expected_value;
-
-        Ok(valid)
+        Ok(false)
     }
 }
-- 
2.43.0


From 868f92d31d4c5513a484a62a622e6082edf959ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 10/26] fix: check the shape of a FRI proof instead of trusting
 or panicking on it

A degenerate proof (no roots, no queries, too many final coefficients, sizes that overflow)
made the verifier panic, loop forever, or skip the folding.
---
 src/fri/verifier.rs | 46 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/fri/verifier.rs b/src/fri/verifier.rs
index ae5199d..68936be 100644
--- a/src/fri/verifier.rs
+++ b/src/fri/verifier.rs
@@ -141,9 +141,44 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
             SynthesisError::DivisionByZero(format!("two = {} does not have an inverse", two))
         )?;
 
+        // proof is not trusted, so first check that what it declares is self-consistent
+
+        let initial_degree_plus_one = proof.initial_degree_plus_one;
+        let output_coeffs_at_degree_plus_one = proof.output_coeffs_at_degree_plus_one;
+
+        if !initial_degree_plus_one.is_power_of_two() 
+            || !output_coeffs_at_degree_plus_one.is_power_of_two()
+            || !proof.lde_factor.is_power_of_two()
+            || output_coeffs_at_degree_plus_one > initial_degree_plus_one
+        {
+            return Err(SynthesisError::InvalidValue("invalid degrees or LDE factor".to_owned()));
+        }
+
+        let num_steps = log2_floor(initial_degree_plus_one / output_coeffs_at_degree_plus_one) as usize;
+
+        if proof.roots.len() != num_steps + 1 {
+            return Err(SynthesisError::InvalidValue(format!("invalid number of roots, expected {}, got {}", num_steps + 1, proof.roots.len())));
+        }
+
+        if proof.queries.len() != proof.roots.len() * degree {
+            return Err(SynthesisError::InvalidValue("invalid number of queries".to_owned()));
+        }
+
+        if proof.final_coefficients.len() != output_coeffs_at_degree_plus_one {
+            return Err(SynthesisError::InvalidValue(format!("invalid number of final coefficients, expected {}, got {}", output_coeffs_at_degree_plus_one, proof.final_coefficients.len())));
+        }
+
+        let lde_size = initial_degree_plus_one.checked_mul(proof.lde_factor).ok_or(
+            SynthesisError::InvalidValue("size of the LDE domain is too large".to_owned())
+        )?;
+
+        if natural_element_index >= lde_size {
+            return Err(SynthesisError::InvalidValue(format!("initial challenge index {} is not in the LDE domain", natural_element_index)));
+        }
+
         // start from the bottom: we need to get a "pair" and calculate FRI step
 
-        let domain = Domain::<F>::new_for_size((proof.initial_degree_plus_one * proof.lde_factor) as u64)?;
+        let domain = Domain::<F>::new_for_size(lde_size as u64)?;
 
         let domain_element = domain.generator.pow([natural_element_index as u64]);
 
@@ -167,10 +202,6 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
         let mut domain_size = domain.size as usize;
         let mut domain_idx = natural_element_index;
 
-        if proof.queries.len() % degree != 0 {
-            return Err(SynthesisError::InvalidValue("invalid number of queries".to_owned()));
-        }
-
         for (round, (root, queries)) in proof.roots.iter()
                                 .zip(proof.queries.chunks_exact(degree)) 
                                 .enumerate()
@@ -200,7 +231,10 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
                 if q.tree_index() != tree_index {
                     return Err(SynthesisError::InvalidValue(format!("invalid tree index for element at natural index {}: expected {}, got {}", c, tree_index, q.tree_index())));
                 }
-                assert!(q.natural_index() == *c, "coset values and produced queries are expected to be sorted!");
+                // coset values and produced queries are expected to be sorted
+                if q.natural_index() != *c {
+                    return Ok(false);
+                }
             }
 
             for q in queries.iter() {
-- 
2.43.0


From 76b31792383f06e435827d87956a50e619b43ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 11/26] fix: accept only FRI proofs for the committed oracles
 and for the degree of the instance

The verifier trusted the degree and rate that a FRI proof declares, and committed to roots
that the FRI proof did not have to use, so a prover could prove a false statement.
---
 src/fri/mod.rs      | 15 +++++++++++++++
 src/verifier/mod.rs | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/fri/mod.rs b/src/fri/mod.rs
index c8ba386..3c220ab 100644
--- a/src/fri/mod.rs
+++ b/src/fri/mod.rs
@@ -31,6 +31,9 @@ pub trait FriProofPrototype<F: PrimeField, I: IOP<F>> {
 
 pub trait FriProof<F: PrimeField, I: IOP<F>> {
     fn get_final_coefficients(&self) -> &[F];
+    fn get_roots(&self) -> &[< <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput];
+    fn get_initial_degree_plus_one(&self) -> usize;
+    fn get_lde_factor(&self) -> usize;
 }
 
 pub trait FriIop<F: PrimeField> {
@@ -150,6 +153,18 @@ impl<F: PrimeField, I: IOP<F>> FriProof<F, I> for FRIProof<F, I> {
     fn get_final_coefficients(&self) -> &[F] {
         &self.final_coefficients
     }
+
+    fn get_roots(&self) -> &[< <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput] {
+        &self.roots
+    }
+
+    fn get_initial_degree_plus_one(&self) -> usize {
+        self.initial_degree_plus_one
+    }
+
+    fn get_lde_factor(&self) -> usize {
+        self.lde_factor
+    }
 }
 
 impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index ed2e19d..d62df0f 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -304,6 +304,21 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
             scratch_space.h1_poly_challenges.push(alpha);
         }
 
+        // FRI proofs have to be about the oracles that are committed below, and about the degree and rate of this instance
+
+        for (fri_proof, roots, degree_plus_one) in [
+            (&proof.fri_proof_h1, &proof.h1_iop_roots, self.column_domain.size),
+            (&proof.fri_proof_h2, &proof.h2_iop_roots, self.constraints_domain.size)
+        ].iter() {
+            if roots.is_empty() || fri_proof.get_roots() != &roots[..] {
+                return Err(SynthesisError::Unsatisfied("FRI proof is for other oracles than committed".to_owned()));
+            }
+
+            if fri_proof.get_initial_degree_plus_one() as u64 != *degree_plus_one || fri_proof.get_lde_factor() != self.lde_factor {
+                return Err(SynthesisError::Unsatisfied("FRI proof is for another degree or LDE factor".to_owned()));
+            }
+        }
+
         // println!("Final root for h1 in verifier = {:?}", proof.h1_iop_roots.last().expect("there is one").as_ref());
         // println!("Final root for h1 in verifier = {:?}", proof.h2_iop_roots.last().expect("there is one").as_ref());
 
-- 
2.43.0


From 22d0b2c808049179ee3b2d2ece9c5b09aab0e8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 12/26] fix: check the length of a path to the queried leaf

A path of another length opens an inner node, or a leaf under another index, of a tree that
is not of the expected size, so one index could be opened to different values.
---
 src/fri/verifier.rs | 2 +-
 src/verifier/mod.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fri/verifier.rs b/src/fri/verifier.rs
index 68936be..6abe94a 100644
--- a/src/fri/verifier.rs
+++ b/src/fri/verifier.rs
@@ -238,7 +238,7 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
             }
 
             for q in queries.iter() {
-                if !I::verify_query(&q, &root) {
+                if q.path().len() != log2_floor(domain_size) as usize || !I::verify_query(&q, &root) {
                     return Ok(false);
                 }
             }
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index d62df0f..ed2b0c0 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -354,7 +354,7 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
         }
 
         for (query, root) in proof.f_queries.iter().zip(proof.f_iop_roots.iter()) {
-            if !I::verify_query(query, root) {
+            if query.path().len() != f_lde_domain.power_of_two as usize || !I::verify_query(query, root) {
                 return Ok(false);
             }
             if query.natural_index() != x_challenge_index_h1 {
@@ -382,7 +382,7 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
             z
         )?;
 
-        if !I::verify_query(&proof.g_query, &proof.g_iop_root) {
+        if proof.g_query.path().len() != g_lde_domain.power_of_two as usize || !I::verify_query(&proof.g_query, &proof.g_iop_root) {
             return Ok(false);
         }
         if proof.g_query.natural_index() != x_challenge_index_h2 {
-- 
2.43.0


From 85935e02aeb96690471ac0fbee7695cbce9a8c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:34 +0000
Subject: [PATCH 13/26] fix: bind the statement to the transcript of the proof

---
 src/arp/mod.rs      | 98 +++++++++++++++++++++++++++++++++++++++++++++
 src/prover/mod.rs   |  1 +
 src/verifier/mod.rs |  1 +
 3 files changed, 100 insertions(+)

diff --git a/src/arp/mod.rs b/src/arp/mod.rs
index 60ea21e..70226f6 100644
--- a/src/arp/mod.rs
+++ b/src/arp/mod.rs
@@ -2,6 +2,7 @@ use crate::air::*;
 use crate::air::TestTraceSystem;
 use crate::polynomials::*;
 use crate::fft::multicore::Worker;
+use crate::transcript::Transcript;
 use crate::*;
 
 use ff::PrimeField;
@@ -83,6 +84,103 @@ pub struct InstanceProperties<F: PrimeField> {
     pub boundary_constraints: Vec<BoundaryConstraint<F>>
 }
 
+impl<F: PrimeField> InstanceProperties<F> {
+    /// Challenges have to depend on the full statement that is being proven, otherwise parts of it
+    /// (e.g. values of the boundary constraints) can be chosen to fit the challenges
+    pub fn commit_to_transcript<T: Transcript<F>>(&self, transcript: &mut T) {
+        fn commit_number<F: PrimeField, T: Transcript<F>>(transcript: &mut T, number: u64) {
+            transcript.commit_bytes(&number.to_be_bytes());
+        }
+
+        fn commit_register<F: PrimeField, T: Transcript<F>>(transcript: &mut T, register: &Register) {
+            let (kind, number) = match register {
+                Register::ProgramCounter(n) => (0, *n),
+                Register::Register(n) => (1, *n),
+                Register::Constant(n) => (2, *n),
+                Register::Aux(n) => (3, *n),
+            };
+            commit_number(transcript, kind);
+            commit_number(transcript, number as u64);
+        }
+
+        fn commit_univariate_term<F: PrimeField, T: Transcript<F>>(transcript: &mut T, term: &UnivariateTerm<F>) {
+            transcript.commit_field_element(&term.coeff);
+            commit_register(transcript, &term.register);
+            match term.steps_difference {
+                StepDifference::Steps(steps) => {
+                    commit_number(transcript, 0);
+                    commit_number(transcript, steps as u64);
+                },
+                StepDifference::Mask(ref mask) => {
+                    commit_number(transcript, 1);
+                    transcript.commit_field_element(mask);
+                }
+            }
+            commit_number(transcript, term.power);
+        }
+
+        commit_number(transcript, self.num_rows as u64);
+        commit_number(transcript, self.num_registers as u64);
+
+        commit_number(transcript, self.constraints.len() as u64);
+        for c in self.constraints.iter() {
+            match c.density {
+                ConstraintDensity::Dense(ref dense) => {
+                    commit_number(transcript, 0);
+                    commit_number(transcript, dense.start_at as u64);
+                    commit_number(transcript, dense.span as u64);
+                },
+                ConstraintDensity::Repeated(ref repeated) => {
+                    commit_number(transcript, 1);
+                    commit_number(transcript, repeated.start_at as u64);
+                    commit_number(transcript, repeated.span as u64);
+                    commit_number(transcript, repeated.interval as u64);
+                },
+                ConstraintDensity::Sparse(ref sparse) => {
+                    commit_number(transcript, 2);
+                    commit_number(transcript, sparse.rows.len() as u64);
+                    for row in sparse.rows.iter() {
+                        commit_number(transcript, *row as u64);
+                    }
+                },
+            }
+            commit_number(transcript, c.degree);
+            transcript.commit_field_element(&c.constant_term);
+            commit_number(transcript, c.terms.len() as u64);
+            for term in c.terms.iter() {
+                match term {
+                    ConstraintTerm::Univariate(ref uni) => {
+                        commit_number(transcript, 0);
+                        commit_univariate_term(transcript, uni);
+                    },
+                    ConstraintTerm::Polyvariate(ref poly) => {
+                        commit_number(transcript, 1);
+                        transcript.commit_field_element(&poly.coeff);
+                        commit_number(transcript, poly.terms.len() as u64);
+                        for uni in poly.terms.iter() {
+                            commit_univariate_term(transcript, uni);
+                        }
+                    }
+                }
+            }
+        }
+
+        commit_number(transcript, self.boundary_constraints.len() as u64);
+        for b_c in self.boundary_constraints.iter() {
+            commit_register(transcript, &b_c.register);
+            commit_number(transcript, b_c.at_row as u64);
+            match b_c.value {
+                Some(ref value) => {
+                    commit_number(transcript, 1);
+                    transcript.commit_field_element(value);
+                },
+                None => {
+                    commit_number(transcript, 0);
+                }
+            }
+        }
+    }
+}
 
 impl<F: PrimeField> IntoARP<F> for TestTraceSystem<F> {
     fn into_arp(self) ->  (Option<Vec<Vec<F>>>, InstanceProperties<F>) {
diff --git a/src/prover/mod.rs b/src/prover/mod.rs
index d0a6e26..b34241f 100644
--- a/src/prover/mod.rs
+++ b/src/prover/mod.rs
@@ -65,6 +65,7 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
 
     pub fn prove(&self, witness: Vec<Vec<F>>) -> Result<InstanceProof<F, T, I, P, PR, FRI, PerRegisterARP>, SynthesisError> {
         let mut transcript = T::new();
+        self.arp.properties.commit_to_transcript(&mut transcript);
 
         let witness_polys = self.arp.calculate_witness_polys(witness, &self.worker)?;
 
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index ed2b0c0..11f9015 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -267,6 +267,7 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
         proof: &InstanceProof<F, T, I, P, PR, FRI, PerRegisterARP>
     ) -> Result<bool, SynthesisError> {
         let mut scratch_space: InstanceProofScratchSpace<F, T, I, PerRegisterARP> = InstanceProofScratchSpace::new();
+        self.instance.commit_to_transcript(&mut scratch_space.transcript);
 
         for r in proof.f_iop_roots.iter() {
             scratch_space.transcript.commit_bytes(r.as_ref());
-- 
2.43.0


From c5527e6f8495e3aa5b807a10444c54c8d6169292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:45 +0000
Subject: [PATCH 14/26] fix: return an error for a domain size above the
 largest power of two

---
 src/domains/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domains/mod.rs b/src/domains/mod.rs
index 682377e..b0bb708 100644
--- a/src/domains/mod.rs
+++ b/src/domains/mod.rs
@@ -19,7 +19,7 @@ pub struct Domain<F: PrimeField> {
 
 impl<F: PrimeField> Domain<F> {
     pub fn new_for_size(size: u64) -> Result<Self, SynthesisError> {
-        let size = size.next_power_of_two();
+        let size = size.checked_next_power_of_two().ok_or(SynthesisError::Error)?;
         let mut power_of_two = 0;
         let mut k = size;
         while k != 1 {
-- 
2.43.0


From cd95bd1b13f8f449703749301d7e92624e1ca601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:27 +0000
Subject: [PATCH 15/26] fix: make a FRI proof for a polynomial that is already
 of the final degree

---
 src/fri/fri_on_values.rs | 3 ++-
 src/fri/mod.rs           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fri/fri_on_values.rs b/src/fri/fri_on_values.rs
index 6806d0c..b5f8143 100644
--- a/src/fri/fri_on_values.rs
+++ b/src/fri/fri_on_values.rs
@@ -121,7 +121,8 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
         // final challenge is not necessary
         challenges.pop().expect("will work");
 
-        let final_root = roots.pop().expect("will work");
+        // there are no intermediate oracles if nothing had to be folded
+        let final_root = roots.pop().unwrap_or_else(|| l0_commitment.get_root());
 
         assert!(challenges.len() == num_steps);
         assert!(intermediate_commitments.len() == num_steps);
diff --git a/src/fri/mod.rs b/src/fri/mod.rs
index 3c220ab..f105ae9 100644
--- a/src/fri/mod.rs
+++ b/src/fri/mod.rs
@@ -238,7 +238,8 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
 
     challenges.pop().expect("will work");
 
-    let final_root = roots.pop().expect("will work");
+    // there are no intermediate oracles if nothing had to be folded
+    let final_root = roots.pop().unwrap_or_else(|| l0_commitment.get_root());
 
     assert!(challenges.len() == num_steps);
     assert!(intermediate_commitments.len() == num_steps);
-- 
2.43.0


From 713d425fc974c78e449012c56c37eede487c3b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:27 +0000
Subject: [PATCH 16/26] fix: refuse an opening at an index outside of the tree

---
 src/iop/blake2s_trivial_iop.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iop/blake2s_trivial_iop.rs b/src/iop/blake2s_trivial_iop.rs
index 8d393b4..3b6e1e3 100644
--- a/src/iop/blake2s_trivial_iop.rs
+++ b/src/iop/blake2s_trivial_iop.rs
@@ -251,7 +251,8 @@ impl<'a, F: PrimeField> IopTree<F> for Blake2sIopTree<F> {
             idx >>= 1;
         }
 
-        &hash == root
+        // index has to be inside of the tree of such depth
+        idx == 0 && &hash == root
     }
 
     fn get_path(&self, tree_index: usize, leafs_values: &[F]) -> Vec< <Self::Hasher as IopTreeHasher<F>>::HashOutput >{
-- 
2.43.0


From cbb4dd744011dae5f9f8b1d6153ab87a0756b7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 17/26] fix: logarithm of numbers with the top bit set

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 1e63dbb..824229b 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -110,7 +110,7 @@ pub fn log2_floor(num: usize) -> u32 {
 
     let mut pow = 0;
 
-    while (1 << (pow+1)) <= num {
+    while (num >> pow) > 1 {
         pow += 1;
     }
 
-- 
2.43.0


From 65bf51ae7df285788e4cd9e0571d3ed188800aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 18/26] fix: verify a FRI prototype with zero folding steps

---
 src/fri/verifier.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fri/verifier.rs b/src/fri/verifier.rs
index 6abe94a..4ee73eb 100644
--- a/src/fri/verifier.rs
+++ b/src/fri/verifier.rs
@@ -121,7 +121,8 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
             power.mul_assign(&evaluation_point);
         }
         
-        let expected_value = expected_value.expect("is some");
+        // if nothing had to be folded then it's a value of the initial polynomial itself
+        let expected_value = expected_value.unwrap_or(*I::get_for_natural_index(leaf_values.as_ref(), natural_element_index));
 
         let valid = expected_value_from_coefficients == expected_value;
 
-- 
2.43.0


From a23b033ebf29ae067592d37c3181a8cf83e1f788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:41 +0000
Subject: [PATCH 19/26] fix: is_satisfied refuses witnesses of another shape

A witness with fewer registers or rows than the statement asks for was either
taken for satisfying or made the check panic.
---
 src/arp/per_register/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/arp/per_register/mod.rs b/src/arp/per_register/mod.rs
index 5580eab..d72d498 100644
--- a/src/arp/per_register/mod.rs
+++ b/src/arp/per_register/mod.rs
@@ -213,7 +213,14 @@ impl<F: PrimeField> ARPInstance<F, PerRegisterARP> {
             Ok(value)
         }
 
-        let num_rows = witness[0].len();
+        let num_rows = properties.num_rows;
+
+        if witness.len() != properties.num_registers || witness.iter().any(|w| w.len() != num_rows) {
+            return Err(SynthesisError::InvalidValue(
+                format!("witness does not have {} registers of {} rows", properties.num_registers, num_rows)
+                )
+            );
+        }
 
         // these constraints are not remapped, so step differences are 
         for c in properties.constraints.iter() {
-- 
2.43.0


From 9b46fc9928d904d29af1d42592425b7a1cd4521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:05 +0000
Subject: [PATCH 20/26] verif: guarded hooks to build and run a trace system

---
 src/verif_hooks.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index a711c67..faeb2b2 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -117,3 +117,13 @@ pub mod transforms {
         fft::dit_fft::best_DIT_fft(a, worker, omega, log_n, non_zero)
     }
 }
+
+/// A trace system without anything in it.
+pub fn new_tracer<F: PrimeField>() -> TestTraceSystem<F> {
+    TestTraceSystem::new()
+}
+
+/// Runs the witness generators for a number of steps.
+pub fn run_tracer<F: PrimeField>(tracer: &mut TestTraceSystem<F>, steps: usize) {
+    tracer.calculate_witness(1, 1, steps)
+}
-- 
2.43.0


From d76f26a132272d59278993cb71833e6863a81df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:03 +0000
Subject: [PATCH 21/26] fix: the norm of the quadratic extension is c0^2 -
 beta*c1^2, so that legendre agrees with sqrt

---
 src/experiments/square_root_calculator/fp2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/experiments/square_root_calculator/fp2.rs b/src/experiments/square_root_calculator/fp2.rs
index 8ec4cf3..3b98a8d 100644
--- a/src/experiments/square_root_calculator/fp2.rs
+++ b/src/experiments/square_root_calculator/fp2.rs
@@ -131,9 +131,9 @@ impl Fq2 {
         t0.square();
         t1.square();
         t1.mul_assign(&NON_RESIDUE);
-        t1.add_assign(&t0);
+        t0.sub_assign(&t1);
 
-        t1
+        t0
     }
 }
 
-- 
2.43.0


From 05f2ab0450df568de64cc288aecdaaae6d1e5790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:47 +0000
Subject: [PATCH 22/26] fix: a traced instance counts its registers of every
 kind

---
 src/arp/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arp/mod.rs b/src/arp/mod.rs
index 70226f6..3a96d0b 100644
--- a/src/arp/mod.rs
+++ b/src/arp/mod.rs
@@ -334,7 +334,7 @@ impl<F: PrimeField> IntoARP<F> for TestTraceSystem<F> {
 
         let properties = InstanceProperties::<F> {
             num_rows,
-            num_registers,
+            num_registers: total_registers,
             constraints,
             boundary_constraints,
         };
-- 
2.43.0


From d1ff5d3529067becaec5cd878d683fcf4cde7add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:47 +0000
Subject: [PATCH 23/26] fix: a traced statement without values converts to one
 without a witness

---
 src/arp/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arp/mod.rs b/src/arp/mod.rs
index 3a96d0b..0e53f60 100644
--- a/src/arp/mod.rs
+++ b/src/arp/mod.rs
@@ -324,7 +324,10 @@ impl<F: PrimeField> IntoARP<F> for TestTraceSystem<F> {
             }
         }
 
-        assert_eq!(witness.len(), total_registers);
+        // without any values this is just a statement, as the verifier has it
+        if witness.len() != 0 {
+            assert_eq!(witness.len(), total_registers);
+        }
 
         let witness = if witness.len() == 0 {
             None
-- 
2.43.0


From f69cfeb25ad09333c8129882ab03e92069c167d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:25 +0000
Subject: [PATCH 24/26] verif: the private tensor products for the monitors
 (guarded by hodor_verif)

---
 src/experiments/mod.rs        |  3 +++
 src/experiments/tensor_lde.rs | 27 +++++++++++++++++++++++++++
 src/verif_hooks.rs            |  2 ++
 3 files changed, 32 insertions(+)

diff --git a/src/experiments/mod.rs b/src/experiments/mod.rs
index 4365020..6725598 100644
--- a/src/experiments/mod.rs
+++ b/src/experiments/mod.rs
@@ -16,6 +16,9 @@ Interested user can find an example how to define the constraints using the conv
 
 mod tensor_lde;
 
+#[cfg(hodor_verif)]
+pub use self::tensor_lde::hooks as tensor_hooks;
+
 use ff::*;
 
 #[derive(PrimeField)]
diff --git a/src/experiments/tensor_lde.rs b/src/experiments/tensor_lde.rs
index 02fa6a9..e8c2689 100644
--- a/src/experiments/tensor_lde.rs
+++ b/src/experiments/tensor_lde.rs
@@ -132,6 +132,33 @@ fn decompose_lde_generator_for_vector_over_vector<F: PrimeField>(
     ((coset_generator_1, omega_1, lde_factor_1), (coset_generator_2, omega_2, lde_factor_2))
 }
 
+#[cfg(hodor_verif)]
+pub mod hooks {
+    use ff::PrimeField;
+
+    pub fn matrix_over_identity<F: PrimeField>(submatrix: &(Vec<F>, (usize, usize)), idx: (usize, usize)) -> F {
+        super::query_tensor_decomposition_element_matrix_over_identyty_matrix(submatrix, idx)
+    }
+
+    pub fn matrix_over_diagonal<F: PrimeField>(submatrix: &(Vec<F>, (usize, usize)), diagonal: &(Vec<F>, usize), idx: (usize, usize)) -> F {
+        super::query_tensor_decomposition_element_matrix_over_diagonal_matrix(submatrix, diagonal, idx)
+    }
+
+    pub fn vector_over_vector<F: PrimeField>(subvector_1: &(Vec<F>, usize), subvector_2: &(Vec<F>, usize), idx: usize) -> F {
+        super::query_tensor_decomposition_element_vector_over_vector(subvector_1, subvector_2, idx)
+    }
+
+    pub fn decompose_generator<F: PrimeField>(
+        lde_factor: usize,
+        domain_size: usize,
+        decomposition_info: (usize, usize),
+        omega: &F,
+        coset_generator: &F,
+    ) -> ((F, F, usize), (F, F, usize)) {
+        super::decompose_lde_generator_for_vector_over_vector(lde_factor, domain_size, decomposition_info, omega, coset_generator)
+    }
+}
+
 #[test]
 fn test_query_matrix_by_identity() {
     use super::Fr;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index faeb2b2..df882c9 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -12,6 +12,8 @@ pub use crate::experiments::cubic_vdf::CubicVDF;
 pub use crate::experiments::vdf::VDF;
 pub use crate::experiments::Fq2;
 pub use crate::experiments::Fr as Fr252;
+/// The queries of a tensor decomposition.
+pub use crate::experiments::tensor_hooks as tensor;
 pub use crate::fft::multicore::Worker;
 
 use crate::air::{Fibonacci, IntoAIR, TestTraceSystem};
-- 
2.43.0


From bbd8f5b51483fba594c72cb5872ba7d60b6b990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:25 +0000
Subject: [PATCH 25/26] fix: printed products lost the coefficients of their
 factors

---
 src/air/constraint.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/air/constraint.rs b/src/air/constraint.rs
index 04990e4..10633a8 100644
--- a/src/air/constraint.rs
+++ b/src/air/constraint.rs
@@ -64,6 +64,9 @@ impl<F: PrimeField> std::fmt::Display for ConstraintTerm<F> {
                         StepDifference::Steps(num_steps) => num_steps,
                         _ => unimplemented!()
                     };
+                    if t.coeff != one {
+                        write!(f, "{}*", t.coeff)?;
+                    }
                     match t.register {
                         Register::Register(reg_num) => {
                             write!(f, "(R_{}(t+{}))^{}", reg_num, num_steps, t.power)?;
-- 
2.43.0


From c400ca4a1dddcc1839fd355d5ac3467234c6c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:25 +0000
Subject: [PATCH 26/26] fix: statements about rows that the trace does not have
 were proven and accepted

---
 src/arp/mod.rs              | 39 +++++++++++++++++++++++++++++++++++++
 src/arp/per_register/mod.rs |  2 ++
 src/verifier/mod.rs         |  2 ++
 3 files changed, 43 insertions(+)

diff --git a/src/arp/mod.rs b/src/arp/mod.rs
index 0e53f60..6784225 100644
--- a/src/arp/mod.rs
+++ b/src/arp/mod.rs
@@ -85,6 +85,45 @@ pub struct InstanceProperties<F: PrimeField> {
 }
 
 impl<F: PrimeField> InstanceProperties<F> {
+    /// Only rows of the trace can be constrained. Other ones would be taken for the padding, or for rows
+    /// at the other end of the trace, when they are represented as elements of the domain
+    pub(crate) fn check_rows(&self) -> Result<(), SynthesisError> {
+        for c in self.constraints.iter() {
+            let span = match c.density {
+                ConstraintDensity::Dense(ref dense) => dense.span,
+                _ => continue,
+            };
+
+            for term in c.terms.iter() {
+                let terms = match term {
+                    ConstraintTerm::Univariate(ref t) => std::slice::from_ref(t),
+                    ConstraintTerm::Polyvariate(ref poly_term) => &poly_term.terms[..],
+                };
+
+                for t in terms.iter() {
+                    match t.steps_difference {
+                        StepDifference::Steps(steps) if steps > span => {
+                            return Err(SynthesisError::InvalidValue(
+                                format!("constraint with a span of {} accesses values {} steps ahead", span, steps)
+                            ));
+                        },
+                        _ => {}
+                    }
+                }
+            }
+        }
+
+        for b_c in self.boundary_constraints.iter() {
+            if b_c.at_row >= self.num_rows {
+                return Err(SynthesisError::InvalidValue(
+                    format!("boundary constraint at the row {} of {}", b_c.at_row, self.num_rows)
+                ));
+            }
+        }
+
+        Ok(())
+    }
+
     /// Challenges have to depend on the full statement that is being proven, otherwise parts of it
     /// (e.g. values of the boundary constraints) can be chosen to fit the challenges
     pub fn commit_to_transcript<T: Transcript<F>>(&self, transcript: &mut T) {
diff --git a/src/arp/per_register/mod.rs b/src/arp/per_register/mod.rs
index d72d498..c6696af 100644
--- a/src/arp/per_register/mod.rs
+++ b/src/arp/per_register/mod.rs
@@ -118,6 +118,8 @@ impl<F: PrimeField> ARPInstance<F, PerRegisterARP> {
     /// - add masking coefficients for constraints
     /// - keep boundary constraints as it is
     pub fn route(&mut self) -> Result<(), SynthesisError> {
+        self.properties.check_rows()?;
+
         let num_rows = self.properties.num_rows as u64;
         let num_rows_sup = num_rows.next_power_of_two();
         let column_domain = Domain::<F>::new_for_size(num_rows_sup)?;
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 11f9015..41d21aa 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -162,6 +162,8 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
         lde_factor: usize,
     ) -> Result<Self, SynthesisError> {
 
+        instance.check_rows()?;
+
         let num_rows = instance.num_rows as u64;
         let num_rows_sup = num_rows.next_power_of_two();
         let column_domain = Domain::<F>::new_for_size(num_rows_sup)?;
-- 
2.43.0

