From a7a01668daccfc6124fafe91cc2dce2b93403a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:20 +0000
Subject: [PATCH 01/39] fix: join: answer length queries for the joined
 dimension, not for the hidden ones

---
 include/noarr/structures/structs/views.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/structs/views.hpp b/include/noarr/structures/structs/views.hpp
index eaf336f..c8f3353 100644
--- a/include/noarr/structures/structs/views.hpp
+++ b/include/noarr/structures/structs/views.hpp
@@ -660,14 +660,24 @@ public:
 	requires IsDim<decltype(QDim)>
 	[[nodiscard]]
 	static consteval bool has_length() noexcept {
-		return sub_structure_t::template has_length<QDim, sub_state_t<State>>();
+		if constexpr (QDim == Dim) {
+			return sub_structure_t::template has_length<DimA, sub_state_t<State>>();
+		} else if constexpr (QDim == DimA || QDim == DimB) {
+			return false;
+		} else {
+			return sub_structure_t::template has_length<QDim, sub_state_t<State>>();
+		}
 	}
 
 	template<auto QDim, IsState State>
 	requires (has_length<QDim, State>())
 	[[nodiscard]]
 	constexpr auto length(State state) const noexcept {
-		return sub_structure().template length<QDim>(sub_state(state));
+		if constexpr (QDim == Dim) {
+			return sub_structure().template length<DimA>(sub_state(state));
+		} else {
+			return sub_structure().template length<QDim>(sub_state(state));
+		}
 	}
 };
 
-- 
2.43.0


From 37447c432fa1def038b59ec41a9634e515a74ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:20 +0000
Subject: [PATCH 02/39] fix: span, step: report the actual static length in the
 signature

---
 include/noarr/structures/structs/slice.hpp | 25 ++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/structs/slice.hpp b/include/noarr/structures/structs/slice.hpp
index 4a62f74..337b483 100644
--- a/include/noarr/structures/structs/slice.hpp
+++ b/include/noarr/structures/structs/slice.hpp
@@ -386,7 +386,17 @@ private:
 
 	template<class ArgLength, class RetSig>
 	struct dim_replacement<function_sig<Dim, ArgLength, RetSig>> {
-		using type = function_sig<Dim, arg_length_from_t<EndT>, RetSig>;
+		template<class S, class E>
+		struct subtract {
+			using type = dynamic_arg_length;
+		};
+
+		template<std::size_t S, std::size_t E>
+		struct subtract<std::integral_constant<std::size_t, S>, std::integral_constant<std::size_t, E>> {
+			using type = static_arg_length<E - S>;
+		};
+
+		using type = function_sig<Dim, typename subtract<StartT, EndT>::type, RetSig>;
 	};
 
 	template<class... RetSigs>
@@ -539,7 +549,18 @@ private:
 
 	template<class ArgLength, class RetSig>
 	struct dim_replacement<function_sig<Dim, ArgLength, RetSig>> {
-		using type = function_sig<Dim, arg_length_from_t<StrideT>, RetSig>;
+		template<class L, class S, class D>
+		struct count {
+			using type = dynamic_arg_length;
+		};
+
+		template<std::size_t L, std::size_t S, std::size_t D>
+		struct count<static_arg_length<L>, std::integral_constant<std::size_t, S>,
+		             std::integral_constant<std::size_t, D>> {
+			using type = static_arg_length<(L + D - S - 1) / D>;
+		};
+
+		using type = function_sig<Dim, typename count<ArgLength, StartT, StrideT>::type, RetSig>;
 	};
 
 	template<class... RetSigs>
-- 
2.43.0


From 80037244fe21503a1c2d3aa79215759574bde779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:20 +0000
Subject: [PATCH 03/39] fix: join: remove both joined dimensions from the
 signature

---
 include/noarr/structures/structs/views.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/views.hpp b/include/noarr/structures/structs/views.hpp
index c8f3353..80c906e 100644
--- a/include/noarr/structures/structs/views.hpp
+++ b/include/noarr/structures/structs/views.hpp
@@ -600,7 +600,8 @@ private:
 
 public:
 	using signature = function_sig<Dim, typename dim_a::arg_length,
-	                               typename T::signature::template replace<sig_remove_first, DimA, DimB>>;
+	                               typename T::signature::template replace<sig_remove_first, DimA>::template replace<
+									   sig_remove_first, DimB>>;
 
 	template<IsState State>
 	[[nodiscard]]
-- 
2.43.0


From 3358eb79b1b005cc683c0edbc30a4c247a91e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:58 +0000
Subject: [PATCH 04/39] fix: reverse: query lengths of other dimensions with
 the reversed index

---
 include/noarr/structures/structs/slice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/slice.hpp b/include/noarr/structures/structs/slice.hpp
index 337b483..08d23c3 100644
--- a/include/noarr/structures/structs/slice.hpp
+++ b/include/noarr/structures/structs/slice.hpp
@@ -812,7 +812,7 @@ public:
 	requires (has_length<QDim, State>())
 	[[nodiscard]]
 	constexpr auto length(State state) const noexcept {
-		return sub_structure().template length<QDim>(state);
+		return sub_structure().template length<QDim>(sub_state(state));
 	}
 };
 
-- 
2.43.0


From a3c67eae386b71ab81b8c3ac0e36244b9f059fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:46 +0000
Subject: [PATCH 05/39] fix: merge_zcurve: no overflow for large MaxLen or
 Alignment, nor for a single dimension

---
 include/noarr/structures/structs/zcurve.hpp | 22 +++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/noarr/structures/structs/zcurve.hpp b/include/noarr/structures/structs/zcurve.hpp
index 969296f..4d7c1c1 100644
--- a/include/noarr/structures/structs/zcurve.hpp
+++ b/include/noarr/structures/structs/zcurve.hpp
@@ -77,9 +77,9 @@ constexpr std::tuple<SizeTs...> zc_general(std::size_t z, SizeTs... sizes) noexc
 					           : tile_size;
 				}
 			});
-			const std::size_t half_volume = facet << level::v;
-			if (z >= half_volume) {
-				z -= half_volume;
+			// compare without computing the half-volume, which may not be representable for a large `Levels`
+			if ((z >> level::v) >= facet) {
+				z -= facet << level::v;
 				std::get<i::v>(result) += small_tile_size::v;
 			}
 		});
@@ -105,7 +105,12 @@ template<std::size_t NDim, std::size_t... I>
 constexpr std::size_t zc_special_inner(std::size_t tmp, std::index_sequence<I...> /*is*/) noexcept {
 	(..., (tmp &= zc_special_helper<(NDim << I), (static_cast<std::size_t>(1U) << (1U << I)) - 1U>::rep_bits,
 	       tmp |= tmp >> ((NDim - 1U) << I)));
-	return tmp & ((static_cast<std::size_t>(1U) << (1U << sizeof...(I))) - 1U);
+	constexpr std::size_t bits = static_cast<std::size_t>(1U) << sizeof...(I);
+	if constexpr (bits >= 8 * sizeof(std::size_t)) {
+		return tmp;
+	} else {
+		return tmp & ((static_cast<std::size_t>(1U) << bits) - 1U);
+	}
 }
 
 template<std::size_t NDim, std::size_t Dim>
@@ -194,8 +199,13 @@ private:
 			const auto tmp_state = clean_state(state);
 			if constexpr (state_contains<State, index_in<Dim>>) {
 				const std::size_t index = state.template get<index_in<Dim>>();
-				const auto index_general = index >> SpecialLevel * sizeof...(Dims);
-				const auto index_special = index & ((1U << SpecialLevel * sizeof...(Dims)) - 1U);
+				constexpr std::size_t special_bits = SpecialLevel * sizeof...(Dims);
+				constexpr bool all_special = special_bits >= 8 * sizeof(std::size_t);
+				constexpr std::size_t general_shift = all_special ? 0 : special_bits;
+				constexpr std::size_t special_mask =
+					all_special ? ~std::size_t(0) : (static_cast<std::size_t>(1U) << general_shift) - 1U;
+				const std::size_t index_general = all_special ? 0 : index >> general_shift;
+				const std::size_t index_special = index & special_mask;
 				const auto indices = helpers::zc_general<GeneralLevel - SpecialLevel>(
 					index_general, (sub_structure.template length<Dims>(tmp_state) >> SpecialLevel)...);
 				return tmp_state.template with<index_in<Dims>...>(
-- 
2.43.0


From 9d76d8600da260a05f5a01bbe1461919a1b6750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:39 +0000
Subject: [PATCH 06/39] fix: has_offset, scalar_t: no hard error when the index
 of an inner tuple is missing

---
 include/noarr/structures/extra/struct_traits.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/noarr/structures/extra/struct_traits.hpp b/include/noarr/structures/extra/struct_traits.hpp
index b6dd600..8591e47 100644
--- a/include/noarr/structures/extra/struct_traits.hpp
+++ b/include/noarr/structures/extra/struct_traits.hpp
@@ -51,22 +51,21 @@ struct is_cube {
 };
 
 template<class T, IsState State>
-struct sig_get_scalar;
+struct sig_get_scalar {}; // no type: an index of a tuple-like dimension is missing
 
 template<IsDim auto Dim, class ArgLength, class RetSig, IsState State>
-struct sig_get_scalar<function_sig<Dim, ArgLength, RetSig>, State> {
-	using type = typename sig_get_scalar<RetSig, state_remove_t<State, index_in<Dim>, length_in<Dim>>>::type;
-};
+struct sig_get_scalar<function_sig<Dim, ArgLength, RetSig>, State>
+	: sig_get_scalar<RetSig, state_remove_t<State, index_in<Dim>, length_in<Dim>>> {};
 
 template<IsDim auto Dim, class... RetSigs, IsState State>
 requires (state_contains<State, index_in<Dim>>)
-struct sig_get_scalar<dep_function_sig<Dim, RetSigs...>, State> {
+struct sig_get_scalar<dep_function_sig<Dim, RetSigs...>, State>
+	: sig_get_scalar<
+		  typename dep_function_sig<Dim, RetSigs...>::template ret_sig<state_get_t<State, index_in<Dim>>::value>,
+		  state_remove_t<State, index_in<Dim>, length_in<Dim>>> {
 	static_assert(
 		requires { state_get_t<State, index_in<Dim>>::value; },
 		"Tuple index must be set statically, wrap it in lit<> (e.g. replace 42 with lit<42>)");
-	using type = typename sig_get_scalar<
-		typename dep_function_sig<Dim, RetSigs...>::template ret_sig<state_get_t<State, index_in<Dim>>::value>,
-		state_remove_t<State, index_in<Dim>, length_in<Dim>>>::type;
 };
 
 template<class ValueType, IsState State>
-- 
2.43.0


From d3f2dae0b81eda92720fa65fd907e568e6ef9798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:40 +0000
Subject: [PATCH 07/39] fix: rename: has_length is false for the names that
 were renamed away

---
 include/noarr/structures/structs/views.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/structs/views.hpp b/include/noarr/structures/structs/views.hpp
index 80c906e..c946d23 100644
--- a/include/noarr/structures/structs/views.hpp
+++ b/include/noarr/structures/structs/views.hpp
@@ -526,8 +526,14 @@ public:
 	requires IsDim<decltype(QDim)>
 	[[nodiscard]]
 	static consteval bool has_length() noexcept {
-		return sub_structure_t::template has_length<helpers::rename_dim<QDim, external, internal>::dim,
-		                                            sub_state_t<State>>();
+		if constexpr (dim_sequence_contains<internal>::template value<QDim> &&
+		              !dim_sequence_contains<external>::template value<QDim>) {
+			// This dimension is hidden by the renaming
+			return false;
+		} else {
+			return sub_structure_t::template has_length<helpers::rename_dim<QDim, external, internal>::dim,
+			                                            sub_state_t<State>>();
+		}
 	}
 
 	template<auto QDim, IsState State>
-- 
2.43.0


From 41df7c8849bad1d8b58b5459d0cf2b8c8277d34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:40 +0000
Subject: [PATCH 08/39] fix: merge_zcurve: has_length is false for the merged
 dimensions

---
 include/noarr/structures/structs/zcurve.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/noarr/structures/structs/zcurve.hpp b/include/noarr/structures/structs/zcurve.hpp
index 4d7c1c1..9f81e1b 100644
--- a/include/noarr/structures/structs/zcurve.hpp
+++ b/include/noarr/structures/structs/zcurve.hpp
@@ -267,6 +267,9 @@ public:
 			return false;
 		} else if constexpr (QDim == Dim) {
 			return (... && sub_structure_t::template has_length<Dims, sub_state_t<State>>());
+		} else if constexpr ((... || (QDim == Dims))) {
+			// This dimension is consumed by merge_zcurve
+			return false;
 		} else {
 			return sub_structure_t::template has_length<QDim, sub_state_t<State>>();
 		}
-- 
2.43.0


From a3bb4239ec1954ab2f32ec69c0601aa38faaa753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:59 +0000
Subject: [PATCH 09/39] fix: merge_zcurve: no hard error when the lengths of
 the merged dimensions need a tuple index

---
 include/noarr/structures/structs/zcurve.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/zcurve.hpp b/include/noarr/structures/structs/zcurve.hpp
index 9f81e1b..15c51bb 100644
--- a/include/noarr/structures/structs/zcurve.hpp
+++ b/include/noarr/structures/structs/zcurve.hpp
@@ -197,7 +197,8 @@ private:
 		[[nodiscard]]
 		static constexpr auto sub_state(State state, T sub_structure, std::index_sequence<DimsI...> /*is*/) noexcept {
 			const auto tmp_state = clean_state(state);
-			if constexpr (state_contains<State, index_in<Dim>>) {
+			if constexpr (state_contains<State, index_in<Dim>> &&
+			              (... && T::template has_length<Dims, clean_state_t<State>>())) {
 				const std::size_t index = state.template get<index_in<Dim>>();
 				constexpr std::size_t special_bits = SpecialLevel * sizeof...(Dims);
 				constexpr bool all_special = special_bits >= 8 * sizeof(std::size_t);
-- 
2.43.0


From 052bff8892634deb32f8e71d1c20d1da394bcb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:43 +0000
Subject: [PATCH 10/39] fix: state: arithmetic on static entries gives the
 computed values

---
 include/noarr/structures/base/state.hpp | 51 ++++++++++++++++---------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/include/noarr/structures/base/state.hpp b/include/noarr/structures/base/state.hpp
index 335f858..7f31030 100644
--- a/include/noarr/structures/base/state.hpp
+++ b/include/noarr/structures/base/state.hpp
@@ -342,16 +342,27 @@ constexpr state<StateItems...> operator+(state<StateItems...> state_a) noexcept
 	return state_a;
 }
 
+namespace helpers {
+
+// constructs a state of the given tags; the value types are those of the values (static values stay static)
+template<class... Tags, class... ValueTypes>
+constexpr state<state_item<Tags, ValueTypes>...> state_of(ValueTypes... values) noexcept {
+	return state<state_item<Tags, ValueTypes>...>(values...);
+}
+
+} // namespace helpers
+
 template<class... StateItems>
-constexpr state<StateItems...> operator-([[maybe_unused]] state<StateItems...> state_a) noexcept {
+constexpr auto operator-([[maybe_unused]] state<StateItems...> state_a) noexcept {
 	using namespace noarr::constexpr_arithmetic;
-	return state<StateItems...>(-state_a.template get<typename StateItems::tag>()...);
+	return helpers::state_of<typename StateItems::tag...>(
+		(make_const<0>() - state_a.template get<typename StateItems::tag>())...);
 }
 
 template<class... StateItems>
-constexpr state<StateItems...> operator+(state<StateItems...> state_a, state<StateItems...> state_b) noexcept {
+constexpr auto operator+(state<StateItems...> state_a, state<StateItems...> state_b) noexcept {
 	using namespace noarr::constexpr_arithmetic;
-	return state<StateItems...>(
+	return helpers::state_of<typename StateItems::tag...>(
 		(state_a.template get<typename StateItems::tag>() + state_b.template get<typename StateItems::tag>())...);
 }
 
@@ -378,21 +389,23 @@ constexpr auto operator+(state<StateItemsA...> state_a, state<StateItemsB...> st
 
 	return [=]<class... StateItems>(state<StateItems...> base) constexpr noexcept {
 		// items that are in both states
-		const auto added =
-			state_a.items_restrict(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
-		                                                                typename StateItems::tag...>::result()) +
-			state_b.items_restrict(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
-		                                                                typename StateItems::tag...>::result());
+		const auto added = [=]<class... CommonItems>(helpers::state_items_pack<CommonItems...>) constexpr noexcept {
+			using namespace noarr::constexpr_arithmetic;
+			return helpers::state_of<typename CommonItems::tag...>(
+				(state_a.template get<typename CommonItems::tag>() +
+			     state_b.template get<typename CommonItems::tag>())...);
+		}(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
+		                                       typename StateItems::tag...>::result());
 
 		return added & base;
 	}(base);
 }
 
 template<class... StateItems>
-constexpr state<StateItems...> operator-(state<StateItems...> state_a, state<StateItems...> state_b) noexcept {
+constexpr auto operator-(state<StateItems...> state_a, state<StateItems...> state_b) noexcept {
 	using namespace noarr::constexpr_arithmetic;
-	return state<StateItems...>(state_a.template get<typename StateItems::tag>() -
-	                            state_b.template get<typename StateItems::tag>()...);
+	return helpers::state_of<typename StateItems::tag...>(
+		(state_a.template get<typename StateItems::tag>() - state_b.template get<typename StateItems::tag>())...);
 }
 
 template<class... StateItems>
@@ -401,7 +414,7 @@ constexpr state<StateItems...> operator-(state<StateItems...> state_a, state<> /
 }
 
 template<class... StateItems>
-constexpr state<StateItems...> operator-(state<> /*state_a*/, state<StateItems...> state_b) noexcept {
+constexpr auto operator-(state<> /*state_a*/, state<StateItems...> state_b) noexcept {
 	return -state_b;
 }
 
@@ -416,11 +429,13 @@ constexpr auto operator-(state<StateItemsA...> state_a, state<StateItemsB...> st
 	                                                                 typename StateItemsA::tag...>::result());
 
 	return [=]<class... StateItems>(state<StateItems...> base) constexpr noexcept {
-		const auto added =
-			state_a.items_restrict(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
-		                                                                typename StateItems::tag...>::result()) -
-			state_b.items_restrict(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
-		                                                                typename StateItems::tag...>::result());
+		const auto added = [=]<class... CommonItems>(helpers::state_items_pack<CommonItems...>) constexpr noexcept {
+			using namespace noarr::constexpr_arithmetic;
+			return helpers::state_of<typename CommonItems::tag...>(
+				(state_a.template get<typename CommonItems::tag>() -
+			     state_b.template get<typename CommonItems::tag>())...);
+		}(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
+		                                       typename StateItems::tag...>::result());
 
 		return added & base;
 	}(base);
-- 
2.43.0


From a0276826afb79e23fc2efa2f847475d26d6e3356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:35 +0000
Subject: [PATCH 11/39] fix: bag: transforming an rvalue bag with a unique
 pointer compiles again

---
 include/noarr/structures/interop/bag.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/bag.hpp b/include/noarr/structures/interop/bag.hpp
index 61df9e5..c950421 100644
--- a/include/noarr/structures/interop/bag.hpp
+++ b/include/noarr/structures/interop/bag.hpp
@@ -245,7 +245,9 @@ public:
 	[[nodiscard("Returns a new bag")]]
 	friend constexpr auto operator^(bag_t &&s, ProtoStruct p) {
 		using new_structure_t = std::remove_cvref_t<decltype(s.structure() ^ p)>;
-		return bag_t<new_structure_t, BagPolicy>(s.structure() ^ p, std::move(std::move(s).template get<1>()));
+		// `get` gives read-only access; `s` itself is not const, so its data may be moved away
+		return bag_t<new_structure_t, BagPolicy>(s.structure() ^ p,
+		                                         std::move(const_cast<data_t &>(s.template get<1>())));
 	}
 
 	template<IsProtoStruct ProtoStruct>
-- 
2.43.0


From b8331a829179a7844385919bee1cfc1967ee2a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:35 +0000
Subject: [PATCH 12/39] fix: std_para: planner_std_execute uses an existing and
 assignable iterator

---
 include/noarr/structures/interop/std_para.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/interop/std_para.hpp b/include/noarr/structures/interop/std_para.hpp
index 1da5d63..fb9d7ff 100644
--- a/include/noarr/structures/interop/std_para.hpp
+++ b/include/noarr/structures/interop/std_para.hpp
@@ -27,8 +27,11 @@ constexpr planner_std_execute_t planner_std_execute() noexcept { return {}; }
 
 template<IsPlanner Planner>
 inline void operator|(const Planner &planner, planner_std_execute_t /*unused*/) {
-	std::for_each(std::execution::par, planner.begin(), planner.end(),
-	              [](const auto &inner_planner) { inner_planner.execute(); });
+	// a planner (and thus its iterator) may not be assignable, iterate using the corresponding traverser
+	const auto t = traverser(planner.get_union()).order(planner.get_order());
+	std::for_each(std::execution::par, t.begin(), t.end(), [&planner](const auto &t_inner) {
+		make_planner(planner.get_union(), t_inner.get_order(), planner.get_ending()).execute();
+	});
 }
 
 } // namespace noarr
-- 
2.43.0


From c24f96e20b588d05c98a8aacc2f98f4063e59fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:35 +0000
Subject: [PATCH 13/39] fix: tbb: planner ranges can be split, so that
 planner_tbb_execute works

---
 include/noarr/structures/interop/planner_iter.hpp |  4 ++++
 include/noarr/structures/interop/tbb.hpp          | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/noarr/structures/interop/planner_iter.hpp b/include/noarr/structures/interop/planner_iter.hpp
index b6ad63e..674a823 100644
--- a/include/noarr/structures/interop/planner_iter.hpp
+++ b/include/noarr/structures/interop/planner_iter.hpp
@@ -190,6 +190,10 @@ struct planner_range_t<Dim, union_t<Structs...>, Order, Ending> : flexible_conta
 	constexpr planner_range_t(const planner_t<union_t<Structs...>, Order, Ending> &planner, std::size_t length)
 		: base(static_cast<const base &>(planner)), begin_idx(0), end_idx(length) {}
 
+	// Splitting constructor. Used by TBB, defined in tbb.hpp
+	template<class Split>
+	constexpr planner_range_t(planner_range_t &orig, Split /*unused*/) noexcept;
+
 	template<class NewOrder>
 	[[nodiscard("Returns a new planner")]]
 	constexpr auto order(NewOrder new_order) const noexcept {
diff --git a/include/noarr/structures/interop/tbb.hpp b/include/noarr/structures/interop/tbb.hpp
index e0ed07e..f0fd295 100644
--- a/include/noarr/structures/interop/tbb.hpp
+++ b/include/noarr/structures/interop/tbb.hpp
@@ -27,6 +27,16 @@ constexpr traverser_range_t<Dim, Struct, Order>::traverser_range_t(traverser_ran
 	orig.end_idx = begin_idx;
 }
 
+// declared in planner_iter.hpp
+template<IsDim auto Dim, class... Structs, class Order, class Ending>
+template<class Split>
+constexpr planner_range_t<Dim, union_t<Structs...>, Order, Ending>::planner_range_t(planner_range_t &orig,
+                                                                                    Split /*unused*/) noexcept
+	: base(orig), begin_idx(orig.begin_idx + (orig.end_idx - orig.begin_idx) / 2), end_idx(orig.end_idx) {
+	static_assert(std::is_same_v<Split, tbb::split>, "Invalid constructor call");
+	orig.end_idx = begin_idx;
+}
+
 template<IsTraverser Traverser, class F>
 inline void tbb_for_each(const Traverser &t, const F &f) {
 	tbb::parallel_for(t.range(), [&f](const auto &subrange) { subrange.for_each(f); });
-- 
2.43.0


From 2a26088ca9d6c990bea139233bee8c62627e80f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:35 +0000
Subject: [PATCH 14/39] fix: planner: planners over tuples compile

---
 include/noarr/structures/extra/planner.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/noarr/structures/extra/planner.hpp b/include/noarr/structures/extra/planner.hpp
index 5c2a1e2..96680a9 100644
--- a/include/noarr/structures/extra/planner.hpp
+++ b/include/noarr/structures/extra/planner.hpp
@@ -397,6 +397,10 @@ private:
 		for_each_impl_dep<Dim, Branches...>(state, std::index_sequence<Is...>());
 	}
 
+	// the bottom case
+	template<auto Dim>
+	constexpr void for_each_impl_dep(auto /*state*/, std::index_sequence<> /*is*/) const {}
+
 	template<auto Dim, class... Branches, IsState State>
 	constexpr void for_each_impl(dim_tree<Dim, Branches...> /*dt*/, State state) const {
 		if constexpr (helpers::is_activated_v<decltype(get_ending().order(
-- 
2.43.0


From 50158648e5753e3a703bb06039e004830cdbd637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:35 +0000
Subject: [PATCH 15/39] fix: planner: iterate the dimensions that remain when a
 per-element action is activated

---
 include/noarr/structures/extra/planner.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/noarr/structures/extra/planner.hpp b/include/noarr/structures/extra/planner.hpp
index 96680a9..81bc80a 100644
--- a/include/noarr/structures/extra/planner.hpp
+++ b/include/noarr/structures/extra/planner.hpp
@@ -63,13 +63,15 @@ public:
 
 	template<class Planner>
 	constexpr void operator()(const Planner &planner) const {
-		return run(planner, std::make_index_sequence<Planner::num_structs>());
+		// the order may still have some dimensions to iterate (e.g. the presence dimension of dynamic blocks)
+		traverser(planner.get_union()).order(planner.get_order()).for_each([this, &planner](auto state) constexpr {
+			run(planner, state, std::make_index_sequence<Planner::num_structs>());
+		});
 	}
 
 private:
 	template<class Planner, std::size_t... Idxs>
-	constexpr void run(const Planner &planner, std::index_sequence<Idxs...> /*unused*/) const {
-		const auto state = planner.state();
+	constexpr void run(const Planner &planner, auto state, std::index_sequence<Idxs...> /*unused*/) const {
 		if constexpr (requires(F f) { f(state, planner.template get_struct<Idxs>()[state]...); }) {
 			base::get()(state, planner.template get_struct<Idxs>()[state]...);
 		} else {
@@ -113,7 +115,8 @@ public:
 
 	template<class Planner>
 	constexpr void operator()(const Planner &planner) const {
-		base::get()(planner.state());
+		// the order may still have some dimensions to iterate (e.g. the presence dimension of dynamic blocks)
+		traverser(planner.get_union()).order(planner.get_order()).for_each(base::get());
 	}
 };
 
-- 
2.43.0


From b7669a3b69d73d96ba9741b5f9ec5dc5277b0f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:35 +0000
Subject: [PATCH 16/39] fix: planner: converting a planner to a traverser keeps
 the order

---
 include/noarr/structures/extra/planner.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/extra/planner.hpp b/include/noarr/structures/extra/planner.hpp
index 81bc80a..74edff5 100644
--- a/include/noarr/structures/extra/planner.hpp
+++ b/include/noarr/structures/extra/planner.hpp
@@ -445,11 +445,11 @@ concept IsPlanner = IsSpecialization<T, planner_t>;
 
 template<IsPlanner P>
 struct to_traverser<P> : std::true_type {
-	using type = decltype(traverser(std::declval<P>().get_union()));
+	using type = decltype(traverser(std::declval<P>().get_union()).order(std::declval<P>().get_order()));
 
 	[[nodiscard]]
 	static constexpr type convert(const P &p) noexcept {
-		return traverser(p.get_union());
+		return traverser(p.get_union()).order(p.get_order());
 	}
 };
 
-- 
2.43.0


From 27046e047443d15f40971c54072c139c0ede3e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:34 +0000
Subject: [PATCH 17/39] fix: contain_cat: keep a sole nested container as a
 field

---
 include/noarr/structures/base/contain.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/base/contain.hpp b/include/noarr/structures/base/contain.hpp
index 65e9b51..def1687 100644
--- a/include/noarr/structures/base/contain.hpp
+++ b/include/noarr/structures/base/contain.hpp
@@ -163,8 +163,11 @@ concept IsContain = is_contain_v<T>;
 template<class C1, std::size_t... Idxs1, class C2, std::size_t... Idxs2, class... Contains>
 constexpr auto contain_cat_impl(C1 &&c1, std::index_sequence<Idxs1...> /*unused*/, C2 &&c2,
                                 std::index_sequence<Idxs2...> /*unused*/, Contains &&...contains) noexcept {
+	// the type is explicit: a sole field that is a `contain` itself would be copied instead of contained
+	using cat_t = contain<std::remove_cvref_t<decltype(c1.template get<Idxs1>())>...,
+	                      std::remove_cvref_t<decltype(c2.template get<Idxs2>())>...>;
 	return contain_cat(
-		contain(std::forward<C1>(c1).template get<Idxs1>()..., std::forward<C2>(c2).template get<Idxs2>()...),
+		cat_t(std::forward<C1>(c1).template get<Idxs1>()..., std::forward<C2>(c2).template get<Idxs2>()...),
 		std::forward<Contains>(contains)...);
 }
 
-- 
2.43.0


From 5380a347cc24d640c3411cc8905fec72e9b9722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:06 +0000
Subject: [PATCH 18/39] fix: offset_along: a vector without a size has no
 offset

---
 include/noarr/structures/introspection/offset_along.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/introspection/offset_along.hpp b/include/noarr/structures/introspection/offset_along.hpp
index 5b7639e..b0ea422 100644
--- a/include/noarr/structures/introspection/offset_along.hpp
+++ b/include/noarr/structures/introspection/offset_along.hpp
@@ -84,7 +84,7 @@ private:
 
 	static constexpr bool get_value() noexcept {
 		if constexpr (QDim == Dim) {
-			return has_offset_of<sub_structure_t, Structure, State>();
+			return has_offset_of<sub_structure_t, Structure, State>() && sub_structure_t::template has_size<sub_state_t>();
 		} else {
 			return has_offset_along<QDim, sub_structure_t, sub_state_t>::value;
 		}
-- 
2.43.0


From 9b34eca2d4debc2457929a8a26eab33645acd960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:06 +0000
Subject: [PATCH 19/39] fix: offset_along: a renamed-away dimension has no
 offset

---
 .../structures/introspection/offset_along.hpp      | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/noarr/structures/introspection/offset_along.hpp b/include/noarr/structures/introspection/offset_along.hpp
index b0ea422..0bb312b 100644
--- a/include/noarr/structures/introspection/offset_along.hpp
+++ b/include/noarr/structures/introspection/offset_along.hpp
@@ -179,7 +179,11 @@ private:
 		helpers::rename_dim<QDim, typename Structure::external, typename Structure::internal>::dim;
 
 	static constexpr bool get_value() noexcept {
-		return has_offset_along<QDimNew, sub_structure_t, sub_state_t>::value;
+		if constexpr (Structure::internal::template contains<QDim> && !Structure::external::template contains<QDim>) {
+			return false;
+		} else {
+			return has_offset_along<QDimNew, sub_structure_t, sub_state_t>::value;
+		}
 	}
 
 public:
@@ -189,12 +193,8 @@ public:
 	static constexpr auto offset(Structure structure, State state) noexcept
 	requires value
 	{
-		if constexpr (Structure::internal::template contains<QDim> && !Structure::external::template contains<QDim>) {
-			return false;
-		} else {
-			return has_offset_along<QDimNew, sub_structure_t, sub_state_t>::offset(structure.sub_structure(),
-			                                                                       structure.sub_state(state));
-		}
+		return has_offset_along<QDimNew, sub_structure_t, sub_state_t>::offset(structure.sub_structure(),
+		                                                                       structure.sub_state(state));
 	}
 };
 
-- 
2.43.0


From ce84fa27ced9e6f44434dd5b70509368d9fd6c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:06 +0000
Subject: [PATCH 20/39] fix: is_contiguous: use the sub state of the span
 itself

---
 include/noarr/structures/introspection/contiguous.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/introspection/contiguous.hpp b/include/noarr/structures/introspection/contiguous.hpp
index 1f02555..50189b3 100644
--- a/include/noarr/structures/introspection/contiguous.hpp
+++ b/include/noarr/structures/introspection/contiguous.hpp
@@ -188,7 +188,7 @@ private:
 	using Structure = span_t<Dim, T, StartT, EndT>;
 
 	static constexpr bool get_value() noexcept {
-		return is_contiguous<T, struct_sub_state_t<slice_t<Dim, T, StartT, EndT>, State>>::value;
+		return is_contiguous<T, struct_sub_state_t<Structure, State>>::value;
 	}
 
 public:
-- 
2.43.0


From f6f9f24d18197d8cd7a6c8490b2ebb7d1bc01333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:06 +0000
Subject: [PATCH 21/39] fix: is_contiguous: keep the border index of static
 blocks

---
 include/noarr/structures/introspection/contiguous.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/noarr/structures/introspection/contiguous.hpp b/include/noarr/structures/introspection/contiguous.hpp
index 50189b3..d2b3f51 100644
--- a/include/noarr/structures/introspection/contiguous.hpp
+++ b/include/noarr/structures/introspection/contiguous.hpp
@@ -284,9 +284,7 @@ requires (DimIsBorder != DimMajor) && (DimIsBorder != DimMinor) && (DimMajor !=
 struct is_contiguous<into_blocks_static_t<Dim, DimIsBorder, DimMajor, DimMinor, T, MinorLenT>, State> {
 private:
 	using Structure = into_blocks_static_t<Dim, DimIsBorder, DimMajor, DimMinor, T, MinorLenT>;
-	using indexless_state =
-		decltype(std::declval<State>()
-	                 .template remove<index_in<DimMajor>, index_in<DimMinor>, index_in<DimIsBorder>>());
+	using indexless_state = decltype(std::declval<State>().template remove<index_in<DimMajor>, index_in<DimMinor>>());
 
 	static constexpr bool get_value() noexcept {
 		if constexpr (state_contains<State, index_in<DimIsBorder>>) {
-- 
2.43.0


From 1b6ad6685f59f5a3297ef8d42b60d1f277484a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:02 +0000
Subject: [PATCH 22/39] fix: tuple_t: a ranged lower bound needs no literal
 range when the tuple index is given

lower_bound_along on a range in another dim was rejected for a tuple whose own index was already in the state, unless the range was literal.
---
 .../noarr/structures/introspection/lower_bound_along.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 21fd02e..88d6c09 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -179,12 +179,12 @@ public:
 	}
 
 	static constexpr auto lower_bound(Structure structure, State state, auto min, auto end) noexcept
-	requires value && requires {
+	requires value && (state_contains<State, index_in<Dim>> || requires {
 		decltype(min)::value;
 		requires ((decltype(min)::value) < sizeof...(Ts));
 		decltype(end)::value;
 		requires ((decltype(min)::value) < decltype(end)::value);
-	}
+	})
 	{
 		if constexpr (state_contains<State, index_in<Dim>>) {
 			// QDim != Dim
@@ -220,12 +220,12 @@ public:
 	}
 
 	static constexpr auto lower_bound_at(Structure structure, State state, auto min, auto end) noexcept
-	requires value && requires {
+	requires value && (state_contains<State, index_in<Dim>> || requires {
 		decltype(min)::value;
 		requires ((decltype(min)::value) < sizeof...(Ts));
 		decltype(end)::value;
 		requires ((decltype(min)::value) < decltype(end)::value);
-	}
+	})
 	{
 		if constexpr (state_contains<State, index_in<Dim>>) {
 			// QDim != Dim
-- 
2.43.0


From 5941a8fc56fbd2d50f5f6e235a6629c646bec45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:02 +0000
Subject: [PATCH 23/39] fix: shift_t: lower_bound_at searches up to the end of
 the sub-structure

The end of the range is the length of the sub-structure, not its length minus the start: elements at the end were missed.
---
 include/noarr/structures/introspection/lower_bound_along.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 88d6c09..451f80c 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -595,7 +595,7 @@ public:
 			const auto sub_state = structure.sub_state(state);
 			const auto start = structure.start();
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-					   sub_structure, sub_state, start, sub_structure.template length<Dim>(sub_state) - start) -
+					   sub_structure, sub_state, start, sub_structure.template length<Dim>(sub_state)) -
 			       start;
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
-- 
2.43.0


From 2153a953d60b91e7b6ef15437098207afc0f0df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:02 +0000
Subject: [PATCH 24/39] fix: reverse_t: ranged lower bounds include the first
 index of the range

The reversed range [min, end) is [length - end, length - min); the last element of the reversed range was left out.
---
 .../noarr/structures/introspection/lower_bound_along.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 451f80c..a2e832d 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -827,12 +827,11 @@ public:
 
 		if constexpr (QDim == Dim) {
 			const auto sub_length = sub_structure.template length<Dim>(sub_state);
-			const auto sub_last = sub_length - make_const<1>();
 			const auto in_min = sub_length - end;
-			const auto in_max = sub_last - min;
+			const auto in_end = sub_length - min;
 
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound(sub_structure, sub_state,
-			                                                                             in_min, in_max);
+			                                                                             in_min, in_end);
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound(sub_structure, sub_state, min,
 			                                                                              end);
@@ -867,10 +866,10 @@ public:
 			const auto sub_length = sub_structure.template length<Dim>(sub_state);
 			const auto sub_last = sub_length - make_const<1>();
 			const auto in_min = sub_length - end;
-			const auto in_max = sub_last - min;
+			const auto in_end = sub_length - min;
 
 			return sub_last - has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-								  sub_structure, sub_state, in_min, in_max);
+								  sub_structure, sub_state, in_min, in_end);
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(sub_structure, sub_state,
 			                                                                                 min, end);
-- 
2.43.0


From 9aa995411988dafd00ef5be648eea0eb223c5a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:02 +0000
Subject: [PATCH 25/39] fix: into_blocks_t: lower bounds along the block index

The lower bound along DimMajor was always 0 (wrong for e.g. reversed or shifted sub-structures with no zero offset) and its position was confused with the minor index.
---
 .../introspection/lower_bound_along.hpp       | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index a2e832d..ac3bd81 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -938,7 +938,10 @@ public:
 				structure.sub_structure(), structure.sub_state(state), make_const<0>(),
 				structure.template length<DimMinor>(state));
 		} else if constexpr (QDim == DimMajor) {
-			return make_const<0>();
+			const auto len = structure.template length<DimMinor>(state);
+			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound(
+				structure.sub_structure(), structure.sub_state(state), make_const<0>(),
+				structure.template length<DimMajor>(state) * len);
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound(structure.sub_structure(),
 			                                                                              structure.sub_state(state));
@@ -971,12 +974,11 @@ public:
 				structure.sub_structure(), structure.sub_state(state), make_const<0>(),
 				structure.template length<DimMinor>(state));
 		} else if constexpr (QDim == DimMajor) {
-			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return make_const<0>();
-			} else {
-				return structure.template length<DimMinor>(state) - make_const<1>();
-			}
+			const auto len = structure.template length<DimMinor>(state);
+			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
+					   structure.sub_structure(), structure.sub_state(state), make_const<0>(),
+					   structure.template length<DimMajor>(state) * len) /
+			       len;
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
 				structure.sub_structure(), structure.sub_state(state));
@@ -991,12 +993,10 @@ public:
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
 				structure.sub_structure(), structure.sub_state(state), min, end);
 		} else if constexpr (QDim == DimMajor) {
-			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return min;
-			} else {
-				return end - make_const<1>();
-			}
+			const auto len = structure.template length<DimMinor>(state);
+			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
+					   structure.sub_structure(), structure.sub_state(state), min * len, end * len) /
+			       len;
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
 				structure.sub_structure(), structure.sub_state(state), min, end);
-- 
2.43.0


From f1bfd551f1aa544ecbbfabacb7440613c267965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:02 +0000
Subject: [PATCH 26/39] fix: into_blocks_static_t: lower bounds along the block
 index and the border index

Same as into_blocks_t; in addition the border index is resolved by asking about the body and border parts of Dim.
---
 .../introspection/lower_bound_along.hpp       | 63 +++++++++++--------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index ac3bd81..347ab15 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -1079,8 +1079,14 @@ public:
 			const auto len = structure.template length<DimMinor>(state);
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound(
 				structure.sub_structure(), structure.sub_state(state), make_const<0>(), len);
-		} else if constexpr (QDim == DimMajor || QDim == DimIsBorder) {
-			return make_const<0>();
+		} else if constexpr (QDim == DimMajor) {
+			const auto len = structure.template length<DimMinor>(state);
+			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound(
+				structure.sub_structure(), structure.sub_state(state), make_const<0>(),
+				structure.template length<DimMajor>(state) * len);
+		} else if constexpr (QDim == DimIsBorder) {
+			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound(structure.sub_structure(),
+			                                                                             structure.sub_state(state));
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound(structure.sub_structure(),
 			                                                                              structure.sub_state(state));
@@ -1099,7 +1105,12 @@ public:
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound(
 				structure.sub_structure(), structure.sub_state(state), min * len, end * len);
 		} else if constexpr (QDim == DimIsBorder) {
-			return make_const<0>();
+			// the body and the border take the parts of Dim below and above this index
+			const auto sub_length = structure.sub_structure().template length<Dim>(structure.sub_state(state));
+			const auto body = sub_length - sub_length % structure.minor_length();
+			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound(
+				structure.sub_structure(), structure.sub_state(state), min * body,
+				body + (end - make_const<1>()) * (sub_length - body));
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound(
 				structure.sub_structure(), structure.sub_state(state), min, end);
@@ -1115,19 +1126,21 @@ public:
 				structure.sub_structure(), structure.sub_state(state), make_const<0>(),
 				structure.template length<DimMinor>(state));
 		} else if constexpr (QDim == DimMajor) {
-			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return make_const<0>();
+			if constexpr (state_get_t<State, index_in<DimIsBorder>>::value != 0) {
+				return make_const<0>(); // the border is a single block
 			} else {
-				return structure.template length<DimMinor>(state) - make_const<1>();
+				const auto len = structure.template length<DimMinor>(state);
+				return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
+						   structure.sub_structure(), structure.sub_state(state), make_const<0>(),
+						   structure.template length<DimMajor>(state) * len) /
+				       len;
 			}
 		} else if constexpr (QDim == DimIsBorder) {
-			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return make_const<0>();
-			} else {
-				return make_const<1>();
-			}
+			// the body and the border take the parts of Dim below and above this index
+			const auto sub_length = structure.sub_structure().template length<Dim>(structure.sub_state(state));
+			const auto body = sub_length - sub_length % structure.minor_length();
+			return std::size_t(has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
+								   structure.sub_structure(), structure.sub_state(state)) >= body);
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
 				structure.sub_structure(), structure.sub_state(state));
@@ -1142,21 +1155,21 @@ public:
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
 				structure.sub_structure(), structure.sub_state(state), min, end);
 		} else if constexpr (QDim == DimMajor) {
-			const auto len = structure.template length<DimMinor>(state);
-			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return min;
+			if constexpr (state_get_t<State, index_in<DimIsBorder>>::value != 0) {
+				return min; // the border is a single block
 			} else {
-				return end - make_const<1>();
+				const auto len = structure.template length<DimMinor>(state);
+				return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
+						   structure.sub_structure(), structure.sub_state(state), min * len, end * len) /
+				       len;
 			}
 		} else if constexpr (QDim == DimIsBorder) {
-			const auto len = structure.template length<DimMinor>(state);
-			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return min;
-			} else {
-				return end - make_const<1>();
-			}
+			// the body and the border take the parts of Dim below and above this index
+			const auto sub_length = structure.sub_structure().template length<Dim>(structure.sub_state(state));
+			const auto body = sub_length - sub_length % structure.minor_length();
+			return std::size_t(has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
+								   structure.sub_structure(), structure.sub_state(state), min * body,
+								   body + (end - make_const<1>()) * (sub_length - body)) >= body);
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
 				structure.sub_structure(), structure.sub_state(state), min, end);
-- 
2.43.0


From fc3e06f20fcb604a24d91315232e5366ea7ef85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:02 +0000
Subject: [PATCH 27/39] fix: into_blocks_dynamic_t: lower bounds along the
 block index; partial last block

Same as into_blocks_t; the range is clamped to the sub-structure's length, and the ranged lower_bound_at was missing.
---
 .../introspection/lower_bound_along.hpp       | 49 +++++++++++++++----
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 347ab15..87f87c2 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -1224,6 +1224,12 @@ private:
 		}
 	}
 
+	// the last block may be partial
+	static constexpr std::size_t clamp_end(Structure structure, State state, std::size_t end) noexcept {
+		const std::size_t sub_length = structure.sub_structure().template length<Dim>(structure.sub_state(state));
+		return end < sub_length ? end : sub_length;
+	}
+
 public:
 	using value_type = bool;
 	static constexpr bool value = get_value();
@@ -1249,8 +1255,12 @@ public:
 		if constexpr (QDim == DimMinor) {
 			const auto len = structure.template length<DimMinor>(state);
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound(
-				structure.sub_structure(), structure.sub_state(state), make_const<0>(), len);
-		} else if constexpr (QDim == DimMajor || QDim == DimIsPresent) {
+				structure.sub_structure(), structure.sub_state(state), make_const<0>(),
+				clamp_end(structure, state, len));
+		} else if constexpr (QDim == DimMajor) {
+			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound(structure.sub_structure(),
+			                                                                             structure.sub_state(state));
+		} else if constexpr (QDim == DimIsPresent) {
 			return make_const<0>();
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound(structure.sub_structure(),
@@ -1268,7 +1278,8 @@ public:
 		} else if constexpr (QDim == DimMajor) {
 			const auto len = structure.template length<DimMinor>(state);
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound(
-				structure.sub_structure(), structure.sub_state(state), min * len, end * len);
+				structure.sub_structure(), structure.sub_state(state), min * len,
+				clamp_end(structure, state, end * len));
 		} else if constexpr (QDim == DimIsPresent) {
 			return make_const<0>();
 		} else {
@@ -1284,14 +1295,11 @@ public:
 		if constexpr (QDim == DimMinor) {
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
 				structure.sub_structure(), structure.sub_state(state), make_const<0>(),
-				structure.template length<DimMinor>(state));
+				clamp_end(structure, state, structure.template length<DimMinor>(state)));
 		} else if constexpr (QDim == DimMajor) {
-			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return make_const<0>();
-			} else {
-				return structure.template length<DimMinor>(state) - make_const<1>();
-			}
+			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
+					   structure.sub_structure(), structure.sub_state(state)) /
+			       structure.template length<DimMinor>(state);
 		} else if constexpr (QDim == DimIsPresent) {
 			return make_const<0>();
 		} else {
@@ -1299,6 +1307,27 @@ public:
 				structure.sub_structure(), structure.sub_state(state));
 		}
 	}
+
+	static constexpr auto lower_bound_at(Structure structure, State state, auto min, auto end) noexcept
+	requires value
+	{
+		using namespace constexpr_arithmetic;
+		if constexpr (QDim == DimMinor) {
+			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
+				structure.sub_structure(), structure.sub_state(state), min, end);
+		} else if constexpr (QDim == DimMajor) {
+			const auto len = structure.template length<DimMinor>(state);
+			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
+					   structure.sub_structure(), structure.sub_state(state), min * len,
+					   clamp_end(structure, state, end * len)) /
+			       len;
+		} else if constexpr (QDim == DimIsPresent) {
+			return min;
+		} else {
+			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
+				structure.sub_structure(), structure.sub_state(state), min, end);
+		}
+	}
 };
 
 template<IsDim auto QDim, IsDim auto DimMajor, IsDim auto DimMinor, IsDim auto Dim, class T, IsState State>
-- 
2.43.0


From 7b72f515340e03efd5fe88283f820c648a5d549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:02 +0000
Subject: [PATCH 28/39] fix: merge_blocks_t: position of the lower bound and
 ranged lower bounds

The merged index is major * minor length + minor; a range of the merged dim is not a product of a major range and a minor range, so it is searched as up to three products.
---
 .../introspection/lower_bound_along.hpp       | 61 +++++++++++++------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 87f87c2..0d66938 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -1353,6 +1353,45 @@ private:
 		}
 	}
 
+	struct located_bound {
+		std::size_t offset;
+		std::size_t index;
+	};
+
+	// the lower bound over a Cartesian product of ranges in DimMajor and DimMinor
+	static constexpr located_bound product_bound(Structure structure, State state, std::size_t major_min,
+	                                             std::size_t major_end, std::size_t minor_min,
+	                                             std::size_t minor_end) noexcept {
+		using major = has_lower_bound_along<DimMajor, sub_structure_t, sub_state_t>;
+		using minor = has_lower_bound_along<DimMinor, sub_structure_t, sub_state_t>;
+		const auto sub_structure = structure.sub_structure();
+		const auto sub_state = structure.sub_state(state);
+		return {major::lower_bound(sub_structure, sub_state, major_min, major_end) +
+		            minor::lower_bound(sub_structure, sub_state, minor_min, minor_end),
+		        major::lower_bound_at(sub_structure, sub_state, major_min, major_end) *
+		                sub_structure.template length<DimMinor>(sub_state) +
+		            minor::lower_bound_at(sub_structure, sub_state, minor_min, minor_end)};
+	}
+
+	// the range [min, end) consists of a part of the first block, whole blocks, and a part of the last block
+	static constexpr located_bound lowest_part(Structure structure, State state, std::size_t min,
+	                                           std::size_t end) noexcept {
+		const std::size_t length = structure.sub_structure().template length<DimMinor>(structure.sub_state(state));
+		const std::size_t first = min / length;
+		const std::size_t last = (end - 1) / length;
+		const std::size_t last_end = (end - 1) % length + 1;
+		if (first == last) {
+			return product_bound(structure, state, first, first + 1, min % length, last_end);
+		}
+		located_bound lowest = product_bound(structure, state, first, first + 1, min % length, length);
+		if (first + 1 < last) {
+			const located_bound whole = product_bound(structure, state, first + 1, last, 0, length);
+			lowest = whole.offset < lowest.offset ? whole : lowest;
+		}
+		const located_bound rest = product_bound(structure, state, last, last + 1, 0, last_end);
+		return rest.offset < lowest.offset ? rest : lowest;
+	}
+
 public:
 	using value_type = bool;
 	static constexpr bool value = get_value();
@@ -1392,15 +1431,7 @@ public:
 	{
 		using namespace constexpr_arithmetic;
 		if constexpr (QDim == Dim) {
-			const auto sub_structure = structure.sub_structure();
-			const auto sub_state = structure.sub_state(state);
-
-			const auto length = sub_structure.template length<DimMinor>(sub_state);
-			const auto major = has_lower_bound_along<DimMajor, sub_structure_t, sub_state_t>::lower_bound(
-				sub_structure, sub_state, min / length, end / length);
-			const auto minor = has_lower_bound_along<DimMinor, sub_structure_t, sub_state_t>::lower_bound(
-				sub_structure, sub_state, min % length, end % length);
-			return major + minor;
+			return lowest_part(structure, state, min, end).offset;
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound(
 				structure.sub_structure(), structure.sub_state(state), min, end);
@@ -1419,7 +1450,7 @@ public:
 				has_lower_bound_along<DimMajor, sub_structure_t, sub_state_t>::lower_bound_at(sub_structure, sub_state);
 			const auto minor =
 				has_lower_bound_along<DimMinor, sub_structure_t, sub_state_t>::lower_bound_at(sub_structure, sub_state);
-			return major + minor;
+			return major * sub_structure.template length<DimMinor>(sub_state) + minor;
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
 				structure.sub_structure(), structure.sub_state(state));
@@ -1431,15 +1462,7 @@ public:
 	{
 		using namespace constexpr_arithmetic;
 		if constexpr (QDim == Dim) {
-			const auto sub_structure = structure.sub_structure();
-			const auto sub_state = structure.sub_state(state);
-
-			const auto length = sub_structure.template length<DimMinor>(sub_state);
-			const auto major = has_lower_bound_along<DimMajor, sub_structure_t, sub_state_t>::lower_bound_at(
-				sub_structure, sub_state, min / length, end / length);
-			const auto minor = has_lower_bound_along<DimMinor, sub_structure_t, sub_state_t>::lower_bound_at(
-				sub_structure, sub_state, min % length, end % length);
-			return major + minor;
+			return lowest_part(structure, state, min, end).index;
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
 				structure.sub_structure(), structure.sub_state(state), min, end);
-- 
2.43.0


From b3682db79e2704a823faada052a8685c01611605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:02 +0000
Subject: [PATCH 29/39] fix: into_blocks_static_t: has_length of the block and
 minor index without the border index

has_length is false (it used to be a hard error), so further structures on top of these dims compile.
---
 include/noarr/structures/structs/blocks.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/noarr/structures/structs/blocks.hpp b/include/noarr/structures/structs/blocks.hpp
index a960de7..77c98a8 100644
--- a/include/noarr/structures/structs/blocks.hpp
+++ b/include/noarr/structures/structs/blocks.hpp
@@ -608,6 +608,9 @@ public:
 		if constexpr (state_contains<State, index_in<QDim>>) {
 			// This dimension is already fixed, it cannot be used from outside
 			return false;
+		} else if constexpr ((QDim == DimMajor || QDim == DimMinor) && !state_contains<State, index_in<DimIsBorder>>) {
+			// The body and the border have different lengths
+			return false;
 		} else if constexpr (QDim == DimMajor) {
 			if constexpr (is_body<State>()) {
 				return sub_structure_t::template has_length<Dim, sub_state_t<State>>();
-- 
2.43.0


From 3ba18ef9d083f0136d589963a6d6db18b1caa524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:22 +0000
Subject: [PATCH 30/39] fix: mangle_expr: negative parameters lost their last
 digit

The sign was not counted in the length of the text.
---
 include/noarr/structures/extra/mangle.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/noarr/structures/extra/mangle.hpp b/include/noarr/structures/extra/mangle.hpp
index 0a6b74a..e37b67e 100644
--- a/include/noarr/structures/extra/mangle.hpp
+++ b/include/noarr/structures/extra/mangle.hpp
@@ -178,6 +178,7 @@ struct mangle_expr_helpers {
 		} while (u /= 10);
 		if (neg) {
 			*--ptr = '-';
+			sz++;
 		}
 		out.append(ptr, sz);
 	}
-- 
2.43.0


From 605ed6e731bef9a4455c3dd6930d0c2c25267507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:22 +0000
Subject: [PATCH 31/39] fix: mangle: literal parameters above INT_MAX

The value of a std::size_t literal was converted to int, which does not compile for greater values.
---
 include/noarr/structures/extra/mangle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/extra/mangle.hpp b/include/noarr/structures/extra/mangle.hpp
index e37b67e..7aaf250 100644
--- a/include/noarr/structures/extra/mangle.hpp
+++ b/include/noarr/structures/extra/mangle.hpp
@@ -110,13 +110,13 @@ struct scalar_name<std::integral_constant<std::size_t, L>> {
 		integer_sequence_concat<std::integer_sequence<char, 's', 't', 'd', ':', ':', 'i', 'n', 't', 'e', 'g', 'r', 'a',
 	                                                  'l', '_', 'c', 'o', 'n', 's', 't', 'a', 'n', 't', '<'>,
 	                            typename scalar_name<std::size_t>::type, std::integer_sequence<char, ','>,
-	                            mangle_value<int, L>, std::integer_sequence<char, '>'>>;
+	                            mangle_value<std::size_t, L>, std::integer_sequence<char, '>'>>;
 };
 
 template<std::size_t L>
 struct scalar_name<lit_t<L>> {
 	using type = integer_sequence_concat<std::integer_sequence<char, 'l', 'i', 't', '_', 't', '<'>,
-	                                     mangle_value<int, L>, std::integer_sequence<char, '>'>>;
+	                                     mangle_value<std::size_t, L>, std::integer_sequence<char, '>'>>;
 };
 
 /**
-- 
2.43.0


From 69120e73ce15dd482721c6f01f3a62c09442eeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:22 +0000
Subject: [PATCH 32/39] fix: mangle: escape dimension names that cannot be
 written in a character literal as they are

---
 include/noarr/structures/extra/mangle.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/noarr/structures/extra/mangle.hpp b/include/noarr/structures/extra/mangle.hpp
index 7aaf250..7518b22 100644
--- a/include/noarr/structures/extra/mangle.hpp
+++ b/include/noarr/structures/extra/mangle.hpp
@@ -148,6 +148,18 @@ struct mangle_param<dim_param<Dim>> {
 	using type = integer_sequence_concat<std::integer_sequence<char, '\'', Dim, '\''>>;
 };
 
+template<char Dim>
+requires (Dim == '\'' || Dim == '\\')
+struct mangle_param<dim_param<Dim>> {
+	using type = std::integer_sequence<char, '\'', '\\', Dim, '\''>;
+};
+
+template<char Dim>
+requires (Dim == '\n')
+struct mangle_param<dim_param<Dim>> {
+	using type = std::integer_sequence<char, '\'', '\\', 'n', '\''>;
+};
+
 template<const char Name[], std::size_t... Indices, class... Params>
 struct mangle_desc<Name, std::index_sequence<Indices...>, struct_params<Params...>> {
 	using type = integer_sequence_concat<
-- 
2.43.0


From c8b3ee1a487c93bbe0990170a064d6f58a14586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:22 +0000
Subject: [PATCH 33/39] fix: mangle: dimensions named by dim<...> with an
 integral tag

Mangling of such structures did not compile.
---
 include/noarr/structures/extra/mangle.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/noarr/structures/extra/mangle.hpp b/include/noarr/structures/extra/mangle.hpp
index 7518b22..36e58c9 100644
--- a/include/noarr/structures/extra/mangle.hpp
+++ b/include/noarr/structures/extra/mangle.hpp
@@ -160,6 +160,14 @@ struct mangle_param<dim_param<Dim>> {
 	using type = std::integer_sequence<char, '\'', '\\', 'n', '\''>;
 };
 
+template<auto Dim>
+requires (std::is_integral_v<typename decltype(Dim)::tag_type>)
+struct mangle_param<dim_param<Dim>> {
+	using type = integer_sequence_concat<std::integer_sequence<char, 'd', 'i', 'm', '<'>,
+	                                     typename mangle_param<value_param<Dim.tag>>::type,
+	                                     std::integer_sequence<char, '>', '{', '}'>>;
+};
+
 template<const char Name[], std::size_t... Indices, class... Params>
 struct mangle_desc<Name, std::index_sequence<Indices...>, struct_params<Params...>> {
 	using type = integer_sequence_concat<
-- 
2.43.0


From bc78ecffc8eaa0d875aa44931b0a693aaf0f7424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:22 +0000
Subject: [PATCH 34/39] fix: mangle: integral types that are not intN_t or
 uintN_t

bool, char, long long and others had the name of another type of the same width.
---
 include/noarr/structures/extra/mangle.hpp | 73 ++++++++++++++++++++++-
 1 file changed, 71 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/extra/mangle.hpp b/include/noarr/structures/extra/mangle.hpp
index 36e58c9..74821ba 100644
--- a/include/noarr/structures/extra/mangle.hpp
+++ b/include/noarr/structures/extra/mangle.hpp
@@ -2,6 +2,7 @@
 #define NOARR_STRUCTURES_MANGLE_HPP
 
 #include <cstddef>
+#include <cstdint>
 
 #include <limits>
 #include <type_traits>
@@ -67,6 +68,13 @@ template<class T, T V>
 requires (std::is_integral_v<T>)
 struct mangle_value_impl<T, V> : mangle_integral<T, V> {};
 
+template<class T, class... Ts>
+inline constexpr bool is_one_of = (... || std::is_same_v<T, Ts>);
+
+template<class T>
+inline constexpr bool is_fixed_width = is_one_of<T, std::int8_t, std::int16_t, std::int32_t, std::int64_t, std::uint8_t,
+                                                 std::uint16_t, std::uint32_t, std::uint64_t>;
+
 /**
  * @brief returns a textual representation of a scalar type using `std::integer_sequence<char, ...>`
  *
@@ -76,19 +84,80 @@ template<class T>
 struct scalar_name;
 
 template<class T>
-requires (std::is_integral_v<T> && std::is_signed_v<T>)
+requires (is_fixed_width<T> && std::is_signed_v<T>)
 struct scalar_name<T> {
 	using type = integer_sequence_concat<std::integer_sequence<char, 'i', 'n', 't'>, mangle_value<int, 8 * sizeof(T)>,
 	                                     std::integer_sequence<char, '_', 't'>>;
 };
 
 template<class T>
-requires (std::is_integral_v<T> && std::is_unsigned_v<T>)
+requires (is_fixed_width<T> && std::is_unsigned_v<T>)
 struct scalar_name<T> {
 	using type = integer_sequence_concat<std::integer_sequence<char, 'u', 'i', 'n', 't'>,
 	                                     mangle_value<int, 8 * sizeof(T)>, std::integer_sequence<char, '_', 't'>>;
 };
 
+template<>
+struct scalar_name<bool> {
+	using type = std::integer_sequence<char, 'b', 'o', 'o', 'l'>;
+};
+
+template<>
+struct scalar_name<char> {
+	using type = std::integer_sequence<char, 'c', 'h', 'a', 'r'>;
+};
+
+template<>
+struct scalar_name<wchar_t> {
+	using type = std::integer_sequence<char, 'w', 'c', 'h', 'a', 'r', '_', 't'>;
+};
+
+template<>
+struct scalar_name<char8_t> {
+	using type = std::integer_sequence<char, 'c', 'h', 'a', 'r', '8', '_', 't'>;
+};
+
+template<>
+struct scalar_name<char16_t> {
+	using type = std::integer_sequence<char, 'c', 'h', 'a', 'r', '1', '6', '_', 't'>;
+};
+
+template<>
+struct scalar_name<char32_t> {
+	using type = std::integer_sequence<char, 'c', 'h', 'a', 'r', '3', '2', '_', 't'>;
+};
+
+template<class T>
+requires (std::is_same_v<T, long> && !is_fixed_width<T>)
+struct scalar_name<T> {
+	using type = std::integer_sequence<char, 's', 't', 'd', ':', ':', 't', 'y', 'p', 'e', '_', 'i', 'd', 'e', 'n',
+	                                   't', 'i', 't', 'y', '_', 't', '<', 'l', 'o', 'n', 'g', '>'>;
+};
+
+template<class T>
+requires (std::is_same_v<T, unsigned long> && !is_fixed_width<T>)
+struct scalar_name<T> {
+	using type = std::integer_sequence<char, 's', 't', 'd', ':', ':', 't', 'y', 'p', 'e', '_', 'i', 'd', 'e', 'n',
+	                                   't', 'i', 't', 'y', '_', 't', '<', 'u', 'n', 's', 'i', 'g', 'n', 'e', 'd',
+	                                   ' ', 'l', 'o', 'n', 'g', '>'>;
+};
+
+template<class T>
+requires (std::is_same_v<T, long long> && !is_fixed_width<T>)
+struct scalar_name<T> {
+	using type = std::integer_sequence<char, 's', 't', 'd', ':', ':', 't', 'y', 'p', 'e', '_', 'i', 'd', 'e', 'n',
+	                                   't', 'i', 't', 'y', '_', 't', '<', 'l', 'o', 'n', 'g', ' ', 'l', 'o', 'n',
+	                                   'g', '>'>;
+};
+
+template<class T>
+requires (std::is_same_v<T, unsigned long long> && !is_fixed_width<T>)
+struct scalar_name<T> {
+	using type = std::integer_sequence<char, 's', 't', 'd', ':', ':', 't', 'y', 'p', 'e', '_', 'i', 'd', 'e', 'n',
+	                                   't', 'i', 't', 'y', '_', 't', '<', 'u', 'n', 's', 'i', 'g', 'n', 'e', 'd',
+	                                   ' ', 'l', 'o', 'n', 'g', ' ', 'l', 'o', 'n', 'g', '>'>;
+};
+
 template<>
 struct scalar_name<float> {
 	using type = std::integer_sequence<char, 'f', 'l', 'o', 'a', 't'>;
-- 
2.43.0


From e800e62956da3a075b227d00b179890d934e886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:15 +0000
Subject: [PATCH 35/39] fix: cuda_striped_t: align does not compile

The bank width was passed to the sub-structure's align instead of std::max, so that e.g. a tuple of striped structures did not compile.
---
 include/noarr/structures/interop/cuda_striped.cuh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/cuda_striped.cuh b/include/noarr/structures/interop/cuda_striped.cuh
index 7af3f9f..bb150ec 100644
--- a/include/noarr/structures/interop/cuda_striped.cuh
+++ b/include/noarr/structures/interop/cuda_striped.cuh
@@ -139,7 +139,7 @@ public:
 	[[nodiscard]]
 	constexpr auto align(State state) const noexcept {
 		using namespace constexpr_arithmetic;
-		return std::max(sub_structure().align(sub_state(state), make_const<BankWidth>()));
+		return std::max<std::size_t>(sub_structure().align(sub_state(state)), BankWidth);
 	}
 
 	template<class Sub, IsState State>
-- 
2.43.0


From 7f6e009bfe7c05ad9089bf9d57fb1055389c85be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:11 +0000
Subject: [PATCH 36/39] fix: tuple: align of members of different alignment
 that are tuples did not compile

---
 include/noarr/structures/structs/layouts.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/layouts.hpp b/include/noarr/structures/structs/layouts.hpp
index 4dc6a86..3a62d0d 100644
--- a/include/noarr/structures/structs/layouts.hpp
+++ b/include/noarr/structures/structs/layouts.hpp
@@ -188,7 +188,13 @@ private:
 	template<IsState State, std::size_t I, std::size_t... IS>
 	[[nodiscard]]
 	constexpr auto align_inner(std::index_sequence<I, IS...> /*is*/, State sub_state) const noexcept {
-		return std::max(sub_structure<I>().align(sub_state), align_inner(std::index_sequence<IS...>(), sub_state));
+		const auto head = sub_structure<I>().align(sub_state);
+		const auto tail = align_inner(std::index_sequence<IS...>(), sub_state);
+		if constexpr (requires { constexpr_arithmetic::make_const<std::max(decltype(head)::value, decltype(tail)::value)>(); }) {
+			return constexpr_arithmetic::make_const<std::max(decltype(head)::value, decltype(tail)::value)>();
+		} else {
+			return std::max<std::size_t>(head, tail);
+		}
 	}
 };
 
-- 
2.43.0


From 8d61ca31cc702d18ac187428ef06176c2e984a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 37/39] fix: into_blocks_static, into_blocks_dynamic: sub_state
 no hard error when the length of the split dimension is not available

---
 include/noarr/structures/structs/blocks.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/blocks.hpp b/include/noarr/structures/structs/blocks.hpp
index 77c98a8..f2cc544 100644
--- a/include/noarr/structures/structs/blocks.hpp
+++ b/include/noarr/structures/structs/blocks.hpp
@@ -293,6 +293,8 @@ private:
 				} else {
 					return clean_state(state);
 				}
+			} else if constexpr (!sub_structure_t::template has_length<Dim, clean_state_t<State>>()) {
+				return clean_state(state);
 			} else if constexpr (state_contains<State, length_in<DimMajor>>) {
 				if constexpr (have_indices) {
 					const auto cs = clean_state(state);
@@ -558,10 +560,12 @@ private:
 				if constexpr (is_body<State>()) {
 					const auto major_index = state.template get<index_in<DimMajor>>();
 					return clean_state(state).template with<index_in<Dim>>(major_index * minor_length + minor_index);
-				} else /*border*/ {
+				} else if constexpr (sub_structure_t::template has_length<Dim, clean_state_t<State>>()) /*border*/ {
 					const auto cs = clean_state(state);
 					const auto major_length = sub_structure.template length<Dim>(cs) / minor_length;
 					return cs.template with<index_in<Dim>>(major_length * minor_length + minor_index);
+				} else {
+					return clean_state(state);
 				}
 			} else {
 				return clean_state(state);
-- 
2.43.0


From 85b9bfe43d7265147d0595c4499aa3137ace17cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:51 +0000
Subject: [PATCH 38/39] fix: mangle: dimensions named by dim<...> with a
 negative tag did not compile

---
 include/noarr/structures/extra/mangle.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/noarr/structures/extra/mangle.hpp b/include/noarr/structures/extra/mangle.hpp
index 74821ba..c3e0506 100644
--- a/include/noarr/structures/extra/mangle.hpp
+++ b/include/noarr/structures/extra/mangle.hpp
@@ -64,6 +64,14 @@ struct mangle_integral<T, V, std::integer_sequence<char, Acc...>> {
 	using type = std::integer_sequence<char, static_cast<char>(V % 10) + '0', Acc...>;
 };
 
+template<class T, T V>
+requires (V < 0)
+struct mangle_integral<T, V, std::integer_sequence<char>> {
+	using type = integer_sequence_concat<
+		std::integer_sequence<char, '-'>,
+		typename mangle_integral<std::uintmax_t, static_cast<std::uintmax_t>(-(V + 1)) + 1>::type>;
+};
+
 template<class T, T V>
 requires (std::is_integral_v<T>)
 struct mangle_value_impl<T, V> : mangle_integral<T, V> {};
-- 
2.43.0


From ad93d25acb5249a0ff8b4e4af59eb80b57835f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:51 +0000
Subject: [PATCH 39/39] fix: mangle: names of dimensions that are control or
 non-ASCII characters were not valid character literals

---
 include/noarr/structures/extra/mangle.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/noarr/structures/extra/mangle.hpp b/include/noarr/structures/extra/mangle.hpp
index c3e0506..55a6a7a 100644
--- a/include/noarr/structures/extra/mangle.hpp
+++ b/include/noarr/structures/extra/mangle.hpp
@@ -237,6 +237,15 @@ struct mangle_param<dim_param<Dim>> {
 	using type = std::integer_sequence<char, '\'', '\\', 'n', '\''>;
 };
 
+// the other characters that cannot be written as they are
+template<char Dim>
+requires ((Dim < ' ' || Dim > '~') && Dim != '\n')
+struct mangle_param<dim_param<Dim>> {
+	static constexpr char digits[] = "0123456789abcdef";
+	using type = std::integer_sequence<char, '\'', '\\', 'x', digits[static_cast<unsigned char>(Dim) / 16],
+	                                   digits[static_cast<unsigned char>(Dim) % 16], '\''>;
+};
+
 template<auto Dim>
 requires (std::is_integral_v<typename decltype(Dim)::tag_type>)
 struct mangle_param<dim_param<Dim>> {
-- 
2.43.0

