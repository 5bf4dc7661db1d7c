From 1c0d2f2f61805aee722c909268d8e9cc3c619a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 001/103] thread_pool: guarded override of the spin-wait
 iteration count (MUU_VERIF_SPIN_WAIT_ITERATIONS)

---
 src/thread_pool.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 87f56fc..7e632dd 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -305,7 +305,11 @@ namespace
 		}
 	};
 
+#ifdef MUU_VERIF_SPIN_WAIT_ITERATIONS // verification builds only: shorter spin phases, same algorithm
+	static constexpr size_t thread_pool_spin_wait_iterations_per_queue = MUU_VERIF_SPIN_WAIT_ITERATIONS;
+#else
 	static constexpr size_t thread_pool_spin_wait_iterations_per_queue = 100;
+#endif
 
 	class thread_pool_worker
 	{
-- 
2.43.0


From 8381da9ed2e0259f405bb14b1a0d8a3669eb733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 002/103] fix: thread_pool workers signalled task completion
 before destroying the task

wait() could return while a callable (and anything it owns) was still alive on a worker.
---
 src/thread_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 7e632dd..57faf09 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -369,8 +369,8 @@ namespace
 									 if (t)
 									 {
 										 (*t)(worker_index);
+										 t->~task(); // must precede decrement(); wait() implies the task is destroyed
 										 monitor->decrement();
-										 t->~task();
 									 }
 								 }
 							 } };
-- 
2.43.0


From a1af3316b99c9a6418838f7fafd11ddf762e8ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 003/103] fix: thread_pool move-assignment leaked the
 overwritten pool and its threads

---
 include/muu/thread_pool.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/muu/thread_pool.h b/include/muu/thread_pool.h
index 13c9788..22c0785 100644
--- a/include/muu/thread_pool.h
+++ b/include/muu/thread_pool.h
@@ -754,7 +754,11 @@ namespace muu
 		/// \brief	Move-assignment operator.
 		thread_pool& operator=(thread_pool&& rhs) noexcept
 		{
-			storage_ = std::exchange(rhs.storage_, nullptr);
+			if (this != &rhs)
+			{
+				if (auto storage = std::exchange(storage_, std::exchange(rhs.storage_, nullptr)))
+					::muu_impl_thread_pool_destroy(storage);
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 6e13c9c887bcca2780c5e555dccb967bdfd1467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 004/103] fix: thread_pool constructor hung forever when
 creating a worker thread failed

The workers already started were joined without being told to terminate.
---
 src/thread_pool.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 57faf09..b042e77 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -479,6 +479,10 @@ namespace
 			size_t constructed_workers	 = {};
 			auto unwind_workers			 = scope_guard{ [&]() noexcept
 												{
+												   for (size_t i = constructed_workers; i-- > 0_sz;)
+													   worker(i).terminate();
+												   for (size_t i = worker_count; i-- > 0_sz;)
+													   queue(i).terminate();
 												   for (size_t i = constructed_workers; i-- > 0_sz;)
 													   worker(i).~thread_pool_worker();
 											   } };
-- 
2.43.0


From 6ae2c9617ac6867f35266fcf6d30e16c515457c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 005/103] fix: thread_pool constructor dereferenced null when
 its allocation failed

---
 src/thread_pool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index b042e77..d9646ac 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -701,6 +701,9 @@ extern "C" //
 			if (!buffer_ptr)
 				std::terminate();
 		}
+#else
+		if (!buffer_ptr)
+			throw std::bad_alloc{};
 #endif
 
 		const auto unwind = scope_fail{ [=]() noexcept { muu::aligned_free(buffer_ptr); } };
-- 
2.43.0


From 6728bc5cdc71485078d54937d70f81323c8ef647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:50 +0000
Subject: [PATCH 006/103] fix: thread_pool::for_each(start, end) overflowed for
 wide and reversed ranges

Ranges wider than the signed type and reversed ranges starting at its maximum overflowed, running the
task for the wrong values (or none).
---
 include/muu/thread_pool.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/muu/thread_pool.h b/include/muu/thread_pool.h
index 22c0785..2b0ab78 100644
--- a/include/muu/thread_pool.h
+++ b/include/muu/thread_pool.h
@@ -849,7 +849,7 @@ namespace muu
 			static_assert(std::is_same_v<std::remove_reference_t<OriginalTask>, std::remove_reference_t<Task>>);
 			static_assert(Arity <= 2);
 
-			MUU_ASSERT(batch_start < batch_end);
+			MUU_ASSERT(batch_start != batch_end);
 			MUU_ASSERT(batch_index < workers());
 
 			const auto queue_index = shared_queue_index == no_available_queue //
@@ -859,7 +859,7 @@ namespace muu
 			enqueue(queue_index,
 					[=, batch = wrap_batched_task<OriginalTask>(static_cast<Task&&>(task))]() mutable noexcept
 					{
-						for (; batch_start < batch_end; batch_start++)
+						for (; batch_start != batch_end; batch_start++)
 						{
 							if constexpr (Arity == 2)
 								batch(static_cast<ValueType>(batch_start), batch_index);
@@ -919,25 +919,25 @@ namespace muu
 				return *this;
 
 			using value_type  = remove_cvref<T>;
-			using offset_type = largest<remove_enum<value_type>,
-										std::conditional_t<is_signed<remove_enum<value_type>>, signed, unsigned>>;
-			using size_type	  = largest<make_unsigned<offset_type>, size_t>;
+			using offset_type = make_unsigned<largest<remove_enum<value_type>, unsigned>>; // modular arithmetic
+			using size_type	  = largest<offset_type, size_t>;
 
 			// reverse the start and end if they're backwards (this is a parallel for; order should be irrelevant)
+			auto range_start = static_cast<offset_type>(unwrap(start));
+			auto range_end	 = static_cast<offset_type>(unwrap(end));
 			if (start > end)
 			{
-				T temp = end;
-				end	   = T{ static_cast<remove_enum<T>>(start) + remove_enum<T>{ 1 } };
-				start  = T{ static_cast<remove_enum<T>>(temp) + remove_enum<T>{ 1 } };
+				const auto temp = range_end;
+				range_end		= range_start + offset_type{ 1 };
+				range_start		= temp + offset_type{ 1 };
 			}
 
 			// determine batch count and distribute indices
-			const auto job_count =
-				static_cast<size_type>(static_cast<offset_type>(end) - static_cast<offset_type>(start));
+			const auto job_count = static_cast<size_type>(static_cast<offset_type>(range_end - range_start));
 			MUU_ASSERT(job_count);
 			const auto worker_count		 = this->workers();
 			auto batch_generator		 = impl::batch_size_generator<size_type>{ job_count, worker_count };
-			offset_type next_batch_start = unwrap(start);
+			offset_type next_batch_start = range_start;
 			size_type next_batch_size	 = batch_generator();
 			size_t batch_index			 = 0u;
 			auto batch_count			 = muu::min(job_count, worker_count);
-- 
2.43.0


From 383867dc3eb219a3313579a5246a70a90d89785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 007/103] fix: utf16_decoder never decoded surrogate pairs

A high surrogate was reported as a complete code point and the low surrogate as an error.
---
 include/muu/utf16_decoder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/utf16_decoder.h b/include/muu/utf16_decoder.h
index 2d79e02..b74b437 100644
--- a/include/muu/utf16_decoder.h
+++ b/include/muu/utf16_decoder.h
@@ -90,7 +90,7 @@ namespace muu
 				case unwrap(high_surrogate) | ds_initial: [[fallthrough]];
 				case unwrap(high_surrogate) | ds_has_codepoint:
 					codepoint = static_cast<uint_least32_t>(code_unit); // will get multiplexed in the next step
-					state	  = ds_has_codepoint;
+					state	  = ds_expecting_low_surrogate;
 					return;
 
 				case unwrap(low_surrogate) | ds_expecting_low_surrogate:
-- 
2.43.0


From 810f0b4cb05aac4154d2b287b710c5ceace84b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 008/103] fix: utf_decode byte-swapped UTF-16/32 strings that
 gave no hint about their endianness

---
 include/muu/utf_decode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/utf_decode.h b/include/muu/utf_decode.h
index 3fab110..1600ec6 100644
--- a/include/muu/utf_decode.h
+++ b/include/muu/utf_decode.h
@@ -59,9 +59,9 @@ namespace muu::impl
 			high += static_cast<int>(byte_select<sizeof(T) - 1u>(*c) == uint8_t{});
 		}
 		if constexpr (build::is_big_endian)
-			return low > high;
+			return low >= high;
 		else
-			return high > low;
+			return high >= low;
 	}
 }
 /// \endcond
-- 
2.43.0


From 9b6f2f9e14f45a2578c4302af47f2b046478ffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 009/103] fix: utf_decode dropped incomplete sequences and
 sign-extended invalid code units

Incomplete sequences at either end vanished (and poisoned the decoder when decoding in reverse); code units
that are not part of a valid sequence were reported sign-extended for signed character types.
---
 include/muu/utf_decode.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/muu/utf_decode.h b/include/muu/utf_decode.h
index 1600ec6..56f97c7 100644
--- a/include/muu/utf_decode.h
+++ b/include/muu/utf_decode.h
@@ -121,6 +121,8 @@ namespace muu
 				return str[idx];
 			}
 		};
+		[[maybe_unused]] const auto get_raw = [&](size_t idx) noexcept -> char32_t
+		{ return static_cast<char32_t>(static_cast<unsigned_integer<sizeof(T) * CHAR_BIT>>(get(idx))); };
 
 		// UTF-32
 		if constexpr (sizeof(T) == 4)
@@ -180,7 +182,7 @@ namespace muu
 				while (cp_start-- > data_start && !stop)
 				{
 					cu_count++;
-					if (cu_count == max_cu_count || is_code_point_boundary(get(cp_start)))
+					if (cu_count == max_cu_count || cp_start == data_start || is_code_point_boundary(get(cp_start)))
 					{
 						for (size_t i = cp_start, e = cp_start + cu_count; i < e; i++)
 						{
@@ -191,12 +193,11 @@ namespace muu
 
 						if (decoder.has_value())
 							stop = stop_after_invoking(static_cast<Func&&>(func), decoder.value(), cp_start, cu_count);
-						else if (decoder.error())
+						else // error, or an incomplete sequence
 						{
-							decoder.clear_error();
+							decoder = {};
 							for (size_t i = cp_start + cu_count; i-- > cp_start && !stop;)
-								stop =
-									stop_after_invoking(static_cast<Func&&>(func), static_cast<char32_t>(get(i)), i, 1);
+								stop = stop_after_invoking(static_cast<Func&&>(func), get_raw(i), i, 1);
 						}
 						cu_count = {};
 					}
@@ -218,10 +219,15 @@ namespace muu
 					{
 						decoder.clear_error();
 						for (size_t j = cp_start, je = cp_start + cu_count; j < je && !stop; j++)
-							stop = stop_after_invoking(static_cast<Func&&>(func), static_cast<char32_t>(get(j)), j, 1);
+							stop = stop_after_invoking(static_cast<Func&&>(func), get_raw(j), j, 1);
 						cp_start = i + 1u;
 						cu_count = {};
 					}
+					else if (i + 1u == e) // input ends with an incomplete sequence
+					{
+						for (size_t j = cp_start; j < e && !stop; j++)
+							stop = stop_after_invoking(static_cast<Func&&>(func), get_raw(j), j, 1);
+					}
 				}
 			}
 		}
-- 
2.43.0


From 4175b2aacffd9ec0f5cf792b4810e9601f11bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 010/103] fix: transcode() dropped embedded NUL characters when
 producing UTF-8 or UTF-16

---
 include/muu/strings.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/muu/strings.h b/include/muu/strings.h
index c870eaa..66b6cdc 100644
--- a/include/muu/strings.h
+++ b/include/muu/strings.h
@@ -79,6 +79,7 @@ namespace muu
 		  private:
 			static_assert(sizeof(T) == 1);
 			T code_units[4] = {};
+			size_t length	= {};
 
 		  public:
 			MUU_NODISCARD_CTOR
@@ -87,17 +88,20 @@ namespace muu
 				if (cp <= 0x7Fu)
 				{
 					code_units[0] = static_cast<T>(cp);
+					length		  = 1;
 				}
 				else if (cp <= 0x7FFu)
 				{
 					code_units[0] = static_cast<T>((cp >> 6) | 0xC0u);
 					code_units[1] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					length		  = 2;
 				}
 				else if (cp <= 0xFFFFu)
 				{
 					code_units[0] = static_cast<T>((cp >> 12) | 0xE0u);
 					code_units[1] = static_cast<T>(((cp >> 6) & 0x3Fu) | 0x80u);
 					code_units[2] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					length		  = 3;
 				}
 				else if (cp <= 0x10FFFFu)
 				{
@@ -105,6 +109,7 @@ namespace muu
 					code_units[1] = static_cast<T>(((cp >> 12) & 0x3Fu) | 0x80u);
 					code_units[2] = static_cast<T>(((cp >> 6) & 0x3Fu) | 0x80u);
 					code_units[3] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					length		  = 4;
 				}
 			}
 
@@ -116,8 +121,7 @@ namespace muu
 			MUU_PURE_INLINE_GETTER
 			constexpr std::basic_string_view<T> view() const noexcept
 			{
-				return code_units[3] ? std::basic_string_view<T>{ code_units, 4_sz }
-									 : std::basic_string_view<T>{ code_units };
+				return { code_units, length };
 			}
 
 			MUU_PURE_INLINE_GETTER
@@ -158,8 +162,7 @@ namespace muu
 			MUU_PURE_INLINE_GETTER
 			constexpr std::basic_string_view<T> view() const noexcept
 			{
-				return code_units[1] ? std::basic_string_view<T>{ code_units, 2_sz }
-									 : std::basic_string_view<T>{ code_units };
+				return { code_units, code_units[1] ? 2_sz : 1_sz };
 			}
 
 			MUU_PURE_INLINE_GETTER
-- 
2.43.0


From 4a2ca929f4ec6be139817a062debdbd89e5db3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 011/103] fix: string_param move and trim() of an empty
 string_param had undefined behaviour

---
 src/string_param.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/string_param.cpp b/src/string_param.cpp
index d8948ac..4cddba4 100644
--- a/src/string_param.cpp
+++ b/src/string_param.cpp
@@ -220,8 +220,6 @@ namespace
 	template <typename T, typename Func>
 	static void visit(T& storage, uint8_t mode_, Func&& fn) noexcept
 	{
-		MUU_ASSUME(mode_ > uint8_t{});
-
 		switch (mode_)
 		{
 			case unwrap(mode::none): break;
@@ -247,8 +245,6 @@ namespace
 	template <typename T, typename Func>
 	static void visit(T& storage1, T& storage2, uint8_t mode_, Func&& fn) noexcept
 	{
-		MUU_ASSUME(mode_ > uint8_t{});
-
 		switch (mode_)
 		{
 			case unwrap(mode::none): break;
-- 
2.43.0


From 8a44cb17733124ca2776a37376fe8393b7265ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 012/103] fix: string_param view conversions dereferenced null
 when the transcoded string was empty

---
 src/string_param.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/string_param.cpp b/src/string_param.cpp
index 4cddba4..ec3d55b 100644
--- a/src/string_param.cpp
+++ b/src/string_param.cpp
@@ -506,7 +506,9 @@ namespace
 				  {
 					  auto new_str = transcode<Char>(str);
 					  call_destructor(str);
-					  out = *initialize(storage_, mode_, MUU_MOVE(new_str));
+					  mode_ = {};
+					  if (const auto stored = initialize(storage_, mode_, MUU_MOVE(new_str)))
+						  out = *stored;
 				  }
 			  });
 		return out;
-- 
2.43.0


From 17c73ae1a8fa8ed6ed612ebf66af02ed95ae1db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:18 +0000
Subject: [PATCH 013/103] fix: fixed_string::compare() of a string with itself
 was not zero

---
 include/muu/fixed_string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/fixed_string.h b/include/muu/fixed_string.h
index 1761175..09e8730 100644
--- a/include/muu/fixed_string.h
+++ b/include/muu/fixed_string.h
@@ -771,7 +771,7 @@ namespace muu
 				if constexpr (Length == Len)
 				{
 					if (&lhs == &rhs)
-						return true;
+						return 0;
 
 					return traits_type::compare(lhs._chars_, rhs.c_str(), Length);
 				}
@@ -807,7 +807,7 @@ namespace muu
 		/// \brief	Returns the lexicographical ordering of this string with respect to another.
 		template <size_t Len>
 		MUU_PURE_GETTER
-		constexpr int compare(const fixed_string<value_type, Len>& rhs) noexcept
+		constexpr int compare(const fixed_string<value_type, Len>& rhs) const noexcept
 		{
 			return compare(*this, rhs);
 		}
-- 
2.43.0


From bef92421be406a5c1828719ae26990c4298c81f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:18 +0000
Subject: [PATCH 014/103] fix: C++20 ordering of equal-length fixed_strings
 disagreed with compare() for non-ASCII characters

---
 include/muu/fixed_string.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/muu/fixed_string.h b/include/muu/fixed_string.h
index 09e8730..9e55d2a 100644
--- a/include/muu/fixed_string.h
+++ b/include/muu/fixed_string.h
@@ -845,7 +845,12 @@ namespace muu
 		}
 
 	#if MUU_HAS_THREE_WAY_COMPARISON
-		friend constexpr auto operator<=>(const fixed_string&, const fixed_string&) noexcept = default;
+		friend constexpr bool operator==(const fixed_string&, const fixed_string&) noexcept = default;
+
+		friend constexpr std::strong_ordering operator<=>(const fixed_string& lhs, const fixed_string& rhs) noexcept
+		{
+			return compare(lhs, rhs) <=> 0;
+		}
 	#endif
 
 		/// @}
-- 
2.43.0


From 9e1113184fc0b8fa4418a8ecc15e9856f6703a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:31 +0000
Subject: [PATCH 015/103] fix: fixed_string substr/slice ignored the lowest
 value of a narrow index type

---
 include/muu/fixed_string.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/muu/fixed_string.h b/include/muu/fixed_string.h
index 9e55d2a..58ab7a2 100644
--- a/include/muu/fixed_string.h
+++ b/include/muu/fixed_string.h
@@ -631,10 +631,7 @@ namespace muu
 				{
 					if (idx < T{})
 					{
-						if (idx == constants<T>::lowest)
-							return 0_sz;
-
-						const auto abs_uidx = static_cast<size_t>(-idx);
+						const auto abs_uidx = 0_sz - static_cast<size_t>(idx);
 						if (abs_uidx >= Length)
 							return 0_sz;
 						else
-- 
2.43.0


From a3cd18c88121ea99a9db4fa11136dead4d09ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:53 +0000
Subject: [PATCH 016/103] fix: fnv1a and sha1 could not be written to wide
 streams

---
 include/muu/hashing.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/hashing.h b/include/muu/hashing.h
index b77e962..8a07990 100644
--- a/include/muu/hashing.h
+++ b/include/muu/hashing.h
@@ -268,7 +268,7 @@ namespace muu
 		friend std::basic_ostream<Char, Traits>& operator<<(std::basic_ostream<Char, Traits>& lhs, const fnv1a& rhs)
 		{
 			for (unsigned i = sizeof(value_); i-- > 0u;)
-				lhs << byte_to_hex(byte_select(rhs.value_, i));
+				lhs << byte_to_hex<Char>(byte_select(rhs.value_, i));
 			return lhs;
 		}
 	};
@@ -410,7 +410,7 @@ namespace muu
 		friend std::basic_ostream<Char, Traits>& operator<<(std::basic_ostream<Char, Traits>& lhs, const sha1& rhs)
 		{
 			for (auto byte : rhs.value().value)
-				lhs << byte_to_hex(unwrap(byte));
+				lhs << byte_to_hex<Char>(unwrap(byte));
 			return lhs;
 		}
 	};
-- 
2.43.0


From 15b469467b4a64ae9dd349c4743ceae5358fa774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:49 +0000
Subject: [PATCH 017/103] fix: is_hyphen, is_uppercase and is_whitespace
 reached MUU_UNREACHABLE for some code points

---
 include/muu/impl/unicode_char16_t.h | 6 +++---
 include/muu/impl/unicode_char32_t.h | 6 +++---
 tools/generate_unicode_functions.py | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/muu/impl/unicode_char16_t.h b/include/muu/impl/unicode_char16_t.h
index 21c4fdb..6cf4f97 100644
--- a/include/muu/impl/unicode_char16_t.h
+++ b/include/muu/impl/unicode_char16_t.h
@@ -143,7 +143,7 @@ namespace muu
 		{
 			case 0x07: return c >= u'\u2010' && c <= u'\u2011';
 			case 0x3F: return c == u'\uFE63' || c == u'\uFF0D' || c == u'\uFF65';
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
@@ -872,7 +872,7 @@ namespace muu
 					case 0x00: return c <= u'\u213F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2102ull)) & 0x3003CF540F89CE21ull;
 					case 0x01: return c >= u'\u2145' && c <= u'\u216F'
 						&& (1ull << (static_cast<uint_least64_t>(c) - 0x2145ull)) & 0x7FFF8000001ull;
-					default: MUU_UNREACHABLE;
+					default: return false;
 				}
 				
 				MUU_UNREACHABLE;
@@ -967,7 +967,7 @@ namespace muu
 				return c == u'\u205F'
 					|| (c <= u'\u202F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2000ull)) & 0x8300000007FFull);
 			}
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
diff --git a/include/muu/impl/unicode_char32_t.h b/include/muu/impl/unicode_char32_t.h
index 5152c8f..5cf8ba8 100644
--- a/include/muu/impl/unicode_char32_t.h
+++ b/include/muu/impl/unicode_char32_t.h
@@ -143,7 +143,7 @@ namespace muu
 		{
 			case 0x07: return c >= U'\u2010' && c <= U'\u2011';
 			case 0x3F: return c == U'\uFE63' || c == U'\uFF0D' || c == U'\uFF65';
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
@@ -1007,7 +1007,7 @@ namespace muu
 					case 0x00: return c <= U'\u213F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2102ull)) & 0x3003CF540F89CE21ull;
 					case 0x01: return c >= U'\u2145' && c <= U'\u216F'
 						&& (1ull << (static_cast<uint_least64_t>(c) - 0x2145ull)) & 0x7FFF8000001ull;
-					default: MUU_UNREACHABLE;
+					default: return false;
 				}
 				
 				MUU_UNREACHABLE;
@@ -1102,7 +1102,7 @@ namespace muu
 				return c == U'\u205F'
 					|| (c <= U'\u202F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2000ull)) & 0x8300000007FFull);
 			}
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
diff --git a/tools/generate_unicode_functions.py b/tools/generate_unicode_functions.py
index 8ea6ccf..968609a 100644
--- a/tools/generate_unicode_functions.py
+++ b/tools/generate_unicode_functions.py
@@ -1118,7 +1118,7 @@ class CodepointChunk:
 							'\n' if c.has_expression() else '\n\t}\n',
 						)
 						emitted += 1
-					s += '\tdefault: {};\n'.format(rf'{G.macro_prefix}UNREACHABLE' if default is None else 'return '+str(default).lower())
+					s += '\tdefault: {};\n'.format('return '+str(bool(default)).lower())
 					s += "}"
 					if (emitted <= 1):
 							s += "\n/* FIX ME: switch has only {} case{}! */".format(emitted, 's' if emitted > 1 else '')
-- 
2.43.0


From 9aff78d76d86c565e8e10a8d468cafa8a2e861c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:52 +0000
Subject: [PATCH 018/103] fix: apply_alignment<Alignment>(enum) did not compile

---
 include/muu/apply_alignment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/apply_alignment.h b/include/muu/apply_alignment.h
index 648335f..a936337 100644
--- a/include/muu/apply_alignment.h
+++ b/include/muu/apply_alignment.h
@@ -30,7 +30,7 @@ namespace muu
 
 		if constexpr (std::is_enum_v<T>)
 		{
-			return static_cast<T>(apply_alignment(static_cast<std::underlying_type_t<T>>(val)));
+			return static_cast<T>(apply_alignment<Alignment>(static_cast<std::underlying_type_t<T>>(val)));
 		}
 		else
 		{
-- 
2.43.0


From c30d11a0ffcc2154956045e3bbc9ddc5164c7f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:52 +0000
Subject: [PATCH 019/103] fix: compressed_pair of one empty type with itself
 did not compile

---
 include/muu/compressed_pair.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/muu/compressed_pair.h b/include/muu/compressed_pair.h
index dcfed36..333c94f 100644
--- a/include/muu/compressed_pair.h
+++ b/include/muu/compressed_pair.h
@@ -47,7 +47,8 @@ namespace muu
 		template <typename First,
 				  typename Second,
 				  bool FirstCanBeBase  = std::is_empty_v<First> && !std::is_final_v<First>,
-				  bool SecondCanBeBase = std::is_empty_v<Second> && !std::is_final_v<Second>>
+				  bool SecondCanBeBase = std::is_empty_v<Second> && !std::is_final_v<Second>
+									  && !(FirstCanBeBase && std::is_same_v<First, Second>)>
 		class compressed_pair_base
 		{
 		  private:
@@ -172,7 +173,8 @@ namespace muu
 		//# {{
 		// mode hooks for debuggers etc.
 		static constexpr bool first_is_base_  = std::is_empty_v<First> && !std::is_final_v<First>;
-		static constexpr bool second_is_base_ = std::is_empty_v<Second> && !std::is_final_v<Second>;
+		static constexpr bool second_is_base_ = std::is_empty_v<Second> && !std::is_final_v<Second>
+											 && !(first_is_base_ && std::is_same_v<First, Second>);
 		//# }}
 
 		/// \endcond
-- 
2.43.0


From 31703a782226d70f023398e1ec2c4b001da2fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:52 +0000
Subject: [PATCH 020/103] fix: function_view could not view callables whose
 return type only converts to the signature's

---
 include/muu/function_view.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/muu/function_view.h b/include/muu/function_view.h
index 319ecd6..23a2fb0 100644
--- a/include/muu/function_view.h
+++ b/include/muu/function_view.h
@@ -91,9 +91,12 @@ namespace muu
 				{
 					invoker_ = [](function_view_payload&,
 								  function_view_forwarding_arg<Args>... args) noexcept(is_nothrow_invocable<Func>)
-						-> decltype(auto) //
+						-> Return //
 					{					  //
-						return remove_cvref<U>{}(static_cast<function_view_forwarding_arg<Args>>(args)...);
+						if constexpr (std::is_void_v<Return>)
+							remove_cvref<U>{}(static_cast<function_view_forwarding_arg<Args>>(args)...);
+						else
+							return remove_cvref<U>{}(static_cast<function_view_forwarding_arg<Args>>(args)...);
 					};
 				}
 
@@ -114,9 +117,12 @@ namespace muu
 
 					invoker_ = [](function_view_payload& payload,												   //
 								  function_view_forwarding_arg<Args>... args) noexcept(is_nothrow_invocable<Func>) //
-						-> decltype(auto)																		   //
+						-> Return   //
 					{																							   //
-						return bit_cast<func_type*>(payload)(static_cast<function_view_forwarding_arg<Args>>(args)...);
+						if constexpr (std::is_void_v<Return>)
+							bit_cast<func_type*>(payload)(static_cast<function_view_forwarding_arg<Args>>(args)...);
+						else
+							return bit_cast<func_type*>(payload)(static_cast<function_view_forwarding_arg<Args>>(args)...);
 					};
 				}
 
@@ -130,12 +136,14 @@ namespace muu
 
 					invoker_ = [](function_view_payload& payload,												   //
 								  function_view_forwarding_arg<Args>... args) noexcept(is_nothrow_invocable<Func>) //
-						-> decltype(auto)																		   //
+						-> Return   //
 					{																							   //
 						using ptr = std::add_pointer_t<std::remove_reference_t<U>>;
 
-						return static_cast<U&&>(*bit_cast<ptr>(payload))(
-							static_cast<function_view_forwarding_arg<Args>>(args)...);
+						if constexpr (std::is_void_v<Return>)
+							static_cast<U&&>(*bit_cast<ptr>(payload))(static_cast<function_view_forwarding_arg<Args>>(args)...);
+						else
+							return static_cast<U&&>(*bit_cast<ptr>(payload))(static_cast<function_view_forwarding_arg<Args>>(args)...);
 					};
 				}
 			}
-- 
2.43.0


From e0f81229b686b06f1a3f73fe91c0ec77dfba5f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:52 +0000
Subject: [PATCH 021/103] fix: copying a non-const or temporary function_view
 made a view of the view

---
 include/muu/function_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/function_view.h b/include/muu/function_view.h
index 23a2fb0..a72cf5d 100644
--- a/include/muu/function_view.h
+++ b/include/muu/function_view.h
@@ -230,7 +230,7 @@ namespace muu
 		/// \tparam	F	 	A function, lambda or other callable type with a signature compatible with #func_type.
 		///
 		/// \param 	func	The callable to view/invoke.
-		template <typename F>
+		MUU_CONSTRAINED_TEMPLATE((!std::is_same_v<remove_cvref<F>, function_view>), typename F)
 		MUU_NODISCARD_CTOR
 		/* implicit */ constexpr function_view(F&& func) noexcept //
 			: base{ static_cast<F&&>(func) }
-- 
2.43.0


From ba82002aca3f2f72922d7f8c02c540092c65facb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:52 +0000
Subject: [PATCH 022/103] fix: subtracting iterators of an integral_range of
 pointers did not compile

---
 include/muu/integral_range.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/muu/integral_range.h b/include/muu/integral_range.h
index 48755b7..c0a9c3a 100644
--- a/include/muu/integral_range.h
+++ b/include/muu/integral_range.h
@@ -143,14 +143,18 @@ namespace muu
 			friend constexpr difference_type operator-(const integral_range_iterator& lhs,
 													   const integral_range_iterator& rhs) noexcept
 			{
-				if constexpr (muu::is_unsigned<T>)
+				if constexpr (std::is_pointer_v<T>)
+					return lhs.val_ - rhs.val_;
+				else
 				{
-					if (rhs.val_ > lhs.val_)
-						return -static_cast<difference_type>(static_cast<size_type>(rhs.val_)
-															 - static_cast<size_type>(lhs.val_));
+					if constexpr (muu::is_unsigned<T>)
+					{
+						if (rhs.val_ > lhs.val_)
+							return -static_cast<difference_type>(static_cast<size_type>(rhs.val_)
+																 - static_cast<size_type>(lhs.val_));
+					}
+					return static_cast<difference_type>(lhs.val_) - static_cast<difference_type>(rhs.val_);
 				}
-
-				return static_cast<difference_type>(lhs.val_) - static_cast<difference_type>(rhs.val_);
 			}
 		};
 	}
-- 
2.43.0


From 6326fd93b4965fb752657550dc3792881d033adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:52 +0000
Subject: [PATCH 023/103] fix: integral_range::size() overflowed for wide
 ranges of signed integers

---
 include/muu/integral_range.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/muu/integral_range.h b/include/muu/integral_range.h
index c0a9c3a..2102b8a 100644
--- a/include/muu/integral_range.h
+++ b/include/muu/integral_range.h
@@ -230,13 +230,7 @@ namespace muu
 		{
 			if constexpr (std::is_pointer_v<value_type>)
 				return static_cast<size_type>(e - s);
-			else if constexpr (muu::is_signed<value_type>)
-			{
-				using difference_type = impl::integral_range_difference_type<T>;
-
-				return static_cast<size_type>(static_cast<difference_type>(e) - static_cast<difference_type>(s));
-			}
-			else
+			else // unsigned arithmetic, so that ranges wider than the signed type's positive half do not overflow
 				return static_cast<size_type>(e) - static_cast<size_type>(s);
 		}
 
-- 
2.43.0


From dbf5b6142a4c921095421746c7dc3deaee2b43c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:52 +0000
Subject: [PATCH 024/103] fix: static_array::empty() was inverted

---
 include/muu/static_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/static_array.h b/include/muu/static_array.h
index 5ae482b..56b46e1 100644
--- a/include/muu/static_array.h
+++ b/include/muu/static_array.h
@@ -51,7 +51,7 @@ namespace muu
 		MUU_CONSTEVAL
 		bool empty() const noexcept
 		{
-			return sizeof...(Elements) > 0u;
+			return sizeof...(Elements) == 0u;
 		}
 
 		/// \brief	Returns the first element in the array.
-- 
2.43.0


From c90cc8eb23a3a314d864ce6ec9eef37fd54abdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:14 +0000
Subject: [PATCH 025/103] fix: static_array relational operators did not
 compile

---
 include/muu/static_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/static_array.h b/include/muu/static_array.h
index 56b46e1..0be3407 100644
--- a/include/muu/static_array.h
+++ b/include/muu/static_array.h
@@ -164,7 +164,7 @@ namespace muu
 		template <T... E>
 		static constexpr bool is_less = []() noexcept
 		{
-			if constexpr (is_equal<T, E...>)
+			if constexpr (is_equal<E...>)
 				return false;
 			else
 			{
@@ -173,7 +173,7 @@ namespace muu
 				auto* first1	 = values;
 				const auto last1 = first1 + sizeof...(Elements);
 				auto* first2	 = static_array<T, E...>::values;
-				const auto last2 = last1 + sizeof...(E);
+				const auto last2 = first2 + sizeof...(E);
 
 				for (; (first1 != last1) && (first2 != last2); ++first1, ++first2)
 				{
-- 
2.43.0


From 1e90d06297d180b11970fdc7680809b446362b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:14 +0000
Subject: [PATCH 026/103] fix: a fixed-extent span could be built from a span
 of a different extent

---
 include/muu/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/span.h b/include/muu/span.h
index 6ef8a28..7ca69d8 100644
--- a/include/muu/span.h
+++ b/include/muu/span.h
@@ -283,7 +283,7 @@ namespace muu::impl
 		{}
 
 		// `explicit` when #extent != #dynamic_extent && E == #dynamic_extent.
-		MUU_CONSTRAINED_TEMPLATE((E != dynamic_extent									   //
+		MUU_CONSTRAINED_TEMPLATE((E != dynamic_extent && E == Extent_						   //
 								  && impl::is_qualifier_conversion_only<U, element_type>), //
 								 typename U,
 								 size_t E,
-- 
2.43.0


From 1208def82218f551e28d36ffe4f0a796f0d0070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:14 +0000
Subject: [PATCH 027/103] fix: span::subspan() rejected the empty subspan at
 the end

---
 include/muu/span.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/muu/span.h b/include/muu/span.h
index 7ca69d8..973cb86 100644
--- a/include/muu/span.h
+++ b/include/muu/span.h
@@ -645,11 +645,11 @@ namespace muu
 		MUU_PURE_GETTER
 		constexpr auto subspan() const noexcept
 		{
-			static_assert(Offset < Extent, "span::subspan() Offset cannot exceed the size of the source span");
+			static_assert(Offset <= Extent, "span::subspan() Offset cannot exceed the size of the source span");
 			static_assert(Count == dynamic_extent || Count <= (Extent - Offset),
 						  "span::subspan() Count cannot exceed the size of the source span");
 
-			MUU_CONSTEXPR_SAFE_ASSERT(Offset < base::size());
+			MUU_CONSTEXPR_SAFE_ASSERT(Offset <= base::size());
 
 			if constexpr (Count == dynamic_extent)
 			{
@@ -666,7 +666,7 @@ namespace muu
 		MUU_PURE_GETTER
 		constexpr span<element_type> subspan(size_t offset, size_t count = dynamic_extent) const noexcept
 		{
-			MUU_CONSTEXPR_SAFE_ASSERT(offset < base::size());
+			MUU_CONSTEXPR_SAFE_ASSERT(offset <= base::size());
 
 			if (count == dynamic_extent)
 			{
-- 
2.43.0


From 3e17565b84d323fb973f3f5b3ddf8a0238da1757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:14 +0000
Subject: [PATCH 028/103] fix: negative tags overwrote the pointer in a
 tagged_ptr

---
 include/muu/tagged_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/tagged_ptr.h b/include/muu/tagged_ptr.h
index 677bbb9..0063d5f 100644
--- a/include/muu/tagged_ptr.h
+++ b/include/muu/tagged_ptr.h
@@ -206,7 +206,7 @@ namespace muu::impl
 					}
 					else
 					{
-						return pack_ptr(ptr) | static_cast<uintptr_t>(tag);
+						return pack_ptr(ptr) | (static_cast<uintptr_t>(tag) & tag_mask);
 					}
 				}
 				else // some pod type
@@ -259,7 +259,7 @@ namespace muu::impl
 			}
 			else
 			{
-				return (bits & ptr_mask) | static_cast<uintptr_t>(tag);
+				return (bits & ptr_mask) | (static_cast<uintptr_t>(tag) & tag_mask);
 			}
 		}
 
-- 
2.43.0


From 919c23e08999a12fcbbf5296eb8aea3f551c94c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:27 +0000
Subject: [PATCH 029/103] fix: blob::assign() read freed memory when given
 (part of) the blob's own data

---
 include/muu/blob.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/muu/blob.h b/include/muu/blob.h
index 0c0bc31..024e8e0 100644
--- a/include/muu/blob.h
+++ b/include/muu/blob.h
@@ -106,28 +106,28 @@ namespace muu
 		{
 			new_align = actual_alignment(sz, new_align);
 
-			// check if this is effectively a resize with a copy or move
-			if (new_align <= alignment_)
-			{
-				new_align = alignment_;
-
-				resize(sz); // no-op if the same size as current
-				MUU_ASSERT(size_ == sz);
+			// check if this is effectively a resize
+			if (new_align <= alignment_ && !src)
+				return resize(sz); // no-op if the same size as current
 
-				if (src && data_ && src != data_)
+			// check if this is effectively a copy or move
+			if (new_align <= alignment_ && size_ == sz)
+			{
+				if (data_ && src != data_)
 					MUU_MEMCPY(data_, src, size_);
-
 				return *this;
 			}
 
-			// changing alignment; must deallocate and reallocate
+			// changing size or alignment; must reallocate (note that src might point into the current data)
+			new_align	   = new_align > alignment_ ? new_align : alignment_;
+			void* new_data = sz ? aligned_alloc(sz, new_align) : nullptr;
+			if (src && new_data)
+				MUU_MEMCPY(new_data, src, sz);
 			if (data_)
 				aligned_free(data_);
 			alignment_ = new_align;
 			size_	   = sz;
-			data_	   = size_ ? aligned_alloc(size_, alignment_) : nullptr;
-			if (src && data_)
-				MUU_MEMCPY(data_, src, size_);
+			data_	   = new_data;
 			return *this;
 		}
 
-- 
2.43.0


From d5db95b2e60072aa0dab54528a76944d60bc5909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:27 +0000
Subject: [PATCH 030/103] fix: aligned_alloc() of nearly SIZE_MAX bytes
 returned a tiny block

---
 include/muu/aligned_alloc.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/muu/aligned_alloc.h b/include/muu/aligned_alloc.h
index 83a0e65..8d52292 100644
--- a/include/muu/aligned_alloc.h
+++ b/include/muu/aligned_alloc.h
@@ -36,7 +36,9 @@ namespace muu
 		MUU_ASSUME(static_cast<size_t>(alignment));
 
 		alignment = alignment > impl::aligned_alloc_min_align ? alignment : impl::aligned_alloc_min_align;
-		size	  = (size + alignment - 1u) & ~(alignment - 1u);
+		if MUU_UNLIKELY(size > static_cast<size_t>(-1) - (alignment - 1u))
+			return nullptr;
+		size = (size + alignment - 1u) & ~(alignment - 1u);
 
 #if MUU_WINDOWS
 		return muu::assume_aligned<impl::aligned_alloc_min_align>(_aligned_malloc(size, alignment));
-- 
2.43.0


From c0899da72d7aa3f23a60fcb5a20c554a4455576a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:33 +0000
Subject: [PATCH 031/103] fix: tagged_ptr::can_store_ptr() accepted pointers
 that use more than MUU_TAGGED_PTR_BITS bits

---
 include/muu/tagged_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/tagged_ptr.h b/include/muu/tagged_ptr.h
index 0063d5f..c35df5c 100644
--- a/include/muu/tagged_ptr.h
+++ b/include/muu/tagged_ptr.h
@@ -139,7 +139,7 @@ namespace muu::impl
 		using base::base;
 
 		MUU_CONST_GETTER
-		static constexpr bool can_store_ptr(uintptr_t ptr) noexcept
+		static bool can_store_ptr(uintptr_t ptr) noexcept
 		{
 			if constexpr (!tag_bits)
 			{
@@ -147,7 +147,7 @@ namespace muu::impl
 			}
 			else
 			{
-				return !(base::pack_ptr_unchecked(ptr) & tag_mask);
+				return get_ptr(base::pack_ptr_unchecked(ptr)) == ptr;
 			}
 		}
 
-- 
2.43.0


From 0e8a5d7aa984771eb2c54b731edc2d0878094902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:33 +0000
Subject: [PATCH 032/103] fix: iterating an emplacement_array without storage
 had undefined behaviour

---
 include/muu/emplacement_array.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/muu/emplacement_array.h b/include/muu/emplacement_array.h
index 287ec81..4adcb5c 100644
--- a/include/muu/emplacement_array.h
+++ b/include/muu/emplacement_array.h
@@ -36,14 +36,12 @@ namespace muu
 		std::byte* storage_ = nullptr;
 
 		MUU_PURE_INLINE_GETTER
-		MUU_ATTR(returns_nonnull)
 		T* ptr(size_t index) noexcept
 		{
 			return MUU_LAUNDER(reinterpret_cast<T*>(storage_ + index * sizeof(T)));
 		}
 
 		MUU_PURE_INLINE_GETTER
-		MUU_ATTR(returns_nonnull)
 		const T* ptr(size_t index) const noexcept
 		{
 			return MUU_LAUNDER(reinterpret_cast<const T*>(storage_ + index * sizeof(T)));
-- 
2.43.0


From b39fc9261791834ad2c4cce46fe9963f251c8845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:04 +0000
Subject: [PATCH 033/103] fix: to_address() was ambiguous for iterators over
 types from namespace std

---
 include/muu/impl/core_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/impl/core_utils.h b/include/muu/impl/core_utils.h
index f8b72c1..5f8fadc 100644
--- a/include/muu/impl/core_utils.h
+++ b/include/muu/impl/core_utils.h
@@ -207,7 +207,7 @@ namespace muu
 		}
 		else
 		{
-			return to_address(p.operator->());
+			return muu::to_address(p.operator->());
 		}
 	}
 }
-- 
2.43.0


From fb664c5ccc1313e579d735cf0dff852d412ec26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:31 +0000
Subject: [PATCH 034/103] fix: the distance between iterators of an
 integral_range overflowed for large unsigned values

---
 include/muu/integral_range.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/muu/integral_range.h b/include/muu/integral_range.h
index 2102b8a..dd625d5 100644
--- a/include/muu/integral_range.h
+++ b/include/muu/integral_range.h
@@ -147,13 +147,8 @@ namespace muu
 					return lhs.val_ - rhs.val_;
 				else
 				{
-					if constexpr (muu::is_unsigned<T>)
-					{
-						if (rhs.val_ > lhs.val_)
-							return -static_cast<difference_type>(static_cast<size_type>(rhs.val_)
-																 - static_cast<size_type>(lhs.val_));
-					}
-					return static_cast<difference_type>(lhs.val_) - static_cast<difference_type>(rhs.val_);
+					return static_cast<difference_type>(static_cast<size_type>(lhs.val_)
+														- static_cast<size_type>(rhs.val_));
 				}
 			}
 		};
-- 
2.43.0


From 3fb1976f7ac23359909dd8aa97f36761d22f7143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:10 +0000
Subject: [PATCH 035/103] fix: offsetting iterators of an integral_range
 overflowed for large unsigned values

---
 include/muu/integral_range.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/integral_range.h b/include/muu/integral_range.h
index dd625d5..91280b5 100644
--- a/include/muu/integral_range.h
+++ b/include/muu/integral_range.h
@@ -104,7 +104,7 @@ namespace muu
 				if constexpr (std::is_pointer_v<T>)
 					val_ = static_cast<value_type>(val_ + offset);
 				else
-					val_ = static_cast<value_type>(static_cast<difference_type>(val_) + offset);
+					val_ = static_cast<value_type>(static_cast<size_type>(val_) + static_cast<size_type>(offset));
 
 				return *this;
 			}
@@ -114,7 +114,7 @@ namespace muu
 				if constexpr (std::is_pointer_v<T>)
 					val_ = static_cast<value_type>(val_ - offset);
 				else
-					val_ = static_cast<value_type>(static_cast<difference_type>(val_) - offset);
+					val_ = static_cast<value_type>(static_cast<size_type>(val_) - static_cast<size_type>(offset));
 
 				return *this;
 			}
-- 
2.43.0


From f0e2917929366ccbd1ba0650ba0db05ad7f7fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:23 +0000
Subject: [PATCH 036/103] fix: MUU_TAGGED_PTR_BITS=64 was rejected

---
 include/muu/tagged_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/tagged_ptr.h b/include/muu/tagged_ptr.h
index c35df5c..7804edd 100644
--- a/include/muu/tagged_ptr.h
+++ b/include/muu/tagged_ptr.h
@@ -46,7 +46,7 @@ MUU_FORCE_NDEBUG_OPTIMIZATIONS;
 
 namespace muu::impl
 {
-	static_assert(MUU_TAGGED_PTR_BITS < sizeof(uintptr_t) * CHAR_BIT);
+	static_assert(MUU_TAGGED_PTR_BITS <= sizeof(uintptr_t) * CHAR_BIT);
 
 	inline constexpr size_t tptr_used_bits = MUU_TAGGED_PTR_BITS ? MUU_TAGGED_PTR_BITS : sizeof(uintptr_t) * CHAR_BIT;
 	inline constexpr size_t tptr_free_bits = sizeof(uintptr_t) * CHAR_BIT - tptr_used_bits;
-- 
2.43.0


From 922d4bd9b88cdf90193e8a404b8ead781da9c031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:23 +0000
Subject: [PATCH 037/103] fix: a function_view of a const or lvalue empty
 callable invoked it as a non-const rvalue

---
 include/muu/function_view.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/muu/function_view.h b/include/muu/function_view.h
index a72cf5d..26b31e9 100644
--- a/include/muu/function_view.h
+++ b/include/muu/function_view.h
@@ -93,10 +93,11 @@ namespace muu
 								  function_view_forwarding_arg<Args>... args) noexcept(is_nothrow_invocable<Func>)
 						-> Return //
 					{					  //
+						std::remove_reference_t<U> callable{};
 						if constexpr (std::is_void_v<Return>)
-							remove_cvref<U>{}(static_cast<function_view_forwarding_arg<Args>>(args)...);
+							static_cast<U&&>(callable)(static_cast<function_view_forwarding_arg<Args>>(args)...);
 						else
-							return remove_cvref<U>{}(static_cast<function_view_forwarding_arg<Args>>(args)...);
+							return static_cast<U&&>(callable)(static_cast<function_view_forwarding_arg<Args>>(args)...);
 					};
 				}
 
-- 
2.43.0


From ee1e2ce459e1e1490d25501cb2786f59b4c4279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:21 +0000
Subject: [PATCH 038/103] fix: function_views of stateful callables crashed
 with GCC 13 at -O1/-O2, those of std types were ambiguous in C++20

---
 include/muu/function_view.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/muu/function_view.h b/include/muu/function_view.h
index 26b31e9..99cbf06 100644
--- a/include/muu/function_view.h
+++ b/include/muu/function_view.h
@@ -43,7 +43,11 @@ namespace muu
 
 		struct function_view_payload
 		{
-			alignas(void*) unsigned char bytes[sizeof(void*)];
+			union
+			{
+				void* object;
+				void (*function)();
+			};
 		};
 
 		template <typename Func, typename Return, typename... Args>
@@ -114,16 +118,16 @@ namespace muu
 					static_assert(std::is_function_v<func_type>);
 					static_assert(!is_cvref<func_type>);
 
-					payload_ = bit_cast<function_view_payload>(static_cast<func_type*>(func));
+					payload_.function = reinterpret_cast<void (*)()>(static_cast<func_type*>(func));
 
 					invoker_ = [](function_view_payload& payload,												   //
 								  function_view_forwarding_arg<Args>... args) noexcept(is_nothrow_invocable<Func>) //
 						-> Return   //
 					{																							   //
 						if constexpr (std::is_void_v<Return>)
-							bit_cast<func_type*>(payload)(static_cast<function_view_forwarding_arg<Args>>(args)...);
+							reinterpret_cast<func_type*>(payload.function)(static_cast<function_view_forwarding_arg<Args>>(args)...);
 						else
-							return bit_cast<func_type*>(payload)(static_cast<function_view_forwarding_arg<Args>>(args)...);
+							return reinterpret_cast<func_type*>(payload.function)(static_cast<function_view_forwarding_arg<Args>>(args)...);
 					};
 				}
 
@@ -133,7 +137,7 @@ namespace muu
 					static_assert(!std::is_pointer_v<remove_cvref<U>>); // data pointers aren't callable
 					static_assert(!std::is_function_v<std::remove_pointer_t<remove_cvref<U>>>); // covered above
 
-					payload_ = bit_cast<function_view_payload>(std::addressof(func));
+					payload_.object = const_cast<void*>(static_cast<const volatile void*>(std::addressof(func)));
 
 					invoker_ = [](function_view_payload& payload,												   //
 								  function_view_forwarding_arg<Args>... args) noexcept(is_nothrow_invocable<Func>) //
@@ -142,9 +146,9 @@ namespace muu
 						using ptr = std::add_pointer_t<std::remove_reference_t<U>>;
 
 						if constexpr (std::is_void_v<Return>)
-							static_cast<U&&>(*bit_cast<ptr>(payload))(static_cast<function_view_forwarding_arg<Args>>(args)...);
+							static_cast<U&&>(*static_cast<ptr>(payload.object))(static_cast<function_view_forwarding_arg<Args>>(args)...);
 						else
-							return static_cast<U&&>(*bit_cast<ptr>(payload))(static_cast<function_view_forwarding_arg<Args>>(args)...);
+							return static_cast<U&&>(*static_cast<ptr>(payload.object))(static_cast<function_view_forwarding_arg<Args>>(args)...);
 					};
 				}
 			}
-- 
2.43.0


From 9a64fedf51f941b82fc381699e6dc9f1903fa748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:30 +0000
Subject: [PATCH 039/103] fix: atan2(half, half) swapped its arguments

---
 include/muu/half.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/half.h b/include/muu/half.h
index 2ef89c6..3165a52 100644
--- a/include/muu/half.h
+++ b/include/muu/half.h
@@ -1213,7 +1213,7 @@ namespace muu
 	MUU_CONST_INLINE_GETTER
 	constexpr half MUU_VECTORCALL atan2(half y, half x) noexcept
 	{
-		return half{ muu::atan2(static_cast<float>(x), static_cast<float>(y)) };
+		return half{ muu::atan2(static_cast<float>(y), static_cast<float>(x)) };
 	}
 
 	/// \brief	Returns a linear interpolation between two half-precision floats.
-- 
2.43.0


From 08bdab778045223a09ee3b3247ae381a2823311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:30 +0000
Subject: [PATCH 040/103] fix: floor()/ceil() of infinities and values beyond
 the range of intmax_t were undefined behaviour in constant expressions and
 for half

---
 include/muu/math.h | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/include/muu/math.h b/include/muu/math.h
index 9adc818..4878087 100644
--- a/include/muu/math.h
+++ b/include/muu/math.h
@@ -602,6 +602,21 @@ namespace muu
 	{
 		MUU_PUSH_PRECISE_MATH;
 
+		/// \brief	True for values so large they're necessarily integers already (including infinities).
+		/// \detail	These wouldn't necessarily be representable as intmax_t, either.
+		template <typename T>
+		MUU_CONST_INLINE_GETTER
+		constexpr bool MUU_VECTORCALL exceeds_intmax_range(T x) noexcept
+		{
+			static_assert(is_floating_point<T>);
+
+			// half and _Float16 can't represent 2^63
+			using wide_type = std::conditional_t<(constants<T>::significand_digits < 24), float, T>;
+
+			return !(static_cast<wide_type>(x) > wide_type(-9223372036854775808.0L)
+					 && static_cast<wide_type>(x) < wide_type(9223372036854775808.0L));
+		}
+
 		template <typename T>
 		MUU_CONST_INLINE_GETTER
 		constexpr T MUU_VECTORCALL floor_naive(T x) noexcept
@@ -611,6 +626,21 @@ namespace muu
 			if (x == T{} || x != x) // accounts for -0.0 and NaN
 				return x;
 
+			if (exceeds_intmax_range(x))
+			{
+	#if MUU_HAS_FLOAT128 && MUU_HAS_INT128
+				// the only type with fractional values in this range
+				if constexpr (std::is_same_v<T, float128_t>)
+				{
+					constexpr float128_t limit = float128_t{ 9223372036854775808.0L } * float128_t{ 9223372036854775808.0L };
+					if (x > -limit && x < limit)
+						return static_cast<T>(static_cast<int128_t>(x)
+											  - static_cast<int128_t>(x < static_cast<T>(static_cast<int128_t>(x))));
+				}
+	#endif
+				return x;
+			}
+
 			return static_cast<T>(static_cast<intmax_t>(x) - static_cast<intmax_t>(x < static_cast<intmax_t>(x)));
 		}
 
@@ -745,6 +775,21 @@ namespace muu
 			if (x == T{} || x != x) // accounts for -0.0 and NaN
 				return x;
 
+			if (exceeds_intmax_range(x))
+			{
+	#if MUU_HAS_FLOAT128 && MUU_HAS_INT128
+				// the only type with fractional values in this range
+				if constexpr (std::is_same_v<T, float128_t>)
+				{
+					constexpr float128_t limit = float128_t{ 9223372036854775808.0L } * float128_t{ 9223372036854775808.0L };
+					if (x > -limit && x < limit)
+						return static_cast<T>(static_cast<int128_t>(x)
+											  + static_cast<int128_t>(x > static_cast<T>(static_cast<int128_t>(x))));
+				}
+	#endif
+				return x;
+			}
+
 			return static_cast<T>(static_cast<intmax_t>(x) + static_cast<intmax_t>(x > static_cast<intmax_t>(x)));
 		}
 
-- 
2.43.0


From 09382f193d9c9c81c369539beb8a2be0653bfa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:27 +0000
Subject: [PATCH 041/103] fix: the e family of named constants was only
 accurate to 16 digits (double e wasn't even M_E), as was float128_t
 degrees_to_radians to 35

---
 include/muu/impl/core_constants.h | 74 +++++++++++++++----------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/include/muu/impl/core_constants.h b/include/muu/impl/core_constants.h
index eacbc0b..30a553b 100644
--- a/include/muu/impl/core_constants.h
+++ b/include/muu/impl/core_constants.h
@@ -239,24 +239,24 @@ namespace muu
 			static constexpr T five_over_three_pi	  = T(0.530516476972984452563L); ///< `5 / (3 * pi)`
 			static constexpr T seven_over_three_pi	  = T(0.742723067762178233588L); ///< `7 / (3 * pi)`
 			static constexpr T eight_over_three_pi	  = T(0.848826363156775124101L); ///< `8 / (3 * pi)`
-			static constexpr T e					  = T(2.718281828459045534885L); ///< `e`
-			static constexpr T one_over_e			  = T(0.367879441171442281059L); ///< `1 / e`
-			static constexpr T sqrt_e				  = T(1.648721270700128237684L); ///< `sqrt(e)`
-			static constexpr T one_over_sqrt_e		  = T(0.606530659712633390187L); ///< `1 / sqrt(e)`
-			static constexpr T e_over_two			  = T(1.359140914229522767442L); ///< `e / 2`
-			static constexpr T e_over_three			  = T(0.906093942819681844962L); ///< `e / 3`
-			static constexpr T e_over_four			  = T(0.679570457114761383721L); ///< `e / 4`
-			static constexpr T e_over_five			  = T(0.543656365691809106977L); ///< `e / 5`
-			static constexpr T e_over_six			  = T(0.453046971409840922481L); ///< `e / 6`
-			static constexpr T e_over_seven			  = T(0.388325975494149362126L); ///< `e / 7`
-			static constexpr T e_over_eight			  = T(0.339785228557380691861L); ///< `e / 8`
-			static constexpr T two_over_e			  = T(0.735758882342884562119L); ///< `2 / e`
-			static constexpr T three_over_e			  = T(1.103638323514326843178L); ///< `3 / e`
-			static constexpr T four_over_e			  = T(1.471517764685769124237L); ///< `4 / e`
-			static constexpr T five_over_e			  = T(1.839397205857211405296L); ///< `5 / e`
-			static constexpr T six_over_e			  = T(2.207276647028653686356L); ///< `6 / e`
-			static constexpr T seven_over_e			  = T(2.575156088200095967415L); ///< `7 / e`
-			static constexpr T eight_over_e			  = T(2.943035529371538248474L); ///< `8 / e`
+			static constexpr T e					  = T(2.718281828459045235360L); ///< `e`
+			static constexpr T one_over_e			  = T(0.367879441171442321596L); ///< `1 / e`
+			static constexpr T sqrt_e				  = T(1.648721270700128146849L); ///< `sqrt(e)`
+			static constexpr T one_over_sqrt_e		  = T(0.606530659712633423604L); ///< `1 / sqrt(e)`
+			static constexpr T e_over_two			  = T(1.359140914229522617680L); ///< `e / 2`
+			static constexpr T e_over_three			  = T(0.906093942819681745120L); ///< `e / 3`
+			static constexpr T e_over_four			  = T(0.679570457114761308840L); ///< `e / 4`
+			static constexpr T e_over_five			  = T(0.543656365691809047072L); ///< `e / 5`
+			static constexpr T e_over_six			  = T(0.453046971409840872560L); ///< `e / 6`
+			static constexpr T e_over_seven			  = T(0.388325975494149319337L); ///< `e / 7`
+			static constexpr T e_over_eight			  = T(0.339785228557380654420L); ///< `e / 8`
+			static constexpr T two_over_e			  = T(0.735758882342884643191L); ///< `2 / e`
+			static constexpr T three_over_e			  = T(1.103638323514326964787L); ///< `3 / e`
+			static constexpr T four_over_e			  = T(1.471517764685769286382L); ///< `4 / e`
+			static constexpr T five_over_e			  = T(1.839397205857211607978L); ///< `5 / e`
+			static constexpr T six_over_e			  = T(2.207276647028653929573L); ///< `6 / e`
+			static constexpr T seven_over_e			  = T(2.575156088200096251169L); ///< `7 / e`
+			static constexpr T eight_over_e			  = T(2.943035529371538572764L); ///< `8 / e`
 			static constexpr T phi					  = T(1.618033988749894848205L); ///< `phi`
 			static constexpr T one_over_phi			  = T(0.618033988749894848205L); ///< `1 / phi`
 			static constexpr T sqrt_phi				  = T(1.272019649514068964252L); ///< `sqrt(phi)`
@@ -362,24 +362,24 @@ namespace muu
 			static constexpr float128_t five_over_three_pi	   = 0.530516476972984452562945877908381207q;
 			static constexpr float128_t seven_over_three_pi	   = 0.742723067762178233588124229071733689q;
 			static constexpr float128_t eight_over_three_pi	   = 0.848826363156775124100713404653409931q;
-			static constexpr float128_t e					   = 2.718281828459045534884808148490265012q;
-			static constexpr float128_t one_over_e			   = 0.367879441171442281059287928010393142q;
-			static constexpr float128_t sqrt_e				   = 1.648721270700128237684053351021451524q;
-			static constexpr float128_t one_over_sqrt_e		   = 0.606530659712633390187322401455485737q;
-			static constexpr float128_t e_over_two			   = 1.359140914229522767442404074245132506q;
-			static constexpr float128_t e_over_three		   = 0.906093942819681844961602716163421671q;
-			static constexpr float128_t e_over_four			   = 0.679570457114761383721202037122566253q;
-			static constexpr float128_t e_over_five			   = 0.543656365691809106976961629698053002q;
-			static constexpr float128_t e_over_six			   = 0.453046971409840922480801358081710835q;
-			static constexpr float128_t e_over_seven		   = 0.388325975494149362126401164070037859q;
-			static constexpr float128_t e_over_eight		   = 0.339785228557380691860601018561283126q;
-			static constexpr float128_t two_over_e			   = 0.735758882342884562118575856020786284q;
-			static constexpr float128_t three_over_e		   = 1.103638323514326843177863784031179427q;
-			static constexpr float128_t four_over_e			   = 1.471517764685769124237151712041572569q;
-			static constexpr float128_t five_over_e			   = 1.839397205857211405296439640051965711q;
-			static constexpr float128_t six_over_e			   = 2.207276647028653686355727568062358853q;
-			static constexpr float128_t seven_over_e		   = 2.575156088200095967415015496072751996q;
-			static constexpr float128_t eight_over_e		   = 2.943035529371538248474303424083145138q;
+			static constexpr float128_t e					   = 2.718281828459045235360287471352662498q;
+			static constexpr float128_t one_over_e			   = 0.367879441171442321595523770161460867q;
+			static constexpr float128_t sqrt_e				   = 1.648721270700128146848650787814163572q;
+			static constexpr float128_t one_over_sqrt_e		   = 0.606530659712633423603799534991180453q;
+			static constexpr float128_t e_over_two			   = 1.359140914229522617680143735676331249q;
+			static constexpr float128_t e_over_three		   = 0.906093942819681745120095823784220833q;
+			static constexpr float128_t e_over_four			   = 0.679570457114761308840071867838165624q;
+			static constexpr float128_t e_over_five			   = 0.543656365691809047072057494270532500q;
+			static constexpr float128_t e_over_six			   = 0.453046971409840872560047911892110416q;
+			static constexpr float128_t e_over_seven		   = 0.388325975494149319337183924478951785q;
+			static constexpr float128_t e_over_eight		   = 0.339785228557380654420035933919082812q;
+			static constexpr float128_t two_over_e			   = 0.735758882342884643191047540322921735q;
+			static constexpr float128_t three_over_e		   = 1.103638323514326964786571310484382602q;
+			static constexpr float128_t four_over_e			   = 1.471517764685769286382095080645843470q;
+			static constexpr float128_t five_over_e			   = 1.839397205857211607977618850807304337q;
+			static constexpr float128_t six_over_e			   = 2.207276647028653929573142620968765205q;
+			static constexpr float128_t seven_over_e		   = 2.575156088200096251168666391130226072q;
+			static constexpr float128_t eight_over_e		   = 2.943035529371538572764190161291686940q;
 			static constexpr float128_t phi					   = 1.618033988749894848204586834365638118q;
 			static constexpr float128_t one_over_phi		   = 0.618033988749894848204586834365638118q;
 			static constexpr float128_t sqrt_phi			   = 1.272019649514068964252422461737491492q;
@@ -401,7 +401,7 @@ namespace muu
 			static constexpr float128_t one_over_ten		   = 0.100000000000000000000000000000000000q;
 			static constexpr float128_t one_over_one_hundred   = 0.010000000000000000000000000000000000q;
 			static constexpr float128_t one_over_one_thousand  = 0.001000000000000000000000000000000000q;
-			static constexpr float128_t degrees_to_radians	   = 0.017453292519943295769236907684886127q;
+			static constexpr float128_t degrees_to_radians	   = 0.01745329251994329576923690768488612713q;
 			static constexpr float128_t radians_to_degrees	   = 57.295779513082320876798154814105170332q;
 		};
 #endif
-- 
2.43.0


From d82701dc4f384a08f6cfdbddd8abbff15feaed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:27 +0000
Subject: [PATCH 042/103] fix: constants<float128_t>::highest, nan and infinity
 had the wrong values (infinity, and zero where std::numeric_limits is not
 specialized)

---
 include/muu/impl/core_constants.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/muu/impl/core_constants.h b/include/muu/impl/core_constants.h
index 30a553b..97c1d39 100644
--- a/include/muu/impl/core_constants.h
+++ b/include/muu/impl/core_constants.h
@@ -81,7 +81,7 @@ namespace muu
 		template <>
 		struct integer_limits<float128_t>
 		{
-			static constexpr float128_t highest = 1.18973149535723176508575932662800702e4932q;
+			static constexpr float128_t highest = __FLT128_MAX__;
 			static constexpr float128_t lowest	= -highest;
 		};
 #endif
@@ -168,6 +168,28 @@ namespace muu
 			/// @}
 		};
 
+		/// \cond
+
+		// std::numeric_limits isn't necessarily specialized for the extended floating-point types
+
+#if MUU_HAS_FLOAT128
+		template <>
+		struct floating_point_special_constants<float128_t>
+		{
+			static constexpr float128_t nan = static_cast<float128_t>(std::numeric_limits<double>::quiet_NaN());
+	#if MUU_GCC
+			static constexpr float128_t signaling_nan = __builtin_nansq("");
+	#else
+			static constexpr float128_t signaling_nan = nan;
+	#endif
+			static constexpr float128_t infinity = static_cast<float128_t>(std::numeric_limits<double>::infinity());
+			static constexpr float128_t negative_infinity = -infinity;
+			static constexpr float128_t negative_zero	  = -float128_t{};
+		};
+#endif
+
+		/// \endcond
+
 		template <typename T>
 		struct floating_point_named_constants
 		{
-- 
2.43.0


From 4ef4bd52978c910eb7aa3a4dda0b36d3ef465be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:27 +0000
Subject: [PATCH 043/103] fix: std::numeric_limits<half>, and the limits and
 special values in constants<half> and constants<_Float16>, were all zero when
 std::numeric_limits<_Float16> is not specialized

---
 include/muu/half.h                | 32 +------------------------------
 include/muu/impl/core_constants.h | 25 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+), 31 deletions(-)

diff --git a/include/muu/half.h b/include/muu/half.h
index 3165a52..1778789 100644
--- a/include/muu/half.h
+++ b/include/muu/half.h
@@ -719,13 +719,8 @@ namespace muu
 		template <>
 		struct integer_limits<half>
 		{
-#if MUU_HALF_EMULATED
 			static constexpr half lowest  = half::from_bits(0b1'11110'1111111111_u16);
 			static constexpr half highest = half::from_bits(0b0'11110'1111111111_u16);
-#else
-			static constexpr half lowest				 = half{ integer_limits<MUU_HALF_IMPL_TYPE>::lowest };
-			static constexpr half highest				 = half{ integer_limits<MUU_HALF_IMPL_TYPE>::highest };
-#endif
 		};
 
 		template <>
@@ -778,20 +773,11 @@ namespace muu
 		template <>
 		struct floating_point_special_constants<half>
 		{
-#if MUU_HALF_EMULATED
 			static constexpr half nan				= half::from_bits(0b1'11111'1000000001_u16);
 			static constexpr half signaling_nan		= half::from_bits(0b1'11111'0000000001_u16);
 			static constexpr half infinity			= half::from_bits(0b0'11111'0000000000_u16);
 			static constexpr half negative_infinity = half::from_bits(0b1'11111'0000000000_u16);
 			static constexpr half negative_zero		= half::from_bits(0b1'00000'0000000000_u16);
-#else
-			using impl_type								 = floating_point_special_constants<MUU_HALF_IMPL_TYPE>;
-			static constexpr half nan					 = half{ impl_type::nan };
-			static constexpr half signaling_nan			 = half{ impl_type::signaling_nan };
-			static constexpr half infinity				 = half{ impl_type::infinity };
-			static constexpr half negative_infinity		 = half{ impl_type::negative_infinity };
-			static constexpr half negative_zero			 = half{ impl_type::negative_zero };
-#endif
 		};
 
 		template <>
@@ -1460,12 +1446,8 @@ namespace std
 		MUU_CONST_GETTER
 		static constexpr half min() noexcept
 		{
-#if MUU_HALF_EMULATED
 			using namespace muu::literals;
 			return half::from_bits(0x0400_u16); // 0.000061035 (ish)
-#else
-			return half{ (std::numeric_limits<MUU_HALF_IMPL_TYPE>::min)() };
-#endif
 		}
 
 		MUU_CONST_GETTER
@@ -1483,23 +1465,15 @@ namespace std
 		MUU_CONST_GETTER
 		static constexpr half epsilon() noexcept
 		{
-#if MUU_HALF_EMULATED
 			using namespace muu::literals;
 			return half::from_bits(0b0'00101'0000000000_u16); // 0.00097656
-#else
-			return half{ std::numeric_limits<MUU_HALF_IMPL_TYPE>::epsilon() };
-#endif
 		}
 
 		MUU_CONST_GETTER
 		static constexpr half round_error() noexcept
 		{
-#if MUU_HALF_EMULATED
 			using namespace muu::literals;
-			return half::from_bits(0b0'00100'0000000000_u16); // epsilon / 2
-#else
-			return half{ std::numeric_limits<MUU_HALF_IMPL_TYPE>::round_error() };
-#endif
+			return half::from_bits(0x3800_u16); // 0.5 ulp
 		}
 
 		MUU_CONST_GETTER
@@ -1523,12 +1497,8 @@ namespace std
 		MUU_CONST_GETTER
 		static constexpr half denorm_min() noexcept
 		{
-#if MUU_HALF_EMULATED
 			using namespace muu::literals;
 			return half::from_bits(0x0001_u16); // 0.000000059605 (ish)
-#else
-			return half{ std::numeric_limits<MUU_HALF_IMPL_TYPE>::denorm_min() };
-#endif
 		}
 	};
 
diff --git a/include/muu/impl/core_constants.h b/include/muu/impl/core_constants.h
index 97c1d39..d0548be 100644
--- a/include/muu/impl/core_constants.h
+++ b/include/muu/impl/core_constants.h
@@ -77,6 +77,15 @@ namespace muu
 		};
 #endif // MUU_HAS_INT128
 
+#if MUU_HAS_FLOAT16
+		template <>
+		struct integer_limits<_Float16>
+		{
+			static constexpr _Float16 highest = static_cast<_Float16>(65504.0f);
+			static constexpr _Float16 lowest  = static_cast<_Float16>(-65504.0f);
+		};
+#endif
+
 #if MUU_HAS_FLOAT128
 		template <>
 		struct integer_limits<float128_t>
@@ -172,6 +181,22 @@ namespace muu
 
 		// std::numeric_limits isn't necessarily specialized for the extended floating-point types
 
+#if MUU_HAS_FLOAT16
+		template <>
+		struct floating_point_special_constants<_Float16>
+		{
+			static constexpr _Float16 nan = static_cast<_Float16>(std::numeric_limits<float>::quiet_NaN());
+	#if MUU_GCC
+			static constexpr _Float16 signaling_nan = __builtin_nansf16("");
+	#else
+			static constexpr _Float16 signaling_nan = nan;
+	#endif
+			static constexpr _Float16 infinity			= static_cast<_Float16>(std::numeric_limits<float>::infinity());
+			static constexpr _Float16 negative_infinity = -infinity;
+			static constexpr _Float16 negative_zero		= -_Float16{};
+		};
+#endif
+
 #if MUU_HAS_FLOAT128
 		template <>
 		struct floating_point_special_constants<float128_t>
-- 
2.43.0


From 8a5605b6d8863cc7c12b2933df227fdec5c05bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:58 +0000
Subject: [PATCH 044/103] fix: the emulated half's float conversion mangled
 subnormals, small and large values, and truncated instead of rounding to
 nearest

---
 include/muu/half.h | 61 +++++++++++++++++-----------------------------
 1 file changed, 22 insertions(+), 39 deletions(-)

diff --git a/include/muu/half.h b/include/muu/half.h
index 1778789..5358644 100644
--- a/include/muu/half.h
+++ b/include/muu/half.h
@@ -1244,51 +1244,34 @@ namespace muu::impl
 	constexpr uint16_t MUU_VECTORCALL f32_to_u16_naive(float val) noexcept
 	{
 		const uint32_t bits32 = muu::bit_cast<uint32_t>(val);
-		const uint16_t s16	  = static_cast<uint16_t>((bits32 & 0x80000000u) >> 16);
+		const uint32_t s16	  = (bits32 & 0x80000000u) >> 16;
+		const uint32_t abs32  = bits32 & 0x7FFFFFFFu;
 
-		// 0000 0000 0111 1111 1111 1111 1111 1111
-		const uint32_t frac32 = bits32 & 0x007FFFFFu;
+		// nan (quieted, with as much of the payload as will fit)
+		if MUU_UNLIKELY(abs32 > 0x7F800000u)
+			return static_cast<uint16_t>(s16 | 0x7E00u | ((abs32 >> 13) & 0x03FFu));
 
-		// 0111 1111 1000 0000 0000 0000 0000 0000
-		const uint32_t exp32 = (bits32 & 0x7F800000u) >> 23;
+		// infinity, and anything that would round to it (>= 65520)
+		if MUU_UNLIKELY(abs32 >= 0x477FF000u)
+			return static_cast<uint16_t>(s16 | 0x7C00u);
 
-		// unbiased exp32
-		const int8_t exp32ub = static_cast<int8_t>(exp32) - f16_single_exp_bias;
-
-		uint16_t exp16 = static_cast<uint16_t>(exp32ub + 15);
-
-		// clamp the exponent
-		if MUU_UNLIKELY(exp32 == 0xFF /*|| exp32ub > single_exp_bias*/)
-		{
-			// 0001 1111, use all five bits
-			exp16 = 0x1F_u16;
-		}
-		else if MUU_UNLIKELY(exp32 == 0 /*|| exp32ub < -(single_exp_bias - 1)*/)
+		// subnormals (< 2^-14)
+		if MUU_UNLIKELY(abs32 < 0x38800000u)
 		{
-			exp16 = {};
+			// zero, and anything that would round to it (<= 2^-25)
+			if (abs32 <= 0x33000000u)
+				return static_cast<uint16_t>(s16);
+
+			const uint32_t frac32 = (abs32 & 0x007FFFFFu) | 0x00800000u;
+			const uint32_t shift  = 126u - (abs32 >> 23); // 14..24
+			const uint32_t odd	  = (frac32 >> shift) & 1u;
+			return static_cast<uint16_t>(s16 | ((frac32 + (1u << (shift - 1u)) - 1u + odd) >> shift));
 		}
 
-		uint16_t frac16 = static_cast<uint16_t>(frac32 >> 13);
-
-		// nan
-		if MUU_UNLIKELY(exp32 == 0xFF && frac32 != 0 && frac16 == 0)
-		{
-			// 0000 0010 0000 0000
-			frac16 = 0x0200_u16;
-		}
-		// denormal overflow
-		else if (exp32 == 0 || (exp16 == 0x1F && exp32 != 0xFF))
-		{
-			frac16 = {};
-		}
-		// denormal underflow
-		else if MUU_UNLIKELY(exp16 == 0 && exp32 != 0)
-		{
-			// 0000 0001 0000 0000
-			frac16 = 0x0100 | (frac16 >> 2);
-		}
-		exp16 = static_cast<uint16_t>(exp16 << 10);
-		return s16 | exp16 | frac16;
+		// normals; rounding may carry into the exponent
+		const uint32_t rebiased = abs32 - 0x38000000u; // 112 << 23 (single_exp_bias - half_exp_bias)
+		const uint32_t odd		= (rebiased >> 13) & 1u;
+		return static_cast<uint16_t>(s16 | ((rebiased + 0x0FFFu + odd) >> 13));
 	}
 
 	MUU_CONST_GETTER
-- 
2.43.0


From fe9fea534e87fd5187a7dea77db9cc49ed4b601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:58 +0000
Subject: [PATCH 045/103] fix: many of the emulated half's named constants were
 not the nearest representable value

---
 include/muu/half.h | 78 +++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/include/muu/half.h b/include/muu/half.h
index 5358644..b737ff7 100644
--- a/include/muu/half.h
+++ b/include/muu/half.h
@@ -785,39 +785,39 @@ namespace muu
 		{
 #if MUU_HALF_EMULATED
 			static constexpr half one_over_two			 = half::from_bits(0b0'01110'0000000000_u16);
-			static constexpr half one_over_three		 = half::from_bits(0b0'01101'0101010110_u16);
+			static constexpr half one_over_three		 = half::from_bits(0b0'01101'0101010101_u16);
 			static constexpr half one_over_four			 = half::from_bits(0b0'01101'0000000000_u16);
-			static constexpr half one_over_five			 = half::from_bits(0b0'01100'1001100111_u16);
-			static constexpr half one_over_six			 = half::from_bits(0b0'01100'0101010110_u16);
-			static constexpr half one_over_seven		 = half::from_bits(0b0'01100'0010010011_u16);
+			static constexpr half one_over_five			 = half::from_bits(0b0'01100'1001100110_u16);
+			static constexpr half one_over_six			 = half::from_bits(0b0'01100'0101010101_u16);
+			static constexpr half one_over_seven		 = half::from_bits(0b0'01100'0010010010_u16);
 			static constexpr half one_over_eight		 = half::from_bits(0b0'01100'0000000000_u16);
 			static constexpr half sqrt_two				 = half::from_bits(0b0'01111'0110101000_u16);
 			static constexpr half one_over_sqrt_two		 = half::from_bits(0b0'01110'0110101000_u16);
-			static constexpr half two_over_three		 = half::from_bits(0b0'01110'0101010110_u16);
-			static constexpr half two_over_five			 = half::from_bits(0b0'01101'1001100111_u16);
-			static constexpr half two_over_seven		 = half::from_bits(0b0'01101'0010010011_u16);
+			static constexpr half two_over_three		 = half::from_bits(0b0'01110'0101010101_u16);
+			static constexpr half two_over_five			 = half::from_bits(0b0'01101'1001100110_u16);
+			static constexpr half two_over_seven		 = half::from_bits(0b0'01101'0010010010_u16);
 			static constexpr half sqrt_three			 = half::from_bits(0b0'01111'1011101110_u16);
-			static constexpr half one_over_sqrt_three	 = half::from_bits(0b0'01110'0010011111_u16);
+			static constexpr half one_over_sqrt_three	 = half::from_bits(0b0'01110'0010011110_u16);
 			static constexpr half three_over_two		 = half::from_bits(0b0'01111'1000000000_u16);
 			static constexpr half three_over_four		 = half::from_bits(0b0'01110'1000000000_u16);
 			static constexpr half three_over_five		 = half::from_bits(0b0'01110'0011001101_u16);
-			static constexpr half three_over_seven		 = half::from_bits(0b0'01101'1011011100_u16);
+			static constexpr half three_over_seven		 = half::from_bits(0b0'01101'1011011011_u16);
 			static constexpr half three_over_eight		 = half::from_bits(0b0'01101'1000000000_u16);
 			static constexpr half sqrt_four				 = half::from_bits(0b0'10000'0000000000_u16);
-			static constexpr half four_over_three		 = half::from_bits(0b0'01111'0101010110_u16);
-			static constexpr half four_over_five		 = half::from_bits(0b0'01110'1001100111_u16);
-			static constexpr half four_over_seven		 = half::from_bits(0b0'01110'0010010011_u16);
-			static constexpr half pi					 = half::from_bits(0b0'10000'1001001001_u16);
+			static constexpr half four_over_three		 = half::from_bits(0b0'01111'0101010101_u16);
+			static constexpr half four_over_five		 = half::from_bits(0b0'01110'1001100110_u16);
+			static constexpr half four_over_seven		 = half::from_bits(0b0'01110'0010010010_u16);
+			static constexpr half pi					 = half::from_bits(0b0'10000'1001001000_u16);
 			static constexpr half one_over_pi			 = half::from_bits(0b0'01101'0100011000_u16);
 			static constexpr half sqrt_pi				 = half::from_bits(0b0'01111'1100010111_u16);
-			static constexpr half one_over_sqrt_pi		 = half::from_bits(0b0'01110'0010000100_u16);
-			static constexpr half pi_over_two			 = half::from_bits(0b0'01111'1001001001_u16);
-			static constexpr half pi_over_three			 = half::from_bits(0b0'01111'0000110001_u16);
-			static constexpr half pi_over_four			 = half::from_bits(0b0'01110'1001001001_u16);
+			static constexpr half one_over_sqrt_pi		 = half::from_bits(0b0'01110'0010000011_u16);
+			static constexpr half pi_over_two			 = half::from_bits(0b0'01111'1001001000_u16);
+			static constexpr half pi_over_three			 = half::from_bits(0b0'01111'0000110000_u16);
+			static constexpr half pi_over_four			 = half::from_bits(0b0'01110'1001001000_u16);
 			static constexpr half pi_over_five			 = half::from_bits(0b0'01110'0100000111_u16);
-			static constexpr half pi_over_six			 = half::from_bits(0b0'01110'0000110001_u16);
-			static constexpr half pi_over_seven			 = half::from_bits(0b0'01101'1100101111_u16);
-			static constexpr half pi_over_eight			 = half::from_bits(0b0'01101'1001001001_u16);
+			static constexpr half pi_over_six			 = half::from_bits(0b0'01110'0000110000_u16);
+			static constexpr half pi_over_seven			 = half::from_bits(0b0'01101'1100101110_u16);
+			static constexpr half pi_over_eight			 = half::from_bits(0b0'01101'1001001000_u16);
 			static constexpr half two_over_pi			 = half::from_bits(0b0'01110'0100011000_u16);
 			static constexpr half three_over_pi			 = half::from_bits(0b0'01110'1110100100_u16);
 			static constexpr half four_over_pi			 = half::from_bits(0b0'01111'0100011000_u16);
@@ -825,38 +825,38 @@ namespace muu
 			static constexpr half six_over_pi			 = half::from_bits(0b0'01111'1110100100_u16);
 			static constexpr half seven_over_pi			 = half::from_bits(0b0'10000'0001110101_u16);
 			static constexpr half eight_over_pi			 = half::from_bits(0b0'10000'0100011000_u16);
-			static constexpr half two_pi				 = half::from_bits(0b0'10001'1001001001_u16);
+			static constexpr half two_pi				 = half::from_bits(0b0'10001'1001001000_u16);
 			static constexpr half one_over_two_pi		 = half::from_bits(0b0'01100'0100011000_u16);
-			static constexpr half sqrt_two_pi			 = half::from_bits(0b0'10000'0100000100_u16);
+			static constexpr half sqrt_two_pi			 = half::from_bits(0b0'10000'0100000011_u16);
 			static constexpr half one_over_sqrt_two_pi	 = half::from_bits(0b0'01101'1001100010_u16);
-			static constexpr half two_pi_over_three		 = half::from_bits(0b0'10000'0000110001_u16);
+			static constexpr half two_pi_over_three		 = half::from_bits(0b0'10000'0000110000_u16);
 			static constexpr half two_pi_over_five		 = half::from_bits(0b0'01111'0100000111_u16);
-			static constexpr half two_pi_over_seven		 = half::from_bits(0b0'01110'1100101111_u16);
+			static constexpr half two_pi_over_seven		 = half::from_bits(0b0'01110'1100101110_u16);
 			static constexpr half three_over_two_pi		 = half::from_bits(0b0'01101'1110100100_u16);
 			static constexpr half five_over_two_pi		 = half::from_bits(0b0'01110'1001011110_u16);
 			static constexpr half seven_over_two_pi		 = half::from_bits(0b0'01111'0001110101_u16);
-			static constexpr half three_pi				 = half::from_bits(0b0'10010'0010110111_u16);
-			static constexpr half one_over_three_pi		 = half::from_bits(0b0'01011'1011001011_u16);
+			static constexpr half three_pi				 = half::from_bits(0b0'10010'0010110110_u16);
+			static constexpr half one_over_three_pi		 = half::from_bits(0b0'01011'1011001010_u16);
 			static constexpr half sqrt_three_pi			 = half::from_bits(0b0'10000'1000100100_u16);
 			static constexpr half one_over_sqrt_three_pi = half::from_bits(0b0'01101'0100110110_u16);
-			static constexpr half three_pi_over_two		 = half::from_bits(0b0'10001'0010110111_u16);
-			static constexpr half three_pi_over_four	 = half::from_bits(0b0'10000'0010110111_u16);
+			static constexpr half three_pi_over_two		 = half::from_bits(0b0'10001'0010110110_u16);
+			static constexpr half three_pi_over_four	 = half::from_bits(0b0'10000'0010110110_u16);
 			static constexpr half three_pi_over_five	 = half::from_bits(0b0'01111'1110001010_u16);
 			static constexpr half three_pi_over_seven	 = half::from_bits(0b0'01111'0101100011_u16);
-			static constexpr half three_pi_over_eight	 = half::from_bits(0b0'01111'0010110111_u16);
-			static constexpr half two_over_three_pi		 = half::from_bits(0b0'01100'1011001011_u16);
-			static constexpr half four_over_three_pi	 = half::from_bits(0b0'01101'1011001011_u16);
-			static constexpr half five_over_three_pi	 = half::from_bits(0b0'01110'0000111111_u16);
+			static constexpr half three_pi_over_eight	 = half::from_bits(0b0'01111'0010110110_u16);
+			static constexpr half two_over_three_pi		 = half::from_bits(0b0'01100'1011001010_u16);
+			static constexpr half four_over_three_pi	 = half::from_bits(0b0'01101'1011001010_u16);
+			static constexpr half five_over_three_pi	 = half::from_bits(0b0'01110'0000111110_u16);
 			static constexpr half seven_over_three_pi	 = half::from_bits(0b0'01110'0111110001_u16);
-			static constexpr half eight_over_three_pi	 = half::from_bits(0b0'01110'1011001011_u16);
+			static constexpr half eight_over_three_pi	 = half::from_bits(0b0'01110'1011001010_u16);
 			static constexpr half e						 = half::from_bits(0b0'10000'0101110000_u16);
 			static constexpr half one_over_e			 = half::from_bits(0b0'01101'0111100011_u16);
-			static constexpr half sqrt_e				 = half::from_bits(0b0'01111'1010011001_u16);
+			static constexpr half sqrt_e				 = half::from_bits(0b0'01111'1010011000_u16);
 			static constexpr half one_over_sqrt_e		 = half::from_bits(0b0'01110'0011011010_u16);
 			static constexpr half e_over_two			 = half::from_bits(0b0'01111'0101110000_u16);
 			static constexpr half e_over_three			 = half::from_bits(0b0'01110'1101000000_u16);
 			static constexpr half e_over_four			 = half::from_bits(0b0'01110'0101110000_u16);
-			static constexpr half e_over_five			 = half::from_bits(0b0'01110'0001011010_u16);
+			static constexpr half e_over_five			 = half::from_bits(0b0'01110'0001011001_u16);
 			static constexpr half e_over_six			 = half::from_bits(0b0'01101'1101000000_u16);
 			static constexpr half e_over_seven			 = half::from_bits(0b0'01101'1000110111_u16);
 			static constexpr half e_over_eight			 = half::from_bits(0b0'01101'0101110000_u16);
@@ -865,7 +865,7 @@ namespace muu
 			static constexpr half four_over_e			 = half::from_bits(0b0'01111'0111100011_u16);
 			static constexpr half five_over_e			 = half::from_bits(0b0'01111'1101011100_u16);
 			static constexpr half six_over_e			 = half::from_bits(0b0'10000'0001101010_u16);
-			static constexpr half seven_over_e			 = half::from_bits(0b0'10000'0100100111_u16);
+			static constexpr half seven_over_e			 = half::from_bits(0b0'10000'0100100110_u16);
 			static constexpr half eight_over_e			 = half::from_bits(0b0'10000'0111100011_u16);
 			static constexpr half phi					 = half::from_bits(0b0'01111'1001111001_u16);
 			static constexpr half one_over_phi			 = half::from_bits(0b0'01110'0011110010_u16);
@@ -874,7 +874,7 @@ namespace muu
 			static constexpr half phi_over_two			 = half::from_bits(0b0'01110'1001111001_u16);
 			static constexpr half phi_over_three		 = half::from_bits(0b0'01110'0001010001_u16);
 			static constexpr half phi_over_four			 = half::from_bits(0b0'01101'1001111001_u16);
-			static constexpr half phi_over_five			 = half::from_bits(0b0'01101'0100101110_u16);
+			static constexpr half phi_over_five			 = half::from_bits(0b0'01101'0100101101_u16);
 			static constexpr half phi_over_six			 = half::from_bits(0b0'01101'0001010001_u16);
 			static constexpr half phi_over_seven		 = half::from_bits(0b0'01100'1101100110_u16);
 			static constexpr half phi_over_eight		 = half::from_bits(0b0'01100'1001111001_u16);
@@ -885,11 +885,11 @@ namespace muu
 			static constexpr half six_over_phi			 = half::from_bits(0b0'10000'1101101011_u16);
 			static constexpr half seven_over_phi		 = half::from_bits(0b0'10001'0001010100_u16);
 			static constexpr half eight_over_phi		 = half::from_bits(0b0'10001'0011110010_u16);
-			static constexpr half one_over_ten			 = half::from_bits(0b0'01011'1001100111_u16);
+			static constexpr half one_over_ten			 = half::from_bits(0b0'01011'1001100110_u16);
 			static constexpr half one_over_one_hundred	 = half::from_bits(0b0'01000'0100011111_u16);
 			static constexpr half one_over_one_thousand	 = half::from_bits(0b0'00101'0000011001_u16);
 			static constexpr half degrees_to_radians	 = half::from_bits(0b0'01001'0001111000_u16);
-			static constexpr half radians_to_degrees	 = half::from_bits(0b0'10100'1100101010_u16);
+			static constexpr half radians_to_degrees	 = half::from_bits(0b0'10100'1100101001_u16);
 #else
 			using impl_type								 = floating_point_named_constants<MUU_HALF_IMPL_TYPE>;
 			static constexpr half one_over_two			 = half{ impl_type::one_over_two };
-- 
2.43.0


From 122f76de7d45cada2690d345731fd4b83e365c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:24 +0000
Subject: [PATCH 046/103] fix: byte_reverse() did not compile for single-byte
 types, unsigned long long or character types

---
 include/muu/byte_reverse.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/muu/byte_reverse.h b/include/muu/byte_reverse.h
index c4c916c..2b4cb07 100644
--- a/include/muu/byte_reverse.h
+++ b/include/muu/byte_reverse.h
@@ -24,12 +24,14 @@ namespace muu::impl
 	{
 #if MUU_GCC || MUU_CLANG
 
-		if constexpr (std::is_same_v<T, uint16_t>)
-			return __builtin_bswap16(val);
-		else if constexpr (std::is_same_v<T, uint32_t>)
-			return __builtin_bswap32(val);
-		else if constexpr (std::is_same_v<T, uint64_t>)
-			return __builtin_bswap64(val);
+		if constexpr (sizeof(T) == sizeof(uint8_t))
+			return val;
+		else if constexpr (sizeof(T) == sizeof(uint16_t))
+			return static_cast<T>(__builtin_bswap16(static_cast<uint16_t>(val)));
+		else if constexpr (sizeof(T) == sizeof(uint32_t))
+			return static_cast<T>(__builtin_bswap32(static_cast<uint32_t>(val)));
+		else if constexpr (sizeof(T) == sizeof(uint64_t))
+			return static_cast<T>(__builtin_bswap64(static_cast<uint64_t>(val)));
 	#if MUU_HAS_INT128
 		else if constexpr (std::is_same_v<T, uint128_t>)
 		{
@@ -46,7 +48,9 @@ namespace muu::impl
 
 #elif MUU_MSVC || MUU_ICC_CL
 
-		if constexpr (sizeof(T) == sizeof(unsigned short))
+		if constexpr (sizeof(T) == sizeof(unsigned char))
+			return val;
+		else if constexpr (sizeof(T) == sizeof(unsigned short))
 			return static_cast<T>(_byteswap_ushort(static_cast<unsigned short>(val)));
 		else if constexpr (sizeof(T) == sizeof(unsigned long))
 			return static_cast<T>(_byteswap_ulong(static_cast<unsigned long>(val)));
@@ -69,7 +73,11 @@ namespace muu::impl
 	MUU_CONST_GETTER
 	constexpr T MUU_VECTORCALL byte_reverse_naive(T val) noexcept
 	{
-		if constexpr (sizeof(T) == sizeof(uint16_t))
+		if constexpr (sizeof(T) == sizeof(uint8_t))
+		{
+			return val;
+		}
+		else if constexpr (sizeof(T) == sizeof(uint16_t))
 		{
 			return static_cast<T>(static_cast<uint32_t>(val << 8) | static_cast<uint32_t>(val >> 8));
 		}
-- 
2.43.0


From 25b5cbb52e3204342cca9e31e4789de56aa1e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:24 +0000
Subject: [PATCH 047/103] fix: bit_pack() did not compile when given a mixture
 of enums and integers

---
 include/muu/bit_pack.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/muu/bit_pack.h b/include/muu/bit_pack.h
index 8739e6e..6d7cb2e 100644
--- a/include/muu/bit_pack.h
+++ b/include/muu/bit_pack.h
@@ -53,9 +53,9 @@ namespace muu
 		if constexpr (any_enum<return_type, T, U, V...>)
 		{
 			return static_cast<return_type>(
-				bit_pack<remove_enum<return_type>>(static_cast<std::underlying_type_t<T>>(val1),
-												   static_cast<std::underlying_type_t<U>>(val2),
-												   static_cast<std::underlying_type_t<V>>(vals)...));
+				bit_pack<remove_enum<return_type>>(static_cast<remove_enum<T>>(val1),
+												   static_cast<remove_enum<U>>(val2),
+												   static_cast<remove_enum<V>>(vals)...));
 		}
 		else if constexpr (any_signed<return_type, T, U, V...>)
 		{
-- 
2.43.0


From ca47cd9a172ad6a176a3901f744d50af144d841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:24 +0000
Subject: [PATCH 048/103] fix: byte_select(val, sizeof(val)) shifted by the
 full width of the integer instead of returning 0

---
 include/muu/bit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/bit.h b/include/muu/bit.h
index bfca4d7..3aa8464 100644
--- a/include/muu/bit.h
+++ b/include/muu/bit.h
@@ -154,7 +154,7 @@ namespace muu
 	{
 		static_assert(!is_cvref<T>);
 
-		if (index > sizeof(T))
+		if (index >= sizeof(T))
 			return uint8_t{};
 
 		if constexpr (std::is_enum_v<T>)
-- 
2.43.0


From 5a05b99ad01e219cc0ef504d651d7ec58315817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:48 +0000
Subject: [PATCH 049/103] fix: between() was false for an unsigned value and a
 negative lower bound

---
 include/muu/impl/core_utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/muu/impl/core_utils.h b/include/muu/impl/core_utils.h
index 5f8fadc..650d7e5 100644
--- a/include/muu/impl/core_utils.h
+++ b/include/muu/impl/core_utils.h
@@ -124,6 +124,8 @@ namespace muu
 				{
 					if (high < rhs{})
 						return false;
+					if (low < rhs{}) // would wrap around below
+						return between(val, rhs{}, high);
 				}
 				if constexpr (!std::is_same_v<lhs, rhs>)
 				{
-- 
2.43.0


From 9c6d9ffe3651338e70c7b2e2f41a91e84c0ff890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:48 +0000
Subject: [PATCH 050/103] fix: min() returned the second of two equivalent
 values, unlike std::min

---
 include/muu/impl/core_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/impl/core_utils.h b/include/muu/impl/core_utils.h
index 650d7e5..073dde7 100644
--- a/include/muu/impl/core_utils.h
+++ b/include/muu/impl/core_utils.h
@@ -50,7 +50,7 @@ namespace muu
 	{
 		if constexpr (sizeof...(vals) == 0u)
 		{
-			return val1 < val2 ? val1 : val2;
+			return val2 < val1 ? val2 : val1;
 		}
 		else if constexpr (sizeof...(vals) == 2u)
 		{
-- 
2.43.0


From 0bb1eae4cb2f1d946849bfb458da97da99a5a1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:41 +0000
Subject: [PATCH 051/103] fix: adding one accumulator to another discarded the
 samples of a non-empty destination and did not compile for floats

---
 include/muu/accumulator.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/muu/accumulator.h b/include/muu/accumulator.h
index 6e2a807..d3ed14e 100644
--- a/include/muu/accumulator.h
+++ b/include/muu/accumulator.h
@@ -156,13 +156,13 @@ namespace muu
 			{
 				if (empty())
 				{
-					impl_and_count.first().add(other.impl_and_count.first());
-					impl_and_count.second() += other.impl_and_count.second();
+					impl_and_count.first()	= other.impl_and_count.first();
+					impl_and_count.second() = other.impl_and_count.second();
 				}
 				else
 				{
-					impl_and_count.first()	= other.impl_and_count.first();
-					impl_and_count.second() = other.impl_and_count.second();
+					impl_and_count.first().add(other.impl_and_count.first());
+					impl_and_count.second() += other.impl_and_count.second();
 				}
 			}
 			return *this;
@@ -305,7 +305,9 @@ namespace muu
 				using muu::max;
 				min_ = min(other.min_, min_);
 				max_ = max(other.max_, max_);
-				kahan_add(other.sum);
+				const auto other_correction = other.correction_; // other might be *this
+				kahan_add(other.sum_);
+				correction_ += other_correction;
 			}
 
 			MUU_PURE_INLINE_GETTER
-- 
2.43.0


From 33f7ef6a7cc17f4220f08851e039228dc771b1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:22 +0000
Subject: [PATCH 052/103] fix: accumulator.h relied on its includer having
 included core.h

---
 include/muu/accumulator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/muu/accumulator.h b/include/muu/accumulator.h
index d3ed14e..6519770 100644
--- a/include/muu/accumulator.h
+++ b/include/muu/accumulator.h
@@ -9,6 +9,7 @@
 
 #include "compressed_pair.h"
 #include "math.h"
+#include "impl/core_utils.h"
 #include "impl/header_start.h"
 MUU_FORCE_NDEBUG_OPTIMIZATIONS;
 
-- 
2.43.0


From 7375086558c5345cd0575b469da833d6bd9d6f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:22 +0000
Subject: [PATCH 053/103] fix: accumulator's constexpr constructors were not
 usable in constant expressions

---
 include/muu/accumulator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/accumulator.h b/include/muu/accumulator.h
index 6519770..b04e75e 100644
--- a/include/muu/accumulator.h
+++ b/include/muu/accumulator.h
@@ -47,7 +47,7 @@ namespace muu
 		using value_param = typename Impl::value_param;
 
 	  private:
-		compressed_pair<Impl, size_t> impl_and_count{};
+		compressed_pair<Impl, size_t> impl_and_count{ Impl{}, size_t{} };
 
 	  public:
 		/// \brief	Constructs an empty accumulator.
-- 
2.43.0


From 0d7d9acd0bc97407104cf0d3be82d061b31574ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:22 +0000
Subject: [PATCH 054/103] fix: accumulator did not compile for non-arithmetic
 types

---
 include/muu/accumulator.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/muu/accumulator.h b/include/muu/accumulator.h
index b04e75e..0b3abf7 100644
--- a/include/muu/accumulator.h
+++ b/include/muu/accumulator.h
@@ -202,11 +202,10 @@ namespace muu
 		{
 			using value_type  = ValueType;
 			using value_param = vector_param<ValueType>;
-			using sum_type	  = std::conditional_t<is_integral<ValueType>,
-												   std::conditional_t<is_signed<ValueType>,
-																	  highest_ranked<ValueType, int32_t>,
-																	  highest_ranked<ValueType, uint32_t>>,
-												   ValueType>;
+			using sum_type	  = typename std::conditional_t<
+				   is_integral<ValueType>,
+				   highest_ranked_<ValueType, std::conditional_t<is_signed<ValueType>, int32_t, uint32_t>>,
+				   highest_ranked_<ValueType>>::type;
 
 			value_type min_ = {}, max_ = {};
 			sum_type sum_ = {};
-- 
2.43.0


From 791409d28f94ba6a603f8394653cab87e5515ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:46 +0000
Subject: [PATCH 055/103] fix: packed_unit_vector packed large coordinates as
 garbage, swapped or lost axes when both coordinates rounded up, and drifted
 when repacked

---
 include/muu/packed_unit_vector.h | 39 +++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/include/muu/packed_unit_vector.h b/include/muu/packed_unit_vector.h
index b84ddfb..763c12d 100644
--- a/include/muu/packed_unit_vector.h
+++ b/include/muu/packed_unit_vector.h
@@ -44,6 +44,10 @@ namespace muu::impl
 		static constexpr arith_type x_range = (arith_type{ 1 } << x_bits) - arith_type{ 1 };
 		static constexpr arith_type y_range = (arith_type{ 1 } << y_bits) - arith_type{ 1 };
 
+		// the largest quantized value of a coordinate. in 3D one less than the range, so that the sum of two coordinates
+		// also tells us if they were inverted.
+		static constexpr arith_type quantized_max = Dimensions >= 3 ? x_range - arith_type{ 1 } : x_range;
+
 		static constexpr arith_type sign_mask = ((arith_type{ 1 } << sign_bits) - arith_type{ 1 }) << (x_bits + y_bits);
 		static constexpr arith_type x_mask	  = x_range << y_bits;
 		static constexpr arith_type y_mask	  = y_range;
@@ -55,6 +59,15 @@ namespace muu::impl
 		static constexpr arith_type y_sign_bit = arith_type{ 1 } << (total_bits - arith_type{ 2 });
 		static constexpr arith_type z_sign_bit = arith_type{ 1 } << (total_bits - arith_type{ 3 });
 
+		template <typename T>
+		MUU_CONST_GETTER
+		static constexpr arith_type quantize(T val) noexcept
+		{
+			// static_cast<T>(quantized_max) might round up so the result needs to be clamped
+			const auto i = static_cast<arith_type>(val * static_cast<T>(quantized_max) + T{ 0.5 });
+			return i < quantized_max ? i : quantized_max;
+		}
+
 		template <typename T>
 		MUU_PURE_GETTER
 		static constexpr arith_type MUU_VECTORCALL pack_vector(vector<T, Dimensions> v) noexcept
@@ -89,15 +102,19 @@ namespace muu::impl
 					v.x /= (v.x + v.y);
 				}
 
-				arith_type ix = static_cast<arith_type>(v.x * static_cast<T>(x_range - arith_type{ 1 }) + T{ 0.5 });
+				arith_type ix = quantize(v.x);
 				MUU_ASSUME(ix <= x_range);
 
 				// 3d path does the fancy inversion trick to get an extra bit of precision
 				if constexpr (Dimensions >= 3)
 				{
-					arith_type iy = static_cast<arith_type>(v.y * static_cast<T>(x_range - arith_type{ 1 }) + T{ 0.5 });
+					arith_type iy = quantize(v.y);
 					MUU_ASSUME(iy <= x_range);
 
+					// both may have been rounded up
+					if (ix + iy > quantized_max)
+						(ix >= iy ? ix : iy) -= ix + iy - quantized_max;
+
 					constexpr auto iy_half_threshold = (arith_type{ 1 } << x_bits) / arith_type{ 2 };
 					if (iy >= iy_half_threshold)
 					{
@@ -136,7 +153,7 @@ namespace muu::impl
 			{
 				static_assert(is_floating_point<T>);
 
-				constexpr auto x_range_div = T{ 1 } / static_cast<T>(x_range);
+				constexpr auto quantized_div = T{ 1 } / static_cast<T>(quantized_max);
 
 				if constexpr (Dimensions >= 3)
 				{
@@ -149,20 +166,26 @@ namespace muu::impl
 						iy = x_range - iy;
 					}
 
-					const auto x = static_cast<T>(ix) * x_range_div;
-					const auto y = static_cast<T>(iy) * x_range_div;
+					const arith_type iz = ix + iy < quantized_max ? quantized_max - (ix + iy) : arith_type{};
+
+					const auto x = static_cast<T>(ix) * quantized_div;
+					const auto y = static_cast<T>(iy) * quantized_div;
+					const auto z = static_cast<T>(iz) * quantized_div;
 
 					return out_type::normalize(
 						out_type{ static_cast<T>(1 - (static_cast<int>(!!(b & x_sign_bit)) * 2)) * x,
 								  static_cast<T>(1 - (static_cast<int>(!!(b & y_sign_bit)) * 2)) * y,
-								  static_cast<T>(1 - (static_cast<int>(!!(b & z_sign_bit)) * 2)) * (T{ 1 } - x - y) });
+								  static_cast<T>(1 - (static_cast<int>(!!(b & z_sign_bit)) * 2)) * z });
 				}
 				else
 				{
-					const auto x = static_cast<T>(b & x_range) * x_range_div;
+					const arith_type ix = b & x_mask;
+
+					const auto x = static_cast<T>(ix) * quantized_div;
+					const auto y = static_cast<T>(quantized_max - ix) * quantized_div;
 					return out_type::normalize(
 						out_type{ static_cast<T>(1 - (static_cast<int>(!!(b & x_sign_bit)) * 2)) * x,
-								  static_cast<T>(1 - (static_cast<int>(!!(b & y_sign_bit)) * 2)) * (T{ 1 } - x) });
+								  static_cast<T>(1 - (static_cast<int>(!!(b & y_sign_bit)) * 2)) * y });
 				}
 			}
 		}
-- 
2.43.0


From 9ed51f774f969760e578427d22d55328fb6d9012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:46 +0000
Subject: [PATCH 056/103] fix: constexpr sqrt was wrong for very large and very
 small values

---
 include/muu/math.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/muu/math.h b/include/muu/math.h
index 4878087..cef4f24 100644
--- a/include/muu/math.h
+++ b/include/muu/math.h
@@ -944,8 +944,17 @@ namespace muu
 					return constants<T>::nan;
 	#endif
 				}
-				if (x == T{ 1 })
-					return T{ 1 };
+				if (x == T{ 1 } || x == constants<T>::infinity)
+					return x;
+
+				// scale very large or small values (losslessly), since they'd take too many iterations to converge
+				constexpr T two_pow_32 = static_cast<T>(4294967296.0L);
+				constexpr T two_pow_64 = two_pow_32 * two_pow_32;
+				T scale				   = T{ 1 };
+				for (; x > two_pow_64; scale *= two_pow_32)
+					x /= two_pow_64;
+				for (; x < T{ 1 } / two_pow_64; scale /= two_pow_32)
+					x *= two_pow_64;
 
 				// Newton-Raphson method: https://en.wikipedia.org/wiki/Newton%27s_method
 				T curr = x;
@@ -955,7 +964,7 @@ namespace muu
 					prev = curr;
 					curr = constants<T>::one_over_two * (curr + x / curr);
 				}
-				return curr;
+				return curr * scale;
 			}
 		}
 
-- 
2.43.0


From 53b2554abd00a419e76769b2eecb17a7d00f6745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:46 +0000
Subject: [PATCH 057/103] fix: normalize_angle and normalize_angle_signed could
 return values outside of their documented ranges

---
 include/muu/math.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/muu/math.h b/include/muu/math.h
index cef4f24..0c85e22 100644
--- a/include/muu/math.h
+++ b/include/muu/math.h
@@ -2246,7 +2246,15 @@ namespace muu
 			static_assert(std::is_same_v<impl::highest_ranked<T, float>, T>);
 
 			if (val < T{} || val >= constants<T>::two_pi)
+			{
 				val -= constants<T>::two_pi * muu::floor(val * constants<T>::one_over_two_pi);
+
+				// rounding may have left it just outside of the range
+				if (val < T{})
+					val += constants<T>::two_pi;
+				if (val >= constants<T>::two_pi)
+					val -= constants<T>::two_pi;
+			}
 			return val;
 		}
 	}
@@ -2322,11 +2330,7 @@ namespace muu
 			static_assert(std::is_same_v<impl::highest_ranked<T, float>, T>);
 
 			if (val < -constants<T>::pi || val >= constants<T>::pi)
-			{
-				val += constants<T>::pi;
-				val -= constants<T>::two_pi * muu::floor(val * constants<T>::one_over_two_pi);
-				val -= constants<T>::pi;
-			}
+				val = normalize_angle_(val + constants<T>::pi) - constants<T>::pi;
 			return val;
 		}
 	}
-- 
2.43.0


From 90c521e97c61c6c3db7aebcecd9ec7f9f56d6066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:18 +0000
Subject: [PATCH 058/103] fix: normalized() was always false for integer
 vectors of two or more dimensions and for {-1}

---
 include/muu/vector.h | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/muu/vector.h b/include/muu/vector.h
index 3f7eb2f..b5b7852 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -2145,21 +2145,22 @@ namespace muu
 		{
 			if constexpr (is_integral<scalar_type>)
 			{
-				if constexpr (Dimensions == 1)
-					return v.x == scalar_type{ 1 };
-				else
+				size_t ones{};
+				for (size_t i = 0u; i < dimensions; i++)
 				{
-					using sum_type = decltype(scalar_type{} + scalar_type{});
-					sum_type sum{};
-					for (size_t i = 0u; i < dimensions && sum > sum_type{ 1 }; i++)
+					if (v[i] == scalar_type{ 1 })
+						ones++;
+					else if constexpr (muu::is_signed<scalar_type>)
 					{
-						if constexpr (muu::is_signed<scalar_type>)
-							sum += muu::abs(v[i]);
-						else
-							sum += v[i];
+						if (v[i] == scalar_type{ -1 })
+							ones++;
+						else if (v[i] != scalar_type{})
+							return false;
 					}
-					return sum == sum_type{ 1 };
+					else if (v[i] != scalar_type{})
+						return false;
 				}
+				return ones == 1u;
 			}
 			else
 			{
-- 
2.43.0


From 677446169cb02d257052c0bc13a58efc4891fadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:18 +0000
Subject: [PATCH 059/103] fix: length and normalize ignored the sign of
 one-dimensional vectors

---
 include/muu/vector.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/muu/vector.h b/include/muu/vector.h
index b5b7852..cd50c1e 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -1102,7 +1102,7 @@ namespace muu
 		{
 			if constexpr (Dimensions == 1)
 			{
-				return static_cast<delta_scalar_type>(v.x);
+				return muu::abs(static_cast<delta_scalar_type>(v.x));
 			}
 			else if constexpr (delta_requires_promotion)
 			{
@@ -1124,7 +1124,7 @@ namespace muu
 		{
 			if constexpr (Dimensions == 1)
 			{
-				return static_cast<delta_scalar_type>(v.x);
+				return muu::abs(static_cast<delta_scalar_type>(v.x));
 			}
 			else if constexpr (delta_requires_promotion)
 			{
@@ -2005,8 +2005,8 @@ namespace muu
 		{
 			if constexpr (Dimensions == 1)
 			{
-				length_out = static_cast<delta_scalar_type>(v.x);
-				return vector{ scalar_constants::one };
+				length_out = length(v);
+				return vector{ v.x < scalar_type{} ? -scalar_constants::one : scalar_constants::one };
 			}
 			else if constexpr (delta_requires_promotion)
 			{
@@ -2036,8 +2036,7 @@ namespace muu
 		{
 			if constexpr (Dimensions == 1)
 			{
-				MUU_UNUSED(v);
-				return vector{ scalar_constants::one };
+				return vector{ v.x < scalar_type{} ? -scalar_constants::one : scalar_constants::one };
 			}
 			else if constexpr (delta_requires_promotion)
 			{
@@ -2066,8 +2065,7 @@ namespace muu
 		{
 			if constexpr (Dimensions == 1)
 			{
-				MUU_UNUSED(v);
-				return vector{ scalar_constants::one };
+				return vector{ v.x < scalar_type{} ? -scalar_constants::one : scalar_constants::one };
 			}
 			else if constexpr (delta_requires_promotion)
 			{
-- 
2.43.0


From 2557fc98da4d5bf1b33658a3a30e1d15b909543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:57 +0000
Subject: [PATCH 060/103] fix: make matrix::determinant() callable on const
 matrices

---
 include/muu/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index c292ef0..472fd22 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -2756,7 +2756,7 @@ namespace muu
 		///					and has at most 4 rows and columns.
 		MUU_HIDDEN_CONSTRAINT(R == C && C <= 4, size_t R = Rows, size_t C = Columns)
 		MUU_PURE_GETTER
-		constexpr determinant_type determinant() noexcept
+		constexpr determinant_type determinant() const noexcept
 		{
 			return determinant(*this);
 		}
-- 
2.43.0


From 6493d64013aee9bce336c9b22ee596b1cedf538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:57 +0000
Subject: [PATCH 061/103] fix: perspective_projection(screen_size) ignored the
 requested math API

---
 include/muu/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index 472fd22..c844236 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -1015,7 +1015,7 @@ namespace muu::impl
 																			   T near_clip,
 																			   T far_clip) noexcept
 		{
-			return perspective_projection(vertical_fov, screen_size.x / screen_size.y, near_clip, far_clip);
+			return perspective_projection<Mode>(vertical_fov, screen_size.x / screen_size.y, near_clip, far_clip);
 		}
 	};
 
-- 
2.43.0


From d8487bbe3e0e3e64886c97ed4e50bf5cde5baefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:57 +0000
Subject: [PATCH 062/103] fix: depth terms of the left-handed perspective
 projections

---
 include/muu/matrix.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index c844236..7bdaa3d 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -942,11 +942,10 @@ namespace muu::impl
 
 			if constexpr (!!(Mode & math_apis::opengl))
 			{
-				const auto c = -(far_clip + near_clip) / (far_clip - near_clip);
-
 				if constexpr (!!(Mode & math_apis::left_handed))
 				{
-					const auto e = (T{ 2 } * far_clip * near_clip) / (far_clip - near_clip);
+					const auto c = (far_clip + near_clip) / (far_clip - near_clip);
+					const auto e = (T{ -2 } * far_clip * near_clip) / (far_clip - near_clip);
 
 					// clang-format off
 					return
@@ -960,6 +959,7 @@ namespace muu::impl
 				}
 				else // right-handed
 				{
+					const auto c = -(far_clip + near_clip) / (far_clip - near_clip);
 					const auto e = (T{ -2 } * far_clip * near_clip) / (far_clip - near_clip);
 
 					// clang-format off
@@ -975,10 +975,9 @@ namespace muu::impl
 			}
 			else // directx
 			{
-				const auto c = far_clip / (near_clip - far_clip);
-
 				if constexpr (!!(Mode & math_apis::left_handed))
 				{
+					const auto c = far_clip / (far_clip - near_clip);
 					const auto e = -near_clip * far_clip / (far_clip - near_clip);
 
 					// clang-format off
@@ -993,6 +992,7 @@ namespace muu::impl
 				}
 				else // right-handed
 				{
+					const auto c = far_clip / (near_clip - far_clip);
 					const auto e = near_clip * far_clip / (near_clip - far_clip);
 
 					// clang-format off
-- 
2.43.0


From faabb791360aabcefcb3bf028dca633dd547488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:57 +0000
Subject: [PATCH 063/103] fix: invert() of 1x1 matrices did not compile

---
 include/muu/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index 7bdaa3d..0774b7e 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -2781,7 +2781,7 @@ namespace muu
 
 				if constexpr (Columns == 1)
 				{
-					return inverse_type{ column_type{ scalar_type{ 1 } / m.m[0].x } };
+					return inverse_type{ scalar_type{ 1 } / m.m[0].x };
 				}
 				if constexpr (Columns == 2)
 				{
-- 
2.43.0


From 233b8721e9644b7294644d79746f06c825606796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:16 +0000
Subject: [PATCH 064/103] fix: streaming an axis_angle did not compile

---
 include/muu/axis_angle.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/muu/axis_angle.h b/include/muu/axis_angle.h
index 2e8e43a..608d046 100644
--- a/include/muu/axis_angle.h
+++ b/include/muu/axis_angle.h
@@ -164,7 +164,9 @@ namespace muu
 		template <typename Char, typename Traits>
 		friend std::basic_ostream<Char, Traits>& operator<<(std::basic_ostream<Char, Traits>& os, const axis_angle& rot)
 		{
-			impl::print_compound_vector(os, &rot.axis.x, 3_sz, true, &rot.angle, 1_sz, false);
+			const impl::compound_vector_elem<Scalar> elems[]{ { &rot.axis.x, 3 }, //
+															  { &rot.angle, 1 } };
+			impl::print_compound_vector(os, elems);
 			return os;
 		}
 
-- 
2.43.0


From f7882c11a0d4281a1b91f0fc7b6882534f924124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:16 +0000
Subject: [PATCH 065/103] fix: quaternion::from_rotation() ignored the length
 of the destination vector

---
 include/muu/quaternion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/quaternion.h b/include/muu/quaternion.h
index f3ccdbe..535756d 100644
--- a/include/muu/quaternion.h
+++ b/include/muu/quaternion.h
@@ -813,7 +813,7 @@ namespace muu
 				MUU_FMA_BLOCK;
 
 				const auto k_cos_theta = vector_type::dot(from, to);
-				const auto k = muu::sqrt(vector_type::length_squared(from) * vector_type::length_squared(from));
+				const auto k = muu::sqrt(vector_type::length_squared(from) * vector_type::length_squared(to));
 
 				if (muu::approx_equal(k_cos_theta / k, scalar_type{ -1 }))
 				{
-- 
2.43.0


From 05d19657f6b840ea463f34edd101f3011a103614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:16 +0000
Subject: [PATCH 066/103] fix: euler angles were composed about the fixed axes
 instead of the local ones

---
 include/muu/quaternion.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/muu/quaternion.h b/include/muu/quaternion.h
index 535756d..f45cf8f 100644
--- a/include/muu/quaternion.h
+++ b/include/muu/quaternion.h
@@ -716,10 +716,10 @@ namespace muu
 				const auto s3 = muu::sin(roll * scalar_constants::one_over_two);
 
 				return {
-					c1 * c2 * c3 - s1 * s2 * s3, // scalar
-					s1 * c2 * c3 - c1 * s2 * s3, // vector (x)
-					c1 * s2 * c3 + s1 * c2 * s3, // vector (y)
-					c1 * c2 * s3 + s1 * s2 * c3	 // vector (z)
+					c1 * c2 * c3 + s1 * s2 * s3, // scalar
+					s1 * c2 * c3 + c1 * s2 * s3, // vector (x)
+					c1 * s2 * c3 - s1 * c2 * s3, // vector (y)
+					c1 * c2 * s3 - s1 * s2 * c3	 // vector (z)
 				};
 			}
 		}
@@ -751,7 +751,7 @@ namespace muu
 				const auto sqx		  = q.v.x * q.v.x;
 				const auto sqy		  = q.v.y * q.v.y;
 				const auto sqz		  = q.v.z * q.v.z;
-				const auto test		  = q.v.y * q.v.z + q.s * q.v.x;
+				const auto test		  = q.s * q.v.x - q.v.y * q.v.z;
 				const auto correction = sqx + sqy + sqz + sqw;
 
 				// https://www.euclideanspace.com/maths/geometry/rotations/conversions/quaternionToEuler/index.htm
@@ -762,7 +762,7 @@ namespace muu
 				// singularity at north pole
 				if MUU_UNLIKELY(test > threshold * correction)
 				{
-					return { scalar_type{ -2 } * muu::atan2(q.v.z, q.s),
+					return { scalar_type{ 2 } * muu::atan2(q.v.z, q.s),
 							 scalar_constants::pi_over_two,
 							 scalar_constants::zero };
 				}
@@ -770,7 +770,7 @@ namespace muu
 				// singularity at south pole
 				else if MUU_UNLIKELY(test < -threshold * correction)
 				{
-					return { scalar_type{ 2 } * muu::atan2(q.v.z, q.s),
+					return { scalar_type{ -2 } * muu::atan2(q.v.z, q.s),
 							 -scalar_constants::pi_over_two,
 							 scalar_constants::zero };
 				}
@@ -780,9 +780,9 @@ namespace muu
 					// note the sign of yaw and roll are flipped;
 					// see from_euler() for an explanation
 
-					return { -muu::atan2(scalar_type{ -2 } * (q.v.x * q.v.z - q.s * q.v.y), sqw - sqx - sqy + sqz),
+					return { -muu::atan2(scalar_type{ 2 } * (q.v.x * q.v.z + q.s * q.v.y), sqw - sqx - sqy + sqz),
 							 muu::asin(scalar_type{ 2 } * test / correction),
-							 -muu::atan2(scalar_type{ -2 } * (q.v.x * q.v.y - q.s * q.v.z), sqw - sqx + sqy - sqz) };
+							 -muu::atan2(scalar_type{ 2 } * (q.v.x * q.v.y + q.s * q.v.z), sqw - sqx + sqy - sqz) };
 				}
 			}
 		}
-- 
2.43.0


From d27dc166fdeb63b4f354fd235517a4ee183ca1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:16 +0000
Subject: [PATCH 067/103] fix: bounding_sphere::contains(bounding_sphere)
 accepted spheres protruding from the outer one

---
 include/muu/bounding_sphere.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 2eaea6b..23e8322 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -618,14 +618,11 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL contains(MUU_VPARAM(bounding_sphere) outer,
 													  MUU_VPARAM(bounding_sphere) inner) noexcept
 		{
-			const auto dist_squared		 = vector_type::distance_squared(outer.center, inner.center);
-			const auto outer_rad_squared = outer.radius * outer.radius;
-			const auto inner_rad_squared = inner.radius * inner.radius;
-
-			if (dist_squared > (outer_rad_squared + inner_rad_squared))
+			const auto rad_diff = outer.radius - inner.radius;
+			if (rad_diff < scalar_type{})
 				return false;
 
-			return outer_rad_squared >= dist_squared + inner_rad_squared;
+			return vector_type::distance_squared(outer.center, inner.center) <= rad_diff * rad_diff;
 		}
 
 		/// \brief	Returns true if the bounding sphere contains all the points of another bounding sphere.
-- 
2.43.0


From c598327d07529087924a1988e11ce6af0b482ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:16 +0000
Subject: [PATCH 068/103] fix: triangle::contains() accepted points beyond the
 ends of an edge

---
 include/muu/impl/geometry_common.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index ce14eae..dea9712 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -423,7 +423,9 @@ namespace muu::impl
 			const auto v = vector_type::cross(c, a);
 			const auto w = vector_type::cross(a, b);
 
-			return vector_type::dot(u, v) >= scalar_type{} && vector_type::dot(u, w) >= scalar_type{};
+			return vector_type::dot(u, v) >= scalar_type{}	 //
+				&& vector_type::dot(u, w) >= scalar_type{} //
+				&& vector_type::dot(v, w) >= scalar_type{};
 		}
 
 		MUU_PURE_GETTER
-- 
2.43.0


From f136266de46e929994ab7f5f51a7948a0737264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:16 +0000
Subject: [PATCH 069/103] fix: line_segment::coplanar() rejected segments
 starting on the line of the other one

---
 include/muu/line_segment.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/muu/line_segment.h b/include/muu/line_segment.h
index a45ca5f..2435b72 100644
--- a/include/muu/line_segment.h
+++ b/include/muu/line_segment.h
@@ -537,6 +537,10 @@ namespace muu
 													  MUU_VPARAM(line_segment) seg2,
 													  scalar_type epsilon = default_epsilon<scalar_type>) noexcept
 		{
+			// a line and a point not on it define a plane; with a point on it any other point is coplanar
+			if (colinear(seg1, seg2.points[0], epsilon))
+				return true;
+
 			const auto n = triangles::normal(seg1.points[0], seg1.points[1], seg2.points[0]);
 			return planes::contains_point(n, planes::d_term(seg1.points[0], n), seg2.points[1], epsilon);
 		}
-- 
2.43.0


From d7a84582515e9e0a68427df756ca4d068895f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:16 +0000
Subject: [PATCH 070/103] fix: plane x line_segment intersection test was
 inverted

---
 include/muu/impl/geometry_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index dea9712..869d03f 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -152,7 +152,7 @@ namespace muu::impl
 																	 vector_param start,
 																	 vector_param end) noexcept
 		{
-			return signed_distance(normal, d, start) * signed_distance(normal, d, end) >= scalar_type{};
+			return signed_distance(normal, d, start) * signed_distance(normal, d, end) <= scalar_type{};
 		}
 	};
 }
-- 
2.43.0


From 998c075efbf61a80960998ba7324644a2d84b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:16 +0000
Subject: [PATCH 071/103] fix: bounding_sphere x bounding_sphere missed
 intersecting spheres

---
 include/muu/bounding_sphere.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 23e8322..00d7ce0 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -637,8 +637,8 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL intersects(MUU_VPARAM(bounding_sphere) bs1,
 														MUU_VPARAM(bounding_sphere) bs2) noexcept
 		{
-			return vector_type::distance_squared(bs1.center, bs2.center)
-				<= ((bs1.radius * bs1.radius) + (bs2.radius * bs2.radius));
+			const auto rad_sum = bs1.radius + bs2.radius;
+			return vector_type::distance_squared(bs1.center, bs2.center) <= rad_sum * rad_sum;
 		}
 
 		/// \brief	Returns true if two bounding spheres intersect.
@@ -787,13 +787,15 @@ namespace muu
 		MUU_PURE_INLINE_GETTER
 		constexpr bool MUU_VECTORCALL operator()(MUU_VPARAM(sphere_type) bs) const noexcept
 		{
-			return vector_type::distance_squared(center, bs.center) <= (radius_squared + bs.radius * bs.radius);
+			const auto rad_sum = radius + bs.radius;
+			return vector_type::distance_squared(center, bs.center) <= rad_sum * rad_sum;
 		}
 
 		MUU_PURE_INLINE_GETTER
 		constexpr bool MUU_VECTORCALL operator()(const collision_tester& tester) const noexcept
 		{
-			return vector_type::distance_squared(center, tester.center) <= (radius_squared + tester.radius_squared);
+			const auto rad_sum = radius + tester.radius;
+			return vector_type::distance_squared(center, tester.center) <= rad_sum * rad_sum;
 		}
 
 		MUU_PURE_GETTER
-- 
2.43.0


From b6ed11fd6091470eb9d5367bed30bca7fd6fc085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:16 +0000
Subject: [PATCH 072/103] fix: bounding_sphere x triangle did not compile where
 vectors are passed by reference

---
 include/muu/bounding_sphere.h | 40 +++++++++++++++++------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 00d7ce0..cee727b 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -551,43 +551,43 @@ namespace muu
 		{
 			// https://realtimecollisiondetection.net/blog/?p=103
 
-			p0 -= bs.center;
-			p1 -= bs.center;
-			p2 -= bs.center;
+			const auto A  = p0 - bs.center;
+			const auto B  = p1 - bs.center;
+			const auto C  = p2 - bs.center;
 			const auto rr = bs.radius * bs.radius;
-			const auto V  = vector_type::cross(p1 - p0, p2 - p0);
-			const auto d  = vector_type::dot(p0, V);
+			const auto V  = vector_type::cross(B - A, C - A);
+			const auto d  = vector_type::dot(A, V);
 			const auto e  = vector_type::dot(V, V);
 			if (d * d > rr * e)
 				return false;
 
-			const auto aa	= vector_type::dot(p0, p0);
-			const auto ab	= vector_type::dot(p0, p1);
-			const auto ac	= vector_type::dot(p0, p2);
-			const auto bb	= vector_type::dot(p1, p1);
-			const auto bc	= vector_type::dot(p1, p2);
-			const auto cc	= vector_type::dot(p2, p2);
+			const auto aa	= vector_type::dot(A, A);
+			const auto ab	= vector_type::dot(A, B);
+			const auto ac	= vector_type::dot(A, C);
+			const auto bb	= vector_type::dot(B, B);
+			const auto bc	= vector_type::dot(B, C);
+			const auto cc	= vector_type::dot(C, C);
 			const auto sep2 = (aa > rr) && (ab > aa) && (ac > aa);
 			const auto sep3 = (bb > rr) && (ab > bb) && (bc > bb);
 			const auto sep4 = (cc > rr) && (ac > cc) && (bc > cc);
 			if (sep2 || sep3 || sep4)
 				return false;
 
-			const auto AB	= p1 - p0;
-			const auto BC	= p2 - p1;
-			const auto CA	= p0 - p2;
+			const auto AB	= B - A;
+			const auto BC	= C - B;
+			const auto CA	= A - C;
 			const auto d1	= ab - aa;
 			const auto d2	= bc - bb;
 			const auto d3	= ac - cc;
 			const auto e1	= vector_type::dot(AB, AB);
 			const auto e2	= vector_type::dot(BC, BC);
 			const auto e3	= vector_type::dot(CA, CA);
-			const auto Q1	= p0 * e1 - d1 * AB;
-			const auto Q2	= p1 * e2 - d2 * BC;
-			const auto Q3	= p2 * e3 - d3 * CA;
-			const auto QC	= p2 * e1 - Q1;
-			const auto QA	= p0 * e2 - Q2;
-			const auto QB	= p1 * e3 - Q3;
+			const auto Q1	= A * e1 - d1 * AB;
+			const auto Q2	= B * e2 - d2 * BC;
+			const auto Q3	= C * e3 - d3 * CA;
+			const auto QC	= C * e1 - Q1;
+			const auto QA	= A * e2 - Q2;
+			const auto QB	= B * e3 - Q3;
 			const auto sep5 = (vector_type::dot(Q1, Q1) > rr * e1 * e1) && (vector_type::dot(Q1, QC) > scalar_type{});
 			const auto sep6 = (vector_type::dot(Q2, Q2) > rr * e2 * e2) && (vector_type::dot(Q2, QA) > scalar_type{});
 			const auto sep7 = (vector_type::dot(Q3, Q3) > rr * e3 * e3) && (vector_type::dot(Q3, QB) > scalar_type{});
-- 
2.43.0


From 2a7a024ec8ab2431ceee8930eba5799dbd505c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:16 +0000
Subject: [PATCH 073/103] fix: oriented_bounding_box intersection tests ignored
 the edge cross products, reporting disjoint boxes as intersecting

---
 .../bounding_box_x_oriented_bounding_box.h    | 19 +++++++++++++++++++
 include/muu/oriented_bounding_box.h           | 16 ++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/include/muu/impl/bounding_box_x_oriented_bounding_box.h b/include/muu/impl/bounding_box_x_oriented_bounding_box.h
index 6a0f279..ddfc170 100644
--- a/include/muu/impl/bounding_box_x_oriented_bounding_box.h
+++ b/include/muu/impl/bounding_box_x_oriented_bounding_box.h
@@ -99,6 +99,25 @@ namespace muu
 				return false;
 		}
 
+		// test edge cross products
+		for (size_t i = 0; i < 3; i++)
+		{
+			const auto test_edge = [&](auto idx) noexcept -> bool
+			{
+				constexpr auto axis_index = remove_cvref<decltype(idx)>::value;
+
+				const auto axis = vector_type::cross(obb.axes.m[i], index_tag<axis_index>{});
+
+				sat_tester aabb_sat{ axis, aabb_corners };
+				sat_tester obb_sat{ axis, obb_corners };
+
+				return aabb_sat(obb_sat);
+			};
+
+			if (!test_edge(x_axis_tag{}) || !test_edge(y_axis_tag{}) || !test_edge(z_axis_tag{}))
+				return false;
+		}
+
 		return true;
 	}
 }
diff --git a/include/muu/oriented_bounding_box.h b/include/muu/oriented_bounding_box.h
index 95b5764..c1e47ab 100644
--- a/include/muu/oriented_bounding_box.h
+++ b/include/muu/oriented_bounding_box.h
@@ -901,6 +901,22 @@ namespace muu
 						return false;
 				}
 			}
+
+			// test edge cross products
+			for (size_t i = 0; i < 3; i++)
+			{
+				for (size_t j = 0; j < 3; j++)
+				{
+					const auto axis = vector_type::cross(bb1.axes.m[i], bb2.axes.m[j]);
+
+					sat_tester tester1{ axis, corners1 };
+					sat_tester tester2{ axis, corners2 };
+
+					if (!tester1(tester2))
+						return false;
+				}
+			}
+
 			return true;
 		}
 
-- 
2.43.0


From ec083b87cc9d1f4147b2742e7a2daeaebf8773ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:05 +0000
Subject: [PATCH 074/103] fix: ray x triangle reported hits behind the ray

---
 include/muu/impl/geometry_common.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index 869d03f..945c4fa 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -1056,7 +1056,11 @@ namespace muu::impl
 			if (v < scalar_type{} || u + v > scalar_type{ 1 })
 				return {};
 
-			return vector_type::dot(v0v2, qvec) * invDet;
+			const auto hit_distance = vector_type::dot(v0v2, qvec) * invDet;
+			if (hit_distance < scalar_type{})
+				return {};
+
+			return hit_distance;
 		}
 
 		MUU_PURE_GETTER
-- 
2.43.0


From 3a6b2d60cc8643731221f7a11b67c2a249bbda4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:05 +0000
Subject: [PATCH 075/103] fix: ray x bounding_sphere missed spheres around the
 ray origin and could return NaN

---
 include/muu/impl/geometry_common.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index 945c4fa..8c1ab3a 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -1074,20 +1074,20 @@ namespace muu::impl
 			const vector_type e = sphere_center - ray_origin;
 			const scalar_type a = vector_type::dot(e, ray_direction);
 
-			// ray points in the wrong direction
-			if (a < scalar_type{})
-				return {};
-
 			const scalar_type e2 = vector_type::length_squared(e);
 			const scalar_type r2 = sphere_radius * sphere_radius;
 			const scalar_type a2 = a * a;
 
+			// ray starts outside the sphere and points in the wrong direction
+			if (a < scalar_type{} && e2 >= r2)
+				return {};
+
 			// no collision
-			if (r2 - e2 + a2 < default_epsilon<scalar_type>)
+			const scalar_type f2 = r2 - e2 + a2;
+			if (f2 < default_epsilon<scalar_type>)
 				return {};
 
-			const scalar_type b = muu::sqrt(e2 - a2);
-			const scalar_type f = muu::sqrt(r2 - (b * b));
+			const scalar_type f = muu::sqrt(f2);
 
 			// ray inside sphere
 			if (e2 < r2)
-- 
2.43.0


From 0392e74c84195be0db1160e7a0ca79dc002b0cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:05 +0000
Subject: [PATCH 076/103] fix: ray x bounding_box returned NaN or wrong hits
 for rays along a face of the box

---
 include/muu/impl/geometry_common.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index 8c1ab3a..37f2590 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -1105,14 +1105,24 @@ namespace muu::impl
 		{
 			MUU_FMA_BLOCK;
 
-			const auto t1	= (box_min.x - ray_origin.x) / ray_direction.x;
-			const auto t2	= (box_max.x - ray_origin.x) / ray_direction.x;
-			const auto t3	= (box_min.y - ray_origin.y) / ray_direction.y;
-			const auto t4	= (box_max.y - ray_origin.y) / ray_direction.y;
-			const auto t5	= (box_min.z - ray_origin.z) / ray_direction.z;
-			const auto t6	= (box_max.z - ray_origin.z) / ray_direction.z;
-			const auto tmin = muu::max(muu::min(t1, t2), muu::min(t3, t4), muu::min(t5, t6));
-			const auto tmax = muu::min(muu::max(t1, t2), muu::max(t3, t4), muu::max(t5, t6));
+			scalar_type tmin = constants<scalar_type>::lowest;
+			scalar_type tmax = constants<scalar_type>::highest;
+			for (size_t i = 0; i < 3; i++)
+			{
+				// ray is parallel to the slab
+				if (ray_direction[i] == scalar_type{})
+				{
+					if (ray_origin[i] < box_min[i] || ray_origin[i] > box_max[i])
+						return {};
+					continue;
+				}
+
+				const scalar_type t1 = (box_min[i] - ray_origin[i]) / ray_direction[i];
+				const scalar_type t2 = (box_max[i] - ray_origin[i]) / ray_direction[i];
+
+				tmin = muu::max(tmin, muu::min(t1, t2));
+				tmax = muu::min(tmax, muu::max(t1, t2));
+			}
 
 			if (tmax < scalar_type{} || tmin > tmax)
 				return {};
-- 
2.43.0


From 8188dbada6e7db64ed74a500aa95a5a673e1677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:12 +0000
Subject: [PATCH 077/103] fix: bounding_sphere::volume() (and mass() and
 density()) used 4/(3*pi) instead of 4*pi/3

---
 include/muu/impl/geometry_common.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index 37f2590..2f1bd06 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -473,7 +473,8 @@ namespace muu::impl
 		MUU_PURE_GETTER
 		static constexpr scalar_type MUU_VECTORCALL volume(scalar_type radius) noexcept
 		{
-			return constants<scalar_type>::four_over_three_pi * radius * radius * radius;
+			return static_cast<scalar_type>(4) * constants<scalar_type>::pi * radius * radius * radius
+				 / static_cast<scalar_type>(3);
 		}
 	};
 }
-- 
2.43.0


From 4973f94b2ab5ca26a67e00350b4a321b81b8f651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:12 +0000
Subject: [PATCH 078/103] fix: bounding_sphere::closest_point() returned an
 offset from the center instead of a point

---
 include/muu/bounding_sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index cee727b..cb9be9c 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -436,7 +436,7 @@ namespace muu
 			if (dist_squared <= base::radius * base::radius)
 				return point;
 
-			return vector_type::normalize_lensq(delta, dist_squared) * base::radius;
+			return base::center + vector_type::normalize_lensq(delta, dist_squared) * base::radius;
 		}
 
 				/// @}
-- 
2.43.0


From 0f54dd4feb76d64e7201aa93be0bf8b8550ee0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:12 +0000
Subject: [PATCH 079/103] fix: triangle::area() returned NaN for degenerate
 triangles

---
 include/muu/impl/geometry_common.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index 2f1bd06..fee2287 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -316,13 +316,7 @@ namespace muu::impl
 		MUU_PURE_GETTER
 		static constexpr scalar_type MUU_VECTORCALL area(vector_param p0, vector_param p1, vector_param p2) noexcept
 		{
-			MUU_FMA_BLOCK;
-
-			const auto a = vector_type::distance(p0, p1);
-			const auto b = vector_type::distance(p1, p2);
-			const auto c = vector_type::distance(p2, p0);
-			const auto s = (a + b + c) / scalar_type{ 2 };
-			return muu::sqrt(s * (s - a) * (s - b) * (s - c)); // heron's formula
+			return vector_type::length(vector_type::cross(p1 - p0, p2 - p0)) / scalar_type{ 2 };
 		}
 
 		MUU_PURE_GETTER
-- 
2.43.0


From d9010676f33b2812dfdd5781e172778e34c77f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:12 +0000
Subject: [PATCH 080/103] fix: line_segment<half>::midpoint() did not compile

---
 include/muu/line_segment.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/line_segment.h b/include/muu/line_segment.h
index 2435b72..590163f 100644
--- a/include/muu/line_segment.h
+++ b/include/muu/line_segment.h
@@ -240,8 +240,8 @@ namespace muu
 		static constexpr vector_type MUU_VECTORCALL midpoint(MUU_VPARAM(line_segment) seg) noexcept
 		{
 			if constexpr (is_small_float)
-				return vector_type{ line_segment<promoted_scalar>::midpoint(promoted_vec{ seg.points[0] },
-																			promoted_vec{ seg.points[1] }) };
+				return vector_type{ (promoted_vec{ seg.points[0] } + promoted_vec{ seg.points[1] })
+									/ promoted_scalar{ 2 } };
 			else
 				return (seg.points[0] + seg.points[1]) / scalar_type{ 2 };
 		}
-- 
2.43.0


From c6b92b847f7c96cc1b3eb2bec1efcac3dbc83408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:12 +0000
Subject: [PATCH 081/103] fix: oriented_bounding_box::transform() returned NaN
 axes for boxes with a zero extent

---
 include/muu/oriented_bounding_box.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/muu/oriented_bounding_box.h b/include/muu/oriented_bounding_box.h
index c1e47ab..6e710d9 100644
--- a/include/muu/oriented_bounding_box.h
+++ b/include/muu/oriented_bounding_box.h
@@ -653,14 +653,14 @@ namespace muu
 				oriented_bounding_box out{ tx * bb.center, vector_type{} };
 
 				out.axes.x_column() =
-					vector_type::normalize(tx * (bb.center + bb.axes.x_column() * bb.extents.x) - out.center,
-										   out.extents.x);
+					vector_type::normalize(tx * (bb.center + bb.axes.x_column()) - out.center, out.extents.x);
 				out.axes.y_column() =
-					vector_type::normalize(tx * (bb.center + bb.axes.y_column() * bb.extents.y) - out.center,
-										   out.extents.y);
+					vector_type::normalize(tx * (bb.center + bb.axes.y_column()) - out.center, out.extents.y);
 				out.axes.z_column() =
-					vector_type::normalize(tx * (bb.center + bb.axes.z_column() * bb.extents.z) - out.center,
-										   out.extents.z);
+					vector_type::normalize(tx * (bb.center + bb.axes.z_column()) - out.center, out.extents.z);
+
+				// the axes are transformed separately from their extents so that boxes without thickness keep valid axes
+				out.extents *= bb.extents;
 
 				return out;
 			}
-- 
2.43.0


From ed53a8d8c52ad695572901f25f20c30c238d6118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:14 +0000
Subject: [PATCH 082/103] fix: bounding_sphere::approx_zero() did not compile

---
 include/muu/bounding_sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index cb9be9c..e4dbb1c 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -333,7 +333,7 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL approx_zero(MUU_VPARAM(bounding_sphere) bs,
 														 scalar_type epsilon = default_epsilon<scalar_type>) noexcept
 		{
-			return vector_type::approx_zero(bs.center, epsilon) && vector_type::approx_zero(bs.radius, epsilon);
+			return vector_type::approx_zero(bs.center, epsilon) && muu::approx_zero(bs.radius, epsilon);
 		}
 
 		/// \brief	Returns true if all the scalar components in the bounding sphere are approximately equal to zero.
-- 
2.43.0


From 383b28567b549b01c191ba74fda28bc6c16e67bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:14 +0000
Subject: [PATCH 083/103] fix: ray::infinity_or_nan() was false when only one
 of origin and direction was infinity or NaN

---
 include/muu/ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/ray.h b/include/muu/ray.h
index c685661..ff772d1 100644
--- a/include/muu/ray.h
+++ b/include/muu/ray.h
@@ -155,7 +155,7 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL infinity_or_nan(MUU_VPARAM(ray) r) noexcept
 		{
 			return vector_type::infinity_or_nan(r.origin) //
-				&& vector_type::infinity_or_nan(r.direction);
+				|| vector_type::infinity_or_nan(r.direction);
 		}
 
 		/// \brief	Returns true if any of the scalars in the ray are infinity or NaN.
-- 
2.43.0


From bf252295269a219a030b6c96e23d7cb5602db60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:14 +0000
Subject: [PATCH 084/103] fix: constants<oriented_bounding_box>::zero was not
 all zeros as documented (and as zero() requires)

---
 include/muu/oriented_bounding_box.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/muu/oriented_bounding_box.h b/include/muu/oriented_bounding_box.h
index 6e710d9..e204240 100644
--- a/include/muu/oriented_bounding_box.h
+++ b/include/muu/oriented_bounding_box.h
@@ -997,7 +997,9 @@ namespace muu
 		using vectors = constants<vector<Scalar, 3>>;
 
 		/// \brief An oriented bounding box with all members initialized to zero.
-		static constexpr oriented_bounding_box<Scalar> zero = { vectors::zero, vectors::zero };
+		static constexpr oriented_bounding_box<Scalar> zero = { vectors::zero,
+																vectors::zero,
+																constants<matrix<Scalar, 3, 3>>::zero };
 
 		/// \brief A oriented bounding box centered at the origin with sides of length 1.
 		static constexpr oriented_bounding_box<Scalar> unit = { vectors::zero, vectors::one_over_two };
-- 
2.43.0


From 59dfbc06818560f522c659d71670a68708d0af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:14 +0000
Subject: [PATCH 085/103] fix: plane and bounding_sphere approx_equal() did not
 compile for some pairs of scalar types

---
 include/muu/bounding_sphere.h | 4 +++-
 include/muu/plane.h           | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index e4dbb1c..e633b36 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -315,7 +315,9 @@ namespace muu
 			epsilon_type<scalar_type, T> epsilon = default_epsilon<scalar_type, T>) noexcept
 		{
 			return vector_type::approx_equal(bs1.center, bs2.center, epsilon)
-				&& muu::approx_equal(bs1.radius, bs2.radius, epsilon);
+				&& muu::approx_equal(static_cast<epsilon_type<scalar_type, T>>(bs1.radius),
+									 static_cast<epsilon_type<scalar_type, T>>(bs2.radius),
+									 epsilon);
 		}
 
 		/// \brief	Returns true if the bounding sphere is approximately equal to another.
diff --git a/include/muu/plane.h b/include/muu/plane.h
index 017d620..dee1349 100644
--- a/include/muu/plane.h
+++ b/include/muu/plane.h
@@ -244,7 +244,9 @@ namespace muu
 			const plane<T>& p2,
 			epsilon_type<scalar_type, T> epsilon = default_epsilon<scalar_type, T>) noexcept
 		{
-			return vector_type::approx_equal(p1.normal, p2.normal, epsilon) && muu::approx_equal(p1.d, p2.d, epsilon);
+			return vector_type::approx_equal(p1.normal, p2.normal, epsilon) && muu::approx_equal(static_cast<epsilon_type<scalar_type, T>>(p1.d),
+									  static_cast<epsilon_type<scalar_type, T>>(p2.d),
+									  epsilon);
 		}
 
 		/// \brief	Returns true if the plane is approximately equal to another.
-- 
2.43.0


From e4e3ee76be1825e3d998e16cd83ecb84a2098c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:55 +0000
Subject: [PATCH 086/103] fix: strong_typedef<bool> with the boolean trait was
 not usable as a bool when const (ambiguous conversion)

---
 include/muu/strong_typedef.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/muu/strong_typedef.h b/include/muu/strong_typedef.h
index a148647..5328cbf 100644
--- a/include/muu/strong_typedef.h
+++ b/include/muu/strong_typedef.h
@@ -274,7 +274,10 @@ namespace muu
 
 		//--- boolean conversion -------------------
 
-		template <typename T, bool = is_convertible<stypedef_const_lvalue<T>, bool>, bool = stypedef_pure_ops<T>>
+		// (a bool is already reachable via the explicit reference conversions; a second route would be ambiguous)
+		template <typename T,
+				  bool = is_convertible<stypedef_const_lvalue<T>, bool> && !std::is_same_v<remove_cvref<stypedef_value<T>>, bool>,
+				  bool = stypedef_pure_ops<T>>
 		struct stypedef_boolean_conversion
 		{};
 
-- 
2.43.0


From 97135c7e12df75af318cbc068aba3cad8f8769e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:55 +0000
Subject: [PATCH 087/103] fix: strong_typedefs of types smaller than int could
 not be added, subtracted or negated (narrowing)

---
 include/muu/strong_typedef.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/muu/strong_typedef.h b/include/muu/strong_typedef.h
index 5328cbf..cbd2300 100644
--- a/include/muu/strong_typedef.h
+++ b/include/muu/strong_typedef.h
@@ -556,7 +556,7 @@ namespace muu
 			friend constexpr T operator+(const T& lhs, const T& rhs) //
 				noexcept(noexcept(std::declval<stypedef_const_lvalue<T>>() + std::declval<stypedef_const_lvalue<T>>()))
 			{
-				return T{ lhs.value + rhs.value };
+				return T{ static_cast<stypedef_value<T>>(lhs.value + rhs.value) };
 			}
 		};
 
@@ -583,7 +583,7 @@ namespace muu
 			friend constexpr T operator+(const T& lhs) //
 				noexcept(noexcept(+std::declval<stypedef_const_lvalue<T>>()))
 			{
-				return T{ +lhs.value };
+				return T{ static_cast<stypedef_value<T>>(+lhs.value) };
 			}
 		};
 
@@ -618,7 +618,7 @@ namespace muu
 			friend constexpr T operator-(const T& lhs, const T& rhs) //
 				noexcept(noexcept(std::declval<stypedef_const_lvalue<T>>() - std::declval<stypedef_const_lvalue<T>>()))
 			{
-				return T{ lhs.value - rhs.value };
+				return T{ static_cast<stypedef_value<T>>(lhs.value - rhs.value) };
 			}
 		};
 
@@ -645,7 +645,7 @@ namespace muu
 			friend constexpr T operator-(const T& lhs) //
 				noexcept(noexcept(-std::declval<stypedef_const_lvalue<T>>()))
 			{
-				return T{ -lhs.value };
+				return T{ static_cast<stypedef_value<T>>(-lhs.value) };
 			}
 		};
 
-- 
2.43.0


From aa4517ba6d4e606c2339924e23e8f99958f51248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:55 +0000
Subject: [PATCH 088/103] fix: strong_typedefs of strong_typedefs took the
 innermost type for their value type

---
 include/muu/strong_typedef.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/muu/strong_typedef.h b/include/muu/strong_typedef.h
index cbd2300..4ea9cb0 100644
--- a/include/muu/strong_typedef.h
+++ b/include/muu/strong_typedef.h
@@ -19,15 +19,19 @@ namespace muu
 	namespace impl
 	{
 		template <typename ValueType>
-		struct stypedef_value_typedefs
+		struct stypedef_value_typedefs_
 		{
 			using value_type		= ValueType;
 			using lvalue_type		= std::add_lvalue_reference_t<std::remove_reference_t<ValueType>>;
 			using const_lvalue_type = std::add_lvalue_reference_t<std::add_const_t<std::remove_reference_t<ValueType>>>;
 		};
 
+		template <typename ValueType>
+		struct stypedef_value_typedefs : stypedef_value_typedefs_<ValueType>
+		{};
+
 		template <typename ValueType, typename Tag, template <typename> typename... Traits>
-		struct stypedef_value_typedefs<strong_typedef<ValueType, Tag, Traits...>> : stypedef_value_typedefs<ValueType>
+		struct stypedef_value_typedefs<strong_typedef<ValueType, Tag, Traits...>> : stypedef_value_typedefs_<ValueType>
 		{};
 
 		template <typename T>
-- 
2.43.0


From 1e8b187b7ef0604331efa887f3d3b96784652092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:55 +0000
Subject: [PATCH 089/103] fix: type_name of templates with one to three type
 parameters was ambiguous and did not compile

---
 include/muu/type_name.h | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/muu/type_name.h b/include/muu/type_name.h
index 43b20b1..41e39f2 100644
--- a/include/muu/type_name.h
+++ b/include/muu/type_name.h
@@ -485,26 +485,26 @@ namespace muu
 
 		// one type then one or more NTTPs
 
-		template <template <typename, auto...> typename T, typename U, auto... N>
-		struct type_name_<T<U, N...>>
+		template <template <typename, auto...> typename T, typename U, auto N0, auto... N>
+		struct type_name_<T<U, N0, N...>>
 		{
 			static constexpr std::string_view base =
-				type_name_trim_right_from_last(type_name_source_string<T<U, N...>>(), '<');
+				type_name_trim_right_from_last(type_name_source_string<T<U, N0, N...>>(), '<');
 
 			static constexpr auto value = fixed_string<char, base.length()>{ base } + '<' + type_name<U>
-										+ fixed_string{ ", " } + type_name_nttp_list_<N...>::value + '>';
+										+ fixed_string{ ", " } + type_name_nttp_list_<N0, N...>::value + '>';
 		};
 
 		// two types then one or more NTTPs
 
-		template <template <typename, typename, auto...> typename T, typename U0, typename U1, auto... N>
-		struct type_name_<T<U0, U1, N...>>
+		template <template <typename, typename, auto...> typename T, typename U0, typename U1, auto N0, auto... N>
+		struct type_name_<T<U0, U1, N0, N...>>
 		{
 			static constexpr std::string_view base =
-				type_name_trim_right_from_last(type_name_source_string<T<U0, U1, N...>>(), '<');
+				type_name_trim_right_from_last(type_name_source_string<T<U0, U1, N0, N...>>(), '<');
 
 			static constexpr auto value = fixed_string<char, base.length()>{ base } + '<' + type_name_list<U0, U1>
-										+ fixed_string{ ", " } + type_name_nttp_list_<N...>::value + '>';
+										+ fixed_string{ ", " } + type_name_nttp_list_<N0, N...>::value + '>';
 		};
 
 		// three types then one or more NTTPs
@@ -513,14 +513,15 @@ namespace muu
 				  typename U0,
 				  typename U1,
 				  typename U2,
+				  auto N0,
 				  auto... N>
-		struct type_name_<T<U0, U1, U2, N...>>
+		struct type_name_<T<U0, U1, U2, N0, N...>>
 		{
 			static constexpr std::string_view base =
-				type_name_trim_right_from_last(type_name_source_string<T<U0, U1, U2, N...>>(), '<');
+				type_name_trim_right_from_last(type_name_source_string<T<U0, U1, U2, N0, N...>>(), '<');
 
 			static constexpr auto value = fixed_string<char, base.length()>{ base } + '<' + type_name_list<U0, U1, U2>
-										+ fixed_string{ ", " } + type_name_nttp_list_<N...>::value + '>';
+										+ fixed_string{ ", " } + type_name_nttp_list_<N0, N...>::value + '>';
 		};
 
 		// free/static functions
-- 
2.43.0


From ea33da0be73c068756bd5d2eb3a2eefa88509c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:55 +0000
Subject: [PATCH 090/103] fix: type_name of templates whose arguments are
 templates repeated the arguments in the name

---
 include/muu/type_name.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/muu/type_name.h b/include/muu/type_name.h
index 41e39f2..caebf7c 100644
--- a/include/muu/type_name.h
+++ b/include/muu/type_name.h
@@ -151,6 +151,21 @@ namespace muu
 			return src;
 		}
 
+		// removes the trailing template argument list (i.e. back to the '<' which matches the last '>')
+		MUU_CONSTEVAL
+		std::string_view type_name_trim_template_args(std::string_view src) noexcept
+		{
+			size_t depth = 0;
+			for (size_t i = type_name_rfind(src, '>') + 1_sz; i-- > 0_sz;)
+			{
+				if (src[i] == '>')
+					depth++;
+				else if (src[i] == '<' && --depth == 0_sz)
+					return src.substr(0_sz, i);
+			}
+			return src;
+		}
+
 		MUU_CONSTEVAL
 		std::string_view type_name_remove_prefixes(std::string_view src) noexcept
 		{
@@ -466,7 +481,7 @@ namespace muu
 		struct type_name_<T<U...>>
 		{
 			static constexpr std::string_view base =
-				type_name_trim_right_from_last(type_name_source_string<T<U...>>(), '<');
+				type_name_trim_template_args(type_name_source_string<T<U...>>());
 
 			static constexpr auto value = fixed_string<char, base.length()>{ base } + '<' + type_name_list<U...> + '>';
 		};
@@ -477,7 +492,7 @@ namespace muu
 		struct type_name_<T<N...>>
 		{
 			static constexpr std::string_view base =
-				type_name_trim_right_from_last(type_name_source_string<T<N...>>(), '<');
+				type_name_trim_template_args(type_name_source_string<T<N...>>());
 
 			static constexpr auto value =
 				fixed_string<char, base.length()>{ base } + '<' + type_name_nttp_list_<N...>::value + '>';
@@ -489,7 +504,7 @@ namespace muu
 		struct type_name_<T<U, N0, N...>>
 		{
 			static constexpr std::string_view base =
-				type_name_trim_right_from_last(type_name_source_string<T<U, N0, N...>>(), '<');
+				type_name_trim_template_args(type_name_source_string<T<U, N0, N...>>());
 
 			static constexpr auto value = fixed_string<char, base.length()>{ base } + '<' + type_name<U>
 										+ fixed_string{ ", " } + type_name_nttp_list_<N0, N...>::value + '>';
@@ -501,7 +516,7 @@ namespace muu
 		struct type_name_<T<U0, U1, N0, N...>>
 		{
 			static constexpr std::string_view base =
-				type_name_trim_right_from_last(type_name_source_string<T<U0, U1, N0, N...>>(), '<');
+				type_name_trim_template_args(type_name_source_string<T<U0, U1, N0, N...>>());
 
 			static constexpr auto value = fixed_string<char, base.length()>{ base } + '<' + type_name_list<U0, U1>
 										+ fixed_string{ ", " } + type_name_nttp_list_<N0, N...>::value + '>';
@@ -518,7 +533,7 @@ namespace muu
 		struct type_name_<T<U0, U1, U2, N0, N...>>
 		{
 			static constexpr std::string_view base =
-				type_name_trim_right_from_last(type_name_source_string<T<U0, U1, U2, N0, N...>>(), '<');
+				type_name_trim_template_args(type_name_source_string<T<U0, U1, U2, N0, N...>>());
 
 			static constexpr auto value = fixed_string<char, base.length()>{ base } + '<' + type_name_list<U0, U1, U2>
 										+ fixed_string{ ", " } + type_name_nttp_list_<N0, N...>::value + '>';
-- 
2.43.0


From 71c0f5db2cf17bb65a4535e8485720570996485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:55 +0000
Subject: [PATCH 091/103] fix: type_name of templates and arrays spelled a zero
 as a NUL, and bools and the least integers not at all

---
 include/muu/type_name.h | 67 ++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 35 deletions(-)

diff --git a/include/muu/type_name.h b/include/muu/type_name.h
index caebf7c..d7e6247 100644
--- a/include/muu/type_name.h
+++ b/include/muu/type_name.h
@@ -333,53 +333,50 @@ namespace muu
 		template <typename T>
 		constexpr size_t type_name_int_to_str_length(T n) noexcept
 		{
-			if (!n)
-				return 1_sz;
-			else
+			size_t len = 1_sz;
+			if constexpr (is_signed<T>)
 			{
-				size_t len{};
-				T val = n;
-				if constexpr (is_signed<T>)
-				{
-					if (val < T{})
-					{
-						val = -val;
-						len++;
-					}
-				}
-				while (val)
-				{
-					val /= T{ 10 };
+				if (n < T{})
 					len++;
-				}
-				return len;
 			}
+			for (T val = static_cast<T>(n / T{ 10 }); val; val = static_cast<T>(val / T{ 10 }))
+				len++;
+			return len;
 		}
 
 		template <auto N>
 		inline constexpr auto type_name_int_to_str = []() noexcept
 		{
-			using T = decltype(N);
-			fixed_string<char, type_name_int_to_str_length(N)> str{};
-
-			T val	 = N;
-			size_t i = type_name_int_to_str_length(N) - 1_sz;
-			if constexpr (is_signed<T>)
+			using T = remove_cv<decltype(N)>;
+			if constexpr (std::is_same_v<T, bool>)
 			{
-				if constexpr (N < T{})
-					val = -val;
+				if constexpr (N)
+					return fixed_string{ "true" };
+				else
+					return fixed_string{ "false" };
 			}
-			while (val)
-			{
-				str[i--] = static_cast<char>('0' + (val % T{ 10 }));
-				val /= T{ 10 };
-			}
-			if constexpr (is_signed<T>)
+			else
 			{
-				if constexpr (N < T{})
-					str[i] = '-';
+				constexpr size_t len = type_name_int_to_str_length<T>(N);
+				fixed_string<char, len> str{};
+
+				T val	 = N;
+				size_t i = len;
+				do
+				{
+					// (the remainder of a negative number is never positive)
+					const auto digit = val % T{ 10 };
+					str[--i]		 = static_cast<char>(digit < 0 ? '0' - digit : '0' + digit);
+					val				 = static_cast<T>(val / T{ 10 });
+				}
+				while (val);
+				if constexpr (is_signed<T>)
+				{
+					if constexpr (N < T{})
+						str[--i] = '-';
+				}
+				return str;
 			}
-			return str;
 		}();
 
 		template <typename T, size_t N>
-- 
2.43.0


From 304f7b0d79e2c1c94bc1bcad1418090a7ff5d0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:55 +0000
Subject: [PATCH 092/103] fix: type_name of pointers and references to variadic
 functions had an extra parenthesis

---
 include/muu/type_name.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/muu/type_name.h b/include/muu/type_name.h
index d7e6247..e94f88b 100644
--- a/include/muu/type_name.h
+++ b/include/muu/type_name.h
@@ -604,7 +604,7 @@ namespace muu
 		struct type_name_<R (*)(P..., ...)>
 		{
 			static constexpr auto value =
-				type_name<R> + fixed_string{ "(*)(" } + '(' + type_name_list<P...> + fixed_string{ ", ...)" };
+				type_name<R> + fixed_string{ "(*)(" } + type_name_list<P...> + fixed_string{ ", ...)" };
 		};
 
 		template <typename R, typename... P>
@@ -643,7 +643,7 @@ namespace muu
 		struct type_name_<R (*const)(P..., ...)>
 		{
 			static constexpr auto value =
-				type_name<R> + fixed_string{ "(*const)(" } + '(' + type_name_list<P...> + fixed_string{ ", ...)" };
+				type_name<R> + fixed_string{ "(*const)(" } + type_name_list<P...> + fixed_string{ ", ...)" };
 		};
 
 		template <typename R, typename... P>
@@ -682,7 +682,7 @@ namespace muu
 		struct type_name_<R (*volatile)(P..., ...)>
 		{
 			static constexpr auto value =
-				type_name<R> + fixed_string{ "(*volatile)(" } + '(' + type_name_list<P...> + fixed_string{ ", ...)" };
+				type_name<R> + fixed_string{ "(*volatile)(" } + type_name_list<P...> + fixed_string{ ", ...)" };
 		};
 
 		template <typename R, typename... P>
@@ -721,7 +721,7 @@ namespace muu
 		template <typename R, typename... P>
 		struct type_name_<R (*const volatile)(P..., ...)>
 		{
-			static constexpr auto value = type_name<R> + fixed_string{ "(*const volatile)(" } + '('
+			static constexpr auto value = type_name<R> + fixed_string{ "(*const volatile)(" }
 										+ type_name_list<P...> + fixed_string{ ", ...)" };
 		};
 
@@ -761,7 +761,7 @@ namespace muu
 		struct type_name_<R (&)(P..., ...)>
 		{
 			static constexpr auto value =
-				type_name<R> + fixed_string{ "(&)(" } + '(' + type_name_list<P...> + fixed_string{ ", ...)" };
+				type_name<R> + fixed_string{ "(&)(" } + type_name_list<P...> + fixed_string{ ", ...)" };
 		};
 
 		template <typename R, typename... P>
-- 
2.43.0


From ce07f71b5e5561bc7aedabda5508f6374ec3e87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:55 +0000
Subject: [PATCH 093/103] fix: type_name of multidimensional arrays listed the
 extents in reverse

---
 include/muu/type_name.h | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/muu/type_name.h b/include/muu/type_name.h
index e94f88b..70a51d9 100644
--- a/include/muu/type_name.h
+++ b/include/muu/type_name.h
@@ -290,42 +290,50 @@ namespace muu
 			static constexpr auto value = type_name<T> + fixed_string{ "&&" };
 		};
 
+		// array elements and extents (outermost first, as they are declared)
+
+		template <typename T>
+		inline constexpr auto type_name_element = type_name<std::remove_all_extents_t<T>>;
+
+		template <typename T>
+		inline constexpr auto type_name_extents = fixed_string{ "" };
+
 		// unbounded arrays
 
 		template <typename T>
 		struct type_name_<T[]>
 		{
-			static constexpr auto value = type_name<T> + fixed_string{ "[]" };
+			static constexpr auto value = type_name_element<T> + fixed_string{ "[]" } + type_name_extents<T>;
 		};
 
 		template <typename T>
 		struct type_name_<const T[]>
 		{
-			static constexpr auto value = type_name<const T> + fixed_string{ "[]" };
+			static constexpr auto value = type_name_element<const T> + fixed_string{ "[]" } + type_name_extents<T>;
 		};
 
 		template <typename T>
 		struct type_name_<volatile T[]>
 		{
-			static constexpr auto value = type_name<volatile T> + fixed_string{ "[]" };
+			static constexpr auto value = type_name_element<volatile T> + fixed_string{ "[]" } + type_name_extents<T>;
 		};
 
 		template <typename T>
 		struct type_name_<const volatile T[]>
 		{
-			static constexpr auto value = type_name<const volatile T> + fixed_string{ "[]" };
+			static constexpr auto value = type_name_element<const volatile T> + fixed_string{ "[]" } + type_name_extents<T>;
 		};
 
 		template <typename T>
 		struct type_name_<T (&)[]>
 		{
-			static constexpr auto value = type_name<T> + fixed_string{ "(&)[]" };
+			static constexpr auto value = type_name_element<T> + fixed_string{ "(&)[]" } + type_name_extents<T>;
 		};
 
 		template <typename T>
 		struct type_name_<T (&&)[]>
 		{
-			static constexpr auto value = type_name<T> + fixed_string{ "(&&)[]" };
+			static constexpr auto value = type_name_element<T> + fixed_string{ "(&&)[]" } + type_name_extents<T>;
 		};
 
 		// bounded arrays
@@ -379,40 +387,43 @@ namespace muu
 			}
 		}();
 
+		template <typename T, size_t N>
+		inline constexpr auto type_name_extents<T[N]> = fixed_string{ "[" } + type_name_int_to_str<N> + ']' + type_name_extents<T>;
+
 		template <typename T, size_t N>
 		struct type_name_<T[N]>
 		{
-			static constexpr auto value = type_name<T> + '[' + type_name_int_to_str<N> + ']';
+			static constexpr auto value = type_name_element<T> + type_name_extents<T[N]>;
 		};
 
 		template <typename T, size_t N>
 		struct type_name_<const T[N]>
 		{
-			static constexpr auto value = type_name<const T> + '[' + type_name_int_to_str<N> + ']';
+			static constexpr auto value = type_name_element<const T> + type_name_extents<T[N]>;
 		};
 
 		template <typename T, size_t N>
 		struct type_name_<volatile T[N]>
 		{
-			static constexpr auto value = type_name<volatile T> + '[' + type_name_int_to_str<N> + ']';
+			static constexpr auto value = type_name_element<volatile T> + type_name_extents<T[N]>;
 		};
 
 		template <typename T, size_t N>
 		struct type_name_<const volatile T[N]>
 		{
-			static constexpr auto value = type_name<const volatile T> + '[' + type_name_int_to_str<N> + ']';
+			static constexpr auto value = type_name_element<const volatile T> + type_name_extents<T[N]>;
 		};
 
 		template <typename T, size_t N>
 		struct type_name_<T (&)[N]>
 		{
-			static constexpr auto value = type_name<T> + fixed_string{ "(&)[" } + type_name_int_to_str<N> + ']';
+			static constexpr auto value = type_name_element<T> + fixed_string{ "(&)" } + type_name_extents<T[N]>;
 		};
 
 		template <typename T, size_t N>
 		struct type_name_<T (&&)[N]>
 		{
-			static constexpr auto value = type_name<T> + fixed_string{ "(&&)[" } + type_name_int_to_str<N> + ']';
+			static constexpr auto value = type_name_element<T> + fixed_string{ "(&&)" } + type_name_extents<T[N]>;
 		};
 
 		// basic template unpacking
-- 
2.43.0


From 42273fbfcdcdfa0db5a780e009fdd285aa54f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:37 +0000
Subject: [PATCH 094/103] fix: tuple_size of references to tuples did not
 compile

---
 include/muu/meta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/meta.h b/include/muu/meta.h
index 17d99ca..eb77576 100644
--- a/include/muu/meta.h
+++ b/include/muu/meta.h
@@ -1991,7 +1991,7 @@ namespace muu
 	namespace impl
 	{
 		template <typename T, bool = is_detected<has_tuple_size_, T>>
-		struct tuple_size_ : std::tuple_size<T>
+		struct tuple_size_ : std::tuple_size<remove_cvref<T>>
 		{};
 		template <typename T>
 		struct tuple_size_<T, false>
-- 
2.43.0


From 35ab65beb6f6d7fa6e701877f7d09f7ff6272908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:37 +0000
Subject: [PATCH 095/103] fix: is_tuple_like of empty tuples and arrays did not
 compile

---
 include/muu/meta.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/muu/meta.h b/include/muu/meta.h
index eb77576..20dd4ef 100644
--- a/include/muu/meta.h
+++ b/include/muu/meta.h
@@ -1977,13 +1977,21 @@ namespace muu
 		using has_tuple_size_ = decltype(std::tuple_size<remove_cvref<T>>::value);
 		template <typename T>
 		using has_tuple_element_ = decltype(std::declval<typename std::tuple_element<0, remove_cvref<T>>::type>());
+
+		template <typename T, bool = is_detected<has_tuple_size_, T>>
+		struct is_tuple_like_ : std::false_type
+		{};
+		template <typename T>
+		struct is_tuple_like_<T, true>
+			: std::disjunction<std::bool_constant<std::tuple_size<remove_cvref<T>>::value == 0>, // no elements to check
+							   is_detected_impl<has_tuple_element_, void, T>>
+		{};
 	}
 	/// \endcond
 
 	/// \brief True if the type implements std::tuple_size and std::tuple_element.
 	template <typename T>
-	inline constexpr bool is_tuple_like =
-		is_detected<impl::has_tuple_size_, T> && is_detected<impl::has_tuple_element_, T>;
+	inline constexpr bool is_tuple_like = impl::is_tuple_like_<T>::value;
 	//% meta::is_tuple_like end
 
 	//% meta::tuple_size start
-- 
2.43.0


From 2f4feeda86724edd206c3b66c2313472c7c7b0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:37 +0000
Subject: [PATCH 096/103] fix: rebase_pointer lost the pointed type's
 qualifiers when the pointer was itself const or volatile

---
 include/muu/meta.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/muu/meta.h b/include/muu/meta.h
index 20dd4ef..e105420 100644
--- a/include/muu/meta.h
+++ b/include/muu/meta.h
@@ -184,6 +184,15 @@ namespace muu
 			using type = std::add_pointer_t<std::add_const_t<U>>;
 		};
 		template <typename T, typename U>
+		struct rebase_pointer_<T* const, U> : rebase_pointer_<T*, U>
+		{};
+		template <typename T, typename U>
+		struct rebase_pointer_<T* volatile, U> : rebase_pointer_<T*, U>
+		{};
+		template <typename T, typename U>
+		struct rebase_pointer_<T* const volatile, U> : rebase_pointer_<T*, U>
+		{};
+		template <typename T, typename U>
 		struct rebase_pointer_<T&, U>
 		{
 			using type = std::add_lvalue_reference_t<typename rebase_pointer_<T, U>::type>;
-- 
2.43.0


From 8ba9a2dc720819a1c695f831ec7ece3428836101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:37 +0000
Subject: [PATCH 097/103] fix: any_cv and all_cv did not see the qualifiers of
 referenced types as documented

---
 include/muu/meta.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/meta.h b/include/muu/meta.h
index e105420..5248c14 100644
--- a/include/muu/meta.h
+++ b/include/muu/meta.h
@@ -1342,9 +1342,9 @@ namespace muu
 	template <typename T, typename CopyFrom>
 	using copy_cv = copy_const<copy_volatile<T, CopyFrom>, CopyFrom>;
 
-	/// \brief Is a type const and/or volatile-qualified?
+	/// \brief Is a type const and/or volatile-qualified, or reference to const and/or volatile-qualified?
 	template <typename T>
-	inline constexpr bool is_cv = std::is_const_v<T> || std::is_volatile_v<T>;
+	inline constexpr bool is_cv = is_const<T> || is_volatile<T>;
 
 	/// \brief Are any of the named types const and/or volatile-qualified, or references to const and/or volatile-qualified?
 	template <typename... T>
-- 
2.43.0


From 432ba3d73d8517bd7ba34b038aed1e45c8f81b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:37 +0000
Subject: [PATCH 098/103] fix: add_noexcept, remove_noexcept and arity (and
 thus pointer_cast) did not understand c-style variadic functions

---
 include/muu/meta.h | 60 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/include/muu/meta.h b/include/muu/meta.h
index 5248c14..33199d3 100644
--- a/include/muu/meta.h
+++ b/include/muu/meta.h
@@ -1611,6 +1611,28 @@ namespace muu
 
 		MUU_FOR_EACH_MEMBER_CALLCONV_CVREF(muu_make_add_noexcept)
 		#undef muu_make_add_noexcept
+
+		// c-style variadic functions
+		template <typename R, typename... P>
+		struct add_noexcept_<R(P..., ...)>
+		{
+			using type = R(P..., ...) noexcept;
+		};
+		template <typename R, typename... P>
+		struct add_noexcept_<R (*)(P..., ...)>
+		{
+			using type = R (*)(P..., ...) noexcept;
+		};
+		#define muu_make_add_noexcept(cvref)                                                                           \
+		                                                                                                               \
+			template <typename C, typename R, typename... P>                                                           \
+			struct add_noexcept_<R (C::*)(P..., ...) cvref>                                                           \
+			{                                                                                                          \
+				using type = R (C::*)(P..., ...) cvref noexcept;                                                               \
+			};
+
+		MUU_FOR_EACH_CVREF(muu_make_add_noexcept)
+		#undef muu_make_add_noexcept
 	}
 	// clang-format on
 	/// \endcond
@@ -1658,6 +1680,28 @@ namespace muu
 
 		MUU_FOR_EACH_MEMBER_CALLCONV_CVREF(muu_make_remove_noexcept)
 		#undef muu_make_remove_noexcept
+
+		// c-style variadic functions
+		template <typename R, typename... P>
+		struct remove_noexcept_<R(P..., ...) noexcept>
+		{
+			using type = R(P..., ...);
+		};
+		template <typename R, typename... P>
+		struct remove_noexcept_<R (*)(P..., ...) noexcept>
+		{
+			using type = R (*)(P..., ...);
+		};
+		#define muu_make_remove_noexcept(cvref)                                                                           \
+		                                                                                                               \
+			template <typename C, typename R, typename... P>                                                           \
+			struct remove_noexcept_<R (C::*)(P..., ...) cvref noexcept>                                                           \
+			{                                                                                                          \
+				using type = R (C::*)(P..., ...) cvref;                                                               \
+			};
+
+		MUU_FOR_EACH_CVREF(muu_make_remove_noexcept)
+		#undef muu_make_remove_noexcept
 	}
 	// clang-format on
 	/// \endcond
@@ -2572,6 +2616,22 @@ namespace muu
 		MUU_FOR_EACH_CVREF(muu_make_arity)
 		#undef muu_make_arity
 
+		// c-style variadic functions
+		template <typename R, typename... P>
+		struct arity_<R(P..., ...), false, false> : std::integral_constant<size_t, sizeof...(P)>
+		{};
+		template <typename R, typename... P>
+		struct arity_<R(P..., ...), false, true> : arity_<R(P..., ...), false, false>
+		{};
+		#define muu_make_arity(cvref)                                                                                  \
+		                                                                                                               \
+			template <typename C, typename R, typename... P>                                                           \
+			struct arity_<R (C::*)(P..., ...) cvref, false, false> : std::integral_constant<size_t, sizeof...(P)>      \
+			{};
+
+		MUU_FOR_EACH_CVREF(muu_make_arity)
+		#undef muu_make_arity
+
 	}
 	// clang-format on
 	/// \endcond
-- 
2.43.0


From 0f428cf695632c100124651ddddafb09dd9523da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:27 +0000
Subject: [PATCH 099/103] fix: assume_aligned.h (and thus aligned_alloc.h,
 blob.h and emplacement_array.h) did not compile when included first

---
 include/muu/assume_aligned.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/muu/assume_aligned.h b/include/muu/assume_aligned.h
index 7e82bc4..ffc1647 100644
--- a/include/muu/assume_aligned.h
+++ b/include/muu/assume_aligned.h
@@ -8,6 +8,7 @@
 /// \ingroup cpp20
 /// \brief Contains the definition of #muu::assume_aligned().
 
+#include "fwd.h"
 #include "is_constant_evaluated.h"
 #include "impl/std_type_traits.h"
 #include "impl/header_start.h"
-- 
2.43.0


From 064ccf6186498dc3f701cb6f4e12a057074c071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:27 +0000
Subject: [PATCH 100/103] fix: chars.h did not compile when included first

---
 include/muu/chars.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/muu/chars.h b/include/muu/chars.h
index aefc9e3..bdbcc9d 100644
--- a/include/muu/chars.h
+++ b/include/muu/chars.h
@@ -7,7 +7,9 @@
 /// \file
 /// \brief Functions to simplify working with characters (code units).
 
+#include "meta.h"
 #include "impl/core_constants.h"
+#include "impl/core_utils.h"
 #include "impl/unicode_char.h"
 #include "impl/unicode_wchar_t.h"
 #include "impl/unicode_char16_t.h"
-- 
2.43.0


From 6f8b42c6b896124aaeaaa16c2b259026f6314daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:27 +0000
Subject: [PATCH 101/103] fix: fixed_string.h (and thus type_name.h) did not
 compile when included first

---
 include/muu/fixed_string.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/muu/fixed_string.h b/include/muu/fixed_string.h
index 58ab7a2..84fc0c6 100644
--- a/include/muu/fixed_string.h
+++ b/include/muu/fixed_string.h
@@ -9,6 +9,7 @@
 
 #include "iterators.h"
 #include "meta.h"
+#include "size_t_literals.h"
 #include "impl/core_utils.h"
 #include "impl/core_constants.h"
 #include "impl/std_string_view.h"
-- 
2.43.0


From 8768f19c7cc0b9ef813b9086fdb75a326e6d0efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:27 +0000
Subject: [PATCH 102/103] fix: source_location.h did not compile with GCC when
 included first

---
 include/muu/source_location.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/muu/source_location.h b/include/muu/source_location.h
index 995c87e..a79592b 100644
--- a/include/muu/source_location.h
+++ b/include/muu/source_location.h
@@ -8,6 +8,8 @@
 /// \ingroup cpp20
 /// \brief Contains the definition of #muu::source_location.
 
+#include "fwd.h"
+
 #ifndef MUU_SOURCE_LOCATION_COLUMN
 	#if MUU_GCC
 		#define MUU_SOURCE_LOCATION_COLUMN() 0
@@ -16,7 +18,6 @@
 	#endif
 #endif
 
-#include "fwd.h"
 #include "impl/header_start.h"
 
 /// \cond
-- 
2.43.0


From d29e83c9d20390f807f658bfce1feebc909c6d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:27 +0000
Subject: [PATCH 103/103] fix: blob.h used muu::min without including its
 definition

---
 include/muu/blob.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/muu/blob.h b/include/muu/blob.h
index 024e8e0..93f48c5 100644
--- a/include/muu/blob.h
+++ b/include/muu/blob.h
@@ -9,6 +9,7 @@
 
 #include "aligned_alloc.h"
 #include "impl/std_memcpy.h"
+#include "impl/core_utils.h"
 #include "impl/std_utility.h"
 #include "impl/header_start.h"
 
-- 
2.43.0

