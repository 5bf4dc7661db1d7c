// D02 emplacement_array, D04 blob, D10 aligned_alloc / apply_alignment: operation sequences against reference models, with
// every allocation through aligned_alloc tracked (linked with --wrap=aligned_alloc --wrap=free).
#include "vf.h"
#include <map>
#include <muu/bit.h>
#include <muu/blob.h>
#include <muu/emplacement_array.h>
#include <muu/apply_alignment.h>
#include <memory>
#include <stdexcept>
#include <optional>
#include <algorithm>
using namespace muu;

static std::map<void*, size_t>* blocks;
static volatile bool tracking = false; // volatile: the compiler knows that free() does not read it
extern "C" const char* __asan_default_options()
{
	return "allocator_may_return_null=1:detect_leaks=0";
}
extern "C"
{
	void* __real_aligned_alloc(size_t, size_t);
	void __real_free(void*);
	void* __wrap_aligned_alloc(size_t al, size_t n)
	{
		void* p = __real_aligned_alloc(al, n);
		if (tracking && p)
		{
			tracking = false;
			(*blocks)[p] = n;
			tracking = true;
		}
		return p;
	}
	void __wrap_free(void* p)
	{
		if (tracking && p)
		{
			tracking = false;
			if (!blocks->erase(p))
				vf::fail("free of a block that is not (or no longer) allocated");
			tracking = true;
		}
		__real_free(p);
	}
}

namespace
{
	// -------------------------------------------------------------------------------------- emplacement_array
	std::set<const void*> alive;
	int throw_in = -1; // constructions until one throws
	struct boom
	{};
	template <int Kind> // 0 non-movable & throwing, 1 over-aligned throwing
	struct alignas(Kind == 1 ? 64 : alignof(int)) elem
	{
		int v;
		explicit elem(int x) : v{ x }
		{
			if (throw_in >= 0 && throw_in-- == 0)
				throw boom{};
			VF_CHECK(alive.insert(this).second, "an element is constructed over a live one");
			VF_CHECK((uintptr_t)this % alignof(elem) == 0, "misaligned element");
		}
		elem(const elem&) = delete;
		elem& operator=(const elem&) = delete;
		~elem() noexcept
		{
			VF_CHECK(alive.erase(this) == 1, "an element that is not alive is destroyed");
			v = -1;
		}
	};
	template <typename T>
	int val(const T& t)
	{
		if constexpr (std::is_arithmetic_v<T>)
			return (int)t;
		else
			return t.v;
	}
	struct move_only // nothrow constructible, non-trivial
	{
		int v;
		explicit move_only(int x) noexcept : v{ x }
		{
			VF_CHECK(alive.insert(this).second, "an element is constructed over a live one");
		}
		~move_only()
		{
			VF_CHECK(alive.erase(this) == 1, "an element that is not alive is destroyed");
		}
		move_only(const move_only&) = delete;
	};
	struct model
	{
		size_t cap = 0;
		std::vector<int> v;
		std::vector<const void*> where;
	};
	enum
	{
		op_emplace,
		op_emplace_throw,
		op_with,
		op_with_throw,
		op_clear,
		op_a_to_b,
		op_b_to_a,
		op_swap_target,
		op_recreate,
		op_move_construct,
		op_count
	};

	template <typename T>
	void check(emplacement_array<T>& a, const model& m, const char* what)
	{
		const emplacement_array<T>& c = a;
		vf::trans();
		const size_t n = m.v.size();
		bool ok = a.size() == n && a.capacity() == m.cap && a.empty() == (n == 0) && (size_t)(a.end() - a.begin()) == n
			   && (size_t)(c.end() - c.begin()) == n && (size_t)(c.cend() - c.cbegin()) == n
			   && (size_t)(end(a) - begin(a)) == n && (size_t)(end(c) - begin(c)) == n && (size_t)(cend(c) - cbegin(c)) == n;
		for (size_t i = 0; ok && i < n; i++)
			ok = val(a[i]) == m.v[i] && val(c[i]) == m.v[i] && &a.begin()[i] == &a[i] && &c.begin()[i] == &a[i]
			  && a.data() + i == &a[i] && c.data() + i == &a[i] && (!m.where[i] || m.where[i] == (const void*)&a[i]);
		if (ok && n)
			ok = &a.front() == &a[0] && &a.back() == &a[n - 1] && &c.front() == &a[0] && &c.back() == &a[n - 1];
		VF_CHECK(ok, "%s: size, capacity, elements or their addresses differ from the model (size %zu of %zu)", what, a.size(), n);
	}

	template <typename T>
	void sequence(uint64_t code, int len, size_t capA, size_t capB)
	{
		constexpr bool tracked	= !std::is_arithmetic_v<T>;
		constexpr bool throwing = tracked && !std::is_nothrow_constructible_v<T, int>;
		alive.clear();
		blocks->clear();
		tracking = true;
		{
			std::optional<emplacement_array<T>> A{ std::in_place, capA }, B{ std::in_place, capB };
			model a, b;
			a.cap	 = capA;
			b.cap	 = capB;
			int next = 1;
			for (int s = 0; s < len; s++, code /= op_count)
			{
				const int op = (int)(code % op_count);
				vf::state();
				switch (op)
				{
					case op_emplace:
						if (a.v.size() < a.cap)
						{
							T& r = A->emplace_back(next);
							a.v.push_back(next);
							a.where.push_back(&r);
							VF_CHECK(&r == &A->back(), "emplace_back does not return the new element");
							next++;
						}
						break;
					case op_emplace_throw:
						if constexpr (throwing)
							if (a.v.size() < a.cap)
							{
								throw_in   = 0;
								bool threw = false;
								try
								{
									A->emplace_back(next);
								}
								catch (const boom&)
								{
									threw = true;
								}
								throw_in = -1;
								VF_CHECK(threw, "the exception is lost");
							}
						break;
					case op_with:
						if (a.v.size() < a.cap)
						{
							T& r = A->emplace_back_with([&](void* p) { return ::new (p) T(next); });
							a.v.push_back(next);
							a.where.push_back(&r);
							VF_CHECK(&r == &A->back(), "emplace_back_with does not return the new element");
							next++;
						}
						break;
					case op_with_throw:
						if (a.v.size() < a.cap)
						{
							bool threw = false;
							try
							{
								A->emplace_back_with([&](void*) -> T* { throw boom{}; });
							}
							catch (const boom&)
							{
								threw = true;
							}
							VF_CHECK(threw, "the exception is lost");
						}
						break;
					case op_clear:
						A->clear();
						a.v.clear();
						a.where.clear();
						break;
					case op_a_to_b:
						*B = std::move(*A);
						b  = a;
						a  = model{};
						break;
					case op_b_to_a:
						*A = std::move(*B);
						a  = b;
						b  = model{};
						break;
					case op_swap_target:
						std::swap(A, B);
						std::swap(a, b);
						break;
					case op_recreate:
						A.emplace((size_t)(next % 4));
						a	  = model{};
						a.cap = (size_t)(next % 4);
						break;
					case op_move_construct:
					{
						emplacement_array<T> t{ std::move(*A) };
						check(*A, model{}, "moved-from source");
						check(t, a, "move constructed");
						A.emplace(std::move(t));
						break;
					}
				}
				check(*A, a, "after operation, first array");
				check(*B, b, "after operation, second array");
				if (tracked)
					VF_CHECK(alive.size() == a.v.size() + b.v.size(), "%zu elements are alive, expected %zu", alive.size(), a.v.size() + b.v.size());
			}
		}
		tracking = false;
		if (tracked)
			VF_CHECK(alive.empty(), "%zu elements are never destroyed", alive.size());
		VF_CHECK(blocks->empty(), "%zu blocks of memory leak", blocks->size());
	}
	template <typename T>
	void arrays(const char* g, int len)
	{
		if (!vf::group(g))
			return;
		uint64_t total = 1;
		for (int i = 0; i < len; i++)
			total *= op_count;
		for (size_t ca = 0; ca <= 3; ca++)
			for (size_t cb = 0; cb <= 2; cb += 2)
				for (uint64_t c = 0; c < total; c++)
					if (vf::mine(c))
					{
						vf::at(c, len, ca, cb);
						sequence<T>(c, len, ca, cb);
						vf::trace();
					}
		vf::sample("all %llu sequences of %d operations x 8 capacities", (unsigned long long)total, len);
	}
	// forwarding: arguments arrive with their value category
	void forwarding()
	{
		if (!vf::group("forwarding") || !vf::mine(1))
			return;
		vf::at(0);
		struct agg
		{
			int a;
			std::unique_ptr<int> p;
			std::string s;
		};
		emplacement_array<agg> x{ 3 };
		auto u = std::make_unique<int>(7);
		std::string s("a string that is too long for the small buffer");
		x.emplace_back(1, std::move(u), s);
		VF_REQ(!u && *x[0].p == 7 && x[0].s == s && !s.empty());
		x.emplace_back(2, nullptr, std::move(s));
		VF_REQ(s.empty() && x[1].s.size() == 46 && x[1].a == 2);
		vf::state();
		vf::trans(2);
	}

	// ---------------------------------------------------------------------------------------------------- blob
	// model: byte values, -1 = unspecified
	struct bmodel
	{
		std::vector<int> d;
		size_t min_align = 16;
	};
	unsigned char ext[8192];
	void fill(blob& b, bmodel& m, unsigned salt)
	{
		for (size_t i = 0; i < m.d.size(); i++)
		{
			m.d[i]				= (int)((i * 7 + salt * 31 + (i >> 8)) & 255);
			((unsigned char*)b.data())[i] = (unsigned char)m.d[i];
		}
	}
	void check_blob(const blob& b, const bmodel& m, const char* what)
	{
		vf::trans();
		VF_CHECK(b.size() == m.d.size(), "%s: size is %zu, expected %zu", what, b.size(), m.d.size());
		VF_CHECK((b.data() != nullptr) == !m.d.empty() && (bool)b == !m.d.empty(), "%s: data() and operator bool disagree with size", what);
		VF_CHECK(has_single_bit(b.alignment()) && b.alignment() >= m.min_align, "%s: alignment %zu, at least %zu required", what, b.alignment(), m.min_align);
		VF_CHECK((uintptr_t)b.data() % b.alignment() == 0, "%s: data is not aligned to %zu", what, b.alignment());
		if (b.size() != m.d.size())
			return;
		for (size_t i = 0; i < m.d.size(); i++)
			if (m.d[i] >= 0 && (int)((const unsigned char*)b.data())[i] != m.d[i])
			{
				vf::fail("%s: byte %zu of %zu is wrong", what, i, m.d.size());
				break;
			}
	}
	constexpr size_t sizes[] = { 0, 1, 17, 64, 2047, 2048, 4100 };
	constexpr size_t NS		 = sizeof(sizes) / sizeof(sizes[0]);
	constexpr size_t aligns[] = { 0, 16, 64, 128, 4096 };
	constexpr size_t NA		  = sizeof(aligns) / sizeof(aligns[0]);
	constexpr int blob_ops	  = (int)(NS + NS * 3 + 4 + 8 + 3 + 2);

	void blob_op(int op, std::optional<blob>& A, std::optional<blob>& B, bmodel& a, bmodel& b)
	{
		int k = op;
		if (k < (int)NS) // resize
		{
			A->resize(sizes[k]);
			a.d.resize(sizes[k], -1);
			return;
		}
		k -= (int)NS;
		if (k < (int)NS * 3) // assign external data / nothing, with various alignments
		{
			const size_t sz	 = sizes[k % (int)NS];
			const size_t al	 = aligns[(k / (int)NS) * 2 % NA];
			A->assign(sz, ext + 3, al);
			a.d.resize(sz);
			for (size_t i = 0; i < sz; i++)
				a.d[i] = ext[3 + i];
			a.min_align = std::max<size_t>(al, 16);
			return;
		}
		k -= (int)NS * 3;
		if (k < 4) // assign with no source: contents unspecified
		{
			const size_t sz = sizes[k + 2];
			A->assign(sz, nullptr, aligns[k]);
			a.d.assign(sz, -1);
			a.min_align = std::max<size_t>(aligns[k], 16);
			return;
		}
		k -= 4;
		if (k < 8) // assign part of its own data
		{
			const size_t n	 = a.d.size();
			const size_t off = (k & 1) ? n / 3 : 0;
			const size_t len = (k & 2) ? n - off : (n - off) / 2;
			const size_t al	 = (k & 4) ? 256 : 0;
			A->assign(len, A->data() ? A->data() + off : nullptr, al);
			a.d			= std::vector<int>(a.d.begin() + (ptrdiff_t)off, a.d.begin() + (ptrdiff_t)(off + len));
			a.min_align = std::max<size_t>(al, 16);
			return;
		}
		k -= 8;
		switch (k)
		{
			case 0: // copy assignment
				*A = *B;
				a  = b;
				break;
			case 1: // move assignment
				*A			= std::move(*B);
				a			= b;
				b			= bmodel{};
				break;
			case 2: // self copy assignment
				*A = *&*A;
				break;
			case 3: // copy / move construction
			{
				blob c{ *A };
				check_blob(c, a, "copy constructed");
				VF_CHECK(a.d.empty() || c.data() != A->data(), "a copy shares its source's data");
				blob d{ std::move(c) };
				check_blob(d, a, "move constructed");
				check_blob(c, bmodel{}, "moved-from");
				blob e{ d, 512 };
				bmodel m	= a;
				m.min_align = 512;
				check_blob(e, m, "copy constructed with alignment");
				std::swap(A, B);
				std::swap(a, b);
				break;
			}
			case 4: // self move assignment keeps the blob
				*A = std::move(*&*A);
				break;
		}
	}
	void blobs()
	{
		for (size_t i = 0; i < sizeof(ext); i++)
			ext[i] = (unsigned char)(i * 13 + 5);
		const int len = vf::thorough ? 4 : 3;
		if (vf::group("blob"))
		{
			uint64_t total = 1;
			for (int i = 0; i < len; i++)
				total *= blob_ops;
			for (int init = 0; init < 3; init++)
				for (uint64_t c = 0; c < total; c++)
				{
					if (!vf::mine(c))
						continue;
					vf::at(c, init, len);
					blocks->clear();
					tracking = true;
					{
						std::optional<blob> A, B;
						bmodel a, b;
						if (init == 0)
						{
							A.emplace();
							B.emplace((size_t)40, ext, (size_t)128);
							b.min_align = 128;
							b.d.resize(40);
							for (int i = 0; i < 40; i++)
								b.d[(size_t)i] = ext[i];
						}
						else
						{
							const size_t n = init == 1 ? 100 : 2048;
							A.emplace(n);
							a.d.resize(n, -1);
							B.emplace();
						}
						uint64_t code = c;
						unsigned salt = 1;
						for (int s = 0; s < len; s++, code /= blob_ops)
						{
							vf::state();
							blob_op((int)(code % blob_ops), A, B, a, b);
							check_blob(*A, a, "first blob");
							check_blob(*B, b, "second blob");
							fill(*A, a, salt++);
							check_blob(*B, b, "second blob (after writing to the first)");
						}
					}
					tracking = false;
					VF_CHECK(blocks->empty(), "%zu blocks of memory leak", blocks->size());
					vf::trace();
				}
			vf::sample("all %llu sequences of %d blob operations x 3 starts", (unsigned long long)total, len);
		}
		if (vf::group("blob_ctor"))
			for (size_t n = 0; n <= 4200; n += n < 80 ? 1 : 37)
				for (size_t al = 0; al <= 8192; al = al ? al * 2 : 1)
				{
					if (!vf::mine(n))
						continue;
					vf::at(n, al);
					vf::state();
					blob b{ n, ext, al };
					bmodel m;
					m.d.resize(n);
					for (size_t i = 0; i < n; i++)
						m.d[i] = ext[i];
					m.min_align = std::max<size_t>(al, 16);
					check_blob(b, m, "constructed");
					blob z{ n, nullptr, al };
					m.d.assign(n, -1);
					check_blob(z, m, "constructed without source");
					fill(z, m, 3);
					check_blob(z, m, "constructed without source, written");
				}
	}

	// --------------------------------------------------------------------------------------------- alignment
	enum class e8 : uint8_t
	{
	};
	enum class e32 : uint32_t
	{
	};
	template <size_t Al, typename T>
	void align_one(T v)
	{
		const unsigned __int128 want = ((unsigned __int128)v + Al - 1) / Al * Al;
		if (want > (unsigned __int128)(T)~(T)0)
			return; // not representable
		vf::trans();
		VF_CHECK((unsigned __int128)apply_alignment<Al>(v) == want && (unsigned __int128)apply_alignment(v, Al) == want,
				 "aligning %llu up to %zu gives %llu and %llu",
				 (unsigned long long)v,
				 Al,
				 (unsigned long long)apply_alignment<Al>(v),
				 (unsigned long long)apply_alignment(v, Al));
		if constexpr (std::is_same_v<T, uint8_t>)
			VF_CHECK((uint64_t)apply_alignment<Al>((e8)v) == (uint64_t)want && (uint64_t)apply_alignment((e8)v, Al) == (uint64_t)want, "aligning an enum");
		if constexpr (std::is_same_v<T, uint32_t>)
			VF_CHECK((uint64_t)apply_alignment<Al>((e32)v) == (uint64_t)want && (uint64_t)apply_alignment((e32)v, Al) == (uint64_t)want, "aligning an enum");
		if constexpr (sizeof(T) == 8)
		{
			if (want)
			{
				auto p = reinterpret_cast<char*>((uintptr_t)v);
				if (p)
					VF_CHECK((uintptr_t)apply_alignment<Al>(p) == (uintptr_t)want && (uintptr_t)apply_alignment(p, Al) == (uintptr_t)want
								 && (uintptr_t)apply_alignment<Al>((const void*)p) == (uintptr_t)want
								 && (uintptr_t)apply_alignment((const void*)p, Al) == (uintptr_t)want,
							 "aligning a pointer");
			}
		}
	}
	template <typename T, size_t... S>
	void align_all(T v, std::index_sequence<S...>)
	{
		vf::state();
		vf::at((int64_t)v);
		(align_one<(size_t{ 1 } << S), T>(v), ...);
	}
	void alignment()
	{
		using pw = std::make_index_sequence<32>;
		if (vf::group("apply_8") && vf::mine(0))
			for (unsigned v = 0; v < 256; v++)
				align_all<uint8_t>((uint8_t)v, std::make_index_sequence<8>{});
		if (vf::group("apply_16"))
			for (unsigned v = 0; v < 65536; v++)
				if (vf::mine(v))
					align_all<uint16_t>((uint16_t)v, std::make_index_sequence<16>{});
		if (vf::group("apply_32") && vf::mine(1))
			for (unsigned b = 0; b < 32; b++)
				for (int d = -9; d <= 9; d++)
					align_all<uint32_t>((uint32_t)((1ull << b) + (uint64_t)d), pw{});
		if (vf::group("apply_64") && vf::mine(2))
			for (unsigned b = 0; b < 64; b++)
				for (int d = -9; d <= 9; d++)
				{
					align_all<uint64_t>((1ull << b) + (uint64_t)d, pw{});
					align_all<unsigned long>((1ul << b) + (unsigned long)d, pw{});
				}
		static_assert(apply_alignment<16>(17u) == 32u && apply_alignment<1>(17u) == 17u && apply_alignment(33u, 32) == 64u);
		if (vf::group("alloc"))
			for (size_t n = 1; n <= 400; n++)
			{
				if (!vf::mine(n))
					continue;
				for (size_t al = 1; al <= 8192; al *= 2)
				{
					vf::at(n, al);
					vf::state();
					vf::trans();
					blocks->clear();
					tracking = true;
					void* p	 = muu::aligned_alloc(n, al);
					tracking = false;
					VF_CHECK(p && (uintptr_t)p % al == 0 && (uintptr_t)p % 16 == 0, "allocation of %zu bytes is not aligned to %zu", n, al);
					if (!p)
						continue;
					VF_CHECK(blocks->size() == 1 && blocks->begin()->second >= n, "the block is smaller than requested");
					memset(p, 0x5a, n);
					tracking = true;
					muu::aligned_free(p);
					tracking = false;
					VF_CHECK(blocks->empty(), "the block is not freed");
				}
				muu::aligned_free(nullptr);
			}
		if (vf::group("alloc_huge") && vf::mine(3))
			for (size_t k = 0; k < 8192; k = k < 70 ? k + 1 : k * 2)
				for (size_t al = 1; al <= 8192; al *= 2)
				{
					vf::at(k, al);
					vf::state();
					vf::trans();
					void* p = muu::aligned_alloc(~size_t{} - k, al);
					VF_CHECK(!p, "an allocation of nearly the whole address space succeeds");
					muu::aligned_free(p);
				}
	}
}

int main(int argc, char** argv)
{
	blocks = new std::map<void*, size_t>;
	vf::init(argc, argv);
	for (auto& a : vf::args)
	{
		if (a == "D02")
		{
			const int n = vf::thorough ? 6 : 5;
			arrays<elem<0>>("throwing", n);
			arrays<elem<1>>("overaligned", n - 1);
			arrays<move_only>("nothrow", n - 1);
			arrays<int>("trivial", n - 1);
			forwarding();
		}
		if (a == "D04")
			blobs();
		if (a == "D10")
			alignment();
	}
	return vf::finish();
}
