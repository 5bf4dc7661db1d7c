// N03: bit and byte utilities. All 8- and 16-bit values, all 32-bit values, structured 64- and 128-bit ones.
#include "muu/bit.h"
#include "vf.h"
#include <array>

using namespace muu;
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
#if MUU_HAS_INT128
using u128 = unsigned __int128;
#define HAVE128 1
#else
#define HAVE128 0
#endif
static uint64_t mine_n;
static bool mine_() { return vf::mine(mine_n++); }

enum class e8 : u8 {};
enum class e16 : u16 {};
enum class e32 : u32 {};
enum class e64 : u64 {};
enum f32_ : u32 {};
enum class s8_ : int8_t {};
enum class s32_ : int32_t {};
enum class s64_ : int64_t {};

// ---- reference: plain bit strings, LSB first
static u8 pc16[65536], hi16[65536], lo16[65536]; // population, index of highest / lowest set bit (16 if none)
static void ref_init()
{
	for (int i = 0; i < 65536; i++)
	{
		pc16[i] = 0, hi16[i] = lo16[i] = 16;
		for (int b = 15; b >= 0; b--)
			if (i & (1 << b)) { pc16[i]++; lo16[i] = u8(b); if (hi16[i] == 16) hi16[i] = u8(b); }
	}
}
template <class T> struct und { using t = T; };
template <> struct und<e8> { using t = u8; };
template <> struct und<e16> { using t = u16; };
template <> struct und<e32> { using t = u32; };
template <> struct und<e64> { using t = u64; };
template <> struct und<f32_> { using t = u32; };
template <> struct und<s8_> { using t = int8_t; };
template <> struct und<s32_> { using t = int32_t; };
template <> struct und<s64_> { using t = int64_t; };

template <class T> struct mku_ { using t = std::make_unsigned_t<T>; };
#if HAVE128
template <> struct mku_<u128> { using t = u128; };
template <> struct mku_<__int128> { using t = u128; };
#endif
template <class T> using mku = typename mku_<T>::t;
template <class U> struct bits_of
{
	static constexpr int N = sizeof(U) * 8;
	int pc = 0, top = -1, low = N; // top: highest set index
	explicit bits_of(U v)
	{
		for (int i = 0; i < N; i += 16)
		{
			const u16 part = u16(N == 8 ? (v & 0xff) : (v >> (N == 8 ? 0 : i)));
			pc += pc16[part];
			if (part) { top = i + hi16[part]; if (low == N) low = i + lo16[part]; }
		}
	}
};
template <class U> static U ref_reverse(U v)
{
	unsigned char b[sizeof(U)], c[sizeof(U)];
	memcpy(b, &v, sizeof v);
	for (size_t i = 0; i < sizeof v; i++) c[i] = b[sizeof v - 1 - i];
	memcpy(&v, c, sizeof v);
	return v;
}

template <class T> static inline void one(typename und<T>::t raw)
{
	using U = typename und<T>::t;
	constexpr int N = sizeof(U) * 8;
	const T v = static_cast<T>(raw);
	const bits_of<U> r(raw);
	const bits_of<U> i(static_cast<U>(~raw));
	VF_CHECK(countl_zero(v) == N - 1 - r.top, "countl_zero = %d", countl_zero(v));
	VF_CHECK(countr_zero(v) == r.low, "countr_zero = %d", countr_zero(v));
	VF_CHECK(countl_one(v) == N - 1 - i.top, "countl_one = %d", countl_one(v));
	VF_CHECK(countr_one(v) == i.low, "countr_one = %d", countr_one(v));
	VF_CHECK(popcount(v) == r.pc, "popcount = %d", popcount(v));
	VF_CHECK(has_single_bit(v) == (r.pc == 1), "has_single_bit");
	static_assert(std::is_same_v<decltype(bit_width(v)), T> && std::is_same_v<decltype(bit_ceil(v)), T>
				  && std::is_same_v<decltype(bit_floor(v)), T> && std::is_same_v<decltype(byte_reverse(v)), T>
				  && std::is_same_v<decltype(popcount(v)), int> && std::is_same_v<decltype(countl_zero(v)), int>);
	VF_CHECK(static_cast<U>(bit_width(v)) == static_cast<U>(r.top + 1), "bit_width");
	VF_CHECK(static_cast<U>(bit_floor(v)) == (raw ? static_cast<U>(U(1) << r.top) : U(0)), "bit_floor");
	if (r.pc == 0)
		VF_CHECK(static_cast<U>(bit_ceil(v)) == U(1), "bit_ceil(0)");
	else if (r.pc == 1)
		VF_CHECK(bit_ceil(v) == v, "bit_ceil of a power of two");
	else if (r.top + 1 < N) // otherwise there is no such power of two
		VF_CHECK(static_cast<U>(bit_ceil(v)) == static_cast<U>(U(1) << (r.top + 1)), "bit_ceil");
	VF_CHECK(static_cast<U>(byte_reverse(v)) == ref_reverse<U>(raw), "byte_reverse");
}

template <size_t I, class T> static void sel(T v, const unsigned char* mem)
{
	VF_CHECK(byte_select<I>(v) == mem[I], "byte_select<%d>", int(I));
	if constexpr (I > 0) sel<I - 1>(v, mem);
}
template <class T> static void bytes_of(typename und<T>::t raw)
{
	using U = typename und<T>::t;
	const T v = static_cast<T>(raw);
	unsigned char mem[sizeof(U)];
	memcpy(mem, &raw, sizeof raw);
	sel<sizeof(U) - 1>(v, mem);
	for (size_t i = 0; i < sizeof(U) + 3; i++)
		VF_CHECK(byte_select(v, i) == (i < sizeof(U) ? mem[i] : 0), "byte_select(v, %d) = %d", int(i), int(byte_select(v, i)));
	for (size_t i : { size_t(63), size_t(64), size_t(1) << 32, size_t(1) << 61, ~size_t(0) })
		VF_CHECK(byte_select(v, i) == 0, "byte_select(v, huge)");
}

// ---- structured values: up to three set bits, runs of ones, pairs of runs, and the complements of all those
template <class U, class F> static void structured(F&& f)
{
	constexpr int N = sizeof(U) * 8;
	auto both = [&](U v) { f(v); f(static_cast<U>(~v)); };
	both(U(0));
	for (int a = 0; a < N; a++)
	{
		both(U(U(1) << a));
		for (int b = a + 1; b < N; b++)
		{
			both(U((U(1) << a) | (U(1) << b)));
			both(U((U(1) << b) - (U(1) << a)));
			for (int c = b + 1; c < N; c++)
			{
				both(U((U(1) << a) | (U(1) << b) | (U(1) << c)));
				both(U(((U(1) << b) - (U(1) << a)) ^ (U(1) << c)));
				both(U(((U(1) << c) - (U(1) << b)) ^ (U(1) << a)));
			}
		}
	}
}

template <class T> static void all_values(const char* name, u64 lo = 0)
{
	using U = typename und<T>::t;
	vf::text(name);
	if constexpr (sizeof(U) <= 2)
	{
		for (u32 i = 0; i < (1u << (sizeof(U) * 8)); i++)
		{
			if (!mine_()) continue;
			vf::at(i);
			vf::state(), vf::trans(10);
			one<T>(U(i));
			bytes_of<T>(U(i));
		}
	}
	else
		structured<U>([&](U v) {
			if (!mine_()) return;
			vf::at(int64_t(u64(v)), sizeof(U) == 16 ? int64_t(u64(v >> (sizeof(U) == 16 ? 64 : 0))) : 0);
			vf::state(), vf::trans(10);
			one<T>(v);
			bytes_of<T>(v);
		});
	(void)lo;
}
template <class T> static void signed_bytes(const char* name)
{
	using U = typename und<T>::t;
	vf::text(name);
	using UU = mku<U>;
	auto f = [&](UU v) {
		if (!mine_()) return;
		vf::at(int64_t(v));
		vf::state(), vf::trans(2);
		bytes_of<T>(static_cast<U>(v));
	};
	if constexpr (sizeof(U) <= 2) for (u32 i = 0; i < (1u << (sizeof(U) * 8)); i++) f(UU(i));
	else structured<UU>(f);
}

// ---- bit_fill
template <class T> static void fills(const char* name)
{
	using U = typename und<T>::t;
	constexpr size_t N = sizeof(U) * 8;
	vf::text(name);
	auto f = [&](size_t c) {
		if (!mine_()) return;
		vf::at(int64_t(c));
		vf::state(), vf::trans(2);
		U right = 0, left = 0;
		for (size_t i = 0; i < N && i < c; i++)
		{
			right = U(right | U(U(1) << i));
			left  = U(left | U(U(1) << (N - 1 - i)));
		}
		VF_CHECK(static_cast<U>(bit_fill_right<T>(c)) == right, "bit_fill_right(%zu)", c);
		VF_CHECK(static_cast<U>(bit_fill_left<T>(c)) == left, "bit_fill_left(%zu)", c);
	};
	for (size_t c = 0; c <= 300; c++) f(c);
	for (size_t c : { size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 1, size_t(1) << 63, ~size_t(0) }) f(c);
}

// ---- bit_pack
template <class T> static std::vector<T> samples()
{
	using U = mku<typename und<T>::t>;
	std::vector<T> o;
	const U inc = U(~U(0)) ^ U(U(~U(0)) >> 4);
	for (U v : { U(0), U(1), U(~U(0)), U(U(1) << (sizeof(U) * 8 - 1)), U(~U(0) >> 1), U(0x5a) }) o.push_back(static_cast<T>(v));
	U p = 0;
	for (size_t i = 0; i < sizeof(U); i++) p = U(U(p << (sizeof(U) > 1 ? 8 : 0)) | U(0xE0 + i)); // distinct high bytes
	o.push_back(static_cast<T>(p)), o.push_back(static_cast<T>(U(p ^ inc)));
	return o;
}
template <class R, class T> static void put(R& r, T v)
{
	using U = mku<typename und<T>::t>;
	for (size_t i = 0; i < sizeof(T) * 8; i++) r = R(r << 1);
	r = R(r | R(static_cast<U>(v)));
}
#if HAVE128
using wide = u128;
#else
using wide = u64;
#endif
template <class Ret, class A, class B, class... C> static void pack_one(A a, B b, C... c)
{
	wide w = 0;
	put(w, a), put(w, b);
	(put(w, c), ...);
	const auto got	= bit_pack(a, b, c...);
	constexpr size_t total = sizeof(A) + sizeof(B) + (sizeof(C) + ... + 0);
	static_assert(sizeof(got) >= total && (sizeof(got) == 1 || sizeof(got) / 2 < total), "smallest unsigned integer that fits");
	static_assert(std::is_unsigned_v<decltype(got)> || sizeof(got) == 16);
	VF_CHECK(wide(got) == w, "bit_pack");
	if constexpr (!std::is_void_v<Ret>)
	{
		using UR = mku<typename und<Ret>::t>;
		static_assert(std::is_same_v<decltype(bit_pack<Ret>(a, b, c...)), Ret>);
		VF_CHECK(static_cast<UR>(bit_pack<Ret>(a, b, c...)) == static_cast<UR>(w), "bit_pack<Ret>");
	}
}
template <class Ret, class A, class B> static void pack2(const char* n)
{
	vf::text(n);
	int i = 0;
	for (A a : samples<A>()) for (B b : samples<B>())
	{
		i++;
		if (!mine_()) continue;
		vf::at(i), vf::state(), vf::trans();
		pack_one<Ret>(a, b);
	}
}
template <class Ret, class A, class B, class C> static void pack3(const char* n)
{
	vf::text(n);
	int i = 0;
	for (A a : samples<A>()) for (B b : samples<B>()) for (C c : samples<C>())
	{
		i++;
		if (!mine_()) continue;
		vf::at(i), vf::state(), vf::trans();
		pack_one<Ret>(a, b, c);
		if constexpr (sizeof(A) + sizeof(B) + sizeof(C) <= sizeof(wide) - sizeof(A)) pack_one<void>(a, b, c, a);
	}
}

// ---- swizzle
template <class T, size_t... I> static void swz(T v)
{
	using U = typename und<T>::t;
	unsigned char mem[sizeof(U)];
	const U raw = static_cast<U>(v);
	memcpy(mem, &raw, sizeof raw);
	wide w = 0;
	((w = wide((w << 8) | mem[I])), ...);
	const auto got = swizzle<I...>(v);
	constexpr size_t n = sizeof...(I);
	static_assert(sizeof(got) >= n && (sizeof(got) == 1 || sizeof(got) / 2 < n));
	wide g = 0;
	memcpy(&g, &got, sizeof got); // little-endian build
	VF_CHECK(g == w, "swizzle of %d bytes", int(n));
}
template <class T> static void swz_all(const char* name)
{
	vf::text(name);
	int i = 0;
	for (T v : samples<T>())
	{
		i++;
		if (!mine_()) continue;
		vf::at(i), vf::state(), vf::trans(20);
		swz<T, 0>(v), swz<T, 0, 0>(v), swz<T, 0, 0, 0>(v), swz<T, 0, 0, 0, 0, 0>(v);
		if constexpr (sizeof(T) >= 2) swz<T, 1>(v), swz<T, 1, 0>(v), swz<T, 0, 1>(v), swz<T, 1, 0, 1>(v), swz<T, 1, 1, 0, 0>(v);
		if constexpr (sizeof(T) >= 4)
			swz<T, 3>(v), swz<T, 3, 2, 3>(v), swz<T, 3, 2, 1, 0>(v), swz<T, 0, 1, 2, 3>(v), swz<T, 2, 0, 3, 1>(v), swz<T, 1, 2>(v),
				swz<T, 3, 2, 1, 0, 1, 2, 3>(v), swz<T, 0, 1, 2, 3, 0, 1, 2, 3>(v);
		if constexpr (sizeof(T) >= 8)
			swz<T, 7>(v), swz<T, 7, 0>(v), swz<T, 0, 1, 2, 3, 4, 5, 6, 7>(v), swz<T, 7, 6, 5, 4, 3, 2, 1, 0>(v), swz<T, 4, 7, 5>(v);
		if constexpr (sizeof(T) >= 8 && HAVE128)
			swz<T, 7, 6, 5, 4, 3, 2, 1, 0, 0, 1, 2, 3, 4, 5, 6, 7>(v), swz<T, 0, 7, 1, 6, 2, 5, 3, 4, 0>(v);
	}
}

// ---- compile time
template <class U> struct ct_row { int clz, ctz, clo, cto, pc; bool single; U w, fl, ce, rev; };
template <class U> constexpr ct_row<U> ct(U v, bool ceil_ok)
{
	return { countl_zero(v), countr_zero(v), countl_one(v), countr_one(v), popcount(v), has_single_bit(v), bit_width(v), bit_floor(v),
			 ceil_ok ? bit_ceil(v) : U(0), byte_reverse(v) };
}
template <class U> constexpr bool ceil_ok(U v) { return v <= U(U(1) << (sizeof(U) * 8 - 1)); }
constexpr int PER = 6;
template <class U> constexpr U ct_value(size_t i)
{
	if constexpr (sizeof(U) == 1) return U(i);
	const size_t b = i / PER;
	const U one_ = U(U(1) << b);
	switch (i % PER)
	{
		case 0: return one_;
		case 1: return U(one_ - 1);
		case 2: return U(~one_);
		case 3: return U(~U(one_ - 1));
		case 4: return U(one_ | 1);
		default: return U(U(one_ * 0xB5) ^ U(i));
	}
}
template <class U> constexpr size_t ct_n = sizeof(U) == 1 ? 256 : sizeof(U) * 8 * PER;
template <class U> constexpr auto ct_table()
{
	std::array<ct_row<U>, ct_n<U>> t{};
	for (size_t i = 0; i < ct_n<U>; i++) t[i] = ct(ct_value<U>(i), ceil_ok(ct_value<U>(i)));
	return t;
}
template <class U> static void compile_time(const char* name)
{
	vf::text(name);
	static constexpr auto tab = ct_table<U>();
	for (size_t i = 0; i < ct_n<U>; i++)
	{
		if (!mine_()) continue;
		const U v = ct_value<U>(i);
		vf::at(int64_t(i)), vf::state(), vf::trans(10);
		const bits_of<U> r(v), n(static_cast<U>(~v));
		constexpr int N = sizeof(U) * 8;
		VF_CHECK(tab[i].clz == N - 1 - r.top && tab[i].ctz == r.low && tab[i].clo == N - 1 - n.top && tab[i].cto == n.low, "constexpr counts");
		VF_CHECK(tab[i].pc == r.pc && tab[i].single == (r.pc == 1) && tab[i].w == U(r.top + 1), "constexpr popcount/width");
		VF_CHECK(tab[i].fl == (v ? U(U(1) << r.top) : U(0)), "constexpr bit_floor");
		if (ceil_ok(v)) VF_CHECK(tab[i].ce == (r.pc == 0 ? U(1) : r.pc == 1 ? v : U(U(1) << (r.top + 1))), "constexpr bit_ceil");
		VF_CHECK(tab[i].rev == ref_reverse<U>(v), "constexpr byte_reverse");
	}
}
static_assert(byte_select(0xAABBCCDDu, 3) == 0xAA && byte_select<0>(0xAABBCCDDu) == 0xDD && swizzle<3, 2, 3>(0xAABBCCDDu) == 0x00AABBAAu);
static_assert(bit_pack(u16(0xAABB), u16(0xCCDD), u16(0xEEFF)) == 0x0000AABBCCDDEEFFull);
static_assert(bit_fill_left<u32>(5) == 0xF8000000u && bit_fill_right<u64>(64) == ~0ull);

// ---- bit_cast
static void casts()
{
	for (u32 i = 0; i < 65536; i++)
	{
		if (!mine_()) continue;
		vf::at(i), vf::state(), vf::trans(3);
		const u32 b = i << 16 | (i ^ 0x8001);
		float f;
		memcpy(&f, &b, 4);
		VF_CHECK(bit_cast<u32>(bit_cast<float>(b)) == b, "bit_cast u32 -> float -> u32");
		VF_CHECK((bit_cast<std::array<u8, 4>>(b)[1] == u8(b >> 8)), "bit_cast to array");
		struct s { u16 a, b; };
		VF_CHECK(bit_cast<s>(b).b == u16(b >> 16) && bit_cast<u32>(s{ u16(b), u16(b >> 16) }) == b, "bit_cast struct");
		VF_CHECK(bit_cast<u64>(bit_cast<double>(u64(b) << 32 | ~b)) == (u64(b) << 32 | u32(~b)), "bit_cast u64");
	}
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	ref_init();
#define X(T) all_values<T>(#T);
	if (vf::group("values"))
	{
		X(u8) X(u16) X(u32) X(u64) X(unsigned long) X(unsigned long long) X(unsigned) X(unsigned short) X(unsigned char)
		X(char16_t) X(char32_t) X(e8) X(e16) X(e32) X(e64) X(f32_)
#ifdef __cpp_char8_t
		X(char8_t)
#endif
#if HAVE128
		X(u128)
#endif
	}
#undef X
#define X(T) signed_bytes<T>(#T);
	if (vf::group("signed_bytes")) { X(int8_t) X(int16_t) X(int) X(long) X(long long) X(char) X(wchar_t) X(s8_) X(s32_) X(s64_) }
#undef X
	if (vf::group("u32_all"))
	{
		vf::text("u32");
		const u64 step = vf::thorough ? 1 : 1;
#ifdef SAN
		const u64 limit = u64(1) << 24;
#else
		const u64 limit = u64(1) << 32;
#endif
		for (u64 block = 0; block < limit; block += 65536)
		{
			if (!mine_()) continue;
			for (u64 i = block; i < block + 65536; i += step)
			{
				vf::at(int64_t(i));
				one<u32>(u32(i));
			}
			vf::state(65536), vf::trans(655360);
		}
	}
#define X(T) fills<T>(#T);
	if (vf::group("fill"))
	{
		X(u8) X(u16) X(u32) X(u64) X(unsigned long long) X(e8) X(e16) X(e32) X(e64) X(char32_t)
#if HAVE128
		X(u128)
#endif
	}
#undef X
	if (vf::group("pack"))
	{
#define P2(R, A, B) pack2<R, A, B>(#R " " #A " " #B);
#define P3(R, A, B, C) pack3<R, A, B, C>(#R " " #A " " #B " " #C);
		P2(u16, u8, u8) P2(u32, u8, u8) P2(int16_t, u8, u8) P2(u32, u16, u16) P2(u32, u8, u16) P2(u64, u16, u8) P2(int64_t, u32, u32)
		P2(u64, u32, u32) P2(u64, u8, u32) P2(void, u16, u32) P2(u32, int8_t, int8_t) P2(int, int16_t, u16) P2(int, u16, int16_t)
		P2(u64, int, int) P2(int64_t, int, int) P2(u64, int8_t, int) P2(void, short, u8) P2(u32, e8, e16) P2(u64, e32, e32)
		P2(u32, e16, u16) P2(u32, u16, e16) P2(e32, u16, u16) P2(e32, e16, e8) P2(u64, s32_, int) P2(s64_, s32_, u16) P2(u32, s8_, s8_)
		P2(u16, unsigned char, char) P2(u64, char16_t, char32_t)
		P3(u32, u8, u8, u8) P3(u64, u16, u16, u16) P3(u64, u8, u16, u32) P3(void, u32, u16, u8) P3(u64, int8_t, int16_t, int)
		P3(int64_t, int8_t, int, int8_t) P3(u32, e8, u8, int8_t) P3(e32, u8, e8, u8) P3(void, s8_, u8, e16)
#if HAVE128
		P2(u128, u64, u64) P2(__int128, u64, u32) P2(void, int64_t, int64_t) P2(u128, u8, u64) P2(u128, int8_t, e64)
		P3(u128, u32, u32, u32) P3(u128, u8, u64, u32) P3(void, u64, int16_t, u8) P3(__int128, int, int64_t, int)
		
#endif
	}
#define X(T) swz_all<T>(#T);
	if (vf::group("swizzle")) { X(u8) X(u16) X(u32) X(u64) X(int8_t) X(int16_t) X(int) X(long) X(long long) X(unsigned long long) X(e8) X(e16) X(e32) X(e64) X(s8_) X(s32_) X(s64_) X(char16_t) }
#undef X
#define X(T) compile_time<T>(#T);
	if (vf::group("compile_time"))
	{
		X(u8) X(u16) X(u32) X(u64) X(unsigned long long)
#if HAVE128
		X(u128)
#endif
	}
	if (vf::group("bit_cast")) casts();
	return vf::finish();
}
