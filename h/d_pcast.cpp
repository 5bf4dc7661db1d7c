// D14: pointer_cast<To>(from) points at the object its table of casts says, for every pair of types of a closed
// universe (values, cv-qualifiers, class hierarchies, pointers to pointers, functions, integers, enums), every kind of
// object actually pointed to, and null.
#include "muu/pointer_cast.h"
#include "vf.h"
#include <cstdint>
#include <utility>
#include <type_traits>

// ---- the objects ----------------------------------------------------------------------------------------------------
struct pad
{
	long long filler[3] = { 1, 2, 3 };
};
struct npb // non-polymorphic base
{
	int i = 5;
};
struct npd : pad, npb // at an offset
{
	int j = 6;
};
struct fin final : npd // two levels, both bases at an offset of npb
{
	int k = 7;
};
struct vb // polymorphic base
{
	virtual ~vb() = default;
	int i		  = 8;
};
struct vl : pad, virtual vb // at a run-time offset
{
	int j = 9;
};
struct vr : virtual vb
{
	int k = 10;
};
struct vd : vr, vl // a diamond
{
	int l = 11;
};
struct ob // another polymorphic class: siblings of vb
{
	virtual ~ob() = default;
	int m		  = 12;
};
struct vo : vd, ob
{};
enum class en : unsigned
{
};
union un
{
	int i;
	float f;
};

// one complete object of the most derived kind of everything, and smaller ones for the dynamic casts
static npb o_npb;
static npd o_npd;
static fin o_fin;
static vb o_vb;
static vl o_vl;
static vr o_vr;
static vd o_vd;
static vo o_vo;
static ob o_ob;
static en o_en;
static un o_un;
static int o_int[3];
static unsigned char o_uc;
static double o_dbl;
static int* o_pint = o_int;
static const int* o_pcint = o_int;
static void* o_pv = o_int;
static vb* o_pvb = &o_vb;
static int** o_ppint = &o_pint;
struct incomplete;

// the i-th address to try for a pointer to T: null, then pointers into real objects
template <typename T, typename... O>
static T* pick(size_t i, O&... o)
{
	T* list[] = { nullptr, static_cast<T*>(&o)... };
	return i < sizeof...(O) + 1 ? list[i] : nullptr;
}
template <typename T>
struct objs_;
#define OBJS(T, n, ...)                                                                                                \
	template <>                                                                                                        \
	struct objs_<T>                                                                                                    \
	{                                                                                                                  \
		static constexpr size_t count = n + 1;                                                                         \
		static T* get(size_t i) { return pick<T>(i, __VA_ARGS__); }                                                    \
	}
OBJS(npb, 3, o_npb, o_npd, o_fin);
OBJS(npd, 2, o_npd, o_fin);
OBJS(fin, 1, o_fin);
OBJS(pad, 4, o_npd, o_fin, o_vl, o_vo);
OBJS(vb, 5, o_vb, o_vl, o_vr, o_vd, o_vo);
OBJS(vl, 3, o_vl, o_vd, o_vo);
OBJS(vr, 3, o_vr, o_vd, o_vo);
OBJS(vd, 2, o_vd, o_vo);
OBJS(vo, 1, o_vo);
OBJS(ob, 2, o_ob, o_vo);
OBJS(en, 1, o_en);
OBJS(un, 1, o_un);
OBJS(int, 3, o_int[0], o_int[1], o_int[2]);
OBJS(unsigned char, 1, o_uc);
OBJS(double, 1, o_dbl);
OBJS(int*, 1, o_pint);
OBJS(const int*, 1, o_pcint);
OBJS(void*, 1, o_pv);
OBJS(vb*, 1, o_pvb);
OBJS(int**, 1, o_ppint);
template <>
struct objs_<int[3]>
{
	static constexpr size_t count = 2;
	static auto get(size_t i) { return i ? &o_int : nullptr; }
};
OBJS(void, 4, o_int, o_vo, o_fin, o_pint);
template <>
struct objs_<incomplete>
{
	static constexpr size_t count = 2;
	static incomplete* get(size_t i) { return i ? reinterpret_cast<incomplete*>(&o_dbl) : nullptr; }
};

template <typename... T>
struct types
{};
using universe = types<npb, npd, fin, pad, vb, vl, vr, vd, vo, ob, en, un, int, unsigned char, double, int*, const int*, void*, vb*,
					   int**, int[3], void, incomplete>;

template <typename T>
constexpr int kind() // position in the universe, for the case key
{
	int r = -1, i = 0;
	[&]<typename... U>(types<U...>) { ((std::is_same_v<U, T> ? r = i : 0, i++), ...); }
	(universe{});
	return r;
}

template <typename T>
constexpr bool cls = std::is_class_v<T>;
template <typename T>
struct complete_ : std::true_type
{};
template <>
struct complete_<incomplete> : std::false_type
{};
template <typename C, typename P>
constexpr bool derives()
{
	if constexpr (cls<C> && cls<P> && complete_<C>::value && complete_<P>::value && !std::is_same_v<C, P>)
		return std::is_base_of_v<P, C>;
	else
		return false;
}

// ---- the table ------------------------------------------------------------------------------------------------------
template <typename T, typename F>
static void* expected(F* f)
{
	if (!f)
		return nullptr;
	if constexpr (std::is_same_v<F, T>)
		return (void*)f;
	else if constexpr (derives<F, T>()) // derived -> base
	{
		T* t = f;
		return static_cast<void*>(t);
	}
	else if constexpr (derives<T, F>())
	{
		if constexpr (std::is_polymorphic_v<F>)
			return static_cast<void*>(dynamic_cast<T*>(f));
		else
			return static_cast<void*>(static_cast<T*>(f));
	}
	else
		return (void*)f;
}

// an incomplete class cannot be asked for its bases
template <typename F, typename T>
constexpr bool castable = (complete_<F>::value && complete_<T>::value) || !(std::is_class_v<F> && std::is_class_v<T>) || std::is_same_v<F, T>;

template <int CV, typename T>
struct qual_;
template <typename T>
struct qual_<0, T>
{
	using type = T;
};
template <typename T>
struct qual_<1, T>
{
	using type = const T;
};
template <typename T>
struct qual_<2, T>
{
	using type = volatile T;
};
template <typename T>
struct qual_<3, T>
{
	using type = const volatile T;
};
template <int CV, typename T>
using qual = typename qual_<CV, T>::type;

template <typename F, int FC, typename T, int TC>
static void one()
{
	vf::state();
	using from = qual<FC, F>*;
	using to   = qual<TC, T>*;
	static_assert(noexcept(muu::pointer_cast<to>(from{})));
	static_assert(std::is_same_v<decltype(muu::pointer_cast<to>(from{})), to>);
	// without a vtable to ask, casting down is only defined for objects that really are a T
	constexpr bool blind = []
	{
		if constexpr (derives<T, F>())
			return !std::is_polymorphic_v<F>;
		else
			return false;
	}();
	for (size_t i = 0; i < objs_<std::conditional_t<blind, T, F>>::count; i++)
	{
		vf::at(kind<F>(), FC, kind<T>(), TC, i);
		F* f;
		if constexpr (blind)
			f = objs_<T>::get(i);
		else
			f = objs_<F>::get(i);
		from q	  = f;
		to r	  = muu::pointer_cast<to>(q);
		void* got = const_cast<void*>(static_cast<const volatile void*>(r));
		void* exp;
		if constexpr (std::is_void_v<F> || std::is_void_v<T>)
			exp = (void*)f;
		else
			exp = expected<T, F>(f);
		VF_CHECK(got == exp, "pointer_cast is %+td bytes away from where its documented cast points (from null: %d, to null: %d)",
				 (char*)got - (char*)exp, f == nullptr, got == nullptr);
		vf::trans();
	}
}
template <typename F, typename T, int... C>
static void cvs(std::integer_sequence<int, C...>)
{
	if constexpr (castable<F, T>)
		(one<F, C / 4, T, C % 4>(), ...);
}
template <typename F, typename... T>
static void row(types<T...>)
{
	(cvs<F, T>(std::make_integer_sequence<int, 16>{}), ...);
}
template <typename... F>
static void all(types<F...>)
{
	int i = 0;
	((vf::mine((uint64_t)i++) ? row<F>(universe{}) : void()), ...);
}

// ---- integers -------------------------------------------------------------------------------------------------------
enum class e_up : uintptr_t
{
};
enum class e_ip : intptr_t
{
};
enum e_ll : long long
{
};
static const uintptr_t patterns[] = { 0,
									  1,
									  7,
									  0x7FFFFFFFull,
									  0x80000000ull,
									  0xFFFFFFFFull,
									  0x100000000ull,
									  0x0000'7FFF'FFFF'FFFFull,
									  0x0000'8000'0000'0000ull,
									  0x7FFF'FFFF'FFFF'FFFFull,
									  0x8000'0000'0000'0000ull,
									  0xFFFF'8000'0000'0001ull,
									  0xFFFF'FFFF'FFFF'FFFFull,
									  0x0123'4567'89AB'CDEFull,
									  0xFEDC'BA98'7654'3210ull };
template <typename I>
struct wide_
{
	using type = I;
};
template <>
struct wide_<e_up>
{
	using type = uintptr_t;
};
template <>
struct wide_<e_ip>
{
	using type = intptr_t;
};
template <>
struct wide_<e_ll>
{
	using type = long long;
};

template <typename P, typename I>
static void integer(int pk, int ik)
{
	using num = typename wide_<I>::type;
	// signed targets take the address as an intptr_t, unsigned ones as a uintptr_t
	constexpr bool sg = num(-1) < num(0);
	static_assert(std::is_same_v<decltype(muu::pointer_cast<I>(P{})), I>);
	static_assert(std::is_same_v<decltype(muu::pointer_cast<P>(I{})), P>);
	int n = 0;
	for (uintptr_t bits : patterns)
	{
		vf::at(pk, ik, n++);
		P p		= reinterpret_cast<P>(bits);
		num exp = sg ? num((intptr_t)bits) : num(bits);
		I i		= muu::pointer_cast<I>(p);
		VF_CHECK(num(i) == exp, "pointer to integer");
		P q = muu::pointer_cast<P>(i);
		VF_CHECK((uintptr_t)q == bits, "pointer to integer and back");
		P r = muu::pointer_cast<P>(static_cast<I>(exp));
		VF_CHECK((uintptr_t)r == bits, "integer to pointer");
		vf::trans(3);
	}
	vf::at(pk, ik, 99);
	VF_CHECK(num(muu::pointer_cast<I>(nullptr)) == num(0), "nullptr to integer");
	VF_CHECK(muu::pointer_cast<P>(nullptr) == P{}, "nullptr to pointer");
	VF_CHECK(num(muu::pointer_cast<I>(P{})) == num(0), "null pointer to integer");
}
template <typename... I>
struct ints
{};
template <typename P, typename... I>
static void integers(int pk, ints<I...>)
{
	int k = 0;
	(integer<P, I>(pk, k++), ...);
}

// ---- functions ------------------------------------------------------------------------------------------------------
static int f0() { return 1; }
static int f0n() noexcept { return 2; }
static void f1(int, double) {}
static void f1n(int, double) noexcept {}
static const char* f2(const char*, ...) { return ""; }
static const char* f2n(const char*, ...) noexcept { return ""; }

template <typename V, typename Fp>
static void via(Fp f, int k)
{
	vf::at(k);
	V* v = muu::pointer_cast<V*>(f);
	VF_CHECK(const_cast<void*>(v) == reinterpret_cast<void*>(f), "function to void*");
	Fp b = muu::pointer_cast<Fp>(v);
	VF_CHECK(b == f, "void* to function");
	vf::trans(2);
}
template <typename A, typename B>
static void function(int k, A a, B b) // A: without noexcept; B: with
{
	vf::at(k, 0);
	static_assert(!std::is_same_v<A, B>);
	VF_CHECK(muu::pointer_cast<A>(a) == a && muu::pointer_cast<B>(b) == b, "same function type");
	VF_CHECK(muu::pointer_cast<B>(a) == (void*)a, "function to noexcept function");
	VF_CHECK(muu::pointer_cast<A>(b) == (A)b, "noexcept function to function");
	VF_CHECK(muu::pointer_cast<A>(muu::pointer_cast<B>(a)) == a, "function there and back");
	via<void>(a, k * 10 + 1);
	via<const void>(a, k * 10 + 2);
	via<volatile void>(a, k * 10 + 3);
	via<const volatile void>(a, k * 10 + 4);
	via<void>(b, k * 10 + 5);
	via<const void>(b, k * 10 + 6);
	via<volatile void>(b, k * 10 + 7);
	via<const volatile void>(b, k * 10 + 8);
	vf::at(k, 9);
	VF_CHECK(muu::pointer_cast<uintptr_t>(a) == (uintptr_t)a && muu::pointer_cast<intptr_t>(b) == (intptr_t)b, "function to integer");
	VF_CHECK(muu::pointer_cast<A>((uintptr_t)a) == a && muu::pointer_cast<B>((intptr_t)b) == b, "integer to function");
	VF_CHECK(muu::pointer_cast<A>(nullptr) == nullptr, "nullptr to function");
	A null{};
	VF_CHECK(muu::pointer_cast<void*>(null) == nullptr && muu::pointer_cast<B>(null) == nullptr, "null function");
}

// ---- arrays and constant evaluation -----------------------------------------------------------------------------------
template <typename To, typename T, size_t N>
static void array(int k, T (&arr)[N])
{
	vf::at(k, N);
	VF_CHECK((const volatile void*)muu::pointer_cast<To>(arr) == (const volatile void*)&arr[0], "array to pointer");
	VF_CHECK((const volatile void*)muu::pointer_cast<To>(std::move(arr)) == (const volatile void*)&arr[0], "array rvalue to pointer");
	VF_CHECK(muu::pointer_cast<uintptr_t>(arr) == (uintptr_t)&arr[0], "array to integer");
}
static constexpr int c_arr[2] = { 1, 2 };
static constexpr npd c_npd{};
static int s_int;
static_assert(muu::pointer_cast<const int*>(c_arr) == &c_arr[0]);
static_assert(muu::pointer_cast<const npb*>(&c_npd) == static_cast<const npb*>(&c_npd));
static_assert(muu::pointer_cast<const npd*>(muu::pointer_cast<const npb*>(&c_npd)) == &c_npd);
static_assert(muu::pointer_cast<int*>(nullptr) == nullptr);
static_assert(muu::pointer_cast<volatile int*>(&s_int) == &s_int);
static_assert(muu::pointer_cast<int*>(muu::pointer_cast<const int*>(&s_int)) == &s_int);
static_assert(muu::pointer_cast<void*>(&s_int) == &s_int);

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	if (vf::group("objects"))
		all(universe{});
	if (vf::group("integers"))
	{
		using I = ints<uintptr_t, intptr_t, long, unsigned long, long long, unsigned long long, e_up, e_ip, e_ll
#ifdef __SIZEOF_INT128__
					   ,
					   __int128, unsigned __int128
#endif
					   >;
		integers<void*>(0, I{});
		integers<const void*>(1, I{});
		integers<int*>(2, I{});
		integers<const volatile npd*>(3, I{});
		integers<int**>(4, I{});
		integers<vb*>(5, I{});
		integers<incomplete*>(6, I{});
	}
	if (vf::group("functions"))
	{
		function(0, static_cast<int (*)()>(f0), static_cast<int (*)() noexcept>(f0n));
		function(1, static_cast<void (*)(int, double)>(f1), static_cast<void (*)(int, double) noexcept>(f1n));
		function(2, static_cast<const char* (*)(const char*, ...)>(f2), static_cast<const char* (*)(const char*, ...) noexcept>(f2n));
	}
	if (vf::group("arrays"))
	{
		static int a1[1], a3[3];
		static const double d2[2]{};
		static npd n2[2];
		static int m[2][3];
		static const char s[] = "text";
		array<int*>(0, a1);
		array<const int*>(1, a3);
		array<void*>(2, a3);
		array<unsigned char*>(3, d2);
		array<const volatile void*>(4, d2);
		array<npd*>(5, n2);
		array<int*>(6, m);
		array<const unsigned char*>(7, s);
		vf::at(8);
		VF_CHECK(muu::pointer_cast<npb*>(n2) == static_cast<npb*>(&n2[0]), "array of derived to base");
	}
	return vf::finish();
}
