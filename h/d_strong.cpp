// D12: an operation on strong_typedefs is the operation on the values they hold, for every value (pair) of the grids,
// every trait and every kind of value type; operators the value type lacks are absent; nothing converts implicitly.
#include "muu/half.h"
#include "muu/strong_typedef.h"
#include "vf.h"
#include <array>
#include <limits>
#include <memory>
#include <string>
#include <functional>

namespace tr = muu::strong_typedef_traits;
template <typename V, typename Tag, template <typename> typename... Tr>
using st = muu::strong_typedef<V, Tag, Tr...>;
struct tag_a; // incomplete on purpose
struct tag_b;

// a class type with every operator, none of them commutative or symmetric, that counts its own copies
struct noisy
{
	int v							   = 0;
	static inline int copies		   = 0;
	noisy()							   = default;
	constexpr noisy(int x) : v{ x } {}
	constexpr noisy(const noisy& o) : v{ o.v }
	{
		if (!__builtin_is_constant_evaluated())
			copies++;
	}
	constexpr noisy(noisy&& o) noexcept : v{ o.v } { o.v = -777; }
	noisy& operator=(const noisy&) = default;
	noisy& operator=(noisy&& o) noexcept
	{
		v	= o.v;
		o.v = -778;
		return *this;
	}
	friend constexpr bool operator==(const noisy& a, const noisy& b) noexcept { return a.v % 3 == b.v; }
	friend constexpr bool operator!=(const noisy& a, const noisy& b) { return a.v % 4 != b.v; } // not the complement
	friend constexpr bool operator<(const noisy& a, const noisy& b) { return a.v + 1 < b.v; }
	friend constexpr bool operator<=(const noisy& a, const noisy& b) { return a.v + 2 <= b.v; }
	friend constexpr bool operator>(const noisy& a, const noisy& b) { return a.v - 1 > b.v; }
	friend constexpr bool operator>=(const noisy& a, const noisy& b) { return a.v - 2 >= b.v; }
	explicit constexpr operator bool() const noexcept { return v > 2; }
	friend constexpr bool operator!(const noisy& a) { return a.v > 3; } // not the complement
	friend constexpr noisy operator+(const noisy& a, const noisy& b) { return noisy{ a.v * 10 + b.v }; }
	friend constexpr noisy operator-(const noisy& a, const noisy& b) noexcept { return noisy{ a.v * 20 + b.v }; }
	friend constexpr noisy operator+(const noisy& a) { return noisy{ a.v + 1000 }; }
	friend constexpr noisy operator-(const noisy& a) { return noisy{ a.v + 2000 }; }
	constexpr noisy& operator++()
	{
		v += 5;
		return *this;
	}
	constexpr noisy operator++(int)
	{
		noisy old{ v };
		v += 7;
		return old;
	}
	constexpr noisy& operator--()
	{
		v -= 5;
		return *this;
	}
	constexpr noisy operator--(int)
	{
		noisy old{ v };
		v -= 7;
		return old;
	}
	template <typename T>
	friend constexpr T* operator+(T* p, const noisy& a)
	{
		return p + a.v;
	}
	template <typename T>
	friend constexpr T* operator+(const noisy& a, T* p)
	{
		return p + a.v + 1;
	}
	template <typename T>
	friend constexpr T* operator-(T* p, const noisy& a)
	{
		return p - a.v;
	}
	template <typename T>
	friend constexpr T* operator-(const noisy& a, T* p)
	{
		return p - a.v - 1;
	}
};
namespace std
{
	template <>
	struct hash<noisy>
	{
		size_t operator()(const noisy& n) const noexcept
		{
			return static_cast<size_t>(n.v) * 31u + 7u;
		}
	};
}
struct only_eq
{
	int v;
	friend constexpr bool operator==(const only_eq& a, const only_eq& b) { return a.v == b.v; }
#if __cplusplus > 201703L // C++20 would rewrite != from ==; keep it really absent
	friend constexpr bool operator!=(const only_eq&, const only_eq&) = delete;
#endif
};
struct only_lt
{
	int v;
	friend constexpr bool operator<(const only_lt& a, const only_lt& b) { return a.v < b.v; }
};
struct only_bool
{
	int v;
	explicit constexpr operator bool() const { return v == 2; }
	bool operator!() const = delete;
};
struct implicit_bool
{
	int v;
	constexpr operator bool() const { return v == 2; }
};
struct nothing
{
	int v;
};
enum class colour : int8_t
{
	red	  = -1,
	green = 5
};

// ---- grids
template <typename V>
std::vector<V> grid()
{
	if constexpr (std::is_same_v<V, bool>)
		return { false, true };
	else if constexpr (std::is_same_v<V, noisy>)
	{
		std::vector<V> r;
		for (int i = -2; i <= 5; i++)
			r.emplace_back(i);
		return r;
	}
	else if constexpr (std::is_same_v<V, colour>)
		return { colour::red, colour::green };
	else if constexpr (std::is_same_v<V, std::string>)
		return { "", "a", "b", "ab", std::string(40, 'x') };
	else if constexpr (muu::is_floating_point<V>)
		return { V(0.0f), V(-0.0f), V(1.0f), V(-1.0f), V(1.5f), V(1000.0f), std::numeric_limits<V>::quiet_NaN(),
				 std::numeric_limits<V>::infinity(), -std::numeric_limits<V>::infinity() };
	else if constexpr (std::is_unsigned_v<V> || std::is_same_v<V, unsigned __int128>)
		return { V(0), V(1), V(2), V(3), V(100), V(V(~V(0)) / 2), V(V(~V(0)) / 2 + 1), V(~V(0)) };
	else
		return { V(0), V(1), V(-1), V(2), V(-2), V(50), V(-50), V(60) };
}
template <typename V>
bool same(const V& a, const V& b)
{
	if constexpr (std::is_same_v<V, noisy>)
		return a.v == b.v;
	else if constexpr (muu::is_floating_point<V>)
	{
		if (static_cast<double>(a) != static_cast<double>(a))
			return static_cast<double>(b) != static_cast<double>(b);
		return static_cast<double>(a) == static_cast<double>(b) && (1.0 / static_cast<double>(a) == 1.0 / static_cast<double>(b));
	}
	else
		return a == b;
}

template <int Id, typename V>
void compare()
{
	using T = st<V, tag_a, tr::comparable>;
	auto g	= grid<V>();
	for (size_t i = 0; i < g.size(); i++)
		for (size_t j = 0; j < g.size(); j++)
		{
			const V a = g[i], b = g[j];
			const T x{ a }, y{ b };
			vf::at(Id, i, j);
			vf::state();
			vf::trans(6);
			VF_CHECK((x == y) == (a == b), "== differs from the values' ==");
			VF_CHECK((x != y) == (a != b), "!= differs from the values' !=");
			VF_CHECK((x < y) == (a < b), "< differs from the values' <");
			VF_CHECK((x <= y) == (a <= b), "<= differs from the values' <=");
			VF_CHECK((x > y) == (a > b), "> differs from the values' >");
			VF_CHECK((x >= y) == (a >= b), ">= differs from the values' >=");
			VF_CHECK(same<V>(x.value, a) && same<V>(y.value, b), "comparing changed an operand");
		}
	vf::at(Id, -1);
	VF_CHECK((noexcept(std::declval<const T&>() == std::declval<const T&>())
			  == noexcept(std::declval<const V&>() == std::declval<const V&>())),
			 "noexcept of ==");
	VF_CHECK((noexcept(std::declval<const T&>() < std::declval<const T&>())
			  == noexcept(std::declval<const V&>() < std::declval<const V&>())),
			 "noexcept of <");
}
template <int Id, typename V>
void boolean()
{
	using T = st<V, tag_a, tr::boolean>;
	int n	= 0;
	for (V a : grid<V>())
	{
		const T x{ a };
		vf::at(Id, n++);
		vf::state();
		vf::trans(2);
		VF_CHECK(static_cast<bool>(x) == static_cast<bool>(a), "conversion to bool");
		VF_CHECK((!x) == (!a), "logical not");
	}
	VF_CHECK((!std::is_convertible_v<T, bool> && !std::is_convertible_v<T, int>), "the conversion to bool is implicit");
}
template <int Id, typename V>
void arith()
{
	using A = st<V, tag_a, tr::addable>;
	using S = st<V, tag_a, tr::subtractable>;
	auto g	= grid<V>();
	for (size_t i = 0; i < g.size(); i++)
	{
		const V a = g[i];
		for (size_t j = 0; j < g.size(); j++)
		{
			const V b = g[j];
			vf::at(Id, i, j);
			vf::state();
			vf::trans(2);
			VF_CHECK(same<V>((A{ a } + A{ b }).value, static_cast<V>(a + b)), "x + y is not a typedef of the values' sum");
			VF_CHECK(same<V>((S{ a } - S{ b }).value, static_cast<V>(a - b)), "x - y is not a typedef of the values' difference");
		}
		vf::at(Id, i, -1);
		vf::trans(2);
		VF_CHECK(same<V>((+A{ a }).value, static_cast<V>(+a)), "+x is not a typedef of the value's plus");
		VF_CHECK(same<V>((-S{ a }).value, static_cast<V>(-a)), "-x is not a typedef of the value's negation");
	}
	VF_CHECK((std::is_same_v<decltype(std::declval<const A&>() + std::declval<const A&>()), A>), "type of x + y");
	VF_CHECK((std::is_same_v<decltype(-std::declval<const S&>()), S>), "type of -x");
}
template <int Id, typename V>
void steps()
{
	using I = st<V, tag_a, tr::incrementable>;
	using D = st<V, tag_a, tr::decrementable>;
	int n	= 0;
	for (V a : grid<V>())
	{
		if constexpr (std::is_signed_v<V> && std::is_integral_v<V>)
			if (a == std::numeric_limits<V>::max() || a == std::numeric_limits<V>::min())
				continue;
		vf::at(Id, n++);
		vf::state();
		vf::trans(4);
		{
			I x{ a };
			V v	   = a;
			I& ret = ++x;
			++v;
			VF_CHECK(&ret == &x && same<V>(x.value, v), "++x");
			V w	  = v;
			I old = x++;
			V ov  = w++;
			VF_CHECK(same<V>(old.value, ov) && same<V>(x.value, w), "x++");
		}
		{
			D x{ a };
			V v	   = a;
			D& ret = --x;
			--v;
			VF_CHECK(&ret == &x && same<V>(x.value, v), "--x");
			V w	  = v;
			D old = x--;
			V ov  = w--;
			VF_CHECK(same<V>(old.value, ov) && same<V>(x.value, w), "x--");
		}
	}
}
template <int Id, typename V, typename E>
void pointers()
{
	using P = st<V, tag_a, tr::pointer_arithmetic>;
	static E buf[16];
	for (int base = 0; base <= 10; base++)
		for (int o = 0; o <= 5; o++)
		{
			const P x{ static_cast<V>(o) };
			const V v = static_cast<V>(o);
			vf::at(Id, base, o);
			vf::state();
			vf::trans(3);
			VF_CHECK(buf + base + x == buf + base + v, "p + x");
			VF_CHECK(x + (buf + base) == v + (buf + base), "x + p");
			VF_CHECK(buf + base + 5 - x == buf + base + 5 - v, "p - x");
			const E* cp = buf + base;
			VF_CHECK(cp + x == cp + v, "const p + x");
			VF_CHECK((std::is_same_v<decltype(cp + x), const E*>), "type of const p + x");
		}
}
template <int Id, typename V>
void refs()
{
	using T = st<V, tag_a>;
	int n	= 0;
	for (V a : grid<V>())
	{
		vf::at(Id, n++);
		vf::state();
		vf::trans(4);
		T x{ a };
		const T& cx = x;
		VF_CHECK(&static_cast<V&>(x) == &x.value, "cast to value_type& does not refer to the held value");
		VF_CHECK(&static_cast<const V&>(x) == &x.value, "cast to const value_type& does not refer to the held value");
		VF_CHECK(&static_cast<const V&>(cx) == &x.value, "const cast to const value_type&");
		T y = x;
		VF_CHECK(same<V>(y.value, a) && same<V>(x.value, a), "copying");
		T z = std::move(y);
		VF_CHECK(same<V>(z.value, a), "moving");
		T w{ grid<V>()[1] };
		w = z;
		VF_CHECK(same<V>(w.value, a), "assigning");
		w = T{ grid<V>()[1] };
		VF_CHECK(same<V>(w.value, grid<V>()[1]), "move-assigning");
		if constexpr (std::is_default_constructible_v<std::hash<V>>)
			VF_CHECK(std::hash<T>{}(x) == std::hash<V>{}(a), "std::hash is not the value's hash");
	}
	using U = st<V, tag_b>;
	VF_CHECK((!std::is_convertible_v<V, T> && !std::is_convertible_v<T, V> && !std::is_convertible_v<T, V&>),
			 "implicit conversion to or from the value type");
	VF_CHECK((!std::is_constructible_v<T, U> && !std::is_constructible_v<U, T> && !std::is_assignable_v<T&, U>
			  && !std::is_convertible_v<T, U>),
			 "typedefs with different tags can be mixed");
	VF_CHECK((std::is_constructible_v<T, V> && !std::is_assignable_v<T&, V>), "explicit construction only");
	VF_CHECK((!std::is_constructible_v<V&, const T&>), "a const typedef gives write access to its value");
	VF_CHECK((std::is_same_v<typename T::value_type, V> && std::tuple_size<T>::value == 1
			  && std::is_same_v<std::tuple_element_t<0, T>, V>),
			 "member types");
	VF_CHECK(sizeof(T) == sizeof(V) && alignof(T) == alignof(V), "size");
	VF_CHECK(std::is_trivially_copyable_v<T> == std::is_trivially_copyable_v<V>, "trivially copyable");
}

// ---- which operators exist
#define HAS(name, expr)                                                                                                \
	template <typename T, typename = void>                                                                             \
	constexpr bool name = false;                                                                                       \
	template <typename T>                                                                                              \
	constexpr bool name<T, std::void_t<decltype(expr)>> = true;
#define X_ std::declval<const T&>()
HAS(h_eq, X_ == X_)
HAS(h_ne, X_ != X_)
HAS(h_lt, X_ < X_)
HAS(h_le, X_ <= X_)
HAS(h_gt, X_ > X_)
HAS(h_ge, X_ >= X_)
HAS(h_not, !X_)
HAS(h_add, X_ + X_)
HAS(h_sub, X_ - X_)
HAS(h_pos, +X_)
HAS(h_neg, -X_)
HAS(h_pre, ++std::declval<T&>())
HAS(h_post, std::declval<T&>()++)
HAS(h_dpre, --std::declval<T&>())
HAS(h_dpost, std::declval<T&>()--)
HAS(h_pa, std::declval<int*>() + X_)
HAS(h_ap, X_ + std::declval<int*>())
HAS(h_ps, std::declval<int*>() - X_)
HAS(h_sp, X_ - std::declval<int*>())

template <int Id, typename V>
void presence()
{
	using N = st<V, tag_a>;
	using C = st<V, tag_a, tr::comparable>;
	using B = st<V, tag_a, tr::boolean>;
	using A = st<V, tag_a, tr::addable>;
	using S = st<V, tag_a, tr::subtractable>;
	using I = st<V, tag_a, tr::incrementable>;
	using D = st<V, tag_a, tr::decrementable>;
	using P = st<V, tag_a, tr::pointer_arithmetic>;
	vf::at(Id);
	vf::state();
	vf::trans(20);
#define IFF(h, T, U, what) VF_CHECK((h<T> == h<U>), what " present: %d, for the value type: %d", int(h<T>), int(h<U>))
	IFF(h_eq, C, V, "==");
	IFF(h_lt, C, V, "<");
	IFF(h_le, C, V, "<=");
	IFF(h_gt, C, V, ">");
	IFF(h_ge, C, V, ">=");
	VF_CHECK((h_ne<C> == (h_ne<V> || h_eq<V>)), "!= present: %d", int(h_ne<C>));
	IFF(h_add, A, V, "+");
	IFF(h_pos, A, V, "unary +");
	IFF(h_sub, S, V, "-");
	IFF(h_neg, S, V, "unary -");
	IFF(h_pre, I, V, "++x");
	IFF(h_post, I, V, "x++");
	IFF(h_dpre, D, V, "--x");
	IFF(h_dpost, D, V, "x--");
	IFF(h_pa, P, V, "p + x");
	IFF(h_ap, P, V, "x + p");
	IFF(h_ps, P, V, "p - x");
	// a typedef without traits has none of them, nor do other traits bring them
	VF_CHECK((!h_eq<N> && !h_ne<N> && !h_lt<N> && !h_le<N> && !h_gt<N> && !h_ge<N> && h_not<N> == std::is_same_v<V, bool> && !h_add<N> && !h_sub<N> && !h_pos<N>
			  && !h_neg<N> && !h_pre<N> && !h_post<N> && !h_dpre<N> && !h_dpost<N> && !h_pa<N> && !h_ap<N> && !h_ps<N>
			  && std::is_constructible_v<bool, N> == std::is_same_v<V, bool>),
			 "a typedef without traits has operators");
	VF_CHECK((!h_sub<A> && !h_neg<A> && !h_pre<A> && !h_eq<A> && !h_add<S> && !h_pos<S> && !h_dpre<I> && !h_dpost<I> && !h_pre<D>
			  && !h_post<D> && !h_lt<B> && !h_add<C> && !h_eq<P>),
			 "a trait brings another trait's operators");
}

// ---- callables
static int free_fn(int a, int b)
{
	return a * 100 + b;
}
struct fun
{
	int calls = 0;
	int operator()(int a) & { return ++calls, a + 1; }
	int operator()(int a) const& { return a + 2; }
	std::string operator()(std::string s, std::unique_ptr<int> p) const { return s + std::to_string(*p); }
	int& operator()(int& r, char) const noexcept { return r; }
};
static void callables()
{
	using F = st<int (*)(int, int), tag_a, tr::callable>;
	for (int a = -3; a <= 3; a++)
		for (int b = -3; b <= 3; b++)
		{
			const F f{ &free_fn };
			vf::at(0, a, b);
			vf::state();
			vf::trans();
			VF_CHECK(f(a, b) == free_fn(a, b), "calling through a typedef of a function pointer");
		}
	using O = st<fun, tag_a, tr::callable>;
	for (int a = -3; a <= 3; a++)
	{
		O f{ fun{} };
		const O& cf = f;
		vf::at(1, a);
		vf::state();
		vf::trans(4);
		VF_CHECK(f(a) == a + 1 && f.value.calls == 1, "a mutable call does not reach the mutable overload of the held object");
		VF_CHECK(cf(a) == a + 2 && f.value.calls == 1, "a const call does not reach the const overload");
		VF_CHECK(f(std::string("s"), std::make_unique<int>(a)) == "s" + std::to_string(a), "move-only arguments are forwarded");
		int r = a;
		VF_CHECK((&f(r, 'c') == &r && std::is_same_v<decltype(cf(r, 'c')), int&>), "the result's reference is not kept");
		VF_CHECK((noexcept(f(r, 'c')) && !noexcept(f(a))), "noexcept of a call");
	}
	VF_CHECK((!std::is_invocable_v<O, nothing> && !std::is_invocable_v<st<fun, tag_a>, int>), "invocable when the value is not");
}

// ---- reference value types
static void reference_values()
{
	for (int a = -3; a <= 3; a++)
		for (int b = -3; b <= 3; b++)
		{
			int i = a, j = b;
			using R = st<int&, tag_a, tr::comparable, tr::boolean, tr::incrementable, tr::pointer_arithmetic>;
			R x{ i }, y{ j };
			vf::at(a, b);
			vf::state();
			vf::trans(8);
			VF_CHECK(&x.value == &i && &static_cast<int&>(x) == &i, "a typedef of a reference refers to another object");
			VF_CHECK((x == y) == (a == b) && (x < y) == (a < b) && (x != y) == (a != b), "comparing referenced values");
			++x;
			VF_CHECK(i == a + 1, "++ through a reference");
			i = b;
			VF_CHECK((x == y) && !(x != y) && (x <= y) && (x >= y), "values read through a reference are stale");
			VF_CHECK(static_cast<bool>(x) == (b != 0) && !x == (b == 0), "bool through a reference");
			int buf[8];
			VF_CHECK(buf + 3 + x == buf + 3 + b, "pointer + reference");
			using CR = st<const int&, tag_a, tr::comparable>;
			CR c{ i }, d{ j };
			VF_CHECK(&static_cast<const int&>(c) == &i && (c == d) == (i == j), "const reference");
			R z = x;
			VF_CHECK(&z.value == &i, "copying a typedef of a reference");
		}
	VF_CHECK((!std::is_copy_assignable_v<st<int&, tag_a>>), "typedef of reference is assignable");
	VF_CHECK((!std::is_constructible_v<int&, st<const int&, tag_a>>), "const reference gives write access");
}

// ---- move-only, mixed traits, constant evaluation
static void special()
{
	vf::at(0);
	using U = st<std::unique_ptr<int>, tag_a, tr::boolean, tr::comparable>;
	VF_CHECK((!std::is_copy_constructible_v<U> && std::is_nothrow_move_constructible_v<U> && !std::is_copy_assignable_v<U>),
			 "typedef of a move-only type");
	U u{ std::make_unique<int>(5) };
	VF_CHECK(static_cast<bool>(u) && !!u, "bool of a unique_ptr");
	U w = std::move(u);
	VF_CHECK(!u && *w.value == 5 && u != w && !(u == w), "moving a unique_ptr");
	vf::at(1);
	noisy::copies = 0;
	noisy n{ 4 };
	st<noisy, tag_a> a{ n };
	VF_CHECK(noisy::copies == 1 && n.v == 4 && a.value.v == 4, "construction from an lvalue copies once");
	st<noisy, tag_a> b{ std::move(n) };
	VF_CHECK(noisy::copies == 1 && n.v == -777 && b.value.v == 4, "construction from an rvalue moves");
	vf::at(2);
	using all = st<int, tag_a, tr::comparable, tr::boolean, tr::addable, tr::subtractable, tr::incrementable, tr::decrementable,
				   tr::pointer_arithmetic>;
	VF_CHECK(sizeof(all) == sizeof(int) && std::is_trivially_copyable_v<all>, "all traits together cost nothing");
	for (int i = -4; i <= 4; i++)
		for (int j = -4; j <= 4; j++)
		{
			vf::at(3, i, j);
			vf::state();
			vf::trans(4);
			all x{ i }, y{ j };
			VF_CHECK((x + y).value == i + j && (x - y).value == i - j && (-x).value == -i && (+x).value == i, "arithmetic with all traits");
			VF_CHECK((x < y) == (i < j) && (x == y) == (i == j), "comparison with all traits");
			VF_CHECK((++x).value == i + 1 && (x--).value == i + 1 && x.value == i, "steps with all traits");
			VF_CHECK(static_cast<bool>(x) == (i != 0), "bool with all traits");
		}
	vf::at(4);
	constexpr all c1{ 3 }, c2{ 4 };
	static constexpr bool ct = (c1 < c2) && (c1 + c2).value == 7 && (c1 - c2).value == -1 && !!c1 && (c1 != c2)
							&& static_cast<const int&>(c1) == 3;
	VF_CHECK(ct, "constant evaluation");
	constexpr all zero{};
	VF_CHECK(zero.value == 0, "value-initialisation");
	vf::at(5);
	for (int i = 0; i < 4; i++)
		for (int j = 0; j < 4; j++)
		{
			vf::at(6, i, j);
			vf::state();
			vf::trans(5);
			using E = st<only_eq, tag_a, tr::comparable>;
			VF_CHECK((E{ only_eq{ i } } == E{ only_eq{ j } }) == (i == j), "== of a type that only has ==");
			VF_CHECK((E{ only_eq{ i } } != E{ only_eq{ j } }) == (i != j), "!= of a type that only has ==");
			using L = st<only_lt, tag_a, tr::comparable>;
			VF_CHECK((L{ only_lt{ i } } < L{ only_lt{ j } }) == (i < j), "< of a type that only has <");
			using IB = st<implicit_bool, tag_a, tr::boolean>;
			VF_CHECK(static_cast<bool>(IB{ implicit_bool{ i } }) == (i == 2) && !IB{ implicit_bool{ i } } == (i != 2),
					 "bool of a type converting implicitly");
		}
}

// ---- typedefs of typedefs
static void nested()
{
	using in	= st<int, tag_a, tr::comparable, tr::incrementable, tr::decrementable, tr::addable, tr::subtractable, tr::boolean>;
	using plain = st<int, tag_a>;
	using out	= st<in, tag_b, tr::comparable, tr::incrementable, tr::decrementable, tr::addable, tr::subtractable, tr::boolean>;
	using bare	= st<plain, tag_b, tr::comparable, tr::addable, tr::incrementable>;
	VF_CHECK((std::is_same_v<out::value_type, in> && sizeof(out) == sizeof(int)), "value_type of a nested typedef");
	VF_CHECK((!h_eq<bare> && !h_ne<bare> && !h_lt<bare> && !h_add<bare> && !h_pre<bare>),
			 "a nested typedef has operators its value type lacks");
	VF_CHECK((!std::is_constructible_v<out, int> && !std::is_constructible_v<int&, out&>), "a nested typedef skips a level");
	for (int a = -3; a <= 3; a++)
		for (int b = -3; b <= 3; b++)
		{
			vf::at(a, b);
			vf::state();
			vf::trans(8);
			out x{ in{ a } };
			const out y{ in{ b } };
			VF_CHECK(&static_cast<in&>(x) == &x.value && &static_cast<const in&>(y) == &y.value, "reference to the value");
			VF_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x >= y) == (a >= b), "comparison");
			VF_CHECK((x + y).value.value == a + b && (x - y).value.value == a - b && (-x).value.value == -a, "arithmetic");
			VF_CHECK(static_cast<bool>(x) == (a != 0) && !x == (a == 0), "bool");
			VF_CHECK((++x).value.value == a + 1 && (x--).value.value == a + 1 && x.value.value == a, "steps");
		}
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
#define EACH(f)                                                                                                        \
	f<0, int8_t>(), f<1, uint8_t>(), f<2, short>(), f<3, unsigned short>(), f<4, int>(), f<5, unsigned>(), f<6, int64_t>(),           \
		f<7, uint64_t>(), f<8, float>(), f<9, double>(), f<10, noisy>(), f<11, char>(), f<12, long double>(), f<13, muu::half>()
	if (vf::group("compare"))
	{
		EACH(compare);
		compare<20, bool>();
		compare<21, std::string>();
		compare<22, colour>();
		compare<23, __int128>();
	}
	if (vf::group("boolean"))
	{
		EACH(boolean);
		boolean<20, bool>();
	}
	if (vf::group("arith"))
		EACH(arith);
	if (vf::group("steps"))
		EACH(steps);
	if (vf::group("pointers"))
	{
		pointers<0, int, int>();
		pointers<1, size_t, std::string>();
		pointers<2, int8_t, char>();
		pointers<3, unsigned short, double>();
		pointers<4, int64_t, const int*>();
	}
	if (vf::group("noisypointer"))
	{
		static int buf[64];
		for (int o = 0; o < 10; o++)
		{
			vf::at(o);
			vf::state();
			vf::trans(4);
			const st<noisy, tag_a, tr::pointer_arithmetic> x{ noisy{ o } };
			int* p = buf + 20;
			VF_CHECK(p + x == p + o && x + p == p + o + 1 && p - x == p - o && x - p == p - o - 1,
					 "pointer arithmetic is not the value type's own operator");
		}
	}
	if (vf::group("refs"))
	{
		EACH(refs);
		refs<20, bool>();
		refs<21, std::string>();
		refs<22, colour>();
	}
	if (vf::group("presence"))
	{
		EACH(presence);
		presence<20, bool>();
		presence<21, std::string>();
		presence<22, colour>();
		presence<23, only_eq>();
		presence<24, only_lt>();
		presence<25, only_bool>();
		presence<26, implicit_bool>();
		presence<27, nothing>();
	}
	if (vf::group("callable"))
		callables();
	if (vf::group("reference"))
		reference_values();
	if (vf::group("nested"))
		nested();
	if (vf::group("special"))
		special();
	return vf::finish();
}
