// D16: the detecting traits of meta.h (operators, ranges, tuples, mutexes, callables), judged against probe types built
// from every combination of the ingredients the trait asks for.
#include "muu/half.h"
#include "muu/meta.h"
#include "muu/iterators.h"
#include "vf.h"
#include <array>
#include <cstdint>
#include <list>
#include <map>
#include <mutex>
#include <shared_mutex>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

template <typename A, typename B>
constexpr bool same = std::is_same_v<A, B>;
static void is(const char* trait, bool got, bool expected)
{
	VF_CHECK(got == expected, "%s is %d, should be %d", trait, got, expected);
	vf::trans();
}
static void eq(const char* trait, bool ok)
{
	VF_CHECK(ok, "%s is wrong", trait);
	vf::trans();
}
static void num(const char* trait, size_t got, size_t expected)
{
	VF_CHECK(got == expected, "%s is %zu, should be %zu", trait, got, expected);
	vf::trans();
}

// ---- operators ------------------------------------------------------------------------------------------------------
#define UNARY(X)                                                                                                       \
	X(0, indirection, *) X(1, unary_plus, +) X(2, unary_minus, -) X(3, bitwise_not, ~) X(4, logical_not, !)            \
		X(5, pre_increment, ++) X(6, pre_decrement, --)
#define POSTFIX(X) X(7, post_increment, ++) X(8, post_decrement, --)
#define BINARY(X)                                                                                                      \
	X(9, addition, +) X(10, subtraction, -) X(11, division, /) X(12, multiplication, *) X(13, modulo, %)               \
		X(14, bitwise_and, &) X(15, bitwise_or, |) X(16, bitwise_xor, ^) X(17, bitwise_lsh, <<) X(18, bitwise_rsh, >>) \
			X(19, logical_and, &&) X(20, logical_or, ||) X(21, equality, ==) X(22, inequality, !=) X(23, less_than, <) \
				X(24, less_than_or_equal, <=) X(25, greater_than, >) X(26, greater_than_or_equal, >=)
enum
{
	n_ops = 29 // + subscript 27, arrow 28
};
struct rhs
{};
struct result
{};
// Form of the operator: which objects it can be called on
template <size_t Op, int Form>
struct probe
{};
#define FORMS(X, ...) X(0, , __VA_ARGS__) X(1, const, __VA_ARGS__) X(2, &, __VA_ARGS__) X(3, const&, __VA_ARGS__) X(4, &&, __VA_ARGS__) X(5, volatile, __VA_ARGS__)
#define DEF_UNARY2(form, quals, i, op)                                                                                 \
	template <>                                                                                                        \
	struct probe<i, form>                                                                                              \
	{                                                                                                                  \
		result operator op() quals;                                                                                    \
	};
#define DEF_UNARY(i, name, op) FORMS(DEF_UNARY2, i, op)
UNARY(DEF_UNARY)
#define DEF_POSTFIX2(form, quals, i, op)                                                                               \
	template <>                                                                                                        \
	struct probe<i, form>                                                                                              \
	{                                                                                                                  \
		result operator op(int) quals;                                                                                 \
	};
#define DEF_POSTFIX(i, name, op) FORMS(DEF_POSTFIX2, i, op)
POSTFIX(DEF_POSTFIX)
#define DEF_BINARY2(form, quals, i, op)                                                                                \
	template <>                                                                                                        \
	struct probe<i, form>                                                                                              \
	{                                                                                                                  \
		result operator op(rhs) quals;                                                                                 \
	};
#define DEF_BINARY(i, name, op) FORMS(DEF_BINARY2, i, op)
BINARY(DEF_BINARY)
#define DEF_SUB2(form, quals, i)                                                                                       \
	template <>                                                                                                        \
	struct probe<i, form>                                                                                              \
	{                                                                                                                  \
		result operator[](rhs) quals;                                                                                  \
	};
#define DEF_ARROW2(form, quals, i)                                                                                     \
	template <>                                                                                                        \
	struct probe<i, form>                                                                                              \
	{                                                                                                                  \
		result* operator->() quals;                                                                                    \
	};
FORMS(DEF_SUB2, 27)
FORMS(DEF_ARROW2, 28)

// what an object expression of the given kind can call
//                      P  P&  P&&  cP  cP&  vP& cvP&
static constexpr bool callable[6][7] = {
	{ 1, 1, 1, 0, 0, 0, 0 }, // unqualified
	{ 1, 1, 1, 1, 1, 0, 0 }, // const
	{ 0, 1, 0, 0, 0, 0, 0 }, // &
	{ 1, 1, 1, 1, 1, 0, 0 }, // const&
	{ 1, 0, 1, 0, 0, 0, 0 }, // &&
	{ 1, 1, 1, 0, 0, 1, 0 }, // volatile
};
template <int K, typename P>
using object = std::tuple_element_t<K, std::tuple<std::common_type<P>, std::add_lvalue_reference<P>, std::add_rvalue_reference<P>, std::add_const<P>,
												  std::add_lvalue_reference<const P>, std::add_lvalue_reference<volatile P>,
												  std::add_lvalue_reference<const volatile P>>>;
template <typename P>
struct ident
{
	using type = P;
};
template <int K, typename P>
struct obj_
{
	using type = typename std::conditional_t<K == 0, ident<P>, object<K, P>>::type;
};

template <size_t Op, int Form, int K>
static void operators()
{
	using T			  = typename obj_<K, probe<Op, Form>>::type;
	constexpr bool ok = callable[Form][K];
	vf::at(Op, Form, K);
	vf::state();
#define EXPECT(i) ok&& Op == i
#define IS_UNARY(i, name, op) is("has_" #name "_operator", muu::has_##name##_operator<T>, EXPECT(i));
#define IS_BINARY(i, name, op)                                                                                         \
	is("has_" #name "_operator", muu::has_##name##_operator<T, rhs>, expect_binary(i));                                \
	is("has_" #name "_operator with the wrong operand", muu::has_##name##_operator<T, result>, false);
	auto expect_binary = [](size_t i) { return ok && Op == i; };
#if __cplusplus >= 202002L
	// a == b is also asked as !(a == b) ...; (the reversed forms need the operand types the other way round)
	auto expect_rewritten = [](size_t i) { return ok && (Op == i); };
	#define expect_binary expect_rewritten
#endif
	UNARY(IS_UNARY)
	POSTFIX(IS_UNARY)
	BINARY(IS_BINARY)
	is("has_subscript_operator", muu::has_subscript_operator<T, rhs>, EXPECT(27));
	is("has_arrow_operator", muu::has_arrow_operator<T>, EXPECT(28));
#undef expect_binary
}

// operators of built-in types and pointers, by the language's rules; the operand order is the table's column order above
struct builtin_row
{
	bool unary[7], postfix[2], binary[18];
};
template <typename T, typename U = T>
static void builtin(int k, builtin_row r)
{
	vf::at(k);
	vf::state();
	int i = 0;
#define BU(n, name, op) is("has_" #name "_operator", muu::has_##name##_operator<T>, r.unary[i++]);
	UNARY(BU)
	i = 0;
#define BP(n, name, op) is("has_" #name "_operator", muu::has_##name##_operator<T>, r.postfix[i++]);
	POSTFIX(BP)
	i = 0;
#define BB(n, name, op) is("has_" #name "_operator", muu::has_##name##_operator<T, U>, r.binary[i++]);
	BINARY(BB)
}
enum class sc
{
};
struct agg
{
	int i;
};
union un
{
	int i;
};

// ---- ranges ---------------------------------------------------------------------------------------------------------
// an iterator with any subset of: indirection, pre-increment, ==, !=
template <int Sub>
struct iter;
template <int Sub>
struct it_base
{};
#define ITER(n, A, B, C, D)                                                                                            \
	template <>                                                                                                        \
	struct iter<n>                                                                                                     \
	{                                                                                                                  \
		A B C D                                                                                                        \
	};
#define I_D int& operator*() const;
#define I_P iter& operator++();
#define I_E bool operator==(const iter&) const;
#define I_N bool operator!=(const iter&) const;
ITER(0, , , , )
ITER(1, I_D, , , )
ITER(2, , I_P, , )
ITER(3, I_D, I_P, , )
ITER(4, , , I_E, )
ITER(5, I_D, , I_E, )
ITER(6, , I_P, I_E, )
ITER(7, I_D, I_P, I_E, )
ITER(8, , , , I_N)
ITER(9, I_D, , , I_N)
ITER(10, , I_P, , I_N)
ITER(11, I_D, I_P, , I_N)
ITER(12, , , I_E, I_N)
ITER(13, I_D, , I_E, I_N)
ITER(14, , I_P, I_E, I_N)
ITER(15, I_D, I_P, I_E, I_N)
template <int Sub>
constexpr bool good_iter =
#if __cplusplus >= 202002L
	(Sub & 7) == 7; // != follows from ==
#else
	Sub == 15;
#endif
// a range with member begin (1), member end (2), free begin (4), free end (8)
namespace rng
{
	template <typename I, int Where>
	struct range;
	template <typename I>
	struct m_none
	{};
#define RANGE(n, ...)                                                                                                  \
	template <typename I>                                                                                              \
	struct range<I, n>                                                                                                 \
	{                                                                                                                  \
		__VA_ARGS__                                                                                                    \
	};
#define M_B I begin() const;
#define M_E I end() const;
	RANGE(0)
	RANGE(1, M_B)
	RANGE(2, M_E)
	RANGE(3, M_B M_E)
	RANGE(4)
	RANGE(5, M_B)
	RANGE(6, M_E)
	RANGE(7, M_B M_E)
	RANGE(8)
	RANGE(9, M_B)
	RANGE(10, M_E)
	RANGE(11, M_B M_E)
	RANGE(12)
	RANGE(13, M_B)
	RANGE(14, M_E)
	RANGE(15, M_B M_E)
	template <typename I, int W, typename = std::enable_if_t<(W & 4) != 0>>
	I begin(const range<I, W>&);
	template <typename I, int W, typename = std::enable_if_t<(W & 8) != 0>>
	I end(const range<I, W>&);
}
template <int Sub, int Where>
static void ranges()
{
	vf::at(Sub, Where);
	vf::state();
	using R				 = rng::range<iter<Sub>, Where>;
	// std::begin(r) forwards to the members too, so only complete pairs of one kind count
	constexpr bool pair	 = (Where & 3) == 3 || (Where & 12) == 12;
	constexpr bool expect = pair && good_iter<Sub>;
	is("is_iterable<R>", muu::is_iterable<R>, expect);
	is("is_iterable<R&>", muu::is_iterable<R&>, expect);
	is("is_iterable<const R&>", muu::is_iterable<const R&>, expect);
	is("is_iterable<R&&>", muu::is_iterable<R&&>, expect);
	is("is_iterable<volatile R&>", muu::is_iterable<volatile R&>, false);
}
template <typename B, typename E>
struct two_kinds // sentinel differs from the iterator
{
	B begin() const;
	E end() const;
};
struct sentinel
{};
struct s_iter
{
	int operator*() const;
	s_iter& operator++();
	bool operator==(sentinel) const;
	bool operator!=(sentinel) const;
};
struct void_range
{
	void begin();
	void end();
};
struct mutable_only
{
	int* begin();
	int* end();
};
struct lvalue_only
{
	int* begin() &;
	int* end() &;
};

// ---- mutexes --------------------------------------------------------------------------------------------------------
template <bool>
struct f_lock
{};
template <bool>
struct f_try
{};
template <bool>
struct f_unlock
{};
template <bool>
struct f_slock
{};
template <bool>
struct f_stry
{};
template <bool>
struct f_sunlock
{};
template <>
struct f_lock<true>
{
	void lock();
};
template <>
struct f_try<true>
{
	bool try_lock();
};
template <>
struct f_unlock<true>
{
	void unlock();
};
template <>
struct f_slock<true>
{
	void lock_shared();
};
template <>
struct f_stry<true>
{
	bool try_lock_shared();
};
template <>
struct f_sunlock<true>
{
	void unlock_shared();
};
template <size_t M>
struct mtx : f_lock<(M & 1) != 0>, f_try<(M & 2) != 0>, f_unlock<(M & 4) != 0>, f_slock<(M & 8) != 0>, f_stry<(M & 16) != 0>, f_sunlock<(M & 32) != 0>
{};
template <size_t M>
static void mutexes()
{
	vf::at(M);
	vf::state();
	constexpr bool m = (M & 7) == 7, s = M == 63;
	is("is_mutex_like<M>", muu::is_mutex_like<mtx<M>>, m);
	is("is_mutex_like<M&>", muu::is_mutex_like<mtx<M>&>, m);
	is("is_mutex_like<const M&>", muu::is_mutex_like<const mtx<M>&>, false);
	is("is_shared_mutex_like<M>", muu::is_shared_mutex_like<mtx<M>>, s);
	is("is_shared_mutex_like<M&>", muu::is_shared_mutex_like<mtx<M>&>, s);
	is("is_shared_mutex_like<const M&>", muu::is_shared_mutex_like<const mtx<M>&>, false);
}

// ---- data() and size() ------------------------------------------------------------------------------------------------
template <typename R>
struct with_data
{
	R data() const;
};
template <typename R>
struct with_size
{
	R size() const;
};
template <typename R>
static void data_size(int k, bool is_data, bool is_size)
{
	vf::at(k);
	vf::state();
	is("has_data_member_function", muu::has_data_member_function<with_data<R>>, is_data);
	is("has_data_member_function", muu::has_data_member_function<const with_data<R>&>, is_data);
	is("has_data_member_function", muu::has_data_member_function<volatile with_data<R>&>, false);
	is("has_data_member_function", muu::has_data_member_function<with_size<R>>, false);
	is("has_size_member_function", muu::has_size_member_function<with_size<R>>, is_size);
	is("has_size_member_function", muu::has_size_member_function<const with_size<R>&>, is_size);
	is("has_size_member_function", muu::has_size_member_function<with_data<R>>, false);
}

// ---- tuples -----------------------------------------------------------------------------------------------------------
struct only_size
{};
struct size_and_element
{};
struct member_get
{
	int v[3] = { 10, 20, 30 };
	template <size_t I>
	constexpr int& get() &
	{
		return v[I];
	}
	template <size_t I>
	constexpr const int& get() const&
	{
		return v[I];
	}
	template <size_t I>
	constexpr int&& get() &&
	{
		return static_cast<int&&>(v[I]);
	}
};
namespace adl
{
	struct adl_get
	{
		int v[3] = { 40, 50, 60 };
	};
	template <size_t I>
	constexpr int& get(adl_get& t)
	{
		return t.v[I];
	}
	template <size_t I>
	constexpr const int& get(const adl_get& t)
	{
		return t.v[I];
	}
	template <size_t I>
	constexpr int&& get(adl_get&& t)
	{
		return static_cast<int&&>(t.v[I]);
	}
}
namespace std
{
	template <>
	struct tuple_size<only_size> : integral_constant<size_t, 2>
	{};
	template <>
	struct tuple_size<size_and_element> : integral_constant<size_t, 2>
	{};
	template <size_t I>
	struct tuple_element<I, size_and_element>
	{
		using type = int;
	};
	template <>
	struct tuple_size<member_get> : integral_constant<size_t, 3>
	{};
	template <size_t I>
	struct tuple_element<I, member_get>
	{
		using type = int;
	};
	template <>
	struct tuple_size<adl::adl_get> : integral_constant<size_t, 3>
	{};
	template <size_t I>
	struct tuple_element<I, adl::adl_get>
	{
		using type = int;
	};
}
template <typename T>
static void tuple_like(int k, bool like, size_t size)
{
	vf::at(k);
	vf::state();
	is("is_tuple_like<T>", muu::is_tuple_like<T>, like);
	is("is_tuple_like<const T>", muu::is_tuple_like<const T>, like);
	is("is_tuple_like<T&>", muu::is_tuple_like<T&>, like);
	is("is_tuple_like<const T&>", muu::is_tuple_like<const T&>, like);
	is("is_tuple_like<T&&>", muu::is_tuple_like<T&&>, like);
	is("is_tuple_like<volatile T&>", muu::is_tuple_like<volatile T&>, like);
	num("tuple_size<T>", muu::tuple_size<T>, size);
	num("tuple_size<const T>", muu::tuple_size<const T>, size);
	num("tuple_size<T&>", muu::tuple_size<T&>, size);
	num("tuple_size<const T&>", muu::tuple_size<const T&>, size);
	num("tuple_size<T&&>", muu::tuple_size<T&&>, size);
}
template <size_t I, typename T>
static void tuple_get(int k, T& t, const void* element)
{
	vf::at(k, I);
	vf::state();
	const T& c = t;
	using V	   = std::tuple_element_t<I, T>;
	eq("get_from_tuple_like(T&)", &muu::get_from_tuple_like<I>(t) == element && same<decltype(muu::get_from_tuple_like<I>(t)), V&>);
	eq("get_from_tuple_like(const T&)", &muu::get_from_tuple_like<I>(c) == element && same<decltype(muu::get_from_tuple_like<I>(c)), const V&>);
	V&& r = muu::get_from_tuple_like<I>(std::move(t));
	eq("get_from_tuple_like(T&&)", &r == element && same<decltype(muu::get_from_tuple_like<I>(std::move(t))), V&&>);
}

// ---- functions ---------------------------------------------------------------------------------------------------------
template <size_t N, bool Nx, bool Va, int Q>
struct fn;
struct cls
{
	int x;
};
// the member function qualifiers of the language
#define QUALS(X) X(0, ) X(1, const) X(2, volatile) X(3, const volatile) X(4, &) X(5, const&) X(6, volatile&) X(7, const volatile&) X(8, &&) X(9, const&&) X(10, volatile&&) X(11, const volatile&&)
template <typename R, bool Nx, bool Va, int Q, typename... P>
struct sig;
#define SIG(q, quals)                                                                                                  \
	template <typename R, typename... P>                                                                               \
	struct sig<R, false, false, q, P...>                                                                               \
	{                                                                                                                  \
		using member = R (cls::*)(P...) quals;                                                                         \
		struct functor                                                                                                 \
		{                                                                                                              \
			R operator()(P...) quals;                                                                                  \
		};                                                                                                             \
	};                                                                                                                 \
	template <typename R, typename... P>                                                                               \
	struct sig<R, true, false, q, P...>                                                                                \
	{                                                                                                                  \
		using member = R (cls::*)(P...) quals noexcept;                                                                \
		struct functor                                                                                                 \
		{                                                                                                              \
			R operator()(P...) quals noexcept;                                                                         \
		};                                                                                                             \
	};                                                                                                                 \
	template <typename R, typename... P>                                                                               \
	struct sig<R, false, true, q, P...>                                                                                \
	{                                                                                                                  \
		using member = R (cls::*)(P..., ...) quals;                                                                    \
		struct functor                                                                                                 \
		{                                                                                                              \
			R operator()(P..., ...) quals;                                                                             \
		};                                                                                                             \
	};                                                                                                                 \
	template <typename R, typename... P>                                                                               \
	struct sig<R, true, true, q, P...>                                                                                 \
	{                                                                                                                  \
		using member = R (cls::*)(P..., ...) quals noexcept;                                                           \
		struct functor                                                                                                 \
		{                                                                                                              \
			R operator()(P..., ...) quals noexcept;                                                                    \
		};                                                                                                             \
	};
QUALS(SIG)
template <typename R, bool Nx, bool Va, typename... P>
struct free_;
template <typename R, typename... P>
struct free_<R, false, false, P...>
{
	using type = R(P...);
};
template <typename R, typename... P>
struct free_<R, true, false, P...>
{
	using type = R(P...) noexcept;
};
template <typename R, typename... P>
struct free_<R, false, true, P...>
{
	using type = R(P..., ...);
};
template <typename R, typename... P>
struct free_<R, true, true, P...>
{
	using type = R(P..., ...) noexcept;
};
// F (nothrow: Nx) against its throwing and nothrow variants, bare and with the qualifications it can have
template <typename T, typename Thr, typename No>
static void noexcepts()
{
	eq("add_noexcept", same<muu::add_noexcept<T>, No>);
	eq("remove_noexcept", same<muu::remove_noexcept<T>, Thr>);
	eq("add_noexcept&", same<muu::add_noexcept<T&>, No&>);
	eq("remove_noexcept&", same<muu::remove_noexcept<T&>, Thr&>);
	eq("add_noexcept&&", same<muu::add_noexcept<T&&>, No&&>);
	eq("remove_noexcept&&", same<muu::remove_noexcept<T&&>, Thr&&>);
	eq("remove_callconv", same<muu::remove_callconv<T>, T>);
	eq("remove_callconv&", same<muu::remove_callconv<T&>, T&>);
	if constexpr (!std::is_function_v<T>)
	{
		eq("add_noexcept of const", same<muu::add_noexcept<const T>, const No>);
		eq("remove_noexcept of const", same<muu::remove_noexcept<const T>, const Thr>);
		eq("add_noexcept of const volatile&", same<muu::add_noexcept<const volatile T&>, const volatile No&>);
		eq("remove_noexcept of volatile&", same<muu::remove_noexcept<volatile T&>, volatile Thr&>);
		eq("remove_callconv of const&", same<muu::remove_callconv<const T&>, const T&>);
	}
}
template <bool Nx, bool Va, typename R, typename... P>
static void functions(int k)
{
	constexpr size_t n = sizeof...(P);
	using F			   = typename free_<R, Nx, Va, P...>::type;
	using F0		   = typename free_<R, false, Va, P...>::type;
	using F1		   = typename free_<R, true, Va, P...>::type;
	vf::at(k, Nx, Va, 0);
	vf::state();
	num("arity of function", muu::arity<F>, n);
	num("arity of function pointer", muu::arity<F*>, n);
	num("arity of function reference", muu::arity<F&>, n);
	num("arity of function rvalue", muu::arity<F&&>, n);
	num("arity of const function pointer", muu::arity<F* const>, n);
	num("arity of reference to function pointer", muu::arity<F* const&>, n);
	noexcepts<F, F0, F1>();
	noexcepts<F*, F0*, F1*>();
	is("is_stateless_lambda of function", muu::is_stateless_lambda<F>, false);
	is("is_stateless_lambda of function pointer", muu::is_stateless_lambda<F*>, false);
	is("decays_to_function_pointer_by_unary_plus<F>", muu::decays_to_function_pointer_by_unary_plus<F>, true);
	is("decays_to_function_pointer_by_unary_plus<F*>", muu::decays_to_function_pointer_by_unary_plus<F*>, true);
	is("decays_to_function_pointer_by_unary_plus<F**>", muu::decays_to_function_pointer_by_unary_plus<F**>, false);
	is("decays_to_pointer_by_unary_plus<F&>", muu::decays_to_pointer_by_unary_plus<F&>, true);
	is("has_unambiguous_function_call_operator<F>", muu::has_unambiguous_function_call_operator<F>, false);
	[&]<int... Q>(std::integer_sequence<int, Q...>)
	{
		(
			[&]
			{
				using S = sig<R, Nx, Va, Q, P...>;
				using M = typename S::member;
				vf::at(k, Nx, Va, 1 + Q);
				vf::state();
				num("arity of member function pointer", muu::arity<M>, n);
				num("arity of const member function pointer reference", muu::arity<const M&>, n);
				noexcepts<M, typename sig<R, false, Va, Q, P...>::member, typename sig<R, true, Va, Q, P...>::member>();
				using O = typename S::functor;
				num("arity of functor", muu::arity<O>, n);
				num("arity of functor reference", muu::arity<O&>, n);
				num("arity of const functor reference", muu::arity<const O&>, n);
				num("arity of functor rvalue", muu::arity<O&&>, n);
				is("has_unambiguous_function_call_operator", muu::has_unambiguous_function_call_operator<O>, true);
				is("has_unambiguous_function_call_operator", muu::has_unambiguous_function_call_operator<const O&>, true);
				is("decays_to_function_pointer_by_unary_plus of functor", muu::decays_to_function_pointer_by_unary_plus<O>, false);
				is("decays_to_pointer_by_unary_plus of functor", muu::decays_to_pointer_by_unary_plus<O>, false);
			}(),
			...);
	}
	(std::make_integer_sequence<int, 12>{});
}
template <typename R, typename... P>
static void functions_of(int k)
{
	functions<false, false, R, P...>(k);
	functions<true, false, R, P...>(k);
	functions<false, true, R, P...>(k);
	functions<true, true, R, P...>(k);
}
struct overloaded
{
	void operator()(int);
	void operator()(char);
};
struct generic
{
	template <typename T>
	void operator()(T);
};
template <typename L>
static void lambda(int k, const L&, bool stateless, bool manifestable, bool unambiguous)
{
	vf::at(k);
	vf::state();
	is("is_stateless_lambda<L>", muu::is_stateless_lambda<L>, stateless);
	is("is_stateless_lambda<L&>", muu::is_stateless_lambda<L&>, stateless);
	is("is_stateless_lambda<const L&>", muu::is_stateless_lambda<const L&>, stateless);
	is("is_stateless_lambda<L&&>", muu::is_stateless_lambda<L&&>, stateless);
	is("decays_to_function_pointer_by_unary_plus<L>", muu::decays_to_function_pointer_by_unary_plus<L>, stateless);
	is("has_unambiguous_function_call_operator<L>", muu::has_unambiguous_function_call_operator<L>, unambiguous);
	is("is_trivially_manifestable<L>", muu::is_trivially_manifestable<L>, manifestable);
	is("is_trivially_manifestable<const L&>", muu::is_trivially_manifestable<const L&>, manifestable);
}
template <typename T>
static void manifest(int k, bool expect)
{
	vf::at(k);
	vf::state();
	is("is_trivially_manifestable<T>", muu::is_trivially_manifestable<T>, expect);
	is("is_trivially_manifestable<const T&>", muu::is_trivially_manifestable<const T&>, expect);
	is("is_trivially_manifestable<T&&>", muu::is_trivially_manifestable<T&&>, expect);
}
struct m_empty
{};
struct m_state
{
	int i;
};
struct m_ctor
{
	m_ctor() {}
};
struct m_noctor
{
	m_noctor() = delete;
};
struct m_dtor
{
	~m_dtor() {}
};
struct m_virtual
{
	virtual void f();
};
union m_union
{};
struct m_derived : m_empty
{};
struct m_base_state : m_state
{};

// ---- is_detected, parameters ----------------------------------------------------------------------------------------------
template <typename T>
using det_foo = decltype(std::declval<T>().foo());
template <typename T, typename U>
using det_pair = decltype(std::declval<T>().bar(std::declval<U>()));
template <typename... T>
using det_common = std::common_type_t<T...>;
struct has_foo
{
	void foo() const&;
	int bar(int*);
};
struct big
{
	void* p[3];
};
struct small_t
{
	void* p[2];
};
struct throwing_copy
{
	char c;
	throwing_copy(const throwing_copy&) noexcept(false);
};
struct nothrow_copy
{
	char c;
	nothrow_copy(const nothrow_copy&) noexcept;
};
struct throwing_dtor
{
	char c;
	~throwing_dtor() noexcept(false);
};
template <typename T>
static void readonly(int k, bool by_value)
{
	vf::at(k);
	vf::state();
	using E = std::conditional_t<true, T, T>;
	eq("readonly_param<T>", by_value ? same<muu::readonly_param<T>, E> : same<muu::readonly_param<T>, const T&>);
	eq("readonly_param<const T>", by_value ? same<muu::readonly_param<const T>, E> : same<muu::readonly_param<const T>, const T&>);
	eq("readonly_param<T&>", by_value ? same<muu::readonly_param<T&>, E> : same<muu::readonly_param<T&>, const T&>);
	eq("readonly_param<const T&>", by_value ? same<muu::readonly_param<const T&>, E> : same<muu::readonly_param<const T&>, const T&>);
	eq("readonly_param<T&&>", by_value ? same<muu::readonly_param<T&&>, E> : same<muu::readonly_param<T&&>, const T&>);
	eq("vector_param<T>", by_value ? same<muu::vector_param<T>, E> : same<muu::vector_param<T>, const T&>);
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
#if GRP == 0
	if (vf::group("operators"))
		[]<int... I>(std::integer_sequence<int, I...>) { (operators<I / 42, I / 7 % 6, I % 7>(), ...); }
	(std::make_integer_sequence<int, n_ops * 6 * 7>{});
#elif GRP == 1
	if (vf::group("builtin"))
	{
		//                      *  +  -  ~  !  ++ --    ++ --    +  -  /  *  %  &  |  ^  << >> && || == != <  <= >  >=
		builtin<int>(0, { { 0, 1, 1, 1, 1, 0, 0 }, { 0, 0 }, { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 } });
		builtin<int&>(1, { { 0, 1, 1, 1, 1, 1, 1 }, { 1, 1 }, { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 } });
		builtin<const int&>(2, { { 0, 1, 1, 1, 1, 0, 0 }, { 0, 0 }, { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 } });
		builtin<double&>(3, { { 0, 1, 1, 0, 1, 1, 1 }, { 1, 1 }, { 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1 } });
		builtin<int*&>(4, { { 1, 1, 0, 0, 1, 1, 1 }, { 1, 1 }, { 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1 } });
		builtin<int*&, int>(5, { { 1, 1, 0, 0, 1, 1, 1 }, { 1, 1 }, { 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0 } });
		builtin<sc&>(6, { { 0, 0, 0, 0, 0, 0, 0 }, { 0, 0 }, { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1 } });
		builtin<agg&>(7, { { 0 }, { 0 }, { 0 } });
		builtin<bool>(8, { { 0, 1, 1, 1, 1, 0, 0 }, { 0, 0 }, { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 } });
		builtin<bool, agg>(9, { { 0, 1, 1, 1, 1, 0, 0 }, { 0, 0 }, { 0 } });
		builtin<void>(10, { { 0 }, { 0 }, { 0 } });
		vf::at(20);
		is("has_arrow_operator<agg*>", muu::has_arrow_operator<agg*>, true);
		is("has_arrow_operator<agg* const&>", muu::has_arrow_operator<agg* const&>, true);
		is("has_arrow_operator<const un*>", muu::has_arrow_operator<const un*>, true);
		is("has_arrow_operator<agg>", muu::has_arrow_operator<agg>, false);
		is("has_arrow_operator<int*>", muu::has_arrow_operator<int*>, false);
		is("has_arrow_operator<agg**>", muu::has_arrow_operator<agg**>, false);
		is("has_arrow_operator<void*>", muu::has_arrow_operator<void*>, false);
		is("has_subscript_operator<int*>", muu::has_subscript_operator<int*>, true);
		is("has_subscript_operator<int[3]>", muu::has_subscript_operator<int[3]>, true);
		is("has_subscript_operator<int(&)[3], char>", muu::has_subscript_operator<int (&)[3], char>, true);
		is("has_subscript_operator<int*, double>", muu::has_subscript_operator<int*, double>, false);
		is("has_subscript_operator<int*, agg>", muu::has_subscript_operator<int*, agg>, false);
		is("has_subscript_operator<void*>", muu::has_subscript_operator<void*>, false);
		is("has_subscript_operator<map>", muu::has_subscript_operator<std::map<int, int>&, int>, true);
		is("has_subscript_operator<const map>", muu::has_subscript_operator<const std::map<int, int>&, int>, false);
		is("has_subscript_operator<vector>", muu::has_subscript_operator<const std::vector<int>&>, true);
		is("has_subscript_operator<list>", muu::has_subscript_operator<std::list<int>&>, false);
	}
	if (vf::group("ranges"))
	{
		[]<int... I>(std::integer_sequence<int, I...>) { (ranges<I / 16, I % 16>(), ...); }
		(std::make_integer_sequence<int, 256>{});
		vf::at(16, 0);
		is("is_iterable of sentinel range", muu::is_iterable<two_kinds<s_iter, sentinel>>, true);
		is("is_iterable of reversed sentinel range", muu::is_iterable<two_kinds<sentinel, s_iter>>, false);
		is("is_iterable of unrelated iterators", muu::is_iterable<two_kinds<int*, char*>>, false);
		is("is_iterable of void iterators", muu::is_iterable<void_range>, false);
		is("is_iterable of mutable range", muu::is_iterable<mutable_only>, true);
		is("is_iterable of const mutable range", muu::is_iterable<const mutable_only&>, false);
		is("is_iterable of lvalue range", muu::is_iterable<lvalue_only&>, true);
		is("is_iterable of expiring lvalue range", muu::is_iterable<lvalue_only&&>, false);
		is("is_iterable<int[3]>", muu::is_iterable<int[3]>, true);
		is("is_iterable<int(&)[3]>", muu::is_iterable<int (&)[3]>, true);
		is("is_iterable<const int(&&)[3]>", muu::is_iterable<const int (&&)[3]>, true);
		is("is_iterable<int[2][2]>", muu::is_iterable<int[2][2]>, true);
		is("is_iterable<int(&)[]>", muu::is_iterable<int (&)[]>, false);
		is("is_iterable<int*>", muu::is_iterable<int*>, false);
		is("is_iterable<int>", muu::is_iterable<int>, false);
		is("is_iterable<void>", muu::is_iterable<void>, false);
		is("is_iterable<vector>", muu::is_iterable<std::vector<bool>>, true);
		is("is_iterable<const list&>", muu::is_iterable<const std::list<int>&>, true);
		is("is_iterable<string>", muu::is_iterable<std::string&>, true);
		is("is_iterable<initializer_list>", muu::is_iterable<std::initializer_list<int>>, true);
		is("is_iterable<tuple>", muu::is_iterable<std::tuple<int, int>>, false);
	}
	if (vf::group("mutexes"))
	{
		[]<size_t... I>(std::index_sequence<I...>) { (mutexes<I>(), ...); }
		(std::make_index_sequence<64>{});
		vf::at(64);
		is("is_mutex_like<std::mutex>", muu::is_mutex_like<std::mutex> && muu::is_mutex_like<std::recursive_mutex&>, true);
		is("is_shared_mutex_like<std::mutex>", muu::is_shared_mutex_like<std::mutex>, false);
		is("is_shared_mutex_like<std::shared_mutex>", muu::is_shared_mutex_like<std::shared_mutex>, true);
		is("is_mutex_like<int>", muu::is_mutex_like<int> || muu::is_mutex_like<void>, false);
	}
	if (vf::group("data_size"))
	{
		int k = 0;
		data_size<int*>(k++, true, false);
		data_size<const int*>(k++, true, false);
		data_size<void*>(k++, true, false);
		data_size<int*&>(k++, true, false);
		data_size<const char* const&>(k++, true, false);
		data_size<int>(k++, false, true);
		data_size<size_t>(k++, false, true);
		data_size<unsigned char>(k++, false, true);
		data_size<const short&>(k++, false, true);
		data_size<__int128>(k++, false, true);
		data_size<bool>(k++, false, false);
		data_size<double>(k++, false, false);
		data_size<sc>(k++, false, false);
		data_size<agg>(k++, false, false);
		data_size<void>(k++, false, false);
		data_size<int (&)[3]>(k++, false, false);
	}
	if (vf::group("tuple_like"))
	{
		int k = 0;
		tuple_like<std::tuple<>>(k++, true, 0);
		tuple_like<std::tuple<int>>(k++, true, 1);
		tuple_like<std::tuple<int&, const char, agg>>(k++, true, 3);
		tuple_like<std::tuple<std::tuple<>>>(k++, true, 1);
		tuple_like<std::pair<int, char&>>(k++, true, 2);
		tuple_like<std::array<int, 0>>(k++, true, 0);
		tuple_like<std::array<agg, 7>>(k++, true, 7);
		tuple_like<member_get>(k++, true, 3);
		tuple_like<adl::adl_get>(k++, true, 3);
		tuple_like<size_and_element>(k++, true, 2);
		tuple_like<only_size>(k++, false, 2);
		tuple_like<agg>(k++, false, 0);
		tuple_like<int>(k++, false, 0);
		tuple_like<int[2]>(k++, false, 0);
		tuple_like<std::string>(k++, false, 0);
	}
	if (vf::group("tuple_get"))
	{
		static std::tuple<int, char, agg> t{ 1, 'c', { 3 } };
		tuple_get<0>(0, t, &std::get<0>(t));
		tuple_get<1>(0, t, &std::get<1>(t));
		tuple_get<2>(0, t, &std::get<2>(t));
		static std::pair<agg, double> p{ { 1 }, 2.0 };
		tuple_get<0>(1, p, &p.first);
		tuple_get<1>(1, p, &p.second);
		static std::array<int, 3> a{ 1, 2, 3 };
		tuple_get<0>(2, a, &a[0]);
		tuple_get<1>(2, a, &a[1]);
		tuple_get<2>(2, a, &a[2]);
		static member_get m;
		tuple_get<0>(3, m, &m.v[0]);
		tuple_get<1>(3, m, &m.v[1]);
		tuple_get<2>(3, m, &m.v[2]);
		static adl::adl_get g;
		tuple_get<0>(4, g, &g.v[0]);
		tuple_get<1>(4, g, &g.v[1]);
		tuple_get<2>(4, g, &g.v[2]);
	}
	if (vf::group("parameters"))
	{
		int k = 0;
		readonly<int>(k++, true);
		readonly<bool>(k++, true);
		readonly<__int128>(k++, true);
		readonly<long double>(k++, true);
		readonly<muu::half>(k++, true);
		readonly<int*>(k++, true);
		readonly<sc>(k++, true);
		readonly<std::nullptr_t>(k++, true);
		readonly<int agg::*>(k++, true);
		readonly<void (agg::*)()>(k++, true);
		readonly<agg>(k++, true);
		readonly<un>(k++, true);
		readonly<small_t>(k++, true);
		readonly<nothrow_copy>(k++, true);
		readonly<big>(k++, false);
		readonly<throwing_copy>(k++, false);
		readonly<throwing_dtor>(k++, false);
		readonly<std::string>(k++, false);
		readonly<int[3]>(k++, false);
		vf::at(99);
		is("is_detected", muu::is_detected<det_foo, has_foo> && muu::is_detected<det_foo, const has_foo&>, true);
		is("is_detected of another type", muu::is_detected<det_foo, volatile has_foo&> || muu::is_detected<det_foo, int> || muu::is_detected<det_foo, void>, false);
		is("is_detected with two", muu::is_detected<det_pair, has_foo, int*>, true);
		is("is_detected with two, wrong", muu::is_detected<det_pair, has_foo, const int*> || muu::is_detected<det_pair, const has_foo, int*>, false);
		is("is_detected with a pack", muu::is_detected<det_common, int, char, double> && !muu::is_detected<det_common, int, agg>, true);
	}
#elif GRP == 2
	if (vf::group("functions"))
	{
		functions_of<void>(0);
		functions_of<int, int>(1);
		functions_of<int*, const int&, agg>(2);
		functions_of<agg&, char, agg*, void (*)(int, int)>(3);
		functions_of<const char*, int, int, int, int&&, int[3]>(4);
		functions_of<void, long, long, long, long, long, long, long, long, long>(5);
		vf::at(9);
		num("arity of overloaded", muu::arity<overloaded>, 0);
		num("arity of generic", muu::arity<generic>, 0);
		num("arity of class", muu::arity<agg>, 0);
		num("arity of int", muu::arity<int>, 0);
		is("has_unambiguous_function_call_operator<overloaded>", muu::has_unambiguous_function_call_operator<overloaded>, false);
		is("has_unambiguous_function_call_operator<generic>", muu::has_unambiguous_function_call_operator<generic>, false);
	}
	if (vf::group("lambdas"))
	{
		int x = 0;
		constexpr bool m = __cplusplus >= 202002L; // captureless lambdas can be default-constructed
		lambda(0, [] {}, true, m, true);
		lambda(1, [](int, char) { return 1; }, true, m, true);
		lambda(2, [](agg) noexcept -> agg { return {}; }, true, m, true);
		lambda(3, []() mutable {}, true, m, true);
		lambda(5, [x] { (void)x; }, false, false, true);
		lambda(6, [&x] { (void)x; }, false, false, true);
		lambda(7, [y = x](int) mutable { y++; }, false, false, true);
		lambda(8, [z = m_empty{}] { (void)z; }, false, false, true);
		lambda(9, overloaded{}, false, true, false);
		lambda(10, generic{}, false, true, false);
		lambda(11, agg{}, false, false, false);
		vf::at(20);
		auto l0 = [](int, char) { return 1; };
		auto l1 = []() noexcept {};
		auto l2 = [x](int, int, int) mutable { (void)x; };
		auto l3 = [x](int) { (void)x; };
		num("arity of lambda", muu::arity<decltype(l0)>, 2);
		num("arity of noexcept lambda", muu::arity<decltype(l1)&>, 0);
		num("arity of capturing lambda", muu::arity<decltype(l2)>, 3);
		using L = decltype(l0);
		is("is_stateless_lambda compatible", muu::is_stateless_lambda<L, int(int, char)>, true);
		is("is_stateless_lambda compatible pointer", muu::is_stateless_lambda<L, int (*)(int, char)>, true);
		is("is_stateless_lambda compatible reference", muu::is_stateless_lambda<L&, int (&)(int, char)>, true);
		is("is_stateless_lambda convertible arguments", muu::is_stateless_lambda<L, double(short, char)>, true);
		is("is_stateless_lambda wrong arguments", muu::is_stateless_lambda<L, int(int)>, false);
		is("is_stateless_lambda wrong result", muu::is_stateless_lambda<L, agg(int, char)>, false);
		is("is_stateless_lambda unrelated arguments", muu::is_stateless_lambda<L, int(agg, char)>, false);
		is("is_stateless_lambda noexcept", muu::is_stateless_lambda<decltype(l1), void() noexcept>, true);
		is("is_stateless_lambda noexcept as throwing", muu::is_stateless_lambda<decltype(l1), void()>, true);
		is("is_stateless_lambda throwing as noexcept", muu::is_stateless_lambda<L, int(int, char) noexcept>, false);
		is("is_stateless_lambda stateful", muu::is_stateless_lambda<decltype(l3), void(int)>, false);
	}
	if (vf::group("manifest"))
	{
		int k = 0;
		manifest<m_empty>(k++, true);
		manifest<m_derived>(k++, true);
		manifest<m_state>(k++, false);
		manifest<m_base_state>(k++, false);
		manifest<m_ctor>(k++, false);
		manifest<m_noctor>(k++, false);
		manifest<m_dtor>(k++, false);
		manifest<m_virtual>(k++, false);
		manifest<int>(k++, false);
		manifest<int*>(k++, false);
		manifest<sc>(k++, false);
		vf::at(30);
		is("decays_to_pointer_by_unary_plus<int[3]>", muu::decays_to_pointer_by_unary_plus<int[3]>, true);
		is("decays_to_pointer_by_unary_plus<int(&)[3]>", muu::decays_to_pointer_by_unary_plus<int (&)[3]>, true);
		is("decays_to_pointer_by_unary_plus<int*>", muu::decays_to_pointer_by_unary_plus<int*>, true);
		is("decays_to_pointer_by_unary_plus<int>", muu::decays_to_pointer_by_unary_plus<int>, false);
		is("decays_to_pointer_by_unary_plus<agg>", muu::decays_to_pointer_by_unary_plus<agg>, false);
		is("decays_to_function_pointer_by_unary_plus<int*>", muu::decays_to_function_pointer_by_unary_plus<int*>, false);
		is("decays_to_function_pointer_by_unary_plus<int[3]>", muu::decays_to_function_pointer_by_unary_plus<int[3]>, false);
	}
#endif
	return vf::finish();
}
