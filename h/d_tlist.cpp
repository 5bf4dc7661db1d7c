// D11: every operation of type_list is the list operation it is named for, for every list length, start, length and
// element position up to the bounds below, under every page size (the metaprogram that slices and selects is chosen by
// MUU_TYPE_LIST_PAGE_SIZE / MUU_TYPE_LIST_HAS_JUMBO_PAGES). The template instantiations are the executions enumerated;
// results are stored as data and judged one by one at run time.
#include "muu/meta.h"
#include "muu/type_list.h"
#include "vf.h"
#include <utility>
#include <array>

using muu::type_list;
template <size_t I>
struct el // complete so that it can be a nested list's sibling
{
	static constexpr size_t id = I;
};

// reads a type_list<el<a>, el<b>...> back as numbers; anything else is a mismatch
template <typename L>
struct read_;
template <size_t... I>
struct read_<type_list<el<I>...>>
{
	static constexpr size_t size = sizeof...(I);
	static constexpr bool run(size_t first, size_t count)
	{
		if (size != count)
			return false;
		size_t i = first;
		bool ok	 = true;
		((ok = ok && I == i++), ...);
		return ok;
	}
};

template <size_t First, typename>
struct mk_;
template <size_t First, size_t... I>
struct mk_<First, std::index_sequence<I...>>
{
	using type = type_list<el<First + I>...>;
};
template <size_t First, size_t N>
using mk = typename mk_<First, std::make_index_sequence<N>>::type;

#ifndef PAGE_TAG
	#define PAGE_TAG 0
#endif

struct result
{
	uint16_t len, start, count;
	bool ok;
};

// ---- slices
template <size_t L, size_t S, size_t... C>
void slices(std::index_sequence<C...>)
{
	using list = mk<0, L>;
	static constexpr result r[] = { result{ L, S, C, read_<typename list::template slice<S, C>>::run(S, C) }... };
	for (auto& x : r)
	{
		vf::at(PAGE_TAG, x.len, x.start, x.count);
		vf::state();
		vf::trans();
		VF_CHECK(x.ok, "slice<%u, %u> of a list of %u types is not those types in order", x.start, x.count, x.len);
	}
}
template <size_t L, size_t... S>
void all_slices(std::index_sequence<S...>)
{
	using list = mk<0, L>;
	(slices<L, S>(std::make_index_sequence<L - S + 1>{}), ...);
	// the default length is "the rest"
	static constexpr bool rest[] = { read_<typename list::template slice<S>>::run(S, L - S)... };
	for (size_t s = 0; s < L; s++)
	{
		vf::at(PAGE_TAG, L, s, -1);
		VF_CHECK(rest[s], "slice<%zu> of a list of %zu types is not the rest of the list", s, L);
	}
}

// only some lengths per start, for long lists
template <size_t L, size_t S, size_t... C>
void some_slices(std::index_sequence<C...>)
{
	using list					= mk<0, L>;
	constexpr size_t room		= L - S;
	static constexpr result r[] = { result{ L, S, (C < room ? C : room),
											read_<typename list::template slice<S, (C < room ? C : room)>>::run(
												S, C < room ? C : room) }... };
	for (auto& x : r)
	{
		vf::at(PAGE_TAG, x.len, x.start, x.count);
		vf::state();
		vf::trans();
		VF_CHECK(x.ok, "slice<%u, %u> of a list of %u types is not those types in order", x.start, x.count, x.len);
	}
}
template <size_t L, size_t... S>
void long_slices(std::index_sequence<S...>)
{
	(some_slices<L, S>(std::index_sequence<1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 9999>{}),
	 ...);
}

// ---- positions
template <size_t L, size_t... I>
void positions(std::index_sequence<I...>)
{
	using list					= mk<0, L>;
	static constexpr bool sel[] = { std::is_same_v<typename list::template select<I>, el<I>>... };
	static constexpr size_t idx[] = { list::template index_of<el<I>>... };
	static constexpr bool has[]	  = { list::template contains<el<I>>... };
	for (size_t i = 0; i < L; i++)
	{
		vf::at(PAGE_TAG, L, i);
		vf::state();
		vf::trans(3);
		VF_CHECK(sel[i], "select<%zu> of a list of %zu types is another type", i, L);
		VF_CHECK(idx[i] == i, "index_of the type at position %zu of %zu is %zu", i, L, idx[i]);
		VF_CHECK(has[i], "a list of %zu types does not contain its type %zu", L, i);
	}
	vf::at(PAGE_TAG, L, -1);
	VF_CHECK((std::is_same_v<typename list::first, el<0>>), "first of a list of %zu types", L);
	VF_CHECK(list::length == L, "length of a list of %zu types", L);
	VF_CHECK(!list::template contains<el<L>>, "a list of %zu types contains a type it does not have", L);
}
template <size_t L, size_t... I>
void selects(std::index_sequence<I...>)
{
	using list					= mk<0, L>;
	static constexpr bool sel[] = { std::is_same_v<typename list::template select<I>, el<I>>... };
	for (size_t i = 0; i < L; i++)
	{
		vf::at(PAGE_TAG, L, i);
		vf::state();
		vf::trans();
		VF_CHECK(sel[i], "select<%zu> of a list of %zu types is another type", i, L);
	}
}
template <size_t... L>
void all_positions(std::index_sequence<L...>)
{
	(positions<L + 1>(std::make_index_sequence<L + 1>{}), ...);
}

// ---- append / prepend
template <size_t L, size_t M>
void glue_one()
{
	bool ok1 = false, ok2 = false;
	[&]<size_t... I>(std::index_sequence<I...>)
	{
		ok1 = read_<typename mk<0, L>::template append<el<L + I>...>>::run(0, L + M);
		ok2 = read_<typename mk<M, L>::template prepend<el<I>...>>::run(0, L + M);
	}(std::make_index_sequence<M>{});
	vf::at(PAGE_TAG, L, M);
	vf::state();
		vf::trans(2);
	VF_CHECK(ok1, "appending %zu types to %zu", M, L);
	VF_CHECK(ok2, "prepending %zu types to %zu", M, L);
}
template <size_t L, size_t... M>
void glue_row(std::index_sequence<M...>)
{
	(glue_one<L, M>(), ...);
}
template <size_t... L>
void glue(std::index_sequence<L...>)
{
	(glue_row<L>(std::make_index_sequence<6>{}), ...);
}

// ---- words over a small alphabet: remove, contains, index_of with repeated types
// digit 0..2 -> el<d>, digit 3 -> a nested list holding el<0> (must not be looked into), base 4, exactly Len digits
template <size_t W, size_t P>
constexpr size_t digit = P == 0 ? W % 4 : (W >> (2 * P)) % 4;
template <size_t D>
struct letter_
{
	using type = el<D>;
};
template <>
struct letter_<3>
{
	using type = type_list<el<0>>;
};
template <size_t W, typename>
struct word_;
template <size_t W, size_t... P>
struct word_<W, std::index_sequence<P...>>
{
	using type					   = type_list<typename letter_<digit<W, P>>::type...>;
	static constexpr size_t code[sizeof...(P) + 1] = { digit<W, P>..., 99 };
};
template <typename T>
struct letter_of
{
	static constexpr size_t value = T::id;
};
template <>
struct letter_of<type_list<el<0>>>
{
	static constexpr size_t value = 3;
};
template <typename L>
struct spell_;
template <typename... T>
struct spell_<type_list<T...>>
{
	static constexpr size_t size   = sizeof...(T);
	static constexpr size_t code[sizeof...(T) + 1] = { letter_of<T>::value..., 99 };
};
template <size_t Len, size_t W, size_t R>
constexpr bool removed_ok()
{
	using w = word_<W, std::make_index_sequence<Len>>;
	using s = spell_<typename w::type::template remove<typename letter_<R>::type>>;
	size_t n = 0;
	for (size_t i = 0; i < Len; i++)
		if (w::code[i] != R)
		{
			if (n >= s::size || s::code[n] != w::code[i])
				return false;
			n++;
		}
	return n == s::size;
}
template <size_t Len, size_t W, size_t R>
constexpr bool index_ok()
{
	using w		 = word_<W, std::make_index_sequence<Len>>;
	using u		 = typename letter_<R>::type;
	size_t first = static_cast<size_t>(-1);
	for (size_t i = Len; i-- > 0;)
		if (w::code[i] == R)
			first = i;
	if (w::type::template contains<u> != (first != static_cast<size_t>(-1)))
		return false;
	if constexpr (w::type::template contains<u>)
		return w::type::template index_of<u> == first;
	else
		return true;
}
template <size_t Len, size_t... W>
void words(std::index_sequence<W...>)
{
	static constexpr bool rm[]	= { removed_ok<Len, W, 0>()..., removed_ok<Len, W, 1>()..., removed_ok<Len, W, 2>()...,
									removed_ok<Len, W, 3>()... };
	static constexpr bool idx[] = { index_ok<Len, W, 0>()..., index_ok<Len, W, 1>()..., index_ok<Len, W, 2>()...,
									index_ok<Len, W, 3>()... };
	for (size_t i = 0; i < sizeof...(W) * 4; i++)
	{
		vf::at(PAGE_TAG, Len, i % sizeof...(W), i / sizeof...(W));
		vf::state();
		vf::trans(2);
		VF_CHECK(rm[i], "remove of letter %zu from word %zu of length %zu", i / sizeof...(W), i % sizeof...(W), Len);
		VF_CHECK(idx[i], "index_of / contains letter %zu in word %zu of length %zu", i / sizeof...(W), i % sizeof...(W), Len);
	}
}

// ---- flatten: every ordered tree with up to N nodes (balanced bracket words); leaves are numbered left to right
// a tree is encoded as a list of types built recursively; the oracle counts the leaves
template <size_t N, size_t Shape>
struct tree_; // defined through forest_
// forest of K trees totalling N nodes -> enumerate by first tree size and shape
constexpr size_t catalan[] = { 1, 1, 2, 5, 14, 42, 132, 429 };
// forest with N nodes number S (0..catalan[N]-1): first tree has inner forest of a nodes (a=0..N-1), rest N-1-a nodes
template <size_t N, size_t S, size_t First>
struct forest;
constexpr size_t pick_a(size_t n, size_t s)
{
	for (size_t a = 0; a < n; a++)
	{
		const size_t c = catalan[a] * catalan[n - 1 - a];
		if (s < c)
			return a;
		s -= c;
	}
	return 0;
}
constexpr size_t pick_r(size_t n, size_t s)
{
	for (size_t a = 0; a < n; a++)
	{
		const size_t c = catalan[a] * catalan[n - 1 - a];
		if (s < c)
			return s;
		s -= c;
	}
	return 0;
}
template <typename F, typename R>
struct cons_;
template <typename F, typename... R>
struct cons_<F, type_list<R...>>
{
	using type = type_list<F, R...>;
};
template <size_t S, size_t First>
struct forest<0, S, First>
{
	using type					   = type_list<>;
	static constexpr size_t leaves = 0;
};
// a node with no children becomes a leaf (mode 0) or an empty list (mode 1), alternating by its number: covers both
template <size_t A, size_t S, size_t First>
struct node
{
	using type					   = typename forest<A, S, First>::type; // a nested list
	static constexpr size_t leaves = forest<A, S, First>::leaves;
};
template <size_t S, size_t First>
struct node<0, S, First>
{
	using type					   = el<First>;
	static constexpr size_t leaves = 1;
};
template <size_t N, size_t S, size_t First>
struct forest
{
	static constexpr size_t a = pick_a(N, S), r = pick_r(N, S);
	static constexpr size_t s1 = r / catalan[N - 1 - a], s2 = r % catalan[N - 1 - a];
	using head				   = node<a, s1, First>;
	using rest				   = forest<N - 1 - a, s2, First + head::leaves>;
	using type				   = typename cons_<typename head::type, typename rest::type>::type;
	static constexpr size_t leaves = head::leaves + rest::leaves;
};
template <typename L, bool Empty> // with empty lists sprinkled in: before, after and inside
struct salt_;
template <typename... T>
struct salt_<type_list<T...>, true>
{
	template <typename X>
	struct in
	{
		using type = X;
	};
	template <typename... X>
	struct in<type_list<X...>>
	{
		using type = typename salt_<type_list<X...>, true>::type;
	};
	using type = type_list<type_list<>, typename in<T>::type..., type_list<type_list<>>>;
};
template <size_t N, size_t... S>
void trees(std::index_sequence<S...>)
{
	static constexpr bool ok[]	 = { read_<typename forest<N, S, 0>::type::flatten>::run(0, forest<N, S, 0>::leaves)... };
	static constexpr bool salt[] = { read_<typename salt_<typename forest<N, S, 0>::type, true>::type::flatten>::run(
		0, forest<N, S, 0>::leaves)... };
	for (size_t i = 0; i < sizeof...(S); i++)
	{
		vf::at(PAGE_TAG, N, i);
		vf::state();
		vf::trans(2);
		VF_CHECK(ok[i], "flatten of tree %zu with %zu nodes is not its leaves in order", i, N);
		VF_CHECK(salt[i], "flatten of tree %zu with %zu nodes and empty lists is not its leaves in order", i, N);
	}
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
#if GRP == 0
	if (vf::group("slice"))
	{
		[]<size_t... L>(std::index_sequence<L...>)
		{ (all_slices<L + 1>(std::make_index_sequence<L + 1>{}), ...); }(std::make_index_sequence<21>{});
	}
#elif GRP == 3
	if (vf::group("position"))
	{
		all_positions(std::make_index_sequence<40>{});
		positions<65>(std::make_index_sequence<65>{});
		positions<128>(std::make_index_sequence<128>{});
		positions<129>(std::make_index_sequence<129>{});
		selects<200>(std::make_index_sequence<200>{});
		selects<290>(std::make_index_sequence<290>{});
	}
#elif GRP == 2
	if (vf::group("glue"))
		glue(std::make_index_sequence<20>{});
	if (vf::group("word"))
	{
		words<0>(std::make_index_sequence<1>{});
		words<1>(std::make_index_sequence<4>{});
		words<2>(std::make_index_sequence<16>{});
		words<3>(std::make_index_sequence<64>{});
		words<4>(std::make_index_sequence<256>{});
	}
	if (vf::group("flatten"))
	{
		trees<0>(std::make_index_sequence<1>{});
		trees<1>(std::make_index_sequence<1>{});
		trees<2>(std::make_index_sequence<2>{});
		trees<3>(std::make_index_sequence<5>{});
		trees<4>(std::make_index_sequence<14>{});
		trees<5>(std::make_index_sequence<42>{});
		trees<6>(std::make_index_sequence<132>{});
	}
#elif GRP == 1
	if (vf::group("long"))
	{
		long_slices<67>(std::make_index_sequence<67>{});
		long_slices<140>(std::make_index_sequence<140>{});
		// starts around the two jumbo pages of a long list
		long_slices<270>(std::index_sequence<0, 1, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 130, 160, 191, 192, 193, 254, 255,
											 256, 257, 258, 268, 269>{});
	}
	if (vf::group("empty"))
	{
		vf::at(PAGE_TAG);
		using e = type_list<>;
		VF_CHECK(e::length == 0, "length of the empty list");
		VF_CHECK((std::is_same_v<e::slice<0>, e> && std::is_same_v<e::slice<0, 0>, e>), "slices of the empty list");
		VF_CHECK(!e::contains<void> && !e::contains<e>, "the empty list contains something");
		VF_CHECK((std::is_same_v<e::flatten, e> && std::is_same_v<e::remove<int>, e>), "flatten / remove of the empty list");
		VF_CHECK((std::is_same_v<e::append<>, e> && std::is_same_v<e::prepend<>, e>), "append / prepend nothing");
		VF_CHECK((std::is_same_v<type_list<int>::type, int> && std::is_same_v<muu::type_tag<void>::type, void>), "type of a single-type list");
		VF_CHECK((std::is_same_v<type_list<int, const int, int&, void>::remove<int>, type_list<const int, int&, void>>),
				 "remove of an unqualified type touches qualified ones");
		VF_CHECK((type_list<const int, int&, int>::index_of<int> == 2), "index_of an unqualified type finds a qualified one");
	}
#endif
	return vf::finish();
}
