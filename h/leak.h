// Counting global allocator with optional failure at the k-th allocation. Include in exactly one TU.
#pragma once
#include <cstdlib>
#include <new>
namespace vf
{
	inline long live_allocs			 = 0; // blocks currently allocated through operator new
	inline unsigned long total_allocs = 0;
	inline long fail_at				 = -1; // countdown; the allocation that reaches 0 throws
	inline void* take(std::size_t n, std::size_t al, bool nothrow)
	{
		if (fail_at >= 0 && fail_at-- == 0)
		{
			if (nothrow)
				return nullptr;
			throw std::bad_alloc{};
		}
		if (!n)
			n = 1;
		void* p = al <= alignof(std::max_align_t) ? std::malloc(n) : std::aligned_alloc(al, (n + al - 1) / al * al);
		if (!p)
		{
			if (nothrow)
				return nullptr;
			throw std::bad_alloc{};
		}
		live_allocs++;
		total_allocs++;
		return p;
	}
	inline void give(void* p)
	{
		if (p)
			live_allocs--, std::free(p);
	}
}
void* operator new(std::size_t n) { return vf::take(n, 1, false); }
void* operator new[](std::size_t n) { return vf::take(n, 1, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return vf::take(n, 1, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return vf::take(n, 1, true); }
void* operator new(std::size_t n, std::align_val_t a) { return vf::take(n, (std::size_t)a, false); }
void* operator new[](std::size_t n, std::align_val_t a) { return vf::take(n, (std::size_t)a, false); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return vf::take(n, (std::size_t)a, true); }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return vf::take(n, (std::size_t)a, true); }
void operator delete(void* p) noexcept { vf::give(p); }
void operator delete[](void* p) noexcept { vf::give(p); }
void operator delete(void* p, std::size_t) noexcept { vf::give(p); }
void operator delete[](void* p, std::size_t) noexcept { vf::give(p); }
void operator delete(void* p, std::align_val_t) noexcept { vf::give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { vf::give(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { vf::give(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { vf::give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vf::give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vf::give(p); }
