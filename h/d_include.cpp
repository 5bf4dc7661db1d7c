// Every public header alone, twice, with every other header in both orders, and in two translation units of one program.
// The executions enumerated are inclusion sequences; the compilers and the linker are the implementation they run on.
#include "vf.h"
#include <algorithm>
#include <cctype>
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>

using std::string;
using std::vector;

struct use_row
{
	const char *header, *code;
};
static const use_row USES[] = {
		{ "accumulator", R"x(template class muu::accumulator<int>; template class muu::accumulator<double>; int f(){ muu::accumulator<float> a; a.add(1.f); return (int)a.sum(); })x" },
		{ "aligned_alloc", R"x(void f(){ muu::aligned_free(muu::aligned_alloc(64,64)); })x" },
		{ "apply_alignment", R"x(char* f(char*p){ return muu::apply_alignment<16>(p); } unsigned long g(unsigned long p){ return muu::apply_alignment<8>(p); })x" },
		{ "assume_aligned", R"x(int* f(int*p){ return muu::assume_aligned<4>(p); })x" },
		{ "axis_angle", R"x(template struct muu::axis_angle<float>; template struct muu::axis_angle<double>;)x" },
		{ "bit", R"x(unsigned f(unsigned x){ return (unsigned)muu::bit_width(x)+(unsigned)muu::has_single_bit(x); })x" },
		{ "bit_cast", R"x(unsigned f(float x){ return muu::bit_cast<unsigned>(x); })x" },
		{ "bit_ceil", R"x(unsigned f(unsigned x){ return muu::bit_ceil(x); })x" },
		{ "bit_fill", R"x(unsigned f(unsigned x){ return muu::bit_fill_left<unsigned>(x)+muu::bit_fill_right<unsigned>(x); })x" },
		{ "bit_floor", R"x(unsigned f(unsigned x){ return muu::bit_floor(x); })x" },
		{ "bit_pack", R"x(unsigned f(unsigned short x){ return muu::bit_pack(x,x); })x" },
		{ "blob", R"x(unsigned long f(){ muu::blob b{10}; b.resize(20); return b.size(); })x" },
		{ "bounding_box", R"x(muu::bounding_box<float> f(){ return {}; } muu::bounding_box<double> g(){ return {}; })x" },
		{ "bounding_sphere", R"x(template struct muu::bounding_sphere<float>; template struct muu::bounding_sphere<double>;)x" },
		{ "build", R"x()x" },
		{ "byte_reverse", R"x(unsigned f(unsigned x){ return muu::byte_reverse(x); })x" },
		{ "chars", R"x(bool f(char32_t c){ return muu::is_whitespace(c)||muu::is_letter(c)||muu::is_number(c); } unsigned g(char c){ return muu::hex_to_dec(c); })x" },
		{ "compressed_pair", R"x(template class muu::compressed_pair<int,float>; int f(){ struct E{}; muu::compressed_pair<E,int> p{E{},2}; return p.second(); })x" },
		{ "core", R"x(int f(int a){ return muu::max(a,muu::min(a,2)); })x" },
		{ "countl", R"x(int f(unsigned x){ return muu::countl_zero(x)+muu::countl_one(x); })x" },
		{ "countr", R"x(int f(unsigned x){ return muu::countr_zero(x)+muu::countr_one(x); })x" },
		{ "emplacement_array", R"x(template class muu::emplacement_array<int>; int f(){ muu::emplacement_array<int> a{3}; a.emplace_back(1); return a[0]; })x" },
		{ "euler_angles", R"x(template struct muu::euler_angles<float>;)x" },
		{ "fixed_string", R"x(template struct muu::fixed_string<char,3>; int f(){ muu::fixed_string s{"abc"}; return (int)(s+s).length(); })x" },
		{ "for_sequence", R"x(int f(){ int s=0; muu::for_sequence<4>([&](auto i){ s+=(int)decltype(i)::value; }); return s; })x" },
		{ "function_view", R"x(int f(){ auto l=[](int x){return x;}; muu::function_view<int(int)> v{l}; return v(1); })x" },
		{ "fwd", R"x(muu::thread_pool* f(); muu::vector<float,3>* g(); muu::half* h();)x" },
		{ "half", R"x(float f(){ muu::half h{1.f}; return static_cast<float>(h+h*h); })x" },
		{ "hashing", R"x(unsigned f(){ muu::fnv1a<> h; h(1u); return (unsigned)h.value(); })x" },
		{ "integer_aliases", R"x(unsigned f(muu::u16 a){ return a; })x" },
		{ "integer_literals", R"x(using namespace muu::literals; auto f(){ return 12_u8; })x" },
		{ "integral_range", R"x(int f(){ int s=0; for (int i: muu::integral_range<int>{0,3}) s+=i; return s; })x" },
		{ "is_constant_evaluated", R"x(bool f(){ return muu::is_constant_evaluated(); })x" },
		{ "iterators", R"x(int f(int(&a)[3]){ return *muu::begin_iterator(a)+(int)muu::iterator_distance(muu::begin_iterator(a),muu::end_iterator(a)); })x" },
		{ "launder", R"x(int* f(int*p){ return muu::launder(p); })x" },
		{ "line_segment", R"x(muu::line_segment<float> f(){ return {}; } muu::line_segment<double> g(){ return {}; })x" },
		{ "math", R"x(double f(double x){ return muu::sqrt(x)+muu::abs(x)+muu::lerp(x,x,x); } float g(float x){ return muu::normalize_angle(x); })x" },
		{ "matrix", R"x(template struct muu::matrix<float,3,3>; template struct muu::matrix<float,4,4>; auto f(muu::matrix<float,4,4> m){ return muu::invert(m*m); })x" },
		{ "meta", R"x(muu::remove_cvref<const int&> f(){ return muu::all_same<int,int,int>; })x" },
		{ "oriented_bounding_box", R"x(muu::oriented_bounding_box<float> f(){ return {}; } muu::oriented_bounding_box<double> g(){ return {}; })x" },
		{ "packed_unit_vector", R"x(auto f(){ muu::packed_unit_vector<unsigned,3> p{ muu::vector<float,3>{1,0,0} }; return p.unpack<float>().x; })x" },
		{ "pause", R"x(void f(){ MUU_PAUSE(); })x" },
		{ "plane", R"x(muu::plane<float> f(){ return {}; } muu::plane<double> g(){ return {}; })x" },
		{ "pointer_cast", R"x(void* f(int*p){ return muu::pointer_cast<void*>(p); })x" },
		{ "popcount", R"x(unsigned f(unsigned x){ return muu::popcount(x); })x" },
		{ "preprocessor", R"x(enum class e: unsigned {a,b};)x" },
		{ "quaternion", R"x(template struct muu::quaternion<float>; auto f(muu::quaternion<float> q){ return muu::slerp(q,q,0.5f); })x" },
		{ "ray", R"x(muu::ray<float> f(){ return {}; } muu::ray<double> g(){ return {}; })x" },
		{ "sat_tester", R"x(template struct muu::sat_tester<float,3>;)x" },
		{ "scope_guard", R"x(int f(int x){ muu::scope_guard g{[&]()noexcept{ x++; }}; return x; })x" },
		{ "size_t_literals", R"x(using namespace muu::literals; unsigned long f(){ return 1_kb; })x" },
		{ "source_location", R"x(unsigned f(){ return muu::source_location::current().line(); })x" },
		{ "span", R"x(int f(){ int a[3]{1,2,3}; muu::span<int> s{a}; return s.subspan(1).front()+s.back(); })x" },
		{ "spin_mutex", R"x(void f(){ muu::spin_mutex m; m.lock(); m.unlock(); })x" },
		{ "static_array", R"x(int f(){ return muu::static_array<int,1,2,3>::values[1]; })x" },
		{ "string_param", R"x(int f(){ muu::string_param p{"a"}; return p.empty(); })x" },
		{ "strings", R"x(auto f(std::string_view s){ return muu::trim(s).size()+muu::trim_left(s).size(); } auto g(std::string_view s){ return muu::transcode<char32_t>(s); })x" },
		{ "strong_typedef", R"x()x" },
		{ "tagged_ptr", R"x(unsigned f(int*p){ muu::tagged_ptr<int> t{p}; t.tag(1u); return (unsigned)t.tag(); })x" },
		{ "thread_name", R"x(void f(){ muu::set_thread_name("x"); })x" },
		{ "thread_pool", R"x(void f(){ muu::thread_pool p{1}; p.enqueue([]()noexcept{}); p.for_each(0,3,[](int)noexcept{}); p.wait(); })x" },
		{ "triangle", R"x(muu::triangle<float> f(){ return {}; } muu::triangle<double> g(){ return {}; })x" },
		{ "type_list", R"x(using L=muu::type_list<int,float>; L::select<0> f(){ return (int)L::length; })x" },
		{ "type_name", R"x(const char* f(){ return muu::type_name<int>.data(); })x" },
		{ "utf16_decoder", R"x(char32_t f(){ muu::utf16_decoder d; d(u'a'); return d.value(); })x" },
		{ "utf8_decoder", R"x(char32_t f(){ muu::utf8_decoder d; d('a'); return d.value(); })x" },
		{ "utf_decode", R"x(int f(std::string_view s){ int n=0; muu::utf_decode(s,[&](char32_t)noexcept{n++;}); return n; })x" },
		{ "uuid", R"x(bool f(){ muu::uuid a; return a==muu::uuid::generate(); })x" },
		{ "vector", R"x(template struct muu::vector<float,3>; template struct muu::vector<int,2>; auto f(muu::vector<float,3> v){ return muu::normalize(v).x; })x" },
};
struct cross_row
{
	const char *a, *b, *code;
};
static const cross_row CROSS[] = {
		{ "bounding_box", "oriented_bounding_box", R"x(using A=muu::bounding_box<float>; using B=muu::oriented_bounding_box<float>; float f(A a,B b){ A c{b}; float r=c.extents.x+A::from_obb(b).extents.x; r+=a.contains(b); r+=a.intersects(b); r+=b.intersects(a); return r; })x" },
		{ "bounding_box", "bounding_sphere", R"x(using A=muu::bounding_box<float>; using B=muu::bounding_sphere<float>; float f(A a,B b){ A c{b}; float r=c.extents.x+A::from_sphere(b).extents.x; r+=a.contains(b); r+=a.intersects(b); r+=b.contains(a); r+=b.intersects(a); r+=a.collision_tester()(b.collision_tester()); r+=b.collision_tester()(a.collision_tester()); return r; })x" },
		{ "bounding_box", "line_segment", R"x(using A=muu::bounding_box<float>; using B=muu::line_segment<float>; float f(A a,B b){ a.append(b); float r=a.contains(b); r+=a.intersects(b); r+=b.intersects(a); return r; })x" },
		{ "bounding_box", "triangle", R"x(using A=muu::bounding_box<float>; using B=muu::triangle<float>; float f(A a,B b){ a.append(b); float r=a.contains(b); r+=a.intersects(b); r+=b.intersects(a); r+=a.collision_tester()(b.collision_tester()); return r; })x" },
		{ "bounding_box", "plane", R"x(using A=muu::bounding_box<float>; using B=muu::plane<float>; float f(A a,B b){ float r=a.intersects(b); r+=b.intersects(a); return r; })x" },
		{ "bounding_sphere", "line_segment", R"x(using A=muu::bounding_sphere<float>; using B=muu::line_segment<float>; float f(A a,B b){ return a.contains(b); })x" },
		{ "bounding_sphere", "triangle", R"x(using A=muu::bounding_sphere<float>; using B=muu::triangle<float>; float f(A a,B b){ float r=a.contains(b); r+=a.intersects(b); r+=b.intersects(a); return r; })x" },
		{ "bounding_sphere", "oriented_bounding_box", R"x(using A=muu::bounding_sphere<float>; using B=muu::oriented_bounding_box<float>; float f(A a,B b){ float r=a.intersects(b); r+=b.intersects(a); return r; })x" },
		{ "line_segment", "plane", R"x(using A=muu::line_segment<float>; using B=muu::plane<float>; float f(A a,B b){ float r=a.intersects(b); r+=b.intersects(a); r+=b.project(a).points[0].x; return r; })x" },
		{ "line_segment", "triangle", R"x(using A=muu::line_segment<float>; using B=muu::triangle<float>; float f(A a,B b){ return b.contains(a); })x" },
		{ "line_segment", "oriented_bounding_box", R"x(using A=muu::line_segment<float>; using B=muu::oriented_bounding_box<float>; float f(A a,B b){ return b.contains(a); })x" },
		{ "plane", "triangle", R"x(using A=muu::plane<float>; using B=muu::triangle<float>; float f(A,B b){ A c{b}; return A::from_triangle(b).d+c.d+b.plane().d; })x" },
		{ "triangle", "oriented_bounding_box", R"x(using A=muu::triangle<float>; using B=muu::oriented_bounding_box<float>; float f(A a,B b){ float r=b.contains(a); r+=b.intersects(a); r+=a.intersects(b); return r; })x" },
		{ "ray", "plane", R"x(bool f(muu::ray<float> a,muu::plane<float> b){ return !!a.hits(b); })x" },
		{ "ray", "triangle", R"x(bool f(muu::ray<float> a,muu::triangle<float> b){ return !!a.hits(b); })x" },
		{ "ray", "bounding_sphere", R"x(bool f(muu::ray<float> a,muu::bounding_sphere<float> b){ return !!a.hits(b); })x" },
		{ "ray", "bounding_box", R"x(bool f(muu::ray<float> a,muu::bounding_box<float> b){ return !!a.hits(b); })x" },
		{ "quaternion", "matrix", R"x(auto f(muu::matrix<float,3,3> m){ return muu::matrix<float,3,3>::from_quaternion(muu::quaternion<float>::from_rotation(m)); })x" },
		{ "quaternion", "euler_angles", R"x(float f(muu::quaternion<float> q){ return muu::quaternion<float>{q.to_euler()}.s+muu::quaternion<float>::from_euler(q.to_euler()).s; })x" },
		{ "quaternion", "axis_angle", R"x(float f(muu::quaternion<float> q){ return muu::quaternion<float>{q.to_axis_angle()}.s; })x" },
		{ "matrix", "euler_angles", R"x(float f(muu::euler_angles<float> e){ return muu::matrix<float,3,3>::from_euler(e)(0,0); })x" },
		{ "matrix", "axis_angle", R"x(float f(muu::axis_angle<float> e){ return muu::matrix<float,3,3>::from_axis_angle(e)(0,0); })x" },
		{ "matrix", "vector", R"x(float f(muu::matrix<float,3,3> m, muu::vector<float,3> v){ return (m*v).x; })x" },
		{ "vector", "half", R"x(float f(muu::vector<muu::half,3> v){ return static_cast<float>(muu::vector<float,3>{v}.x); })x" },
		{ "hashing", "uuid", R"x(bool f(muu::uuid u){ return muu::uuid{u,std::string_view{"a"}}==u; })x" },
		{ "hashing", "string_param", R"x(bool f(const muu::string_param& p){ muu::fnv1a<64> h; h(static_cast<std::string_view>(p)); return h.value()!=0; })x" },
		{ "strings", "utf_decode", R"x(unsigned f(std::string_view s){ unsigned n=0; muu::utf_decode(muu::trim(s),[&](char32_t)noexcept{n++;}); return n; })x" },
		{ "strings", "fixed_string", R"x(auto f(){ constexpr muu::fixed_string s{" a"}; return muu::trim(static_cast<std::string_view>(s)).size(); })x" },
		{ "span", "emplacement_array", R"x(int f(muu::emplacement_array<int>& a){ muu::span<int> s{a.data(),a.size()}; return s.front(); })x" },
		{ "span", "blob", R"x(int f(muu::blob& a){ muu::span<std::byte> s{a.data(),a.size()}; return (int)s.front(); })x" },
		{ "thread_pool", "string_param", R"x(void f(){ muu::thread_pool p{1,0,muu::string_param{"x"}}; p.wait(); })x" },
		{ "thread_pool", "span", R"x(void f(){ muu::thread_pool p{1}; int a[4]{}; muu::span<int> s{a}; p.for_each(s,[](int&)noexcept{}); p.wait(); })x" },
		{ "packed_unit_vector", "half", R"x(auto f(muu::packed_unit_vector<unsigned,3> p){ return p.unpack<float>().x; })x" },
		{ "type_name", "fixed_string", R"x(auto f(){ return muu::type_name<muu::fixed_string<char,3>>.data(); })x" },
		{ "compressed_pair", "tagged_ptr", R"x(unsigned f(){ int x; muu::compressed_pair<int,muu::tagged_ptr<int>> p{1,&x}; return (unsigned)p.second().tag(); })x" },
};

static string repo, dir, base;
static vector<string> headers;

static const char* use_of(const string& h)
{
	for (auto& u : USES)
		if (h == u.header)
			return u.code;
	return "";
}

static void spit(const string& fn, const string& s)
{
	std::ofstream(fn, std::ios::binary) << s;
}
static string slurp(const string& fn)
{
	std::ifstream f(fn, std::ios::binary);
	std::stringstream ss;
	ss << f.rdbuf();
	return ss.str();
}

// runs a command with a stall watch of its own; returns the exit code, or -1 if it could not be run to its end
static int run(const vector<string>& a, string& err)
{
	string ef = dir + "/err";
	pid_t p	  = fork();
	if (!p)
	{
		setpgid(0, 0);
		int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		dup2(fd, 1);
		dup2(fd, 2);
		vector<char*> av;
		for (auto& s : a)
			av.push_back(const_cast<char*>(s.c_str()));
		av.push_back(nullptr);
		execvp(av[0], av.data());
		_exit(127);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR)
		;
	vf::ctx.tick = vf::ctx.tick + 1;
	err			 = slurp(ef);
	return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}

struct config
{
	const char* cc;
	const char* std;
	const char* extra;
};
static const config CFG[] = {
	{ "g++", "-std=c++20", "" },	 { "clang++", "-std=c++20", "" },
	{ "g++", "-std=c++17", "" },	 { "clang++", "-std=c++17", "" },
	{ "g++", "-std=c++20", "-fno-exceptions" }, { "clang++", "-std=c++20", "-fno-exceptions" },
	{ "g++", "-std=c++20", "-fno-rtti" },		{ "clang++", "-std=c++20", "-fno-rtti" },
	{ "g++", "-std=c++17", "-march=x86-64-v3" }, { "clang++", "-std=c++17", "-march=x86-64-v3" },
	{ "g++", "-std=c++20", "-O2" },	 { "clang++", "-std=c++20", "-O2" },
};
enum
{
	NCFG = sizeof(CFG) / sizeof(CFG[0])
};

static vector<string> cmd(const config& c, const vector<string>& more)
{
	vector<string> a{ c.cc, c.std };
	if (string(c.cc) == "g++")
		a.push_back("-fext-numeric-literals");
	if (*c.extra)
		a.push_back(c.extra);
	a.push_back("-I" + repo + "/include");
	a.insert(a.end(), more.begin(), more.end());
	return a;
}

static string first_error(const string& e)
{
	std::istringstream is(e);
	string l, out;
	int n = 0;
	while (std::getline(is, l))
		if (l.find("error") != string::npos || l.find("multiple definition") != string::npos || l.find("undefined") != string::npos
			|| l.find("duplicate symbol") != string::npos)
		{
			out += (n ? " | " : "") + l.substr(0, 300);
			if (++n == 2)
				break;
		}
	return n ? out : e.substr(0, 300);
}

// compiles (syntax only) the text under a configuration; the case is the current vf context
static bool accept(const config& c, const string& code, const char* what)
{
	string fn = dir + "/t.cpp", err;
	spit(fn, code);
	int rc = run(cmd(c, { "-w", "-fsyntax-only", fn }), err);
	vf::trans();
	if (rc == 127 || rc == -1)
	{
		fprintf(stderr, "cannot run %s (rc %d)\n", c.cc, rc);
		exit(3);
	}
	if (rc)
		vf::fail("%s: %s %s %s: %s", what, c.cc, c.std, c.extra, first_error(err).c_str());
	return !rc;
}

// the library's own translation units and a main(), as one object
static string library()
{
	static string out;
	if (!out.empty())
		return out;
	string err, o = dir + "/lib.o";
	vector<string> link{ "g++", "-r", "-nostdlib", "-o", o };
	spit(dir + "/main.cpp", "int main() { return 0; }\n");
	vector<string> src{ dir + "/main.cpp" };
	if (DIR* d = opendir((repo + "/src").c_str()))
	{
		while (dirent* e = readdir(d))
			if (string(e->d_name).size() > 4 && string(e->d_name).substr(string(e->d_name).size() - 4) == ".cpp")
				src.push_back(repo + "/src/" + e->d_name);
		closedir(d);
	}
	for (size_t i = 0; i < src.size(); i++)
	{
		string b = dir + "/lib" + std::to_string(i) + ".o";
		if (run(cmd(CFG[0], { "-w", "-O0", "-I" + repo + "/src", "-c", src[i], "-o", b }), err))
		{
			fprintf(stderr, "library source %s: %s\n", src[i].c_str(), first_error(err).c_str());
			exit(3);
		}
		link.push_back(b);
	}
	if (run(link, err))
	{
		fprintf(stderr, "library: %s\n", err.c_str());
		exit(3);
	}
	return out = o;
}

static string inc(const string& h)
{
	return "#include <muu/" + h + ".h>\n";
}
static string in_ns(const string& ns, const string& code)
{
	// explicit instantiations have to stay at global scope
	string g, l, rest = code;
	std::istringstream is(code);
	size_t at = 0;
	while (rest.compare(0, 9, "template ") == 0)
	{
		at = rest.find(';') + 1;
		g += rest.substr(0, at) + "\n";
		rest = rest.substr(std::min(rest.size(), at));
		while (!rest.empty() && rest[0] == ' ')
			rest.erase(0, 1);
	}
	return g + "namespace " + ns + " { " + rest + " }\n";
}

// code of the user's own, with one deliberate occurrence of several warnings: what the compiler says about it must not
// depend on whether a library header came first
static const char* WARNY = R"w(
namespace user_code
{
	struct base { virtual void v(); virtual void w(int); };
	struct derived : base { void v(); void w(float); };
	static int unused_function() { return 1; }
	int shadow(int a) { int unused_variable = 0; { int a = 2; (void)a; } return a; }
	float conv(double d, long long i) { float f = d; short s = i; return f + s; }
	bool sgn(int a, unsigned b) { return a < b; }
	int fall(int x) { switch (x) { case 1: x++; case 2: x--; } return x; }
	int oldcast(const char* p) { return *(int*)p; }
	bool feq(float a, float b) { return a == b; }
	struct order { int a, b; order() : b(1), a(2) {} };
	int paren(int a, int b, int c) { return a && b || c; }
	int noret(int x) { if (x) return 1; }
	unsigned char trunc() { return 300; }
	struct padded { char c; int i; };
	struct fields { int a, b; };
	fields missing() { return { .a = 1 }; }
	fields missing2() { return fields{ 1 }; }
	int useless(int x) { return static_cast<int>(x); }
	bool limits(unsigned x) { return x >= 0; }
	class priv { priv(); ~priv(); };
	double promo(float f) { return f * 1.0; }
	int* align(char* c) { return reinterpret_cast<int*>(c); }
	[[gnu::user_attribute]] int attr();
	/* a /* comment */
#ifdef __OPTIMIZE__
#warning user code is being optimized
#endif
	int covered(bool b) { switch (b) { case true: return 1; case false: return 0; default: return 2; } }
}
)w";

static vector<string> warnings_of(const config& c, const string& pre, bool& ok)
{
	string fn = dir + "/w.cpp", err;
	spit(fn, pre + "#line 1 \"user_code.cpp\"\n" + WARNY);
	int rc = run(cmd(c,
					 { "-Wall", "-Wextra", "-Wshadow", "-Wconversion", "-Wold-style-cast", "-Wmissing-field-initializers", "-Wfloat-equal", "-Wswitch-default",
					   "-Woverloaded-virtual", "-Wpadded", "-Wuseless-cast", "-Wtype-limits", "-Wctor-dtor-privacy",
					   "-Wdouble-promotion", "-Wcast-align", "-Wno-unknown-warning-option", "-fno-diagnostics-color", "-fsyntax-only", fn }),
				 err);
	ok	   = rc == 0;
	vector<string> out;
	std::istringstream is(err);
	string l;
	while (std::getline(is, l))
		if (l.find("user_code.cpp:") != string::npos && l.find("warning:") != string::npos)
			out.push_back(l.substr(l.find("user_code.cpp:")));
	std::sort(out.begin(), out.end());
	return out;
}

static vector<string> foreign_macros(const config& c, const string& pre, bool& ok)
{
	string fn = dir + "/m.cpp", err;
	spit(fn, pre);
	int rc = run(cmd(c, { "-w", "-E", "-dM", fn }), err);
	ok	   = rc == 0;
	vector<string> out;
	std::istringstream is(err);
	string l;
	while (std::getline(is, l))
		out.push_back(l);
	std::sort(out.begin(), out.end());
	return out;
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	vf::stall_limit = 40;
	repo			= getenv("VF_REPO") ? getenv("VF_REPO") : "/repo";
	char tmpl[]		= "/tmp/vf_inc_XXXXXX";
	dir				= mkdtemp(tmpl);
	if (DIR* d = opendir((repo + "/include/muu").c_str()))
	{
		while (dirent* e = readdir(d))
		{
			string n = e->d_name;
			if (n.size() > 2 && n.compare(n.size() - 2, 2, ".h") == 0)
			{
				string t = slurp(repo + "/include/muu/" + n);
				// headers that are placeholders and say so
				if (t.find("prohibited") != string::npos && t.find("#error") != string::npos && t.size() < 4000 && n != "all.h")
				{
					string fn = dir + "/p.cpp", err;
					spit(fn, inc(n.substr(0, n.size() - 2)));
					if (run(cmd(CFG[0], { "-w", "-fsyntax-only", fn }), err) != 0
						&& first_error(err).find("prohibited") != string::npos)
						continue;
				}
				headers.push_back(n.substr(0, n.size() - 2));
			}
		}
		closedir(d);
	}
	std::sort(headers.begin(), headers.end());
	const int N = (int)headers.size();
	if (N < 40)
	{
		fprintf(stderr, "only %d headers found\n", N);
		return 3;
	}
	// keys name headers, not positions, so that a replay survives a header being added
	vector<string> labels;
	labels.reserve(200000);
	auto label = [&](const string& s) { labels.push_back(s); vf::text(labels.back().c_str()); };
	uint64_t k = 0;

	if (vf::group("alone")) // one header, then its own vocabulary; and the same header twice
		for (auto& h : headers)
			for (int c = 0; c < (vf::thorough ? (int)NCFG : 6); c++)
				if (vf::mine(k++))
				{
					vf::at(c);
					label(h);
					if (vf::only.find(':') != string::npos && vf::key() != vf::only)
						continue;
					vf::state();
					if (string(CFG[c].extra) == "-fno-exceptions" || string(CFG[c].extra) == "-fno-rtti")
						accept(CFG[c], inc(h), "header alone");
					else
						accept(CFG[c], inc(h) + inc(h) + use_of(h) + "\n", "header, again, and its use");
				}
	k = 0;
	if (vf::group("all")) // a header before and after everything else
		for (auto& h : headers)
			for (int c = 0; c < 2; c++)
				for (int order = vf::thorough ? 0 : 1; order < 2; order++)
					if (vf::mine(k++))
					{
						vf::at(c, order);
						label(h);
						if (vf::only.find(':') != string::npos && vf::key() != vf::only)
							continue;
						vf::state();
						accept(CFG[c], (order ? inc(h) + inc("all") : inc("all") + inc(h)) + use_of(h) + "\n",
							   order ? "header, then all.h" : "all.h, then header");
					}
	k = 0;
	if (vf::group("cross")) // what two headers offer together is there whichever came first
		for (auto& x : CROSS)
			for (int c = 0; c < (vf::thorough ? 4 : 2); c++)
				for (int order = 0; order < 3; order++)
					if (vf::mine(k++))
					{
						vf::at(c, order);
						label(string(x.a) + "+" + x.b);
						if (vf::only.find(':') != string::npos && vf::key() != vf::only)
							continue;
						vf::state();
						string fn = dir + "/x.cpp", err;
						string pre = order == 0 ? inc(x.a) + inc(x.b) : order == 1 ? inc(x.b) + inc(x.a) : inc("all");
						spit(fn, pre + x.code + "\n");
						// not syntax only: what is used has to be defined too, when it is a template
						int rc = run(cmd(CFG[c], { "-w", "-O0", "-c", fn, "-o", dir + "/x.o" }), err);
						vf::trans();
						if (rc)
							vf::fail("both headers: %s %s: %s", CFG[c].cc, CFG[c].std, first_error(err).c_str());
						else
						{
							rc = run({ CFG[c].cc, dir + "/x.o", library(), "-pthread", "-o", dir + "/x" }, err);
							if (rc)
								vf::fail("declared and used but never defined: %s", first_error(err).c_str());
						}
					}
	k = 0;
	if (vf::group("odr")) // the same header in two translation units of one program
		for (auto& h : headers)
			for (int c = 0; c < 2; c++)
				if (vf::mine(k++))
				{
					vf::at(c);
					label(h);
					if (vf::only.find(':') != string::npos && vf::key() != vf::only)
						continue;
					vf::state();
					string err;
					bool ok = true;
					for (int tu = 0; tu < 2 && ok; tu++)
					{
						string b = dir + "/o" + std::to_string(tu);
						spit(b + ".cpp", inc(h) + in_ns("tu" + std::to_string(tu), use_of(h)));
						int rc = run(cmd(CFG[c], { "-w", "-O0", "-c", b + ".cpp", "-o", b + ".o" }), err);
						vf::trans();
						if (rc)
						{
							vf::fail("%s: %s", CFG[c].cc, first_error(err).c_str());
							ok = false;
						}
					}
					if (!ok)
						continue;
					int rc = run({ "g++", "-r", "-nostdlib", "-o", dir + "/o.o", dir + "/o0.o", dir + "/o1.o" }, err);
					vf::trans();
					if (rc)
						vf::fail("two translation units: %s: %s", CFG[c].cc, first_error(err).c_str());
				}
	k = 0;
	if (vf::group("warnings")) // the user's own warnings are the same with and without the header
		for (int c = 0; c < 2; c++)
		{
			bool ok = true;
			vector<string> want;
			for (auto& h : headers)
				if (vf::mine(k++))
				{
					if (want.empty())
						want = warnings_of(CFG[c], "", ok);
					if (!ok || want.size() < 16)
					{
						fprintf(stderr, "warning baseline failed\n");
						return 3;
					}
					vf::at(c);
					label(h);
					if (vf::only.find(':') != string::npos && vf::key() != vf::only)
						continue;
					vf::state();
					vf::trans();
					auto got = warnings_of(CFG[c], inc(h), ok);
					if (ok && got != want)
					{
						string d;
						for (auto& w : want)
							if (!std::count(got.begin(), got.end(), w))
								d += " lost: " + w;
						for (auto& w : got)
							if (!std::count(want.begin(), want.end(), w))
								d += " new: " + w;
						vf::fail("%s reports other warnings for the user's code after the header:%s", CFG[c].cc, d.c_str());
					}
					ok = true;
				}
		}
	k = 0;
	if (vf::group("macros")) // nothing but MUU_ macros is defined, and nothing is redefined or removed
	{
		const string common =
			"#include <atomic>\n#include <cassert>\n#include <cfloat>\n#include <ciso646>\n#include <climits>\n#include <cmath>\n"
			"#include <version>\n#include <cstddef>\n#include <cstdint>\n#include <cstdlib>\n#include <cstring>\n#include <exception>\n"
			"#include <initializer_list>\n#include <iosfwd>\n#include <iterator>\n#include <limits>\n#include <memory>\n#include <new>\n"
			"#include <numeric>\n#include <optional>\n#include <string>\n#include <string_view>\n#include <tuple>\n#include <type_traits>\n"
			"#include <typeindex>\n#include <utility>\n#include <variant>\n#include <functional>\n#include <algorithm>\n#include <array>\n"
			"#include <vector>\n#include <thread>\n#include <immintrin.h>\n"
			"#if defined(__GNUC__) && !defined(__clang__)\n#include <quadmath.h>\n#endif\n"
			// names a library is tempted by; they are the user's
			"#define check(x) user_check(x)\n#define verify(x) user_verify(x)\n#define USER_MACRO 1\n#define FUNC user_func\n"
			"#define VEC_FUNC user_vec\n#define MAT_GET user_mat\n#define HALF_BINARY_OPS user_half\n";
		for (int c = 0; c < 4; c++)
		{
			bool ok = true;
			vector<string> before;
			for (auto& h : headers)
				if (vf::mine(k++))
				{
					if (before.empty())
						before = foreign_macros(CFG[c], common.substr(0, common.find("#define VEC_FUNC")), ok);
					vf::at(c);
					label(h);
					if (vf::only.find(':') != string::npos && vf::key() != vf::only)
						continue;
					vf::state();
					vf::trans();
					auto after = foreign_macros(CFG[c], common.substr(0, common.find("#define VEC_FUNC")) + inc(h), ok);
					if (!ok)
					{
						vf::fail("%s %s does not preprocess", CFG[c].cc, CFG[c].std);
						ok = true;
						continue;
					}
					string d;
					auto name = [](const string& l) { // "#define NAME..."
						string n = l.substr(std::min<size_t>(8, l.size()));
						size_t e = 0;
						while (e < n.size() && (isalnum((unsigned char)n[e]) || n[e] == '_'))
							e++;
						return n.substr(0, e);
					};
					for (auto& m : before)
						if (!std::binary_search(after.begin(), after.end(), m))
							d += " changed or removed: " + m;
					for (auto& m : after)
						if (!std::binary_search(before.begin(), before.end(), m))
						{
							string n = name(m);
							// the compiler's and the standard library's own names are not muu's doing
							if (n.compare(0, 4, "MUU_") && n.compare(0, 1, "_") && n != "POXY_IMPLEMENTATION_DETAIL")
								d += " new: " + m.substr(0, 100);
						}
					if (!d.empty())
						vf::fail("%s %s macros after the header:%s", CFG[c].cc, CFG[c].std, d.substr(0, 500).c_str());
				}
		}
	}
	k = 0;
	if (vf::thorough && vf::group("pair")) // every ordered pair of headers, each with its vocabulary
		for (auto& a : headers)
			for (auto& b : headers)
				for (int c = 0; c < 2; c++)
					if (a != b && vf::mine(k++))
					{
						vf::at(c);
						label(a + "," + b);
						if (vf::only.find(':') != string::npos && vf::key() != vf::only)
							continue;
						vf::state();
						accept(CFG[c], inc(a) + inc(b) + in_ns("u1", use_of(a)) + in_ns("u2", use_of(b)), "two headers");
					}
	if (DIR* d = opendir(dir.c_str()))
	{
		while (dirent* e = readdir(d))
			unlink((dir + "/" + e->d_name).c_str());
		closedir(d);
		rmdir(dir.c_str());
	}
	return vf::finish();
}
