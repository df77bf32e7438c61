// Metaprogramming helpers: invoke and its traits, container detection, type names, monostate.
#include "rec.h"
#define F_invoke 1
#define F_tname 2
#include <functional>
#include <list>
#include <map>
#include <type_traits>
#if FAMILY == F_invoke
#include "gul14/traits.h"
#include "gul14/utility.h"
#else
#include "gul14/type_name.h"
#endif
using std::string;
template <typename T> struct Tag { using type = T; };

#if FAMILY == F_invoke
// ---------------------------------------------------------------- what a callee saw
struct Seen { int code = 0; const void* obj = nullptr; int val = -1; } seen;
static void note(int code, const void* obj, int v) { seen = { code, obj, v }; }
struct A {
    int m = 41; const int cm = 42;
    int& fn(int x) { note(1, this, x); return m; }
    const int& fc(int& x) const { note(2, this, x); x += 100; return m; }
    int fl(int&& x) & { note(3, this, x); x += 100; return m; }
    int&& fr(const int& x) && { note(4, this, x); return std::move(m); }
    void fcr() const && { note(5, this, -1); }
    int fcl(int x, const int& y) const & { note(6, this, x + y); return m; }
    virtual int fv(int x) { note(7, this, x); return m; }
    virtual ~A() = default;
};
struct D : A { int extra = 1; int fv(int x) override { note(8, this, x); return m; } };
struct U { int m = 3; };
struct Fun {
    int operator()(int x) & { note(11, this, x); return 1; }
    long operator()(int x) const & { note(12, this, x); return 2; }
    int&& operator()(int x) && { note(13, this, x); static int s; return std::move(s); }
    void operator()(int x) const && { note(14, this, x); }
};
struct Nothing {};
static int free1(int x) { note(15, nullptr, x); return 5; }
static void free0() { note(16, nullptr, -1); }
static int& freer(int& x) { note(17, nullptr, x); x += 100; return x; }

// ---------------------------------------------------------------- descriptions
template <typename T> const char* cat() // category of a result type over int (or long)
{
    return std::is_void<T>::value ? "void" : std::is_same<T, int>::value ? "v" : std::is_same<T, int&>::value ? "l" : std::is_same<T, const int&>::value ? "cl" : std::is_same<T, int&&>::value ? "r"
         : std::is_same<T, const int&&>::value ? "cr" : std::is_same<T, long>::value ? "long" : "other";
}
template <bool ok, typename F, typename... Args> struct Res { static const char* name() { return "none"; } };
template <typename F, typename... Args> struct Res<true, F, Args...> { static const char* name() { return cat<gul14::invoke_result_t<F, Args...>>(); } };
template <typename F, typename... Args> static void traits(Rec& R)
{
    constexpr bool ok = gul14::is_invocable<F, Args...>::value;
    R.b("inv", ok).t("res", Res<ok, F, Args...>::name());
    R.b("rv", gul14::is_invocable_r<void, F, Args...>::value).b("ri", gul14::is_invocable_r<int, F, Args...>::value).b("rl", gul14::is_invocable_r<long, F, Args...>::value).b("rr", gul14::is_invocable_r<int&, F, Args...>::value)
     .b("rx", gul14::is_invocable_r<int&&, F, Args...>::value).b("rc", gul14::is_invocable_r<const int&, F, Args...>::value).b("rs", gul14::is_invocable_r<string, F, Args...>::value);
}
// does the call, if there is one
template <bool ok> struct Do {
    template <typename F, typename... Args> static int go(F&& f, Args&&... a) { return call(std::is_void<gul14::invoke_result_t<F, Args...>>{}, std::forward<F>(f), std::forward<Args>(a)...); }
    template <typename F, typename... Args> static int call(std::true_type, F&& f, Args&&... a) { gul14::invoke(std::forward<F>(f), std::forward<Args>(a)...); return -1; }
    template <typename F, typename... Args> static int call(std::false_type, F&& f, Args&&... a) { return int(gul14::invoke(std::forward<F>(f), std::forward<Args>(a)...)); }
};
template <> struct Do<false> { template <typename... T> static int go(T&&...) { return -7; } };

// arguments behind the object, by name
template <typename F, typename O> static void with_args(Rec& R, const char* fk, F f, const char* on, O&& o, const void* target)
{
    auto begin = [&](const char* an) { R.begin("invoke").t("k", fk).t("o", on).t("a", an).call(); seen = Seen{}; };
    auto end = [&](int ret, int after) { R.i("ret", ret).i("code", seen.code).b("same", seen.obj == target).i("val", seen.val).i("after", after).end(); };
    { begin("none"); traits<F, O>(R); int ret = Do<gul14::is_invocable<F, O>::value>::go(f, std::forward<O>(o)); end(ret, 7); }
    { begin("il"); int x = 7; traits<F, O, int&>(R); int ret = Do<gul14::is_invocable<F, O, int&>::value>::go(f, std::forward<O>(o), x); end(ret, x); }
    { begin("cl"); const int x = 7; traits<F, O, const int&>(R); int ret = Do<gul14::is_invocable<F, O, const int&>::value>::go(f, std::forward<O>(o), x); end(ret, x); }
    { begin("rv"); int x = 7; traits<F, O, int>(R); int ret = Do<gul14::is_invocable<F, O, int>::value>::go(f, std::forward<O>(o), std::move(x)); end(ret, x); }
    { begin("two"); int x = 7, y = 2; traits<F, O, int&, int&>(R); int ret = Do<gul14::is_invocable<F, O, int&, int&>::value>::go(f, std::forward<O>(o), x, y); end(ret, x); }
    { begin("str"); string s; traits<F, O, string&>(R); int ret = Do<gul14::is_invocable<F, O, string&>::value>::go(f, std::forward<O>(o), s); end(ret, 7); }
}
template <typename F> static void with_objects(Rec& R, const char* fk, F f, bool skip_rvalue)
{
    A a; const A ca; D d; const D cd; U u; const void* pa = &a; const void* pca = &ca; const void* pd = static_cast<A*>(&d); const void* pcd = static_cast<const A*>(&cd);
    with_args<F, A&>(R, fk, f, "A&", a, pa); with_args<F, const A&>(R, fk, f, "cA&", ca, pca); with_args<F, D&>(R, fk, f, "D&", d, pd); with_args<F, const D&>(R, fk, f, "cD&", cd, pcd);
    if (!skip_rvalue) { with_args<F, A>(R, fk, f, "A", std::move(a), pa); with_args<F, const A>(R, fk, f, "cA", std::move(ca), pca); with_args<F, D>(R, fk, f, "D", std::move(d), pd); }
    A* ap = &a; const A* cap = &ca; D* dp = &d; A* const acp = &a; int i = 0; U* up = &u;
    with_args<F, A*>(R, fk, f, "A*", std::move(ap), pa); with_args<F, A*&>(R, fk, f, "A*", ap, pa); with_args<F, A* const&>(R, fk, f, "A*", acp, pa); with_args<F, const A*>(R, fk, f, "cA*", std::move(cap), pca); with_args<F, D*>(R, fk, f, "D*", std::move(dp), pd);
    std::unique_ptr<A> q(new A); const std::unique_ptr<D> qd(new D); std::shared_ptr<const A> s = std::make_shared<A>(); std::vector<A> v(2); std::unique_ptr<U> qu(new U);
    with_args<F, std::unique_ptr<A>&>(R, fk, f, "A*", q, q.get()); with_args<F, std::unique_ptr<A>>(R, fk, f, "A*", std::move(q), q.get()); with_args<F, const std::unique_ptr<D>&>(R, fk, f, "D*", qd, static_cast<A*>(qd.get())); with_args<F, std::shared_ptr<const A>>(R, fk, f, "cA*", std::move(s), s.get());
    with_args<F, std::vector<A>::iterator>(R, fk, f, "A*", v.begin() + 1, &v[1]); with_args<F, std::vector<A>::const_iterator>(R, fk, f, "cA*", v.cbegin(), &v[0]);
    std::reference_wrapper<A> ra(a); std::reference_wrapper<const A> rca(ca); const std::reference_wrapper<D> rd(d); std::reference_wrapper<U> ru(u);
    with_args<F, std::reference_wrapper<A>&>(R, fk, f, "refA", ra, pa); with_args<F, std::reference_wrapper<A>>(R, fk, f, "refA", std::move(ra), pa); with_args<F, std::reference_wrapper<const A>>(R, fk, f, "refcA", std::move(rca), pca); with_args<F, const std::reference_wrapper<D>&>(R, fk, f, "refD", rd, pd);
    with_args<F, U&>(R, fk, f, "U", u, nullptr); with_args<F, U*>(R, fk, f, "U", std::move(up), nullptr); with_args<F, std::reference_wrapper<U>>(R, fk, f, "U", std::move(ru), nullptr); with_args<F, int&>(R, fk, f, "int", i, nullptr); with_args<F, std::unique_ptr<U>&>(R, fk, f, "U", qu, nullptr); with_args<F, std::nullptr_t>(R, fk, f, "null", nullptr, nullptr);
}
template <typename F> static void callable(Rec& R, const char* fk, F&& f, const void* target)
{
    auto begin = [&](const char* an) { R.begin("call").t("k", fk).t("a", an).call(); seen = Seen{}; };
    auto end = [&](int ret, int after) { R.i("ret", ret).i("code", seen.code).b("same", seen.obj == target).i("val", seen.val).i("after", after).end(); };
    { begin("none"); traits<F>(R); int ret = Do<gul14::is_invocable<F>::value>::go(std::forward<F>(f)); end(ret, 7); }
    { begin("il"); int x = 7; traits<F, int&>(R); int ret = Do<gul14::is_invocable<F, int&>::value>::go(std::forward<F>(f), x); end(ret, x); }
    { begin("cl"); const int x = 7; traits<F, const int&>(R); int ret = Do<gul14::is_invocable<F, const int&>::value>::go(std::forward<F>(f), x); end(ret, x); }
    { begin("rv"); int x = 7; traits<F, int>(R); int ret = Do<gul14::is_invocable<F, int>::value>::go(std::forward<F>(f), std::move(x)); end(ret, x); }
    { begin("two"); int x = 7; traits<F, int&, int&>(R); int ret = Do<gul14::is_invocable<F, int&, int&>::value>::go(std::forward<F>(f), x, x); end(ret, x); }
    { begin("str"); string s; traits<F, string&>(R); int ret = Do<gul14::is_invocable<F, string&>::value>::go(std::forward<F>(f), s); end(ret, 7); }
}
// member data
template <typename F, typename O> static void data(Rec& R, const char* fk, F f, const char* on, O&& o, const void* target)
{
    R.begin("data").t("k", fk).t("o", on).call(); traits<F, O>(R); bool same = false, two = gul14::is_invocable<F, O, int>::value;
    dodata(std::integral_constant<bool, gul14::is_invocable<F, O>::value>{}, f, std::forward<O>(o), target, same);
    R.b("same", same).b("two", two).end();
}
template <typename F, typename O> static void dodata(std::true_type, F f, O&& o, const void* target, bool& same) { auto&& r = gul14::invoke(f, std::forward<O>(o)); same = static_cast<const void*>(&r) == target; }
template <typename F, typename O> static void dodata(std::false_type, F, O&&, const void*, bool&) {}
template <typename F, typename M> static void data_objects(Rec& R, const char* fk, F f, M mem)
{
    A a; const A ca; D d; U u; const D cd;
    data<F, A&>(R, fk, f, "A&", a, &(a.*mem)); data<F, const A&>(R, fk, f, "cA&", ca, &(ca.*mem)); data<F, D&>(R, fk, f, "D&", d, &(d.*mem)); data<F, const D&>(R, fk, f, "cD&", cd, &(cd.*mem)); data<F, A>(R, fk, f, "A", std::move(a), &(a.*mem)); data<F, const A>(R, fk, f, "cA", std::move(ca), &(ca.*mem)); data<F, D>(R, fk, f, "D", std::move(d), &(d.*mem));
    A* ap = &a; const A* cap = &ca; D* dp = &d; data<F, A*>(R, fk, f, "A*", std::move(ap), &(a.*mem)); data<F, A*&>(R, fk, f, "A*", ap, &(a.*mem)); data<F, const A*>(R, fk, f, "cA*", std::move(cap), &(ca.*mem)); data<F, D*>(R, fk, f, "D*", std::move(dp), &(d.*mem));
    std::unique_ptr<A> q(new A); std::shared_ptr<const A> s = std::make_shared<A>(); data<F, std::unique_ptr<A>&>(R, fk, f, "A*", q, &((*q).*mem)); data<F, std::unique_ptr<A>>(R, fk, f, "A*", std::move(q), &((*q).*mem)); data<F, std::shared_ptr<const A>&>(R, fk, f, "cA*", s, &((*s).*mem));
    std::reference_wrapper<A> ra(a); std::reference_wrapper<const A> rca(ca); std::reference_wrapper<D> rd(d); data<F, std::reference_wrapper<A>&>(R, fk, f, "refA", ra, &(a.*mem)); data<F, std::reference_wrapper<A>>(R, fk, f, "refA", std::move(ra), &(a.*mem)); data<F, const std::reference_wrapper<const A>>(R, fk, f, "refcA", std::move(rca), &(ca.*mem)); data<F, std::reference_wrapper<D>>(R, fk, f, "refD", std::move(rd), &(d.*mem));
    int i = 0; data<F, U&>(R, fk, f, "U", u, nullptr); data<F, int&>(R, fk, f, "int", i, nullptr); data<F, std::nullptr_t>(R, fk, f, "null", nullptr, nullptr);
}
// ---------------------------------------------------------------- containers
template <int k> struct CB {}; template <> struct CB<1> { const int* cbegin() const { return nullptr; } };
template <int k> struct CE {}; template <> struct CE<1> { const int* cend() const { return nullptr; } };
template <int k> struct VT {}; template <> struct VT<1> { using value_type = int; };
template <int b, int e, int v> struct C : CB<b>, CE<e>, VT<v> { int begin() { return 0; } };
template <int b, int e, int v> static void cont(Rec& R) { R.begin("cont").i("b", b).i("e", e).i("v", v).call(); R.b("o", gul14::IsContainerLike<C<b, e, v>>::value).b("oc", gul14::IsContainerLike<const C<b, e, v>>::value).end(); }
template <typename T, typename X> static void cvref(Rec& R, const char* n) { R.begin("cvref").t("t", n).call(); R.b("same", std::is_same<gul14::remove_cvref_t<X>, T>::value && std::is_same<typename gul14::remove_cvref<X>::type, T>::value).b("vt", std::is_void<gul14::void_t<X, T>>::value).end(); }
template <typename T> static void cvrefs(Rec& R, const char* n) { cvref<T, T>(R, n); cvref<T, const T>(R, n); cvref<T, volatile T>(R, n); cvref<T, const volatile T>(R, n); cvref<T, T&>(R, n); cvref<T, const T&>(R, n); cvref<T, volatile T&>(R, n); cvref<T, const volatile T&>(R, n); cvref<T, T&&>(R, n); cvref<T, const T&&>(R, n); cvref<T, const volatile T&&>(R, n); }
static void fam_invoke(Rec& R, Gen&, bool)
{
    with_objects(R, "fn", &A::fn, false); with_objects(R, "fc", &A::fc, false); with_objects(R, "fl", &A::fl, false); with_objects(R, "fr", &A::fr, false); with_objects(R, "fcr", &A::fcr, false); with_objects(R, "fcl", &A::fcl, true); with_objects(R, "fv", &A::fv, false);
    data_objects(R, "m", &A::m, &A::m); data_objects(R, "cm", &A::cm, &A::cm);
    Fun f; const Fun cf; callable<Fun&>(R, "Fun&", f, &f); callable<const Fun&>(R, "cFun&", cf, &cf); callable<Fun>(R, "Fun", std::move(f), &f); callable<const Fun>(R, "cFun", std::move(cf), &cf);
    callable<int (*)(int)>(R, "free1", &free1, nullptr); callable<int (&)(int)>(R, "free1", free1, nullptr); callable<void (*)()>(R, "free0", &free0, nullptr); callable<int& (&)(int&)>(R, "freer", freer, nullptr); std::function<int(int)> sf(&free1); callable<std::function<int(int)>&>(R, "free1", sf, nullptr); callable<const std::function<int(int)>&>(R, "free1", sf, nullptr);
    auto lam = [](int x) { note(15, nullptr, x); return 5; }; callable<decltype(lam)&>(R, "free1", lam, nullptr); callable<const decltype(lam)>(R, "free1", std::move(lam), nullptr);
    Nothing n; int i = 3; callable<Nothing&>(R, "nothing", n, nullptr); callable<int&>(R, "nothing", i, nullptr); callable<std::nullptr_t>(R, "nothing", nullptr, nullptr);
    cont<0, 0, 0>(R); cont<0, 0, 1>(R); cont<0, 1, 0>(R); cont<0, 1, 1>(R); cont<1, 0, 0>(R); cont<1, 0, 1>(R); cont<1, 1, 0>(R); cont<1, 1, 1>(R);
    R.begin("conts").call(); R.v("y", std::vector<int>{ gul14::IsContainerLike<std::vector<int>>::value, gul14::IsContainerLike<std::list<A>>::value, gul14::IsContainerLike<string>::value, gul14::IsContainerLike<std::map<int, int>>::value, gul14::IsContainerLike<const std::vector<std::unique_ptr<int>>>::value, gul14::IsContainerLike<std::initializer_list<int>>::value + 1 })
        .v("n", std::vector<int>{ gul14::IsContainerLike<int>::value, gul14::IsContainerLike<void>::value, gul14::IsContainerLike<int[3]>::value, gul14::IsContainerLike<A>::value, gul14::IsContainerLike<int*>::value }).end();
    cvrefs<int>(R, "int"); cvrefs<A>(R, "class"); cvrefs<const char*>(R, "pointer to const"); cvrefs<A* const*>(R, "pointer to const pointer"); cvrefs<int A::*>(R, "member pointer");
    gul14::monostate a, b; std::hash<gul14::monostate> h;
    R.begin("mono").call(); R.b("eq", a == b).b("ne", a != b).b("lt", a < b).b("gt", a > b).b("le", a <= b).b("ge", a >= b).b("h", h(a) == h(b)).b("e", std::is_empty<gul14::monostate>::value).end();
}
#else
// ---------------------------------------------------------------- type names
namespace ns {
template <typename A, typename B> struct Pair {}; template <int n> struct N {}; template <char c> struct Ch {}; template <bool b> struct Bo {}; template <typename... T> struct Pack {};
struct S { struct In {}; int x; }; enum class E { a }; namespace deep { struct T {}; }
}
struct Glob {};
// the structure of a type as JSON
template <typename T> struct Term;
#define BASE(T, name) template <> struct Term<T> { static string s() { return "[\"b\",\"" name "\"]"; } };
BASE(int, "int") BASE(char, "char") BASE(bool, "bool") BASE(double, "double") BASE(float, "float") BASE(void, "void") BASE(unsigned, "unsigned int") BASE(long, "long int") BASE(unsigned long, "long unsigned int") BASE(long long, "long long int") BASE(unsigned char, "unsigned char") BASE(short, "short int") BASE(long double, "long double") BASE(wchar_t, "wchar_t")
BASE(ns::S, "ns::S") BASE(ns::S::In, "ns::S::In") BASE(ns::E, "ns::E") BASE(ns::deep::T, "ns::deep::T") BASE(Glob, "Glob")
template <typename T> struct Term<const T> { static string s() { return "[\"c\"," + Term<T>::s() + "]"; } };
template <typename T> struct Term<volatile T> { static string s() { return "[\"v\"," + Term<T>::s() + "]"; } };
template <typename T> struct Term<const volatile T> { static string s() { return "[\"cv\"," + Term<T>::s() + "]"; } };
template <typename T> struct Term<T*> { static string s() { return "[\"p\"," + Term<T>::s() + "]"; } };
template <typename T> struct Term<T&> { static string s() { return "[\"l\"," + Term<T>::s() + "]"; } };
template <typename T> struct Term<T&&> { static string s() { return "[\"r\"," + Term<T>::s() + "]"; } };
template <typename T, std::size_t n> struct Term<T[n]> { static string s() { return "[\"a\"," + Term<T>::s() + ",\"" + std::to_string(n) + "\"]"; } };
template <typename T, std::size_t n> struct Term<const T[n]> { static string s() { return "[\"a\"," + Term<const T>::s() + ",\"" + std::to_string(n) + "\"]"; } };
template <typename T> struct Term<T[]> { static string s() { return "[\"a\"," + Term<T>::s() + ",\"\"]"; } };
template <typename T> struct Term<const T[]> { static string s() { return "[\"a\"," + Term<const T>::s() + ",\"\"]"; } };
static string list(std::initializer_list<string> l) { string r = "["; for (auto& x : l) { if (r.size() > 1) r += ','; r += x; } return r + "]"; }
template <typename Ret, typename... A> struct Term<Ret(A...)> { static string s() { return "[\"f\"," + Term<Ret>::s() + "," + list({ Term<A>::s()... }) + "]"; } };
template <typename A, typename B> struct Term<ns::Pair<A, B>> { static string s() { return "[\"t\",\"ns::Pair\"," + list({ Term<A>::s(), Term<B>::s() }) + "]"; } };
template <typename... A> struct Term<ns::Pack<A...>> { static string s() { return "[\"t\",\"ns::Pack\"," + list({ Term<A>::s()... }) + "]"; } };
template <int n> struct Term<ns::N<n>> { static string s() { return "[\"t\",\"ns::N\",[[\"b\",\"" + std::to_string(n) + "\"]]]"; } };
template <char c> struct Term<ns::Ch<c>> { static string s() { return string("[\"t\",\"ns::Ch\",[[\"b\",\"'") + c + "'\"]]]"; } };
template <bool b> struct Term<ns::Bo<b>> { static string s() { return string("[\"t\",\"ns::Bo\",[[\"b\",\"") + (b ? "true" : "false") + "\"]]]"; } };
template <typename T> static void name(Rec& R)
{
    R.begin("tname").raw("t", Term<T>::s()).call(); auto n = gul14::type_name<T>();
    R.t("o", string(n.data(), n.size()).c_str()).end();
}
// constructions of depth k over T, where the language has them
template <int k> struct Deep { template <typename T> static void go(Rec& R); };
template <typename T, typename = void> struct Ptr { template <int k> static void go(Rec&) {} };
template <typename T> struct Ptr<T, std::enable_if_t<!std::is_reference<T>::value>> { template <int k> static void go(Rec& R) { Deep<k>::template go<T*>(R); } };
template <typename T, bool ok> struct Ref { template <int k> static void go(Rec& R) { Deep<k>::template go<T&>(R); Deep<k>::template go<T&&>(R); } };
template <typename T> struct Ref<T, false> { template <int k> static void go(Rec&) {} };
template <typename T, bool ok> struct Cv { template <int k> static void go(Rec& R) { Deep<k>::template go<const T>(R); Deep<k>::template go<volatile T>(R); Deep<k>::template go<const volatile T>(R); } };
template <typename T> struct Cv<T, false> { template <int k> static void go(Rec&) {} };
template <typename T, bool ok> struct Arr { template <int k> static void go(Rec& R) { Deep<k>::template go<T[3]>(R); Deep<k>::template go<T[1]>(R); Deep<k>::template go<T[]>(R); } };
template <typename T> struct Arr<T, false> { template <int k> static void go(Rec&) {} };
template <typename T, bool ok> struct Fn { template <int k> static void go(Rec& R) { Deep<k>::template go<T()>(R); Deep<k>::template go<T(int, ns::S)>(R); } };
template <typename T> struct Fn<T, false> { template <int k> static void go(Rec&) {} };
template <> struct Deep<0> { template <typename T> static void go(Rec& R) { name<T>(R); } };
template <int k> template <typename T> void Deep<k>::go(Rec& R)
{
    using B = std::remove_cv_t<std::remove_reference_t<T>>; constexpr bool ref = std::is_reference<T>::value, fn = std::is_function<T>::value, arr = std::is_array<T>::value, vd = std::is_void<T>::value, cv = !std::is_same<std::remove_cv_t<T>, T>::value; (void)sizeof(Tag<B>);
    name<T>(R);
    Ptr<T>::template go<k - 1>(R); Ref<T, !ref && !vd>::template go<k - 1>(R); Cv<T, !ref && !fn && !arr && !cv>::template go<k - 1>(R); Arr<T, !ref && !fn && !vd && !std::is_array<T>::value && !cv>::template go<k - 1>(R); Fn<T, !fn && !arr && !cv>::template go<k - 1>(R);
    Deep<0>::go<ns::Pair<T, int>>(R); Deep<0>::go<ns::Pack<T>>(R); Deep<0>::go<ns::Pack<ns::Pack<>, T, ns::Pack<T, ns::N<k>>>>(R); Deep<0>::go<ns::Pair<const ns::Pair<char, T>, ns::Pack<T, T>>>(R);
}
template <char... c> static void chars(Rec& R) { int x[] = { (name<ns::Ch<c>>(R), 0)... }; (void)x; }
static void fam_tname(Rec& R, Gen&, bool)
{
    Deep<3>::go<int>(R); Deep<3>::go<ns::S::In>(R); Deep<2>::go<ns::Pair<int, ns::S>>(R); Deep<2>::go<void>(R); Deep<2>::go<unsigned long>(R); Deep<1>::go<ns::E>(R); Deep<1>::go<Glob>(R); Deep<1>::go<ns::deep::T>(R);
    name<char>(R); name<bool>(R); name<double>(R); name<float>(R); name<unsigned>(R); name<long>(R); name<long long>(R); name<unsigned char>(R); name<short>(R); name<long double>(R); name<wchar_t>(R);
    name<ns::N<0>>(R); name<ns::N<-5>>(R); name<ns::N<2147483647>>(R); name<ns::Bo<true>>(R); name<ns::Bo<false>>(R); name<ns::Pack<>>(R); name<ns::Pack<ns::N<1>, ns::Ch<';'>, ns::Bo<true>>>(R); name<ns::Pair<ns::Ch<';'>, ns::Ch<'='>>>(R);
    chars<'a', 'Z', '0', ';', '=', ' ', '[', ']', '<', '>', ',', ':', '&', '*', '(', ')', '-', '{', '}', '~', '!'>(R);
}
#endif
int main(int argc, char** argv)
{
    Args a = parse_args(argc, argv); Rec R(a.out, a.last); Gen g(a.seed);
    FAM(R, g, a.thorough());
    std::printf("%zu\n", R.count);
}
