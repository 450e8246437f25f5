"""Every position in which C++ has an expression (P, # is the expression), wrappers around an expression (W), and positions of class definitions (D)."""
PRE='''char *getenv(const char *); template<class T> T id(T t) { return t; } void use(...); struct Obj { Obj(char * = nullptr, int = 0); Obj &operator()(char *); char *operator[](char *); Obj &operator+=(char *); Obj &operator<<(char *); char *m(char * = nullptr); ~Obj(); char *f; bool operator==(char *); }; struct Agg { char *a; Agg2 *z; char *b; }; 
struct Arr { char *a[3]; }; extern bool cond;
namespace std { typedef decltype(sizeof(0)) size_t; template<class T> struct initializer_list { const T *p; size_t n; const T *begin() const; const T *end() const; }; }
struct IL { IL(std::initializer_list<char *>); };
'''.replace("Agg2 *z","int z")
P=["char *v@ = #;","char *v@{#};","char *v@(#);","char *a@[] = {#};","char *a@[2] = {nullptr, #};","Agg g@ = {#, 1, nullptr};","Agg g@{nullptr, 1, #};","Agg g@{.a = #};","Arr g@ = {{nullptr, #}};","Arr g@ = {nullptr, #};","IL i@ = {#};","IL i@{nullptr, #};","static char *s@ = #;","inline char *il@ = #;","template<class T> char *vt@ = #;","template<class T> char *vt@ = #; char *vu@ = vt@<int>; char *vw@ = vt@<char>;",
"void f@() { #; }","void f@() { (void)#; }","void f@() { (#); }","char *f@() { return #; }","void f@() { char *x = #; }","void f@() { char *x = nullptr, *y = #; }","void f@() { static char *x = #; }","void f@() { auto x = #; }","void f@() { auto [a, b, c] = Agg{#, 1, nullptr}; }",
"void f@() { if (#) { } }","void f@() { if (char *x = #) { } }","void f@() { if (auto x = #; x) { } }","void f@() { if (cond) #; else #2; }".replace("#2",""),"void f@() { if (cond) ; else #; }","void f@() { if constexpr (true) { #; } }","void f@() { if constexpr (false) { #; } }","void f@() { while (#) { } }","void f@() { while (char *x = #) { } }","void f@() { do { } while (#); }","void f@() { do #; while (cond); }","void f@() { for (#; ; ) { } }","void f@() { for (; #; ) { } }","void f@() { for (; ; #) { } }","void f@() { for (char *x = #; ; ) { } }","void f@() { for (; char *x = #; ) { } }",
"void f@() { for (char *c : Arr{{#}}.a) { } }","void f@() { for (auto x = #; char c : {'a'}) { } }","void f@() { for (char c : {'a'}) { #; } }","void f@() { switch (*#) { } }","void f@() { switch (1) { case 1: #; } }","void f@() { switch (1) { default: #; } }","void f@() { switch (auto x = #; 1) { } }","void f@() { l: #; goto l; }","void f@() { { { #; } } }","void f@() { try { #; } catch (...) { } }","void f@() { try { } catch (int) { #; } }","void f@() try { #; } catch (...) { }","void f@() try { } catch (...) { #; }","void f@() { throw #; }",
"void f@() { use(#); }","void f@() { use(1, #); }","void f@() { use(use, #, 2); }","void f@() { id(#); }","void f@() { id<char *>(#); }","void f@() { Obj o(#); }","void f@() { Obj o{#}; }","void f@() { Obj o = {#, 1}; }","void f@() { Obj o = #; }","void f@() { Obj(#).m(); }","void f@() { Obj o; o(#); }","void f@() { Obj o; o[#]; }","void f@() { Obj o; o += #; }","void f@() { Obj o; o << #; }","void f@() { Obj o; o.m(#); }","void f@() { Obj *o; o->m(#); }","void f@() { Obj o; o == #; }","void f@() { Obj o; # == o; }","void f@() { Obj o; o != #; }","void f@() { new Obj(#); }","void f@() { new char *(#); }","void f@() { new char *[2]{#}; }","void f@() { new char[*#]; }","void f@() { delete #; }","void f@() { *#; }","void f@() { !#; }","void f@() { #[0]; }","void f@() { # + 1; }","void f@() { # ? 1 : 2; }","void f@() { cond ? # : nullptr; }","void f@() { cond ? nullptr : #; }","void f@() { # ?: nullptr; }","void f@() { char *x; x = #; }","void f@() { char *x; x = x = #; }","void f@() { #, 1; }","void f@() { 1, #; }","void f@() { (char *)#; }","void f@() { static_cast<void *>(#); }","void f@() { reinterpret_cast<long *>(#); }","void f@() { const_cast<const char *>(#); }","void f@() { using U = void *; U(#); }","void f@() { using U = char *; U{#}; }","void f@() { typeid(*#); }".replace("typeid(*#)","alignof(int), #"),
"void f@() { [] { #; }; }","void f@() { [] { return #; }(); }","void f@() { [&] { [=] { #; }; }; }","void f@() { [x = #] { }; }","void f@() { [](char *x = #) { }; }","void f@() { [](auto a) { #; }; }","void f@() { [](auto a) { #; }(1); }","void f@() { []<class T>(T a) { #; }(1); }","auto l@ = [] { #; };","void f@() { auto l = [] { #; }; l(); l(); }","void f@(void (*)() = [] { #; });","struct S@ { void (*p)() = [] { #; }; };",
"void f@(char *x = #);","void f@(char *x = #); void g@() { f@(); f@(); }","void f@(char *x = #) { }","struct S@ { void m(char *x = #); };","struct S@ { void m(char *x = #) { } void n() { m(); } };","struct S@ { S@(char *x = #); }; S@ i@; S@ j@;","struct S@ { char *m = #; };","struct S@ { char *m{#}; };","struct S@ { char *m = #; S@() { } S@(int) { } };","struct S@ { char *m = #; }; S@ i@; S@ j@{};","struct S@ { char *m = #; int n; }; S@ i@{nullptr, 1}; S@ j@{};","struct S@ { char *m; S@() : m(#) { } };","struct S@ { char *m; S@() : m{#} { } };","struct S@ { char *m; S@(); }; S@::S@() : m(#) { }","struct S@ : Obj { S@() : Obj(#) { } };","struct S@ { S@(char *) { } S@() : S@(#) { } };","struct S@ : Obj { using Obj::Obj; char *m = #; }; S@ i@(nullptr); S@ j@(nullptr, 1);","struct S@ { static inline char *m = #; };","struct S@ { static char *m; }; char *S@::m = #;","struct S@ { void m() { #; } };","struct S@ { void m(); }; void S@::m() { #; }","struct S@ { ~S@() { #; } };","struct S@ { operator char *() { return #; } };","struct S@ { char *operator+(int) { return #; } };","struct S@ { struct T { void m() { #; } }; };","struct S@ { friend void fr@() { #; } };","struct S@ { friend void fr@(char *x = #) { } };","struct S@ { virtual void m() { #; } virtual ~S@(); }; struct T@ : S@ { void m() override { S@::m(); } };","union U@ { char *a = #; int b; };","void f@() { struct L { void m() { #; } }; }","void f@() { struct L { char *m = #; } l; }","namespace { char *v@ = #; }","inline namespace i@ { char *v@ = #; }","extern \"C\" { char *vc@() { return #; } }","extern \"C\" char *vd@() { return #; }",
"template<class T> void f@() { #; }","template<class T> void f@() { #; } void g@() { f@<int>(); f@<char>(); }","template<class T> void f@(T t = T()) { #; } template void f@<int>(int); template void f@<char>(char);","template<class T> void f@() { #; } template<> void f@<int>() { }","template<class T> void f@() { } template<> void f@<int>() { #; }","template<class T> struct S@ { void m() { #; } };","template<class T> struct S@ { void m() { #; } }; template struct S@<int>; template struct S@<char>;","template<class T> struct S@ { void m() { #; } }; void g@() { S@<int>().m(); S@<char>().m(); }","template<class T> struct S@ { void m(); }; template<class T> void S@<T>::m() { #; }","template<class T> struct S@ { }; template<> struct S@<int> { void m() { #; } };","template<class T> struct S@ { }; template<class T> struct S@<T *> { void m() { #; } }; void g@() { S@<int *>().m(); }","template<class T> struct S@ { char *m = #; }; S@<int> i@; S@<char> j@;","template<class T> struct S@ { static inline char *m = #; }; auto x@ = S@<int>::m;","template<class T> struct S@ { template<class U> void m(U) { #; } }; void g@() { S@<int>().m(1); S@<int>().m('a'); }","template<class T> struct S@ { friend void fr@(S@) { #; } }; S@<int> i@; S@<char> j@;","template<class T> void f@(char *x = #); void g@() { f@<int>(); f@<char>(); }","template<class T> struct S@ { void m(char *x = #); }; void g@() { S@<int>().m(); }","template<class T> auto f@() { return [] { #; }; } void g@() { f@<int>()(); f@<char>()(); }","template<class T> void f@() { if constexpr (sizeof(T) == 1) #; } void g@() { f@<int>(); f@<char>(); }","template<class... T> void f@(T... t) { (use(t, #), ...); } void g@() { f@(1, 2); }","void f@(auto x) { #; } void g@() { f@(1); f@('a'); }","template<class T> concept C@ = requires { #; };","void f@() { requires { #; }; }","auto f@() -> decltype(auto) { return #; }","constexpr int f@(bool b) { return b ? 1 : (#, 2); }","consteval int f@(bool b) { return b ? 1 : (#, 2); }",
"decltype(#) v@;","void f@() { sizeof(#); }","void f@() { noexcept(#); }","void f@() { decltype(#) x; }","auto f@() -> decltype(#);","void f@() noexcept(noexcept(#));","template<class T, class U = decltype(#)> struct S@ { };","using U@ = decltype(#);","static_assert(sizeof(#));","enum E@ { A@ = sizeof(#) };","int a@[sizeof(#)];","struct S@ { int b : sizeof(#); };","void f@() { switch (8) { case sizeof(#): ; } }","template<int I> struct S@ { }; S@<sizeof(#)> s@;","template<int I = sizeof(#)> struct S@ { }; S@<> s@; S@<> t@;","struct alignas(sizeof(#)) S@ { };",
"void f@() { ({ #; }); }","void f@() { __builtin_choose_expr(1, #, 2); }".replace("__builtin_choose_expr(1, #, 2)","__builtin_expect((long)#, 1)"),"void f@() { asm(\"\" : : \"r\"(#)); }","void f@() { char *x[2] = {[1] = #}; }","void f@() { (Agg){#}; }","void f@() { Agg{.b = #}; }","void f@() { Obj o; o.~Obj(), #; }","void f@() { int n; char vla[n][*#]; }","void f@() { [[likely]] #; }","void f@() { _Generic(1, int: #); }","__attribute__((cleanup(use))) char *v@ = #;".replace("__attribute__((cleanup(use))) ","__attribute__((unused)) ")]
W = ["#", "(#)", "(1, #)", "(char *)#", "static_cast<char *>(#)", "id(#)", "(cond ? # : #)", "Obj(#).f", "Agg{#, 1, nullptr}.a", "[] { return #; }()", "[] { auto l = [=] { return #; }; return l(); }()", "[](char *x = #) { return x; }()", "({ #; })", "({ struct L { char *m = #; } l; l.m; })", "({ struct L { void m() { #; } }; (char *)nullptr; })", "*&(char *&)*new char *{#}", "(throw #, nullptr)", "[x = #] { return x; }()", "(Obj() == # ? # : nullptr)", "Obj()[#]"]
D = ["#", "namespace m@ { # }", "namespace { # }", "struct O@ { # };", "template<class T> struct O@ { # }; O@<int> i@; O@<char> j@;", "template<class T> struct O@ { # };", "void f@() { # }", "template<class T> void f@() { # } void g@() { f@<int>(); f@<char>(); }", "void f@() { [] { # }; }", "void f@() { [](auto x) { # }(1); }", "auto l@ = [] { # };", "struct O@ { void m() { # } };", "struct O@ { struct P { # }; };", "void f@() { if (cond) { # } }", "void f@() { switch (1) { case 1: { # } } }", "extern \"C\" { # }", "extern \"C++\" { # }", "struct R; #", "# struct R;", "void f@() { struct L { void m() { # } }; }", "union U@ { # };", "template<class T> struct O@ { struct P { # }; }; O@<int>::P i@;", "void f@() { for (;;) { # } }", "void f@(int = ({ # 1; }));", "void f@() { try { # } catch (...) { } }", "inline namespace v@ { # }", "void f@() { ({ # 1; }); }", "int v@ = [] { # return 1; }();", "struct O@ { int m = [] { # return 1; }(); };", "struct O@ { int m; O@() : m([] { # return 1; }()) { } O@(int); };", "template<> struct id2<n*> { # };".replace("template<> struct id2<n*>", "struct id2"), "struct R { int z; }; namespace q@ { # }"]
