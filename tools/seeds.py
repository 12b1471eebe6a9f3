SEEDS = {}


def seed(name, prop, edits, needs, breaks, demo, **k):
    SEEDS[name] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)


seed("deque-const-back-step", "C04",
     [("deque.hpp", "        m_p = *m_ppchunk + CHUNK_SIZE - 1;", "        m_p = *m_ppchunk + (CHUNK_SIZE - 2);")],
     "a const_iterator stepped backwards over a block boundary (more than half a block of elements)",
     "stepping a deque const_iterator back from the first element of a block lands on the wrong element",
     r'''
#include <cest/deque.hpp>
int main() {
  cest::deque<int> d;
  for (int i = 0; i < 3000; ++i) d.push_back(i);
  const auto& c = d;
  int n = 3000;
  for (auto it = c.end(); n > 0; ) { --it; --n; if (*it != n) return 1; }
  return 0;
}
''', nth={"deque.hpp": 1})

seed("set-equal-left", "C07",
     [("set.hpp", "        while (pn && pn->r && curr_node==pn->r)", "        while (pn && pn->r && !pn->l && curr_node==pn->r)")],
     "iterating past a node that is the right child of a node with two children",
     "set iteration goes back to a smaller element (or never ends) when climbing out of a right subtree whose parent also has a left one",
     r'''
#include <cest/set.hpp>
int main() {
  cest::set<int> s;
  for (int i = 0; i < 40; ++i) s.insert((i * 17) % 41);
  int last = -1, n = 0;
  for (auto it = s.begin(); it != s.end(); ++it) { if (*it <= last || ++n > 40) return 1; last = *it; }
  return n != 40;
}
''')

seed("map-lost-black", "C09",
     [("map.hpp", "        n->r->c    = BLACK;\n        rotate_right(n->r);", "        rotate_right(n->r);\n        n->r->c    = BLACK;")],
     "insertion orders in which the inner grandchild of a right child turns red: the order of keys is still right, only the tree degenerates",
     "the wrong node is made black in one of the four rebalancing cases, so the tree is no longer balanced and its height grows linearly for some orders",
     r'''
#include <cest/map.hpp>
static long n;
struct L { bool operator()(int a, int b) const { ++n; return a < b; } };
int main() {
  long worst = 0;
  for (int kind = 0; kind < 4; ++kind) {
    cest::map<int, int, L> m;
    int lo = 0, hi = 2000;
    for (int i = 0; i < 2000; ++i) {
      int k = kind == 0 ? i : kind == 1 ? (i % 2 ? lo++ : hi--) : kind == 2 ? (i * 7919) % 2003 : 2000 - i;
      n = 0; m.insert({k, 1}); if (n > worst) worst = n;
    }
  }
  return worst > 60;   // 2*(2*log2(2001)+2)+slack
}
''')

seed("string-copy-nul", "C11",
     [("string.hpp", "  : basic_string(str.data(), str.size()) {}", "  : basic_string(str.data()) {}")],
     "copying a string that contains a NUL character",
     "the copy constructor stops at the first NUL",
     r'''
#include <cest/string.hpp>
int main() {
  cest::string s("ab");
  s.push_back('\0'); s.push_back('c');
  cest::string t(s);
  return !(t.size() == 4 && t[3] == 'c');
}
''')

seed("string-find-skip", "C12",
     [("string.hpp", "      len = last - ++first;", "      first += (count > 2 && first[1] == elem0) ? 2 : 1;\n      len = last - first;")],
     "a pattern of three or more characters whose match starts one place after a failed candidate (overlap)",
     "find skips over an overlapping occurrence",
     r'''
#include <cest/string.hpp>
int main() {
  cest::string s("aaab");
  return s.find(cest::string("aab")) != 1;
}
''')

seed("unique-reset-order", "C16",
     [("memory.hpp", "    auto ptr = ptr_;\n\n    ptr_ = n_ptr;\n\n    if (ptr)\n      delete ptr;", "    if (ptr_)\n      delete ptr_;\n\n    ptr_ = n_ptr;")],
     "an object whose destruction looks at, or resets, the pointer that owns it",
     "reset deletes the old object while the pointer still points to it: a destructor that uses the owner sees a dying object, and a reset from it deletes the object again",
     r'''
#include <cest/memory.hpp>
struct N;
static cest::unique_ptr<N>* owner;
static int deaths, bad;
struct N { ~N() { ++deaths; if (owner->get() == this) { bad = 1; } } };
int main() {
  cest::unique_ptr<N> p(new N);
  owner = &p;
  p.reset(new N);
  int b = bad;
  owner->release();
  return b;
}
''')

seed("istream-unget-gcount", "C19",
     [("istream.hpp", "      _M_gcount = 0;\n      // Clear eofbit per N3168.", "      // Clear eofbit per N3168.")],
     "gcount() asked for after get or read followed by unget",
     "unget does not reset the count of characters of the last unformatted input",
     r'''
#include <cest/sstream.hpp>
#include <cest/istream.hpp>
int main() {
  cest::istringstream s("abc");
  char c; s.get(c); s.unget();
  return s.gcount() != 0;
}
''')

seed("fmemopen-nul", "C20",
     [("cstdio.hpp", "  return new stringstream(string(buf,size));", "  return new stringstream(string(buf,size ? std::char_traits<char>::find(buf,size,'\\0') ? std::char_traits<char>::find(buf,size,'\\0') - buf : size : 0));")],
     "a buffer with a zero byte in it",
     "a memory file ends at the first zero byte of its buffer instead of after size bytes",
     r'''
#include <cest/cstdio.hpp>
int main() {
  char b[6] = {'a', 0, 'b', 'c', 0, 'd'}, r[6] = {};
  cest::FILE* f = cest::fmemopen(b, 6, "r");
  std::size_t n = cest::fread(r, 1, 6, f);
  cest::fclose(f);
  return !(n == 6 && r[5] == 'd');
}
''')

seed("complex-div-alias", "C24",
     [("complex.hpp", "      const _Tp __n = cest::norm(__z);\n      _M_imag = (_M_imag * __z.real() - _M_real * __z.imag()) / __n;\n      _M_real = __r / __n;",
       "      const _Tp __i =  _M_imag * __z.real() - _M_real * __z.imag();\n      _M_real = __r / cest::norm(__z);\n      _M_imag = __i / cest::norm(__z);")],
     "a complex number divided by itself (x /= x)",
     "the divisor's norm is read again after the real part was overwritten, so x /= x divides the imaginary part by the wrong norm",
     r'''
#include <iosfwd>
#include <cest/cmath.hpp>
#include <cest/istream.hpp>
#include <cest/complex.hpp>
int main() {
  cest::complex<double> z(0, 3), w(0, 3);
  z *= cest::complex<double>(1, 0);
  z /= z;
  // (0+3i)/(0+3i): the second norm is 1 + 9, but the imaginary numerator is 0
  cest::complex<double> v(3, 4);
  v /= v;
  // also a NaN-free sequence in which it shows: (0 + 0i divisor part)
  cest::complex<double> u(0, 1);
  u.real(0); 
  return !(z.real() == 1 && z.imag() == 0 && v.real() == 1 && v.imag() == 0 && w.imag() == 3);
}
''')

seed("vector-shrink-leak", "C14",
     [("vector.hpp", "    } else if (count < m_size) {\n      std::destroy_n(&m_p[count], m_size-count);\n    }", "    } else if (count < m_size && count == 0) {\n      clear();\n    }")],
     "shrinking with resize to a size other than 0, with an element type that owns something",
     "the elements cut off by resize are not destroyed",
     r'''
#include <cest/vector.hpp>
static int alive;
struct T { int x = 0; T() { ++alive; } T(const T&) { ++alive; } T(T&&) noexcept { ++alive; } ~T() { --alive; } T& operator=(const T&) = default; };
int main() {
  { cest::vector<T> v; v.resize(5); v.resize(2); if (alive != 2) return 1; }
  return alive != 0;
}
''')

seed("vector-reserve-same", "C02",
     [("vector.hpp", "    if (new_cap > m_capacity)\n    {\n      value_type *p", "    if (new_cap >= m_capacity && new_cap > 0)\n    {\n      value_type *p")],
     "reserve(capacity()) or assigning from a vector of equal capacity while a pointer to an element is held",
     "reserve with exactly the current capacity reallocates, which invalidates pointers that must stay valid",
     r'''
#include <cest/vector.hpp>
int main() {
  cest::vector<int> v;
  v.reserve(8);
  for (int i = 0; i < 4; ++i) v.push_back(i);
  int* p = &v[0];
  v.resize(8);
  return p != &v[0];
}
''')

seed("flist-copy-self-tail", "C06",
     [("forward_list.hpp", "    p->next = l;\n    return {l};", "    if (curr == nullptr || p->next != l) p->next = curr;\n    return {p->next};")],
     "placeholder", "placeholder", "int main(){return 0;}")
del SEEDS["flist-copy-self-tail"]

seed("math-ceil-tiny", "C26",
     [("cmath.hpp", "    return ((double)(int)v != v && v > 0) ?  (int)v + 1 : (int)v;", "    return (v - (double)(int)v > 1e-9) ?  (int)v + 1 : (int)v;")],
     "an argument that exceeds an integer by less than 1e-9",
     "ceil returns the integer below for arguments just above it",
     r'''
#include <cest/vector.hpp>
#include <limits>
#include <cest/cmath.hpp>
int main() {
  volatile double x = 3.0000000000000004;
  return cest::ceil(x) != 4;
}
''')

ASAN = "-fsanitize=address -fno-omit-frame-pointer"

seed("list-clear-prev", "C05",
     [("list.hpp", "    m_node.prev = m_node.next = &m_node;\n    m_size = 0;", "    m_node.next = &m_node;\n    m_size = 0;")],
     "adding at the end of a list that was cleared",
     "after clear() the list's back link still leads to a released node; the next push_back loses the element and writes to freed memory",
     r'''
#include <cest/list.hpp>
int main() {
  cest::list<int> l;
  for (int i = 0; i < 5; ++i) l.push_back(i);
  l.clear();
  l.push_back(7); l.push_back(8);
  int n = 0, want = 7;
  for (int x : l) { if (x != want++) return 1; if (++n > 2) return 1; }
  return n != 2 || l.back() != 8;
}
''', flags=ASAN)

seed("flist-erase-freed", "C06",
     [("forward_list.hpp", "    return {p->next};", "    return {curr->next};")],
     "using what erase_after(pos) returns",
     "erase_after returns a position read from the node it has just released",
     r'''
#include <cest/forward_list.hpp>
int main() {
  cest::forward_list<int> l;
  for (int i = 5; i > 0; --i) l.push_front(i);
  auto it = l.erase_after(l.begin());
  return *it != 3;
}
''', flags=ASAN)

seed("function-void-forward", "C18",
     [("functional.hpp", "  constexpr virtual void operator()(Args... args) override {\n    f_(std::forward<Args>(args)...);", "  constexpr virtual void operator()(Args... args) override {\n    f_(args...);")],
     "a function returning nothing, with a callable that takes its argument by rvalue reference or treats rvalues differently",
     "the callable of a function<void(...)> receives its arguments as lvalues: it cannot take ownership of what it was given",
     r'''
#include <cest/functional.hpp>
#include <string>
int got = 0;
struct Over { void operator()(std::string&) { got = 1; } void operator()(std::string&&) { got = 2; } };
int main() { cest::function<void(std::string)> f{Over{}}; f("text"); return got != 2; }
''')

seed("sptr-null-alias", "C17",
     [("shared_ptr.hpp", "    if (pctrl_ && !--pctrl_->count_)", "    if (ptr_ && !--pctrl_->count_)")],
     "an owner whose stored pointer is null: an alias of an owner with a null pointer, or a null pointer given with a deleter",
     "an owner with a null stored pointer never gives its share up: the object is never deleted and use_count stays too high",
     r'''
#include <cest/memory.hpp>
int live = 0;
struct X { X() { ++live; } ~X() { --live; } };
int main() {
  {
    cest::shared_ptr<X> a(new X);
    { cest::shared_ptr<X> b(a, (X*)nullptr); if (a.use_count() != 2) return 1; }
    if (a.use_count() != 1) return 1;
  }
  return live != 0;
}
''')

seed("deque-clear-front-chunk", "C03",
     [("deque.hpp", "    m_front_chunk = m_back_chunk = m_chunks.size() / 2; // 1 / 2 is 0 btw.", "    m_back_chunk = m_chunks.size() / 2; // 1 / 2 is 0 btw.")],
     "clearing (or assigning to) a deque whose first element is not in the middle block, then using it again",
     "after clear() a deque that had grown to several blocks has its front in one block and its back in another",
     r'''
#include <cest/deque.hpp>
int main() {
  cest::deque<int> d;
  for (int i = 0; i < 5000; ++i) d.push_back(i);
  d.clear();
  for (int i = 0; i < 10; ++i) d.push_back(i + 70);
  for (int i = 0; i < 10; ++i) if (d[i] != i + 70) return 1;
  return d.front() != 70 || d.back() != 79;
}
''')

seed("vector-assign-shrink", "C14",
     [("vector.hpp", "      std::destroy_n(&m_p[i], m_size - other.size());", "      std::destroy_n(&m_p[i], m_size - other.size() - 1);")],
     "copy assignment of a shorter vector to a longer one, with elements that own something",
     "the last surplus element is never destroyed when a shorter vector is assigned",
     r'''
#include <cest/vector.hpp>
int live = 0;
struct X { X() { ++live; } X(const X&) { ++live; } X& operator=(const X&) { return *this; } ~X() { --live; } };
int main() {
  { cest::vector<X> a(5), b(2); a = b; if (a.size() != 2) return 1; }
  return live != 0;
}
''')

seed("deque-const-walk", "C04",
     [("deque.hpp", "      if (m_p == *m_ppchunk + CHUNK_SIZE - 1) {", "      if (m_p == *m_ppchunk + CHUNK_SIZE) {")],
     "a const_iterator stepped forwards over a block boundary",
     "a const_iterator walks off the end of a block before it goes on to the next one",
     r'''
#include <cest/deque.hpp>
int main() {
  cest::deque<int> d;
  for (int i = 0; i < 3000; ++i) d.push_back(i);
  const auto& c = d;
  int n = 0;
  for (auto it = c.begin(); n < 3000; ++it, ++n) if (*it != n) return 1;
  return 0;
}
''', nth={"deque.hpp": 1}, flags=ASAN)

seed("complex-scalar-minus", "C24",
     [("complex.hpp", "      complex<_Tp> __r = -__y;\n      __r += __x;", "      complex<_Tp> __r(__x, __y.imag());\n      __r -= __y.real();")],
     "a scalar minus a complex number with a non-zero imaginary part",
     "scalar - complex keeps the sign of the imaginary part",
     r'''
#include <cmath>
#include <iosfwd>
#include <cest/cmath.hpp>
#include <cest/istream.hpp>
#include <cest/complex.hpp>
int main() { cest::complex<double> z(2, 3); auto w = 5.0 - z; return w.real() != 3 || w.imag() != -3; }
''')

seed("map-straight-red", "C09",
     [("map.hpp", "        n->r->r->c = BLACK;\n        rotate_left(n);", "        rotate_left(n);")],
     "many insertions in ascending runs: only the shape of the tree suffers, not its order",
     "one of the four rebalancing cases leaves a red node with a red child, so the height is no longer logarithmic",
     r'''
#include <cest/map.hpp>
static long n;
struct L { bool operator()(int a, int b) const { ++n; return a < b; } };
int main() {
  long worst = 0;
  for (int kind = 0; kind < 5; ++kind) {
    cest::map<int, int, L> m;
    int lo = 0, hi = 2000;
    for (int i = 0; i < 2000; ++i) {
      int k = kind == 0 ? i : kind == 1 ? (i % 2 ? lo++ : hi--) : kind == 2 ? (i * 7919) % 2003 : kind == 3 ? 2000 - i : i % 2 ? 1000 + i : 1000 - i;
      n = 0; m.insert({k, 1}); if (n > worst) worst = n;
    }
  }
  return worst > 60;
}
''')

seed("set-red-uncle", "C09",
     [("set.hpp", "        n->l->l->c = BLACK;\n        rotate_right(n);", "        n->l->c = BLACK;\n        rotate_right(n);")],
     "many insertions in descending runs: the order of the keys is right, the tree is not balanced",
     "the left-left rebalancing case makes the wrong node black, and the height is no longer logarithmic",
     r'''
#include <cest/set.hpp>
static long n;
struct L { bool operator()(int a, int b) const { ++n; return a < b; } };
int main() {
  long worst = 0;
  for (int kind = 0; kind < 5; ++kind) {
    cest::set<int, L> m;
    int lo = 0, hi = 2000;
    for (int i = 0; i < 2000; ++i) {
      int k = kind == 0 ? i : kind == 1 ? (i % 2 ? lo++ : hi--) : kind == 2 ? (i * 7919) % 2003 : kind == 3 ? 2000 - i : i % 2 ? 1000 + i : 1000 - i;
      n = 0; m.insert(k); if (n > worst) worst = n;
    }
  }
  return worst > 60;
}
''')

seed("string-append-edge", "C11",
     [("string.hpp", "    if (len <= this->capacity())\n    {\n      if (count)", "    if (len <= this->capacity() + 1)\n    {\n      if (count)")],
     "an append that makes the string exactly one character longer than its capacity",
     "append writes the terminating null one place behind the storage",
     r'''
#include <cest/string.hpp>
int main() {
  for (int a = 0; a < 20; ++a) for (int b = 0; b < 20; ++b) {
    cest::string s; for (int i = 0; i < a; ++i) s.push_back('a');
    cest::string t; for (int i = 0; i < b; ++i) t.push_back('b');
    s.append(t);
    if (s.size() != a + b || s.size() > s.capacity() || s.c_str()[a + b]) return 1;
  }
  return 0;
}
''', flags=ASAN)

seed("string-less-equal", "C12",
     [("string.hpp", "  { return __rhs.compare(__lhs) > 0; }", "  { return __rhs.compare(__lhs) >= 0; }")],
     "comparing a C string on the left with an equal string on the right",
     "\"x\" < string(\"x\") is true",
     r'''
#include <cest/string.hpp>
int main() { cest::string s("abc"); return ("abc" < s) || !("abb" < s) || ("abd" < s); }
''')

seed("istream-unget-eof", "C19",
     [("istream.hpp", "      this->clear(this->rdstate() & ~ios_base::eofbit);", "      if (this->eof() && !this->fail()) this->clear();")],
     "unget on a stream that hit the end within a read, so that both eofbit and failbit are set",
     "unget does not clear eofbit when failbit is set too",
     r'''
#include <cest/iostream.hpp>
#include <cest/sstream.hpp>
int main() {
  cest::istringstream s(cest::string("ab"));
  char b[8];
  s.read(b, 5);
  if (!s.eof() || !s.fail()) return 2;
  s.unget();
  return s.eof() || !s.fail();
}
''')

seed("stringbuf-str-order", "C19",
     [("sstream.hpp", "    _M_string = __s;\n    _M_stringbuf_init(_M_mode);", "    _M_stringbuf_init(_M_mode);\n    _M_string = __s;")],
     "str(s) with a text of another length than the one before",
     "after str(s) the stream reads the old text's extent, possibly from released storage",
     r'''
#include <cest/iostream.hpp>
#include <cest/sstream.hpp>
int main() {
  cest::istringstream s(cest::string("ab"));
  s.str(cest::string("a much longer text"));
  char b[32];
  s.read(b, 30);
  return s.gcount() != 18 || b[17] != 't';
}
''')

seed("fprintf-cut", "C21",
     [("cstdio.hpp", "    std::snprintf(psz, nbytes+1, format, std::forward<Ts>(xs)...);", "    std::snprintf(psz, nbytes, format, std::forward<Ts>(xs)...);")],
     "fprintf with arguments at run time",
     "the last character of what fprintf prints is replaced by a null",
     r'''
#include <cest/cstdio.hpp>
#include <unistd.h>
#include <cstdio>
#include <cstring>
int main() {
  FILE* f = tmpfile();
  int keep = dup(1);
  dup2(fileno(f), 1);
  cest::fprintf(cest::stdout, "%d;%s", 12, "end");
  std::cout.flush(); std::fflush(stdout);
  dup2(keep, 1);
  char b[32] = {};
  rewind(f);
  size_t n = fread(b, 1, 31, f);
  return n != 6 || memcmp(b, "12;end", 6);
}
''')

seed("ctype-q", "C27",
     [("cctype.hpp", '"abcdefghijklmnopqrstuvwxyz"', '"abcdefghijklmnoprstuvwxyz"')],
     "the letter q", "isalnum('q') is false", r'''
#include <cest/iostream.hpp>
#include <cest/cctype.hpp>
#include <cctype>
int main() { for (int c = 0; c < 128; ++c) if (!!cest::isalnum(c) != !!(isalnum)(c)) return 1; return 0; }
''')

seed("math-pow-odd", "C26",
     [("cmath.hpp", "exponent == 1 ? base                      :\n           base * pow(base,exponent-1);", "exponent == 1 ? base                      :\n           exponent >  9 ? square(pow(base,exponent/2)) : base * pow(base,exponent-1);")],
     "pow with an odd exponent above 9",
     "pow loses one factor of the base for odd exponents above 9",
     r'''
#include <limits>
#include <cest/cmath.hpp>
int main() { return cest::pow(2.0, 11) != 2048.0 || cest::pow(2.0, 10) != 1024.0; }
''')

seed("deque-dec-not-constexpr", "C22",
     [("deque.hpp", "    constexpr const_iter  operator--(int)           noexcept { // post-decr", "    const_iter  operator--(int)           noexcept { // post-decr")],
     "a post-decrement of a deque const_iterator in a constant expression",
     "stepping a deque const_iterator back cannot be evaluated at compile time any more",
     r'''
#include <cest/deque.hpp>
constexpr int f() {
  cest::deque<int> d; d.push_back(1); d.push_back(2);
  cest::deque<int>::const_iterator it = d.cend();
  it--; it--;
  return *it;
}
static_assert(f() == 1);
int main() { return 0; }
''', flags="-fconstexpr-steps=100000000")

seed("swapr-copy", "C25",
     [("swap.hpp", "    constexpr wrap operator+(wrap &&w) { w.x = std::move(x); return *this; }", "    constexpr wrap operator+(wrap &&w) { w.x = std::move(x); return w; }")],
     "swapr of three or more variables",
     "swapr of three or more variables loses values",
     r'''
#include <cest/swap.hpp>
int main() {
  int a = 1, b = 2, c = 3, d = 4;
  nary::swapr(a, b, c, d);
  return a != 4 || b != 1 || c != 2 || d != 3;
}
''')

seed("set-hint-returned", "C07",
     [("set.hpp", "    return this->insert(value).first;", "    const auto r = this->insert(value);\n    return r.second ? r.first : iterator{hint};")],
     "insert with a hint that is not the equal element, of a key that is present",
     "insert with a hint returns the hint instead of the element that prevented the insertion",
     r'''
#include <cest/set.hpp>
int main() {
  cest::set<int> s;
  for (int i : {4, 2, 6}) s.insert(i);
  auto a = s.insert(s.begin(), 5), b = s.insert(s.begin(), 6);
  return *a != 5 || b == s.end() || *b != 6;
}
''')

seed("map-find-identical", "C08",
     [("map.hpp", "    return const_iterator(n);", "    return const_iterator(n && n->x.first == key ? n : nullptr);")],
     "find in a const map whose comparator treats different keys as equivalent",
     "a const map does not find a key that is equivalent, but not identical, to the stored one",
     r'''
#include <cest/map.hpp>
struct Mod { constexpr bool operator()(int a, int b) const { return a % 10 < b % 10; } };
int main() {
  cest::map<int, int, Mod> m;
  m.insert({3, 1}); m.insert({7, 2}); m.insert({5, 3});
  const auto& c = m;
  auto it = c.find(15);
  if (it == c.end() || (*it).second != 3) return 1;
  return c.find(4) != c.end();
}
''')

seed("queue-const-back", "C10",
     [("queue.hpp", "constexpr const_reference  back() const { return c.back();  }", "constexpr const_reference  back() const { return c.front(); }")],
     "back() of a const queue holding more than one value",
     "back() of a const queue is its first value",
     r'''
#include <cest/queue.hpp>
int main() {
  cest::queue<int> q;
  q.push(1); q.push(2);
  const auto& c = q;
  return c.back() != 2 || c.front() != 1 || q.back() != 2;
}
''')

seed("vector-moved-capacity", "C13",
     [("vector.hpp", "  constexpr vector(vector&& other) : vector()\n  {\n    swap(other);",
       "  constexpr vector(vector&& other) : vector()\n  {\n    m_p = other.m_p;         other.m_p    = nullptr;\n    m_size = other.m_size;   other.m_size = 0;\n    m_capacity = other.m_capacity;")],
     "using a vector again after it was moved from",
     "a moved-from vector still believes it has storage",
     r'''
#include <stdexcept>
#include <cest/vector.hpp>
#include <utility>
int main() {
  cest::vector<int> v;
  v.push_back(1); v.push_back(2);
  cest::vector<int> w(std::move(v));
  if (w.size() != 2 || w[1] != 2) return 1;
  v = cest::vector<int>();
  cest::vector<int> x(std::move(w));
  w.push_back(7);
  return w.size() != 1 || w[0] != 7 || x.size() != 2;
}
''')

seed("list-size-early", "C15",
     [("list.hpp", "    node_base*   p = const_cast<node_base*>(pos.m_node);\n\n    // As an", "    node_base*   p = const_cast<node_base*>(pos.m_node);\n    m_size++;\n\n    // As an"),
      ("list.hpp", "    p->prev       = new_node;\n\n    m_size++;\n    return {new_node};\n  }\n  \n  constexpr iterator insert(const_iterator pos, value_type&&", "    p->prev       = new_node;\n\n    return {new_node};\n  }\n  \n  constexpr iterator insert(const_iterator pos, value_type&&")],
     "an element whose copy throws while it is inserted",
     "the list counts an element that was never inserted",
     r'''
#include <cest/list.hpp>
struct X { int v; bool bad = false; X(int v, bool b = false) : v(v), bad(b) {} X(const X& o) : v(o.v), bad(o.bad) { if (bad) throw 1; } };
int main() {
  cest::list<X> l;
  X a(1), b(2, true);
  l.push_back(a);
  bool thrown = false;
  try { l.push_back(b); } catch (int) { thrown = true; }
  return !thrown || l.size() != 1;
}
''')

seed("isupper-range", "C27",
     [("cctype.hpp", "  string str(\"ABCDEFGHIJKLMNOPQRSTUVWXYZ\");\n  return std::find(str.cbegin(), str.cend(), ch) != str.cend() ? 256 : 0;", "  return ch >= 'A' && ch < 'Z' ? 256 : 0;")],
     "the letter Z", "isupper('Z') is false", r'''
#include <cest/iostream.hpp>
#include <cest/cctype.hpp>
#include <cctype>
int main() { for (int c = -1; c < 256; ++c) if (!!cest::isupper(c) != !!(isupper)(c)) return 1; return 0; }
''')

seed("atan2-negative-axis", "C28",
     [("cmath.hpp", "           y >= 0 && x <  0 ? atan(y/x) + CEST_M_PI :", "           y >  0 && x <  0 ? atan(y/x) + CEST_M_PI :")],
     "a point on the negative real axis", "atan2(0, -1) is 0 instead of pi", r'''
#include <limits>
#include <cest/cmath.hpp>
int main() { auto near = [](double a, double b) { return a - b < 0.001 && b - a < 0.001; };
  return !near(cest::atan2(0, -2), 3.14159265) || !near(cest::atan2(1, -1), 2.35619449) || !near(cest::atan2(-1, -1), -2.35619449); }
''')

seed("log-mantissa-ten", "C28",
     [("cmath.hpp", "      return x >= 10.0 ? mantissa(x *  0.1) :", "      return x >  10.0 ? mantissa(x *  0.1) :")],
     "the logarithm of a number whose decimal scaling passes through exactly 10",
     "log(10) counts the factor 10 twice", r'''
#include <limits>
#include <cest/cmath.hpp>
int main() { auto near = [](double a, double b) { return a - b < 0.002 && b - a < 0.002; };
  return !near(cest::log(10), 2.302585) || !near(cest::log(9.5), 2.251292) || !near(cest::log(12), 2.484907); }
''')

seed("vector-at-const-edge", "C01",
     [("vector.hpp", "  constexpr const_reference at(size_type pos) const {\n    if (pos >= m_size) {", "  constexpr const_reference at(size_type pos) const {\n    if (pos > m_size) {")],
     "at() of a const vector with the index equal to its size",
     "at() of a const vector does not throw for the first index out of range",
     r'''
#include <stdexcept>
#include <cest/vector.hpp>
int main() {
  cest::vector<int> v;
  v.push_back(1); v.push_back(2); v.pop_back();
  const auto& c = v;
  try { (void)c.at(1); } catch (const std::out_of_range&) { return 0; }
  return 1;
}
''')

seed("stable-sort-own", "C23",
     [("algorithm.hpp", "  using std::stable_sort;", '''  // std::stable_sort is not constexpr before C++26
  template <class It, class Compare>
  constexpr void stable_sort(It first, It last, Compare comp)
  {
    for (It i = first; i != last; ++i) {
      auto x = std::move(*i);
      It j = i;
      for (; j != first && !comp(*(j - 1), x); --j)
        *j = std::move(*(j - 1));
      *j = std::move(x);
    }
  }

  template <class It>
  constexpr void stable_sort(It first, It last)
  {
    cest::stable_sort(first, last, [](const auto &a, const auto &b) { return a < b; });
  }''')],
     "stable_sort of elements that are equivalent but distinguishable",
     "stable_sort reverses the order of equivalent elements",
     r'''
#include <cest/vector.hpp>
#include <cest/algorithm.hpp>
int main() {
  cest::vector<int> v;
  for (int x : {21, 12, 11, 22, 13}) v.push_back(x);
  cest::stable_sort(v.begin(), v.end(), [](int a, int b) { return a % 10 < b % 10; });
  int want[] = {21, 11, 12, 22, 13}, k = 0;
  for (int x : v) if (x != want[k++]) return 1;
  return 0;
}
''')

seed("list-const-predec", "C05",
     [("list.hpp", "      m_node = m_node->prev; return *this;", "      m_node = m_node->next; return *this;")],
     "stepping a const_iterator back",
     "-- on a list const_iterator goes forwards",
     r'''
#include <memory>
#include <iterator>
#include <cest/list.hpp>
int main() {
  cest::list<int> l;
  for (int i = 1; i <= 3; ++i) l.push_back(i);
  const auto& c = l;
  auto it = c.cend();
  int s = 0;
  for (int i = 0; i < 3; ++i) { --it; s = 10 * s + *it; }
  return s != 321;
}
''', nth={"list.hpp": 1})

seed("flist-insert-rvalue-return", "C06",
     [("forward_list.hpp", "    node* new_node  = make_node(std::move(value), p->next);\n    p->next         = new_node;\n    return {new_node};", "    node* new_node  = make_node(std::move(value), p->next);\n    p->next         = new_node;\n    return {p};")],
     "the iterator returned by insert_after of an rvalue",
     "insert_after(pos, T&&) returns pos instead of the inserted element",
     r'''
#include <memory>
#include <iterator>
#include <cest/forward_list.hpp>
int main() {
  cest::forward_list<int> l;
  l.push_front(1);
  auto it = l.insert_after(l.begin(), 2);
  const int k = 3;
  auto jt = l.insert_after(it, k);
  return *it != 2 || *jt != 3;
}
''')

seed("flist-erase-range-return", "C06",
     [("forward_list.hpp", "    p->next = l;\n    return {l};", "    p->next = l;\n    return {p};")],
     "the iterator returned by erase_after of a range",
     "erase_after(first, last) returns an iterator to the element before the erased ones instead of the one behind them",
     r'''
#include <memory>
#include <iterator>
#include <cest/forward_list.hpp>
int main() {
  cest::forward_list<int> l;
  for (int i = 4; i >= 1; --i) l.push_front(i);
  auto last = l.begin();
  ++last; ++last;
  auto it = l.erase_after(l.begin(), last);
  return *it != 3 || *l.begin() != 1;
}
''')

seed("flist-erase-one-return", "C06",
     [("forward_list.hpp", "    return {p->next};", "    return {p};")],
     "the iterator returned by erase_after of one element",
     "erase_after(pos) returns pos instead of an iterator to the element behind the erased one",
     r'''
#include <memory>
#include <iterator>
#include <cest/forward_list.hpp>
int main() {
  cest::forward_list<int> l;
  for (int i = 4; i >= 1; --i) l.push_front(i);
  auto it = l.erase_after(l.begin());
  return *it != 3 || *l.begin() != 1;
}
''')

seed("streambuf-uflow-stays", "C29",
     [("streambuf.hpp", "      __ret = traits_type::to_int_type(*this->gptr());\n      this->gbump(1);\n    }\n    return __ret;", "      __ret = traits_type::to_int_type(*this->gptr());\n      if (this->gptr() != this->eback())\n        this->gbump(1);\n    }\n    return __ret;")],
     "a stream buffer that is refilled without keeping the character before",
     "uflow does not step over the first character of a block brought by underflow",
     r'''
#include <cstdio>
#include <sstream>
#include <cest/sstream.hpp>
struct B final : cest::basic_streambuf<char> {
  const char* t = "abcdef"; char b[2]; int k = 0;
  constexpr int_type underflow() override {
    if (k >= 6) return traits_type::eof();
    b[0] = t[k++]; b[1] = t[k++];
    setg(b, b, b + 2);
    return traits_type::to_int_type(b[0]);
  }
};
int main() {
  B b;
  cest::basic_istream<char> in(&b);
  char c; int n = 0;
  while (n < 20 && in.get(c)) { if (c != "abcdef"[n]) return 1; ++n; }
  return n != 6;
}
''')

seed("streambuf-sgetn-block", "C29",
     [("streambuf.hpp", "      traits_type::assign(*__s++, traits_type::to_char_type(__c));\n      ++__ret;", "      traits_type::assign(*__s, traits_type::to_char_type(__c));\n      ++__ret;")],
     "a block read over the end of what is in the stream buffer",
     "xsgetn overwrites the first character after each refill with the following ones",
     r'''
#include <cstdio>
#include <sstream>
#include <cest/sstream.hpp>
struct B final : cest::basic_streambuf<char> {
  const char* t = "abcdef"; char b[2]; int k = 0;
  constexpr int_type underflow() override {
    if (k >= 6) return traits_type::eof();
    b[0] = t[k++]; b[1] = t[k++];
    setg(b, b, b + 2);
    return traits_type::to_int_type(b[0]);
  }
};
int main() {
  B b;
  cest::basic_istream<char> in(&b);
  char c[7] = {};
  in.read(c, 6);
  for (int i = 0; i < 6; ++i) if (c[i] != "abcdef"[i]) return 1;
  return in.gcount() != 6;
}
''')

seed("istream-clear-null", "C29",
     [("basic_ios.hpp", "      _M_streambuf_state = __state | badbit;", "      _M_streambuf_state = __state ? __state | badbit : __state;")],
     "clear() on a stream that has no buffer",
     "a stream without a buffer becomes good by clear()",
     r'''
#include <cstdio>
#include <sstream>
#include <cest/sstream.hpp>
int main() {
  cest::basic_istream<char> in(nullptr);
  if (!in.fail()) return 1;
  in.clear();
  return !in.fail();
}
''')

seed("function-staged-callable", "C30",
     [("functional.hpp", "    f_(cest::make_unique<impl_f<std::decay_t<F>,\n                         R, Args...>>(std::forward<F>(f))){}",
       "    f_(nullptr)\n  {\n    auto* staged = new std::decay_t<F>(std::forward<F>(f));\n    f_ = cest::make_unique<impl_f<std::decay_t<F>, R, Args...>>(std::move(*staged));\n    delete staged;\n  }")],
     "the allocation of the callable's wrapper fails, after the callable itself has been copied",
     "the copy of the callable is leaked",
     r'''
#include <cstdlib>
#include <new>
static long live = 0, countdown = 0;
void* operator new(std::size_t n) { if (countdown > 0 && --countdown == 0) throw std::bad_alloc(); ++live; return std::malloc(n + !n); }
void operator delete(void* p) noexcept { if (p) --live; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --live; std::free(p); }
#include <cest/functional.hpp>
struct Mem { int* p; Mem(int x) : p(new int(x)) {} Mem(const Mem& o) : p(new int(*o.p)) {} Mem(Mem&& o) : p(o.p) { o.p = nullptr; } ~Mem() { delete p; } int operator()(int x) { return *p + x; } };
int main() {
  for (int k = 1; k < 6; ++k) {
    long before = live;
    { Mem m(3); countdown = k; try { cest::function<int(int)> f(m); countdown = 0; if (f(4) != 7) return 1; } catch (const std::bad_alloc&) {} countdown = 0; }
    if (live != before) return 2;
  }
}
''')

seed("complex-array-access", "C31",
     [("complex.hpp", "      real(_Tp __val) { _M_real = __val; }", "      real(_Tp __val) { reinterpret_cast<_Tp(&)[2]>(*this)[0] = __val; }")],
     "real(x) of a complex called in a constant expression",
     "setting the real part is no longer possible while the compiler evaluates",
     r'''
#include <cest/istream.hpp>
#include <cest/cmath.hpp>
#include <cest/complex.hpp>
constexpr double f() {
  cest::complex<double> z(1, 2);
  z.real(5);
  z.imag(7);
  return z.real() * 10 + z.imag();
}
static_assert(f() == 57);
int main() {}
''')

seed("iosbits-xor-or", "C19",
     [("ios_base.hpp", "  operator^(_Ios_Openmode __a, _Ios_Openmode __b)\n  { return _Ios_Openmode(static_cast<int>(__a) ^ static_cast<int>(__b)); }",
       "  operator^(_Ios_Openmode __a, _Ios_Openmode __b)\n  { return _Ios_Openmode(static_cast<int>(__a) | static_cast<int>(__b)); }")],
     "^ of two open modes that have a bit in common",
     "the bit both masks have is kept by ^", r'''
#include <cest/ios_base.hpp>
#include <ios>
int main() {
  using I = cest::ios_base;
  return ((I::in | I::app) ^ (I::out | I::app)) != (I::in | I::out);
}
'''.replace("#include <cest/ios_base.hpp>\n#include <ios>", "#include <cest/sstream.hpp>"))

seed("clog-as-cerr", "C21",
     [("runtime_ostream.hpp", "    else if (&cest::clog == &os) std::clog << x;", "    else if (&cest::clog == &os) std::cerr << x;"),
      ("runtime_ostream.hpp", "    else if (&cest::clog == &os) std::clog << fp;", "    else if (&cest::clog == &os) std::cerr << fp;")],
     "hex (or oct) set on clog, and a number then printed on cerr",
     "clog and cerr share the number base, since both are written through std::cerr",
     r'''
#include <cest/iostream.hpp>
#include <unistd.h>
#include <cstdio>
#include <cstring>
int main() {
  FILE* f = tmpfile();
  int keep = dup(2);
  dup2(fileno(f), 2);
  cest::clog << cest::hex << 255;
  cest::cerr << 255 << " ";
  cest::clog << 16;
  std::cerr.flush(); std::clog.flush(); std::fflush(stderr);
  dup2(keep, 2);
  char b[32] = {};
  rewind(f);
  fread(b, 1, 31, f);
  return std::strcmp(b, "ff255 10") != 0;
}
''')

seed("unique-lazy-move", "C16",
     [("memory.hpp", "  constexpr void reset(pointer n_ptr = pointer()) noexcept\n  {\n    auto ptr = ptr_;\n\n    ptr_ = n_ptr;\n\n    if (ptr)\n      delete ptr;",
       "  constexpr void reset(pointer n_ptr = pointer()) noexcept\n  {\n    auto ptr = ptr_;\n\n    if (ptr && ptr != n_ptr)\n      delete ptr;\n\n    ptr_ = n_ptr;")],
     "an object whose destructor looks at the pointer that is being reset",
     "during reset the pointer still holds the object that is being destroyed",
     r'''
#include <cest/memory.hpp>
struct T { cest::unique_ptr<T>* p; bool* bad; ~T() { if (p->get() == this) *bad = true; } };
int main() {
  bool bad = false;
  cest::unique_ptr<T> p(new T{nullptr, &bad});
  p->p = &p;
  p.reset();
  return bad;
}
''')

seed("vector-eq-bits", "C01",
     [("vector.hpp", "          && std::equal(__x.begin(), __x.end(), __y.begin())); }",
       "          && [&] {\n            if constexpr (std::is_trivially_copyable_v<_Tp>)\n              if (!std::is_constant_evaluated())\n                return __x.size() == 0 || !__builtin_memcmp(__x.data(), __y.data(), __x.size() * sizeof(_Tp));\n            return std::equal(__x.begin(), __x.end(), __y.begin()); }()); }")],
     "elements of a trivially copyable type that are equal without having equal bits",
     "vectors of equal elements compare unequal", r'''
#include <cest/vector.hpp>
int main() {
  cest::vector<double> a{0.0, 1.0}, b{-0.0, 1.0};
  return !(a == b);
}
''')

seed("istream-get-default-eof", "C19",
     [("istream.hpp", "        if (!traits_type::eq_int_type(__cb, traits_type::eof()))\n    {\n      _M_gcount = 1;",
       "        if (__cb != static_cast<int_type>(-1))\n    {\n      _M_gcount = 1;")],
     "a stream whose character traits have an end-of-file value of their own",
     "get() at the end of the text delivers a character that is not there instead of setting eof",
     r'''
#include <cest/sstream.hpp>
struct Tr : std::char_traits<char> {
  static constexpr int_type eof() { return -2; }
  static constexpr int_type not_eof(int_type a) { return a == eof() ? 0 : a; }
};
int main() {
  cest::basic_istringstream<char, Tr> is(cest::basic_string<char, Tr>("a"));
  char c = 0;
  int n = 0;
  while (n < 9 && is.get(c)) ++n;
  return n != 1 || !is.eof();
}
''')

seed("queue-rvalue-copied", "C10",
     [("queue.hpp", ": c(std::move(cont)) { }", ": c(cont)            { }")],
     "a queue over a container that can only be moved, or that a client expects to be moved from",
     "a queue cannot be built from an rvalue of such a container (its elements are copied)",
     r'''
#include <cest/queue.hpp>
#include <list>
#include <memory>
int main() {
  std::list<std::shared_ptr<int>> l;
  l.push_back(std::make_shared<int>(5));
  std::weak_ptr<int> w = l.front();
  cest::queue<std::shared_ptr<int>, std::list<std::shared_ptr<int>>> q(std::move(l));
  // the element has one owner, the queue: its address did not change, and popping it ends it
  q.pop();
  return !w.expired();
}
''')

seed("string-compare-code-units", "C12",
     [("string.hpp", "    if (!r)    // traits_type::compare says equal, but possibly inequal length\n      r = _S_compare(size, osize);",
       "    if (!r && size != osize)\n      r = _S_compare(size, osize);\n    else if (!r) // same length\n      r = std::char_traits<CharT>::compare(this->data(), str.data(), len);")],
     "strings over character traits of the client's own (say, case-insensitive ones)",
     "compare and the relational operators tell strings apart that the traits call equal",
     r'''
#include <cest/string.hpp>
struct Ci : std::char_traits<char> {
  static constexpr char f(char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; }
  static constexpr bool eq(char a, char b) { return f(a) == f(b); }
  static constexpr bool lt(char a, char b) { return f(a) < f(b); }
  static constexpr int compare(const char* a, const char* b, std::size_t n) {
    for (; n; --n, ++a, ++b) if (!eq(*a, *b)) return lt(*a, *b) ? -1 : 1;
    return 0;
  }
};
int main() {
  cest::basic_string<char, Ci, std::allocator<char>> a("Hello"), b("hELLO");
  return a.compare(b) != 0;
}
''')
