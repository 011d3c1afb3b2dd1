//! Random C and C++ programs of several files, archives and shared libraries, linked by this linker and by
//! the system linker: both executables have to behave the same.
use crate::props::*;
use crate::run::*;
use crate::tape::Tape;
use serde::{Deserialize, Serialize};
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Home {
    Obj,
    Ar(usize),
    Lib(usize),
}

/// Part of a file: can be left out as a whole, or some of its body's lines can.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Chunk {
    pub head: String,
    pub body: Vec<String>,
    pub tail: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Unit {
    pub home: Home,
    pub cc: String,
    pub flags: Vec<String>,
    pub chunks: Vec<Chunk>,
    /// in C++
    #[serde(default)]
    pub cxx: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Prog {
    /// declarations that every file includes
    pub header: Vec<String>,
    /// further ones, of C++ files
    #[serde(default)]
    pub classes: Vec<String>,
    pub units: Vec<Unit>,
    /// what is linked, in order: `u3.o`, `libar0.a`, `libso0.so`, driver options
    pub link: Vec<String>,
    /// options for linking each library
    pub libs: Vec<Vec<String>>,
    pub args: Vec<String>,
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy, PartialEq, Debug)]
enum Store {
    Init,
    Bss,
    Const,
    Common,
    Weak,
}

#[derive(Clone)]
struct Var {
    n: String,
    unit: usize,
    len: usize,
    store: Store,
    stat: bool,
}

#[derive(Clone)]
struct Fun {
    n: String,
    unit: usize,
    stat: bool,
    /// weak and perhaps defined nowhere
    maybe: bool,
}

#[derive(Clone)]
struct Ptr {
    n: String,
    unit: usize,
    stat: bool,
    konst: bool,
    what: What,
}

#[derive(Clone, PartialEq)]
enum What {
    Data,
    Code,
    Table(usize),
    Text,
    Texts(usize),
}

struct Gen<'t, 'a> {
    t: &'t mut Tape<'a>,
    homes: Vec<Home>,
    vars: Vec<Var>,
    funs: Vec<Fun>,
    ptrs: Vec<Ptr>,
    label: usize,
    math: bool,
    cxx: Vec<bool>,
    /// how many classes there are of each kind
    counters: usize,
    inlines: usize,
    bases: usize,
    noisy: usize,
}

const WORDS: &[&str] = &["alpha", "be", "", "gamma ray", "x", "omega-omega-omega-omega-omega-omega", "delta", "a longer text to be hashed, with commas, and more than one cache line of it", "alpha", "ha", "gamma"];

impl Gen<'_, '_> {
    fn sees(&self, unit: usize, owner: usize, stat: bool) -> bool {
        if unit == owner {
            return true;
        }
        if stat {
            return false;
        }
        match (&self.homes[unit], &self.homes[owner]) {
            // a library knows nothing of the program
            (Home::Lib(a), Home::Lib(b)) => a == b,
            (Home::Lib(_), _) => false,
            _ => true,
        }
    }
    fn var(&mut self, u: usize, write: bool) -> Option<Var> {
        let v: Vec<Var> = self.vars.iter().filter(|v| self.sees(u, v.unit, v.stat) && !(write && v.store == Store::Const)).cloned().collect();
        if v.is_empty() {
            None
        } else {
            Some(self.t.pick(&v).clone())
        }
    }
    fn fun(&mut self, u: usize) -> Option<Fun> {
        let v: Vec<Fun> = self.funs.iter().filter(|f| self.sees(u, f.unit, f.stat)).cloned().collect();
        if v.is_empty() {
            None
        } else {
            Some(self.t.pick(&v).clone())
        }
    }
    fn sure(&mut self, u: usize) -> Option<Fun> {
        let v: Vec<Fun> = self.funs.iter().filter(|f| !f.maybe && self.sees(u, f.unit, f.stat)).cloned().collect();
        if v.is_empty() {
            None
        } else {
            Some(self.t.pick(&v).clone())
        }
    }
    fn ptr(&mut self, u: usize, ok: &dyn Fn(&What) -> bool) -> Option<Ptr> {
        let v: Vec<Ptr> = self.ptrs.iter().filter(|p| ok(&p.what) && self.sees(u, p.unit, p.stat)).cloned().collect();
        if v.is_empty() {
            None
        } else {
            Some(self.t.pick(&v).clone())
        }
    }
    fn num(&mut self) -> u32 {
        match self.t.below(4) {
            0 => self.t.below(10) as u32,
            1 => 1 << self.t.below(32),
            _ => self.t.raw(),
        }
    }

    /// One statement over `x` (the value so far), `a` and `b` (the depth of calls).
    fn stmt(&mut self, u: usize) -> String {
        if self.cxx[u] && self.t.chance(45) {
            return self.stmt_cxx(u);
        }
        let k = self.num();
        match self.t.below(35) {
            0 => format!("x = x * {}u + a;", k | 1),
            1 | 2 => match self.var(u, false) {
                Some(v) => format!("x += {}[x % {}];", v.n, v.len),
                None => "x ^= x >> 7;".into(),
            },
            3 | 4 => match self.var(u, true) {
                Some(v) => format!("{}[x % {}] += x ^ {}u;", v.n, v.len, k),
                None => "x ^= x << 9;".into(),
            },
            5..=8 => match self.fun(u) {
                Some(f) if f.maybe => format!("if ({}) x ^= {}(x, b + 1); else x += 17;", f.n, f.n),
                Some(f) => format!("x ^= {}(x + {}u, b + 1);", f.n, k % 100),
                None => "x++;".into(),
            },
            9 | 10 => match self.ptr(u, &|w| matches!(w, What::Code | What::Table(_))) {
                Some(Ptr { n, what: What::Table(l), .. }) => format!("x += {}[x % {}](x, b + 1);", n, l),
                Some(p) => format!("x += {}(x, b + 1);", p.n),
                None => "x--;".into(),
            },
            11 | 12 => match self.ptr(u, &|w| *w == What::Data) {
                Some(p) if self.t.chance(40) && !p.konst => format!("if ({p}) *{p} += x; x += {p} ? 1 : 2;", p = p.n),
                Some(p) => format!("x += {p} ? *{p} : 5;", p = p.n),
                None => "x *= 3;".into(),
            },
            13 | 14 => match self.ptr(u, &|w| matches!(w, What::Text | What::Texts(_))) {
                Some(Ptr { n, what: What::Texts(l), .. }) => format!("for (const char *c = {}[x % {}]; *c; c++) x = x * 31 + (unsigned char) *c;", n, l),
                Some(p) => format!("for (const char *c = {}; *c; c++) x = x * 33 ^ (unsigned char) *c;", p.n),
                None => format!("x += sizeof \"{}\";", self.t.pick(WORDS)),
            },
            15 | 16 => {
                let n = self.t.range(4, 20);
                let mut s = format!("switch (x % {}) {{ ", n + 2);
                for i in 0..n {
                    let k = self.num();
                    s += &match self.t.below(3) {
                        0 => format!("case {}: x += {}u; break; ", i, k),
                        1 => format!("case {}: x ^= a * {}u; break; ", i, k | 1),
                        _ => match self.sure(u) {
                            Some(f) => format!("case {}: x -= {}(a, b + 1); break; ", i, f.n),
                            None => format!("case {}: x = {}u - x; break; ", i, k),
                        },
                    };
                }
                s + "default: x = ~x; }"
            }
            17 => {
                let w = *self.t.pick(WORDS);
                match self.t.below(6) {
                    0 => "x += strlen(text(x)) + strlen(text(a));".into(),
                    1 => "{ char buf[64]; snprintf(buf, sizeof buf, \"%u-%s-%d\", x, text(a), (int) b); x = hash(buf, x); }".into(),
                    2 => format!("{{ char buf[128]; strcpy(buf, \"{}\"); strcat(buf, text(x)); x += strcmp(buf, text(a)) > 0; x = hash(buf, x); }}", w),
                    3 => "{ unsigned *m = (unsigned *) malloc(40 * sizeof *m); for (unsigned i = 0; i < 40; i++) m[i] = x * (i + 1); x ^= m[x % 40]; free(m); }".into(),
                    4 => "{ unsigned v[9]; for (unsigned i = 0; i < 9; i++) v[i] = (x >> i) * 2654435761u; qsort(v, 9, sizeof v[0], compare); x += v[4]; }".into(),
                    _ => "{ char *e; x += strtoul(\"1234zz\", &e, 10); x += *e; }".into(),
                }
            }
            18 => match (self.sure(u), self.ptr(u, &|w| *w == What::Code)) {
                (Some(f), Some(p)) => format!("x += {} == {} ? 3 : 8;", p.n, f.n),
                (Some(f), _) => format!("{{ fn *volatile q = {}; x += q == {} ? 3 : 8; x ^= q(x, b + 1); }}", f.n, f.n),
                _ => "x += 4;".into(),
            },
            19 => {
                self.math = true;
                match self.t.below(4) {
                    0 => "{ double d = x * 0.37 + 1.25; x += (unsigned) (long long) d; }".into(),
                    1 => "{ double d = fmod(x, 77.5) + floor(a / 3.0); x += (unsigned) d; }".into(),
                    2 => "{ float f = (x & 0xffff) * 1.5f; double d = sqrt(f) * 1000; x ^= (unsigned) d; }".into(),
                    _ => "{ long double l = x; l = l / 3 + 0.5L; x += (unsigned) l; }".into(),
                }
            }
            20 => "printf(\"%s: %u %u\\n\", __func__, x, b);".into(),
            21 => match self.t.below(4) {
                0 => "fputs(text(x), stdout); putchar(10);".into(),
                1 => "fprintf(stderr, \"%u\\n\", x);".into(),
                2 => "x += stdin != 0;".into(),
                _ => "fflush(stdout);".into(),
            },
            22 => "{ struct big s = { { x, a, b } }, r; r = s; struct big q = change(r); x += q.v[x % 30]; }".into(),
            23 => {
                self.label += 1;
                let l = self.label;
                format!("{{ static const void *const where[] = {{ &&p{l}, &&q{l}, &&r{l} }}; goto *where[x % 3]; p{l}: x += 1; q{l}: x ^= {k}u; r{l}: x *= 5; }}")
            }
            24 => "x += sum(4, x, a, b, 7u);".into(),
            25 => "{ jmp_buf j; volatile unsigned n = 0; if (setjmp(j) < 3) { n++; longjmp(j, (int) n); } x += n; }".into(),
            26 => "{ unsigned __int128 w = x; w = w << 70 | a; x += (unsigned) (w / (b + 3)) ^ (unsigned) (w % (a | 1)); }".into(),
            27 => match self.var(u, false) {
                Some(v) => format!("x += (unsigned) (&{n}[{}] - {n}) + (unsigned) ((unsigned long) {n} % __alignof__({n}[0]));", self.t.below(v.len + 1), n = v.n),
                None => "x += 2;".into(),
            },
            28 => match self.var(u, true) {
                Some(v) => format!("{{ static unsigned *keep = &{}[{}]; *keep += x; x ^= *keep; static int count; x += ++count; }}", v.n, self.t.below(v.len)),
                None => "{ static int count = 5; x += ++count; }".into(),
            },
            29 => match (self.var(u, true), self.var(u, false)) {
                (Some(v), Some(w)) => format!("memmove({}, {}, {} * sizeof x);", v.n, w.n, v.len.min(w.len)),
                _ => "x <<= 1;".into(),
            },
            30 => match self.t.below(5) {
                0 => "x += getenv(\"DLD_TEST\") ? hash(getenv(\"DLD_TEST\"), 1) : 9;".into(),
                1 => "x += optind;".into(),
                2 => "x += environ && environ[0] ? hash(environ[0], 2) : 11;".into(),
                3 => "errno = 0; x += fopen(\"/no/such/file\", \"r\") ? 1 : errno;".into(),
                _ => "x += toupper((int) (x % 128)) + isalpha((int) (a % 128));".into(),
            },
            31 => match self.sure(u) {
                Some(f) => format!("{{ fn *volatile q = b & 1 ? {} : twice; x = apply(q, x, b + 1); }}", f.n),
                None => "x = apply(twice, x, b + 1);".into(),
            },
            32 => "{ size_t (*volatile l)(const char *) = strlen; x += l(text(x)); int (*volatile c)(const void *, const void *, size_t) = memcmp; x += c(text(a), \"al\", 1) == 0; }".into(),
            33 => "for (unsigned i = 0; i < 5; i++) x += (x >> i) ^ i;".into(),
            _ => "while (x % 7) x++;".into(),
        }
    }

    fn stmt_cxx(&mut self, u: usize) -> String {
        let k = self.num();
        let (c, i, b) = (self.t.below(self.counters), self.t.below(self.inlines), self.t.below(self.bases));
        let which = self.t.below(4);
        match self.t.below(22) {
            0 | 1 => format!("x += inl{}(x + {}u);", i, k),
            2 => format!("x ^= Count{}<{}>::next(a);", c, 1 + which),
            3 => format!("x += Count{}<{}>::table[x % 4];", c, 1 + which),
            4 | 5 => format!("{{ Base{b} *p = make{b}(x % 3, a + {k}u); x ^= p->go(x); x += p->other(b); delete p; }}"),
            6 => format!("{{ std::unique_ptr<Base{b}> p(make{b}(x % 3, x)); if (Two{b} *q = dynamic_cast<Two{b} *>(p.get())) x += q->more + 1; x = hash(typeid(*p).name(), x); }}"),
            7 => format!("{{ unsigned (Base{b}::*m)(unsigned) = x & 1 ? &Base{b}::go : &Base{b}::other; One{b} o(a); x += (o.*m)(x); }}"),
            8 => format!("{{ std::string s = text(x); s += \"{}\"; s += std::to_string(x); x = hash(s.c_str(), x); }}", self.t.pick(WORDS)),
            9 => "{ std::vector<unsigned> v; for (unsigned i = 0; i < 9; i++) v.push_back((x >> i) * 2654435761u); std::sort(v.begin(), v.end(), [&](unsigned p, unsigned q) { return (p ^ a) < (q ^ a); }); x ^= v[4]; }".into(),
            10 => "{ std::map<std::string, unsigned> m; m[text(x)] += 3; m[text(a)] += x; m[\"zz\"] = b; for (auto &e : m) x = hash(e.first.c_str(), x + e.second); }".into(),
            11 => match self.sure(u) {
                Some(f) => format!("{{ std::function<unsigned(unsigned)> f = [&](unsigned y) {{ return y * 3 + {}(a, b + 1); }}; x = f(x); }}", f.n),
                None => "{ std::function<unsigned(unsigned)> f = [&](unsigned y) { return y * 3 + a; }; x = f(x); }".into(),
            },
            12 | 13 => match which {
                0 => "std::cout << \"x is \" << x << std::endl;".into(),
                1 => "std::cout << std::hex << x << ' ' << std::dec << x << '\\n' << std::flush;".into(),
                2 => "std::cerr << x << '\\n';".into(),
                _ => "{ std::ostringstream o; o << x << ',' << 1.5 * b << text(a); x = hash(o.str().c_str(), x); }".into(),
            },
            14 => {
                self.label += 1;
                format!("{{ static Noisy n(\"static {}\", x); n.v += a; x += n.v; }}", self.label)
            }
            15 => match self.sure(u) {
                Some(f) => format!("try {{ std::string s(text(x)); x += {}(x + s.size(), b + 1); }} catch (const std::exception &e) {{ x = hash(e.what(), x); }} catch (...) {{ x++; }}", f.n),
                None => "try { std::string s(x % 9, 'q'); x += s.size(); } catch (int) { x--; }".into(),
            },
            16 if self.noisy > 0 => format!("noisy{}.v += x; x ^= noisy{}.v;", self.t.below(self.noisy), self.t.below(self.noisy)),
            17 => format!("{{ auto p = std::make_shared<Two{b}>(x); auto q = p; x += p.use_count() + q->other(x); }}"),
            18 => format!("x += biggest<unsigned>(x, {k}u, a) ^ biggest<unsigned char>(x, 3, a);"),
            19 => format!("{{ Diamond{b} d(x); Base{b} &r = d; x ^= r.go(a); x += static_cast<Right{b} &>(d).right(x); }}"),
            20 => "{ unsigned *m = new unsigned[20]; for (unsigned i = 0; i < 20; i++) m[i] = x * i; x ^= m[x % 20]; delete[] m; }".into(),
            _ => format!("{{ std::set<Base{b} *> s; One{b} o(x); Two{b} w(a); s.insert(&o); s.insert(&w); for (auto p : s) x += p->go(1); }}"),
        }
    }

    /// What the C++ files share.
    fn classes(&mut self) -> Vec<String> {
        let mut v = vec![];
        for i in 0..self.counters {
            let (k, j) = (self.num(), self.num());
            v.push(format!("template <unsigned N> struct Count{i} {{ static unsigned n, table[4]; static unsigned start; static unsigned next(unsigned x) {{ table[x % 4] += x; return n += x * N + start; }} }};\ntemplate <unsigned N> unsigned Count{i}<N>::n = N * {k}u;\ntemplate <unsigned N> unsigned Count{i}<N>::table[4] = {{ 1, N, {j}u }};\ntemplate <unsigned N> unsigned Count{i}<N>::start = hash(text(N + {i}), N);"));
        }
        for i in 0..self.inlines {
            let k = self.num();
            v.push(match self.t.below(4) {
                0 => format!("inline unsigned inl{i}(unsigned x) {{ static unsigned n = {k}u; n += x; return n; }}"),
                1 => format!("inline unsigned inl{i}(unsigned x) {{ static Noisy n(\"of inl{i}\", {k}u); return n.v ^= x; }}"),
                2 => format!("inline const unsigned konst{i}[] = {{ {k}u, 3, 5 }}; inline unsigned inl{i}(unsigned x) {{ return konst{i}[x % 3] + x; }}"),
                _ => format!("inline unsigned var{i} = hash(\"{k}\", {k}u); __attribute__((noinline)) inline unsigned inl{i}(unsigned x) {{ var{i} += x; switch (x % 7) {{ case 0: return 1; case 1: return var{i}; case 2: return x * 7; case 3: return x - {k}u; case 4: return 9; case 5: return ~x; }} return x ^ var{i}; }}"),
            });
        }
        for b in 0..self.bases {
            let (k, j) = (self.num(), self.num());
            let over = if self.t.chance(50) { format!("unsigned go(unsigned x) override {{ return x ^ {j}u; }}") } else { String::new() };
            v.push(format!("struct Base{b} {{ unsigned v; explicit Base{b}(unsigned v) : v(v) {{}} virtual ~Base{b}() {{}} virtual unsigned go(unsigned x) {{ return x * {}u + v; }} virtual unsigned other(unsigned x) = 0; }};", k | 1));
            v.push(format!("struct One{b} : virtual Base{b} {{ explicit One{b}(unsigned v) : Base{b}(v) {{}} unsigned other(unsigned x) override {{ return x + {k}u; }} {over} }};"));
            v.push(format!("struct Two{b} : Base{b} {{ unsigned more; explicit Two{b}(unsigned v) : Base{b}(v), more(v / 3) {{}} ~Two{b}() {{ more = 0; }} unsigned other(unsigned x) override; }};"));
            v.push(format!("struct Right{b} {{ unsigned r = {j}u; virtual ~Right{b}() {{}} virtual unsigned right(unsigned x) {{ return x + r; }} }};"));
            v.push(format!("struct Diamond{b} : One{b}, Right{b} {{ explicit Diamond{b}(unsigned v) : Base{b}(v), One{b}(v) {{}} unsigned right(unsigned x) override {{ return x - this->v; }} unsigned go(unsigned x) override {{ return Base{b}::go(x) + r; }} }};"));
            v.push(format!("inline Base{b} *make{b}(unsigned k, unsigned v) {{ switch (k) {{ case 0: return new One{b}(v); case 1: return new Two{b}(v); }} return new Diamond{b}(v); }}"));
        }
        for i in 0..self.noisy {
            v.push(format!("inline Noisy noisy{}(\"inline {}\", {}u);", i, i, self.num()));
        }
        v
    }

    fn flags(&mut self, home: &Home) -> (String, Vec<String>) {
        let t = &mut *self.t;
        let cc = if t.chance(45) { "gcc" } else { "clang" };
        let mut f: Vec<String> = vec![];
        f.push(t.pick(&["-O0", "-O1", "-O2", "-O3", "-Os", "-O2"]).to_string());
        if matches!(home, Home::Lib(_)) {
            f.push("-fPIC".into());
            if t.chance(20) {
                f.push("-fno-plt".into());
            }
        } else {
            let pic = *t.pick(&["", "-fno-pic", "-fPIE", "-fPIC", "-fno-pic"]);
            if !pic.is_empty() {
                f.push(pic.into());
            }
            // (clang's large code model needs a type of relocation that isn't implemented)
            if pic == "-fno-pic" && cc == "gcc" && t.chance(25) {
                f.push("-mcmodel=large".into());
            } else if t.chance(25) {
                f.push("-fno-plt".into());
            }
            if t.chance(25) {
                f.push("-ffunction-sections".into());
            }
            if t.chance(25) {
                f.push("-fdata-sections".into());
            }
            if t.chance(40) {
                f.push("-fcommon".into());
            }
        }
        if t.chance(40) {
            f.push(t.pick(&["-g", "-gdwarf-4", "-g3", "-g1"]).to_string());
        }
        if t.chance(15) {
            f.push("-fstack-protector-all".into());
        }
        if t.chance(15) {
            f.push("-fcf-protection=full".into());
        }
        if t.chance(15) {
            f.push("-fno-asynchronous-unwind-tables".into());
        }
        if t.chance(10) {
            f.push("-fmerge-all-constants".into());
        }
        if t.chance(10) {
            f.push("-fno-builtin".into());
        }
        (cc.into(), f)
    }
}

const PRELUDE: &str = r#"#define _GNU_SOURCE
#include <ctype.h>
#include <errno.h>
#include <math.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
typedef unsigned fn(unsigned, unsigned);
struct big { unsigned v[30]; };
static inline unsigned hash(const char *s, unsigned x) { while (*s) x = x * 31 + (unsigned char) *s++; return x; }
static inline const char *text(unsigned x) {
  switch (x % 5) { case 0: return "alpha"; case 1: return "beta"; case 2: return "gamma ray"; case 3: return ""; }
  return "omega";
}
static __attribute__((unused)) int compare(const void *a, const void *b) {
  unsigned x = *(const unsigned *) a, y = *(const unsigned *) b;
  return x < y ? -1 : x > y;
}
static __attribute__((unused, noinline)) struct big change(struct big b) { for (unsigned i = 3; i < 30; i++) b.v[i] = b.v[i - 3] * 3 + i; return b; }
static __attribute__((unused, noinline)) unsigned sum(int n, ...) { va_list l; unsigned s = 0; va_start(l, n); while (n--) s += va_arg(l, unsigned); va_end(l); return s; }
static __attribute__((unused)) unsigned twice(unsigned a, unsigned b) { return a * 2 + b; }
static __attribute__((unused, noinline)) unsigned apply(fn *f, unsigned a, unsigned b) { return f(a, b); }
"#;

const CXX_PRELUDE: &str = r#"#include <algorithm>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include <ctype.h>
#include <errno.h>
#include <math.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern "C" {
#include "h.h"
}
struct Noisy {
  const char *n;
  unsigned v;
  Noisy(const char *n, unsigned v) : n(n), v(v) { printf("make %s\n", n); }
  ~Noisy() { printf("drop %s %u\n", n, v); }
};
template <class T> T biggest(T a) { return a; }
template <class T, class... R> T biggest(T a, R... r) { T b = biggest<T>(r...); return a > b ? a : b; }
"#;

fn decl(v: &Var) -> String {
    format!("extern {}unsigned {}[{}];", if v.store == Store::Const { "const " } else { "" }, v.n, v.len)
}

fn ptr_decl(p: &Ptr) -> String {
    let k = if p.konst { "const" } else { "" };
    match p.what {
        What::Data => format!("unsigned *{} {}", k, p.n),
        What::Code => format!("fn *{} {}", k, p.n),
        What::Table(n) => format!("fn *{} {}[{}]", k, p.n, n),
        What::Text => format!("const char *{} {}", k, p.n),
        What::Texts(n) => format!("const char *{} {}[{}]", k, p.n, n),
    }
}

pub fn gen(t: &mut Tape) -> Prog {
    let has_cxx = t.rare(if std::env::var("DLD_CXX").is_ok() { 10_000 } else { 2500 });
    let n_libs = *t.pick(&[0, 0, 1, 1, 2]);
    let n_ars = *t.pick(&[0, 1, 0, 2]);
    let mut homes = vec![Home::Obj];
    for _ in 0..t.range(0, 2) {
        homes.push(Home::Obj);
    }
    for a in 0..n_ars {
        for _ in 0..t.range(1, 3) {
            homes.push(Home::Ar(a));
        }
    }
    for l in 0..n_libs {
        for _ in 0..t.range(1, 2) {
            homes.push(Home::Lib(l));
        }
    }
    let n = homes.len();
    // (what a library shares with the program by weak definitions is not exported to it)
    let cxx = homes.iter().map(|h| has_cxx && !matches!(h, Home::Lib(_)) && t.chance(60)).collect();
    let mut g = Gen { t, homes, vars: vec![], funs: vec![], ptrs: vec![], label: 0, math: false, cxx, counters: 0, inlines: 0, bases: 0, noisy: 0 };
    let mut classes = vec![];
    if has_cxx {
        (g.counters, g.inlines, g.bases, g.noisy) = (g.t.range(1, 2), g.t.range(1, 4), g.t.range(1, 2), g.t.below(3));
        classes = g.classes();
    }
    let mut header: Vec<String> = vec![];
    for u in 0..n {
        let lib = matches!(g.homes[u], Home::Lib(_));
        for i in 0..g.t.range(1, 5) {
            let store = *g.t.pick(&[Store::Init, Store::Bss, Store::Const, Store::Common, Store::Init, Store::Bss, Store::Weak]);
            let stat = g.t.chance(30) && ![Store::Common, Store::Weak].contains(&store);
            let store = if lib && store == Store::Common { Store::Bss } else { store };
            let len = if g.t.chance(10) { g.t.range(1000, 5000) } else { g.t.range(1, 12) };
            g.vars.push(Var { n: format!("v{}_{}", u, i), unit: u, len, store, stat });
        }
        for i in 0..g.t.range(1, 4) {
            let stat = g.t.chance(25);
            g.funs.push(Fun { n: format!("f{}_{}", u, i), unit: u, stat, maybe: false });
        }
        if g.t.chance(15) && !lib {
            g.funs.push(Fun { n: format!("maybe{}", u), unit: u, stat: false, maybe: true });
        }
        for i in 0..g.t.range(0, 4) {
            let what = match g.t.below(6) {
                0 | 1 => What::Data,
                2 => What::Code,
                3 => What::Table(g.t.range(1, 6)),
                4 => What::Text,
                _ => What::Texts(g.t.range(1, 5)),
            };
            let stat = g.t.chance(40);
            let konst = g.t.chance(40);
            g.ptrs.push(Ptr { n: format!("p{}_{}", u, i), unit: u, stat, konst, what });
        }
    }
    for v in g.vars.iter().filter(|v| !v.stat) {
        header.push(decl(v));
    }
    for f in g.funs.iter().filter(|f| !f.stat && !f.maybe) {
        header.push(format!("fn {};", f.n));
    }
    for f in g.funs.iter().filter(|f| f.maybe) {
        header.push(format!("extern fn {} __attribute__((weak));", f.n));
    }
    for p in g.ptrs.iter().filter(|p| !p.stat) {
        header.push(format!("extern {};", ptr_decl(p)));
    }
    let mut units = vec![];
    for u in 0..n {
        let home = g.homes[u].clone();
        let lib = matches!(home, Home::Lib(_));
        let (cc, mut flags) = g.flags(&home);
        let cxx = g.cxx[u];
        if cxx {
            flags.retain(|f| f != "-fcommon");
            for f in ["-std=c++20", "-fvisibility-inlines-hidden", "-fno-threadsafe-statics"] {
                if g.t.chance(15) {
                    flags.push(f.into());
                }
            }
        }
        let mut chunks = vec![];
        let chunk = |head: String| Chunk { head, body: vec![], tail: String::new() };
        for f in g.funs.clone().iter().filter(|f| f.unit == u && f.stat) {
            chunks.push(chunk(format!("static fn {};", f.n)));
        }
        for v in g.vars.clone().iter().filter(|v| v.unit == u) {
            let pre = if v.stat { "static " } else { "" };
            let al = if g.t.chance(15) { format!(" __attribute__((aligned({})))", g.t.pick(&[16, 64, 4096, 32])) } else { String::new() };
            let vals = |g: &mut Gen| {
                let n = v.len.min(6);
                (0..n).map(|_| format!("{}u", g.num())).collect::<Vec<_>>().join(", ")
            };
            let s = match v.store {
                Store::Init => format!("{}unsigned {}[{}]{} = {{ {} }};", pre, v.n, v.len, al, vals(&mut g)),
                Store::Weak => format!("__attribute__((weak)) unsigned {}[{}] = {{ {} }};", v.n, v.len, vals(&mut g)),
                Store::Bss => format!("{}unsigned {}[{}]{} = {{ 0 }};", pre, v.n, v.len, al),
                Store::Const => format!("{}const unsigned {}[{}]{} = {{ {} }};", pre, v.n, v.len, al, vals(&mut g)),
                Store::Common => format!("unsigned {}[{}];", v.n, v.len),
            };
            chunks.push(chunk(s));
            // defined a second time elsewhere
            if v.store == Store::Common && g.t.chance(40) && !lib {
                // (as a common symbol of another file, below)
            }
        }
        for p in g.ptrs.clone().iter().filter(|p| p.unit == u) {
            let pre = if p.stat { "static " } else { "" };
            let val = match p.what {
                What::Data => match g.var(u, true) {
                    Some(v) => {
                        let k = g.t.below(v.len);
                        format!("&{}[{}]", v.n, k)
                    }
                    None => "0".into(),
                },
                What::Code => g.sure(u).map_or("0".into(), |f| f.n),
                What::Table(n) => {
                    let v: Vec<String> = (0..n).map(|_| g.sure(u).map_or("twice".into(), |f| f.n)).collect();
                    format!("{{ {} }}", v.join(", "))
                }
                What::Text => format!("\"{}\"", g.t.pick(WORDS)),
                What::Texts(n) => {
                    let v: Vec<String> = (0..n).map(|_| format!("\"{}{}\"", g.t.pick(WORDS), if g.t.chance(30) { g.t.below(5).to_string() } else { String::new() })).collect();
                    format!("{{ {} }}", v.join(", "))
                }
            };
            chunks.push(chunk(format!("{}{} = {};", pre, ptr_decl(p), val)));
        }
        for f in g.funs.clone().iter().filter(|f| f.unit == u) {
            if f.maybe {
                match g.t.below(3) {
                    // nobody defines it
                    0 => continue,
                    1 => {
                        chunks.push(chunk(format!("unsigned {}(unsigned a, unsigned b) {{ return a + b * 3; }}", f.n)));
                        continue;
                    }
                    _ => {
                        chunks.push(chunk(format!("__attribute__((weak)) unsigned {}(unsigned a, unsigned b) {{ return a ^ b; }}", f.n)));
                        continue;
                    }
                }
            }
            let attr = match g.t.below(12) {
                0 | 1 => "__attribute__((noinline)) ",
                2 if !f.stat => "__attribute__((weak)) ",
                3 if !f.stat && !lib => "__attribute__((visibility(\"hidden\"))) ",
                _ => "",
            };
            let mut body = vec![];
            for _ in 0..g.t.range(1, 6) {
                body.push(g.stmt(u));
            }
            chunks.push(Chunk {
                head: format!("{}{}unsigned {}(unsigned a, unsigned b) {{ unsigned x = a; if (b > 3) return a * 7 + b;", attr, if f.stat { "static " } else { "" }, f.n),
                body,
                tail: "return x; }".into(),
            });
            if g.t.chance(10) && !f.stat {
                chunks.push(chunk(format!("extern fn {n}_alias __attribute__((alias(\"{n}\")));", n = f.n)));
            }
        }
        for i in 0..*g.t.pick(&[0, 0, 0, 1, 2]) {
            let kind = *g.t.pick(&["constructor", "destructor"]);
            // (the order in which members of archives are loaded, and so initialised, is open)
            let prio = if matches!(home, Home::Ar(_)) || g.t.chance(50) {
                format!("({})", 101 + (g.t.below(3000) * n + u) * 2 + i)
            } else {
                String::new()
            };
            let mut body = vec![format!("printf(\"%s of {} {}\\n\", __func__, {});", u, i, g.t.below(100))];
            if g.t.chance(50) {
                body.push("unsigned x = 1, a = 2, b = 2;".into());
                body.push(g.stmt(u));
            }
            chunks.push(Chunk { head: format!("__attribute__(({}{})) static void {}{}_{}(void) {{", kind, prio, &kind[..4], u, i), body, tail: "}".into() });
        }
        if u == 0 {
            let mut body = vec![];
            for i in 0..g.t.range(2, 8) {
                match g.sure(0) {
                    Some(f) => body.push(format!("x += {}(x + {}u, 0); printf(\"{} %u\\n\", x);", f.n, i, i)),
                    None => body.push("x++;".into()),
                }
                body.push(g.stmt(0));
            }
            if g.t.chance(20) {
                body.insert(0, "atexit(bye);".into());
            }
            for v in g.vars.clone() {
                if g.sees(0, v.unit, v.stat) && g.t.chance(50) {
                    body.push(format!("for (unsigned i = 0; i < {}; i++) x = x * 3 + {}[i];", v.len, v.n));
                }
            }
            let end = *g.t.pick(&["return x % 256;", "exit(x % 256);", "fflush(stdout); _exit(x % 256);", "return 0;", "fflush(stdout); abort();", "return x % 256;"]);
            chunks.push(chunk("static __attribute__((unused)) void bye(void) { puts(\"bye\"); }".into()));
            chunks.push(Chunk {
                head: "int main(int argc, char **argv) { unsigned x = argc, a = 3, b = 0; for (int i = 1; i < argc; i++) x = hash(argv[i], x);".into(),
                body,
                tail: format!("printf(\"end %u\\n\", x); {} }}", end),
            });
        }
        if home == Home::Obj && g.t.chance(8) {
            let what = *g.t.pick(&[".preinit_array", ".init_array", ".preinit_array", ".fini_array"]);
            chunks.push(chunk(format!("static void hook{u}(void) {{ printf(\"hook of {u}\\n\"); }}\n__attribute__((section(\"{what}\"), used)) static void (*where{u})(void) = hook{u};")));
        }
        if cxx && home == Home::Obj {
            for i in 0..g.t.below(3) {
                // (the system linker sorts equal priorities by their spelling, which depends on the compiler)
                let pre = match g.t.below(3) {
                    0 => "static ".to_string(),
                    1 => String::new(),
                    _ => format!("__attribute__((init_priority({}))) ", 200 + g.t.below(3000) * 2 * n + 2 * u + i),
                };
                chunks.push(chunk(format!("{}Noisy object{}_{}(\"object {} {}\", {}u);", pre, u, i, u, i, g.t.below(1000))));
            }
        }
        if cxx {
            for b in 0..g.bases {
                // the virtual function that says where the table of virtual functions is
                if (0..n).find(|o| g.cxx[*o]) == Some(u) {
                    chunks.push(chunk(format!("unsigned Two{b}::other(unsigned x) {{ return x * more + v; }}")));
                }
            }
        }
        units.push(Unit { home, cc, flags, chunks, cxx });
    }
    // commons and weak definitions that another file has as well
    for v in g.vars.clone() {
        let others: Vec<usize> = (0..n).filter(|u| *u != v.unit && g.homes[*u] == Home::Obj && g.homes[v.unit] == Home::Obj).collect();
        if others.is_empty() || !g.t.chance(40) {
            continue;
        }
        let o = *g.t.pick(&others);
        let both = |u: &Unit| u.flags.iter().any(|f| f == "-fcommon");
        let s = match v.store {
            Store::Common if both(&units[o]) && both(&units[v.unit]) => format!("unsigned {}[{}];", v.n, v.len),
            Store::Weak => format!("unsigned {}[{}] = {{ {}u }};", v.n, v.len, g.num()),
            _ => continue,
        };
        units[o].chunks.insert(0, Chunk { head: s, body: vec![], tail: String::new() });
    }
    // the order of files: libraries and archives anywhere behind what needs them
    let mut link: Vec<String> = (0..n).filter(|u| g.homes[*u] == Home::Obj).map(|u| format!("u{}.o", u)).collect();
    g.t.shuffle(&mut link);
    let mut rest: Vec<String> = vec![];
    for a in 0..n_ars {
        rest.push(format!("libar{}.a", a));
    }
    for l in 0..n_libs {
        rest.push(format!("libso{}.so", l));
    }
    if n_ars > 1 {
        // they may need each other
        link.push("-Wl,--start-group".into());
    }
    for r in &rest {
        let by_name = g.t.chance(30);
        link.push(if by_name { format!("-l{}", r.trim_start_matches("lib").split('.').next().unwrap()) } else { r.clone() });
    }
    if n_ars > 1 {
        link.push("-Wl,--end-group".into());
    }
    link.push("-L.".into());
    if g.cxx.contains(&true) {
        link.push("-lstdc++".into());
    }
    link.push("-lm".into());
    if g.t.chance(25) {
        link.push(g.t.pick(&["-Wl,--hash-style=sysv", "-Wl,--hash-style=both", "-Wl,--hash-style=gnu"]).to_string());
    }
    let libs = (0..n_libs)
        .map(|l| {
            let mut v = vec![];
            if g.t.chance(50) {
                v.push(format!("-Wl,-soname,libso{}.so", l));
            }
            if g.t.chance(40) {
                v.push(g.t.pick(&["-Wl,--hash-style=sysv", "-Wl,--hash-style=both"]).to_string());
            }
            if g.t.chance(20) {
                v.push("-Wl,-Bsymbolic-functions".into());
            }
            v
        })
        .collect();
    let args = (0..g.t.below(3)).map(|i| format!("arg{}", i)).collect();
    Prog { header, classes, units, link, libs, args }
}

// ---------------------------------------------------------------- evaluation

fn source(p: &Prog, u: &Unit) -> String {
    let mut s = String::from(if u.cxx { "#include \"x.h\"\nextern \"C\" {\n" } else { "#include \"h.h\"\n" });
    let _ = p;
    for c in &u.chunks {
        s += &c.head;
        s.push('\n');
        for b in &c.body {
            s += b;
            s.push('\n');
        }
        s += &c.tail;
        s.push('\n');
    }
    if u.cxx {
        s += "}\n";
    }
    s
}

fn file(p: &Prog, i: usize) -> String {
    format!("u{}.{}", i, if p.units[i].cxx { "cc" } else { "c" })
}

/// The commands that make the inputs of the link.
fn commands(p: &Prog) -> Vec<(String, Vec<String>)> {
    let mut v = vec![];
    for (i, u) in p.units.iter().enumerate() {
        let mut a: Vec<String> = u.flags.clone();
        a.extend(["-w", "-c", "-o"].iter().map(|s| s.to_string()));
        a.push(format!("u{}.o", i));
        a.push(file(p, i));
        v.push((format!("/usr/bin/{}", u.cc), a));
    }
    let of = |h: &Home| -> Vec<String> { p.units.iter().enumerate().filter(|(_, u)| u.home == *h).map(|(i, _)| format!("u{}.o", i)).collect() };
    let ars: std::collections::BTreeSet<usize> = p.units.iter().filter_map(|u| if let Home::Ar(a) = u.home { Some(a) } else { None }).collect();
    for a in ars {
        let mut x = vec!["rcs".to_string(), format!("libar{}.a", a)];
        x.extend(of(&Home::Ar(a)));
        v.push(("/usr/bin/ar".into(), x));
    }
    for (l, o) in p.libs.iter().enumerate() {
        let mut x = vec!["-shared".to_string(), "-o".into(), format!("libso{}.so", l)];
        x.extend(o.clone());
        x.extend(of(&Home::Lib(l)));
        v.push(("/usr/bin/clang".into(), x));
    }
    v
}

fn link_args(p: &Prog, out: &str, ld: &str) -> Vec<String> {
    let mut a = vec!["-no-pie".to_string(), format!("--ld-path={}", ld), "-o".into(), out.into()];
    a.extend(p.link.clone());
    a
}

pub fn write(p: &Prog, dir: &Path) {
    let mut h = PRELUDE.to_string();
    for l in &p.header {
        h += l;
        h.push('\n');
    }
    put(&dir.join("h.h"), h.as_bytes());
    if p.units.iter().any(|u| u.cxx) {
        let x = p.classes.iter().fold(CXX_PRELUDE.to_string(), |x, c| x + c + "\n");
        put(&dir.join("x.h"), x.as_bytes());
    }
    for (i, u) in p.units.iter().enumerate() {
        put(&dir.join(file(p, i)), source(p, u).as_bytes());
    }
}

pub fn script(p: &Prog) -> String {
    let mut s = String::new();
    for (e, a) in commands(p) {
        s += &format!("{} {}\n", e, a.join(" "));
    }
    s += &format!("clang {}\n", link_args(p, "ref", "/usr/bin/ld.bfd").join(" "));
    s += &format!("clang {}\n", link_args(p, "out", "${DLD:-/repo/target/debug/dld}").join(" "));
    for e in ["ref", "out"] {
        s += &format!("LD_LIBRARY_PATH=. DLD_TEST=yes ./{} {}; echo \"{}: $?\"\n", e, p.args.join(" "), e);
    }
    s
}

pub fn eval(p: &Prog, env: &Env) -> Eval {
    let mut ev = Eval::default();
    clean(&env.dir);
    write(p, &env.dir);
    let dir = env.dir.to_str().unwrap().to_string();
    let e: Vec<(&str, &str)> = vec![("PATH", "/usr/bin:/bin"), ("TMPDIR", &dir), ("LC_ALL", "C")];
    let lim = Limits { cpu: 60, mem: 8 << 30, wall: 120, ..Default::default() };
    for (exe, a) in commands(p) {
        let o = run(Path::new(&exe), &a, &env.dir, &lim, &e);
        if !o.ok() {
            if std::env::var("DLD_DEBUG").is_ok() {
                eprintln!("{} {:?}: {}", exe, a, o.brief());
            }
            *ev.labels.entry("programs that do not compile").or_insert(0) += 1;
            return ev;
        }
    }
    let clang = Path::new("/usr/bin/clang");
    let o = run(clang, &link_args(p, "ref", "/usr/bin/ld.bfd"), &env.dir, &lim, &e);
    if !o.ok() {
        if std::env::var("DLD_DEBUG").is_ok() {
            eprintln!("reference link: {}", o.brief());
        }
        *ev.labels.entry("programs the system linker rejects").or_insert(0) += 1;
        return ev;
    }
    let re: Vec<(&str, &str)> = vec![("LD_LIBRARY_PATH", &dir), ("DLD_TEST", "yes"), ("LC_ALL", "C")];
    let rl = Limits { cpu: 10, mem: 4 << 30, wall: 60, ..Default::default() };
    let want = run(&env.dir.join("ref"), &p.args, &env.dir, &rl, &re);
    if want.signal.map_or(false, |s| s != libc::SIGABRT) {
        *ev.labels.entry("programs that crash").or_insert(0) += 1;
        return ev;
    }
    ev.nontrivial = true;
    let o = run(clang, &link_args(p, "out", env.dld.to_str().unwrap()), &env.dir, &lim, &e);
    if !o.ok() {
        ev.fails.push(format!("[link] the link fails: {}", o.brief()));
        return ev;
    }
    let got = run(&env.dir.join("out"), &p.args, &env.dir, &rl, &re);
    let mut label = |l: &'static str, n: usize| {
        if n > 0 {
            *ev.labels.entry(l).or_insert(0) += n as u64;
        }
    };
    label("programs compared", 1);
    label("lines of output compared", want.stdout.iter().filter(|b| **b == b'\n').count());
    label("files compiled by gcc", p.units.iter().filter(|u| u.cc == "gcc").count());
    label("files compiled by clang", p.units.iter().filter(|u| u.cc == "clang").count());
    label("members of archives", p.units.iter().filter(|u| matches!(u.home, Home::Ar(_))).count());
    label("shared libraries", p.libs.len());
    label("files in C++", p.units.iter().filter(|u| u.cxx).count());
    if (got.code, got.signal) != (want.code, want.signal) {
        ev.fails.push(format!("[run] the program ends with {}, linked by the system linker with {}", got.brief(), want.brief()));
    } else if got.stdout != want.stdout || got.stderr != want.stderr {
        let (g, w) = (String::from_utf8_lossy(&got.stdout).into_owned(), String::from_utf8_lossy(&want.stdout).into_owned());
        let d = g.lines().zip(w.lines()).find(|(a, b)| a != b).map_or("(length)".into(), |(a, b)| format!("`{}`, linked by the system linker `{}`", a, b));
        ev.fails.push(format!("[run] the program prints {}", d));
    }
    ev
}

pub fn smaller(p: &Prog) -> Vec<Prog> {
    let mut v = vec![];
    for u in 0..p.units.len() {
        // half of the file, single pieces, single lines
        let n = p.units[u].chunks.len();
        for part in [0..n / 2, n / 2..n] {
            if part.len() > 1 {
                let mut q = p.clone();
                q.units[u].chunks.drain(part);
                v.push(q);
            }
        }
        for (c, x) in p.units[u].chunks.iter().enumerate() {
            if x.body.len() > 1 {
                for part in [0..x.body.len() / 2, x.body.len() / 2..x.body.len()] {
                    let mut q = p.clone();
                    q.units[u].chunks[c].body.drain(part);
                    v.push(q);
                }
            }
        }
        for c in 0..n {
            let mut q = p.clone();
            q.units[u].chunks.remove(c);
            v.push(q);
        }
        if p.units[u].chunks.iter().all(|c| c.body.len() < 3) {
            for (c, x) in p.units[u].chunks.iter().enumerate() {
                for b in 0..x.body.len() {
                    let mut q = p.clone();
                    q.units[u].chunks[c].body.remove(b);
                    v.push(q);
                }
            }
        }
        for f in 1..p.units[u].flags.len() {
            let mut q = p.clone();
            q.units[u].flags.remove(f);
            v.push(q);
        }
    }
    for c in 0..p.classes.len() {
        let mut q = p.clone();
        q.classes.remove(c);
        v.push(q);
    }
    v
}
