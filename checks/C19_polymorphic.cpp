// C19: polymorphic<T> has value semantics for every history of operations.
// MC-FLAGS: -O1 -fsanitize=address -fno-omit-frame-pointer
#include "mc.hpp"
#include "proxsuite-nlp/third-party/polymorphic_cxx14.hpp"
using mc::Ctx;
static Ctx *G = nullptr;
static bool g_faults = false;
struct Fault : std::runtime_error {
  Fault() : std::runtime_error("injected") {}
};
static void fault_point(const char *w) {
  if (g_faults && G->env(2, w))
    throw Fault();
}
// ---- tracked objects ------------------------------------------------------
static std::map<const void *, int> g_live; // address -> kind
static std::string g_err;
static void born(const void *p, int k) {
  if (g_live.count(p))
    g_err = "object constructed over a live object";
  g_live[p] = k;
}
static void died(const void *p, int k) {
  auto it = g_live.find(p);
  if (it == g_live.end() || it->second != k)
    g_err = "object destroyed twice or never constructed";
  else
    g_live.erase(it);
}
struct Base {
  int v;
  Base() : v(7) { born(this, 0); }
  Base(int x) : v(x) { born(this, 0); }
  Base(std::initializer_list<int> il) : v(int(il.size())) { born(this, 0); }
  Base(const Base &o) : v(o.v) {
    fault_point("copy Base");
    born(this, 0);
  }
  Base(Base &&o) : v(o.v) {
    born(this, 0);
    o.v = -1;
  }
  virtual ~Base() { died(this, 0); }
  virtual int kind() const { return 0; }
  virtual long check() const { return v; }
  virtual void set(int x) { v = x; }
};
struct A : Base {
  int w;
  A(int x) : Base(x), w(2 * x) { born(&w, 1); }
  A(const A &o) : Base(o), w(o.w) {
    fault_point("copy A"); // Base part already built: must be unwound
    born(&w, 1);
  }
  A(A &&o) : Base(std::move(o)), w(o.w) { born(&w, 1); }
  ~A() override { died(&w, 1); }
  int kind() const override { return 1; }
  long check() const override { return 1000 + v + w; }
  void set(int x) override {
    v = x;
    w = 2 * x;
  }
};
struct Other {
  long pad[3] = {1, 2, 3};
  virtual ~Other() = default;
};
// the Base subobject is not at offset 0, and the type is over-aligned
struct alignas(64) D : Other, Base {
  std::vector<int> data;
  D(int x) : Base(x), data(5, x) { born(&data, 2); }
  D(std::initializer_list<int> il) : Base(int(il.size())), data(il) { born(&data, 2); }
  D(const D &o) : Other(o), Base(o), data(o.data) {
    fault_point("copy D");
    born(&data, 2);
  }
  D(D &&o) : Other(o), Base(std::move(o)), data(std::move(o.data)) { born(&data, 2); }
  ~D() override { died(&data, 2); }
  int kind() const override { return 2; }
  long check() const override {
    long s = 5000 + v + pad[2];
    for (int d : data)
      s = s * 3 + d;
    if (reinterpret_cast<uintptr_t>(this) % 64)
      return -77;
    return s;
  }
  void set(int x) override {
    v = x;
    data.assign(5, x);
  }
};
static long expected(int kind, int v, bool il) {
  if (kind == 0)
    return v;
  if (kind == 1)
    return 1000 + 3 * v;
  long s = 5000 + v + 3;
  if (il)
    for (int d : {4, 5, 6})
      s = s * 3 + d;
  else
    for (int i = 0; i < 5; i++)
      s = s * 3 + v;
  return s;
}
// ---- tracked allocators ---------------------------------------------------
struct Block {
  int id;
  size_t bytes;
};
static std::map<void *, Block> g_blocks;
template <class T, int FLAGS> struct Al {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, (FLAGS & 1) != 0>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, (FLAGS & 2) != 0>;
  using propagate_on_container_swap = std::integral_constant<bool, (FLAGS & 4) != 0>;
  using is_always_equal = std::integral_constant<bool, (FLAGS & 8) != 0>;
  template <class U> struct rebind {
    using other = Al<U, FLAGS>;
  };
  int id = 1;
  Al() = default;
  explicit Al(int i) : id(i) {}
  template <class U> Al(const Al<U, FLAGS> &o) : id(o.id) {}
  Al select_on_container_copy_construction() const { return Al((FLAGS & 16) ? 1 : id); }
  T *allocate(size_t n) {
    fault_point("allocate");
    void *p = ::operator new(n * sizeof(T), std::align_val_t(alignof(T)));
    g_blocks[p] = {(FLAGS & 8) ? 0 : id, n * sizeof(T)};
    return static_cast<T *>(p);
  }
  void deallocate(T *p, size_t n) {
    auto it = g_blocks.find(p);
    if (it == g_blocks.end())
      g_err = "memory released that was not allocated";
    else {
      if (it->second.id != ((FLAGS & 8) ? 0 : id))
        g_err = "memory released through a different allocator";
      if (it->second.bytes != n * sizeof(T))
        g_err = "memory released with a different size";
      g_blocks.erase(it);
    }
    ::operator delete(p, std::align_val_t(alignof(T)));
  }
  friend bool operator==(const Al &a, const Al &b) { return (FLAGS & 8) || a.id == b.id; }
  friend bool operator!=(const Al &a, const Al &b) { return !(a == b); }
};

struct Model {
  bool has = false;
  int kind = 0, v = 0, id = 1;
  bool il = false;
  bool any = false; // moved-from content of an engaged object: unspecified value
};

template <int FLAGS> struct Sys {
  using AL = Al<Base, FLAGS>;
  using P = xyz::polymorphic<Base, AL>;
  static constexpr bool AE = (FLAGS & 8) != 0;
  Ctx &c;
  std::vector<std::unique_ptr<P>> s;
  std::vector<Model> m;
  std::string h;
  int fresh = 10;
  explicit Sys(Ctx &c_) : c(c_) {}

  bool eq(int i, int j) const { return AE || m[i].id == m[j].id; }
  void check() {
    if (!g_err.empty())
      c.fail("lifetime", h + ": " + g_err);
    uint64_t st = FLAGS;
    size_t live = 0, blocks = 0;
    for (size_t i = 0; i < s.size(); i++) {
      const P &p = *s[i];
      c.require(p.valueless_after_move() == !m[i].has, "engaged", h + " slot " + std::to_string(i));
      if (!AE)
        c.require(p.get_allocator().id == m[i].id, "allocator-propagation",
                  h + " slot " + std::to_string(i));
      if (m[i].has) {
        blocks++;
        live += m[i].kind == 0 ? 1 : 2;
        c.require(p->kind() == m[i].kind, "dynamic-type", h + " slot " + std::to_string(i));
        c.require((*p).kind() == m[i].kind, "deref", h);
        if (!m[i].any)
          c.require(p->check() == expected(m[i].kind, m[i].v, m[i].il), "value",
                    h + " slot " + std::to_string(i) + " has " + std::to_string(p->check()) +
                        " expected " + std::to_string(expected(m[i].kind, m[i].v, m[i].il)));
        // the pointee lives in a block of this slot's allocator
      }
      st = mc::mix(st, m[i].has ? uint64_t(m[i].kind * 4 + m[i].any * 2 + m[i].il + 1) : 0);
      st = mc::mix(st, uint64_t(m[i].id));
    }
    for (size_t i = 0; i < s.size(); i++) // pairwise distinct storage
      for (size_t j = 0; j < i; j++)
        if (m[i].has && m[j].has)
          c.require(&**s[i] != &**s[j], "aliasing", h);
    c.require(g_live.size() == live, "object-leak",
              h + ": " + std::to_string(g_live.size()) + " live subobjects, expected " + std::to_string(live));
    c.require(g_blocks.size() == blocks, "memory-leak", h);
    c.obs(st);
    c.step();
    state = st;
  }
  uint64_t state = 0;
  P *build(int what, int id, Model &mm) {
    mm = Model{};
    mm.has = true;
    mm.id = AE ? 1 : id;
    mm.v = ++fresh;
    AL al(id);
    switch (what) {
    case 0:
      mm.kind = 0;
      mm.v = 7;
      return new P(std::allocator_arg, al);
    case 1:
      mm.kind = 1;
      return new P(std::allocator_arg, al, xyz::in_place_type_t<A>{}, mm.v);
    case 2:
      mm.kind = 2;
      return new P(std::allocator_arg, al, xyz::in_place_type_t<D>{}, mm.v);
    case 3: { // from an lvalue, converting
      bool f = g_faults;
      g_faults = false;
      A a(mm.v);
      g_faults = f;
      mm.kind = 1;
      return new P(std::allocator_arg, al, a);
    }
    case 4: { // from an rvalue, converting
      D d(mm.v);
      mm.kind = 2;
      return new P(std::allocator_arg, al, std::move(d));
    }
    case 5: // initializer list
      mm.kind = 2;
      mm.v = 3;
      mm.il = true;
      return new P(std::allocator_arg, al, xyz::in_place_type_t<D>{}, {4, 5, 6});
    }
    return nullptr;
  }
  template <class F> bool attempt(bool allow_fault, F f) {
    g_faults = allow_fault;
    try {
      f();
      g_faults = false;
      return true;
    } catch (const Fault &) {
      g_faults = false;
      h += "(fault)";
      c.count("faults");
      return false;
    }
  }
  void run(int depth, bool inject) {
    const int ids[3] = {1, 2, 1};
    for (int i = 0; i < 3; i++) {
      Model mm;
      int what = i == 0 ? c.choose(6, "init0") : (i == 1 ? 2 : 0);
      if (i == 0)
        c.shard();
      s.emplace_back(build(what, ids[i], mm));
      m.push_back(mm);
    }
    check();
    for (int d = 0; d < depth; d++) {
      int op = c.choose(7, "op");
      int i = c.choose(3, "i");
      h += " op" + std::to_string(op) + "," + std::to_string(i);
      switch (op) {
      case 0: { // copy assign
        int j = c.choose(3, "j");
        h += "<-" + std::to_string(j);
        P *r = nullptr;
        if (attempt(inject, [&] { r = &(*s[i] = static_cast<const P &>(*s[j])); })) {
          c.require(r == s[i].get(), "assign-returns-self", h);
          if (i != j) {
            int id = m[i].id;
            m[i] = m[j];
            m[i].id = (FLAGS & 1) ? m[j].id : id;
          }
        } // else: strong guarantee, model unchanged
        break;
      }
      case 1: { // move assign
        int j = c.choose(3, "j");
        h += "<=" + std::to_string(j);
        constexpr bool ne = noexcept(std::declval<P &>() = std::declval<P &&>());
        P *r = nullptr;
        if (attempt(inject && !ne, [&] { r = &(*s[i] = std::move(*s[j])); })) {
          c.require(r == s[i].get(), "assign-returns-self", h);
          if (i != j) {
            int id = m[i].id;
            bool e = eq(i, j);
            bool jhas = m[j].has;
            m[i] = m[j];
            m[i].id = (FLAGS & 2) ? m[j].id : id;
            if (jhas) {
              if (e || s[j]->valueless_after_move())
                m[j].has = false;
              else
                m[j].any = true; // moved-from element, still owned
            }
          }
        }
        break;
      }
      case 2: { // copy construct into slot i from j
        int j = c.choose(3, "j");
        h += "=copy(" + std::to_string(j) + ")";
        std::unique_ptr<P> np;
        Model mm;
        int how = c.choose(2, "how");
        if (attempt(inject, [&] {
              if (how == 0) {
                np.reset(new P(static_cast<const P &>(*s[j])));
                mm = m[j];
                mm.id = (!AE && (FLAGS & 16)) ? 1 : m[j].id;
              } else {
                np.reset(new P(std::allocator_arg, AL(3), static_cast<const P &>(*s[j])));
                mm = m[j];
                mm.id = AE ? 1 : 3;
              }
            })) {
          s[i] = std::move(np);
          m[i] = mm;
        }
        break;
      }
      case 3: { // move construct into slot i from j
        int j = c.choose(3, "j");
        h += "=move(" + std::to_string(j) + ")";
        std::unique_ptr<P> np;
        int how = c.choose(2, "how");
        constexpr bool ne = noexcept(P(std::allocator_arg, std::declval<const AL &>(), std::declval<P &&>()));
        if (attempt(inject && how == 1 && !ne, [&] {
              if (how == 0)
                np.reset(new P(std::move(*s[j])));
              else
                np.reset(new P(std::allocator_arg, AL(3), std::move(*s[j])));
            })) {
          Model mm = m[j];
          if (how == 1)
            mm.id = AE ? 1 : 3;
          bool e = how == 0 || AE || m[j].id == 3;
          if (m[j].has) {
            if (e || s[j]->valueless_after_move())
              m[j].has = false;
            else
              m[j].any = true;
          }
          s[i] = std::move(np);
          m[i] = mm;
        }
        break;
      }
      case 4: { // swap (equal allocators, or propagating)
        int j = c.choose(3, "j");
        h += "<>" + std::to_string(j);
        if (!(FLAGS & 4) && !eq(i, j))
          c.prune();
        if (c.choose(2, "how"))
          swap(*s[i], *s[j]);
        else
          s[i]->swap(*s[j]);
        if (i != j) {
          int a = m[i].id, b = m[j].id;
          std::swap(m[i], m[j]);
          if (!(FLAGS & 4)) {
            m[i].id = a;
            m[j].id = b;
          }
        }
        break;
      }
      case 5: { // mutate through -> and *
        if (!m[i].has)
          c.prune();
        m[i].v = ++fresh;
        m[i].il = false;
        m[i].any = false;
        if (fresh & 1)
          (*s[i])->set(m[i].v);
        else
          (**s[i]).set(m[i].v);
        break;
      }
      case 6: { // rebuild
        int what = c.choose(inject ? 3 : 6, "what");
        int id = i == 1 ? 2 : 1;
        std::unique_ptr<P> np;
        Model mm;
        if (attempt(inject, [&] { np.reset(build(what, id, mm)); })) {
          s[i] = std::move(np);
          m[i] = mm;
        }
        break;
      }
      }
      check();
      c.visit(mc::mix(mc::mix(state, inject), c.dev), depth - 1 - d);
    }
    while (!s.empty()) {
      s.pop_back();
      m.pop_back();
      check();
    }
    c.require(g_live.empty() && g_blocks.empty(), "leak-at-end", h);
  }
};
template <int FLAGS> static void history(Ctx &c, int depth, bool inject) {
  G = &c;
  g_live.clear();
  g_blocks.clear();
  g_err.clear();
  g_faults = false;
  {
    Sys<FLAGS> s(c);
    try {
      s.run(depth, inject);
    } catch (mc::Prune &) { // cut or out of domain: still tear down and check
      g_faults = false;
      s.s.clear();
      c.require(g_live.empty() && g_blocks.empty() && g_err.empty(), "leak-at-end", s.h + g_err);
      throw;
    } catch (...) { // Skip/Prune/Violation: tear down quietly
      g_faults = false;
      s.s.clear();
      throw;
    }
    c.sample("F" + std::to_string(FLAGS), s.h);
  }
}
static void configs(Ctx &c, int depth, bool inject) {
  switch (c.choose(8, "allocator")) {
  case 0: return history<0>(c, depth, inject);
  case 1: return history<1>(c, depth, inject);
  case 2: return history<2>(c, depth, inject);
  case 3: return history<4>(c, depth, inject);
  case 4: return history<7>(c, depth, inject);
  case 5: return history<8 + 7>(c, depth, inject);
  case 6: return history<16>(c, depth, inject);
  case 7: return history<16 + 3>(c, depth, inject);
  }
}
// std::allocator, and use as a container element / in the default allocator form
static void std_alloc(Ctx &c) {
  G = &c;
  g_live.clear();
  g_blocks.clear();
  g_err.clear();
  g_faults = false;
  using P = xyz::polymorphic<Base>;
  std::string h;
  {
    std::vector<P> v;
    std::vector<std::pair<int, int>> ref; // kind, value
    c.shard();
    for (int d = 0; d < (c.thorough ? 6 : 5); d++) {
      int op = c.choose(7, "op");
      h += " " + std::to_string(op);
      int x = 20 + d;
      switch (op) {
      case 0: v.emplace_back(P(xyz::in_place_type_t<A>{}, x)); ref.push_back({1, x}); break;
      case 1: v.push_back(D(x)); ref.push_back({2, x}); break;
      case 2: v.insert(v.begin(), P(A(x))); ref.insert(ref.begin(), {1, x}); break;
      case 3: if (v.empty()) c.prune(); v.erase(v.begin()); ref.erase(ref.begin()); break;
      case 4: if (v.empty()) c.prune(); v.push_back(v[0]); ref.push_back(ref[0]); break;
      case 5: if (v.empty()) c.prune(); v.back()->set(x); ref.back().second = x; break;
      case 6: { auto w = v; if (!w.empty()) w[0]->set(1); v = std::move(w);
                if (!ref.empty()) ref[0].second = 1; break; }
      }
      c.require(v.size() == ref.size(), "size", h);
      for (size_t i = 0; i < v.size(); i++) {
        c.require(v[i]->kind() == ref[i].first, "vector-type", h);
        c.require(v[i]->check() == expected(ref[i].first, ref[i].second, false), "vector-value", h);
      }
      c.require(g_err.empty(), "vector-lifetime", h + g_err);
      c.obs(mc::hash_str(h));
    }
  }
  c.require(g_live.empty() && g_err.empty(), "vector-leak", h + g_err);
}
int main(int argc, char **argv) {
  mc::Main m("C19");
  m.note = "states: distinct (allocator traits, slot contents) configurations of three slots; transitions: choices plus operations whose full post-state was compared with the reference model; traces: histories run on the real class under AddressSanitizer";
  m.assumptions = {"three slots; histories of length 3 (2 with one injected allocation/copy failure), thorough 4 (3 with two); states equal up to the stored numbers are merged, which is sound because every slot is fully observed after every operation",
                   "only operations that are valid by contract are generated (no access to a valueless object, no swap of unequal non-propagating allocators)"};
  bool th = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough";
  m.add("histories", [th](Ctx &c) { configs(c, th ? 4 : 3, false); });
  m.add("faults", [th](Ctx &c) { configs(c, th ? 3 : 2, true); }, th ? 2 : 1);
  m.add("containers", std_alloc);
  return m.run(argc, argv);
}
