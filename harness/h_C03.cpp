// @sources dag
// @bound any label table of up to 6 (thorough: 8) labels with arbitrary contents and marks, any two labels of it
// @bound any two labels below 2^31 with arbitrary taints, all other labels being input bytes
#include "table.h"

// Union of two labels of an arbitrary table.
template <unsigned N> static void table_union() {
  Table<N, N + 1> t;
  label_t l = vf_upto("l", N - 1), r = vf_upto("r", N - 1);
  vf_assume(l >= 1 && r >= 1);
  uint32_t before[N], after[N + 1];
  t.meaning(before);
  label_t u = t.L.union_taint(l, r);
  vf_assert(u >= 1 && u < t.L.count(), "the result is a label that exists");
  vf_assert(t.L.count() <= N + 1, "at most one label is made");
  bool made = t.L.count() == N + 1;
  vf_assert(!made || u == N, "a label that is made is the one returned");
  if (made) {
    vf_assert((Table<N, N>::well_formed(t.mem[N], N)), "a new label refers to earlier labels only");
    vf_assert(!(t.mem[N] >> 63), "a union is not an input byte");
    vf_cover("made");
  } else {
    vf_cover("reused");
    t.mem[N] = SRC; // not part of the table
  }
  t.meaning(after);
  uint32_t du = after[u], dl = before[l], dr = before[r];
  vf_assert((dl & ~du) == 0, "no input byte of the first operand is lost");
  vf_assert((dr & ~du) == 0, "no input byte of the second operand is lost");
  vf_assert((du & ~(dl | dr)) == 0, "no input byte is added");
  vf_cover("union");
}
VF_ENTRY union_table() { table_union<BOUND(6, 9)>(); }
VF_ENTRY union_table_small() { table_union<4>(); }

// Two labels anywhere in the label space; every other label is an input byte of
// its own.  w is an arbitrary input byte (named by its label).
static bool in_range(label_t w, label_t a, label_t b) { return (int)(a <= w) & (int)(w <= b); }
struct Node {
  label_t l;
  uint64_t word;
  bool src() const { return word >> 63; }
  label_t a() const { return (word >> 31) & 0x7fffffff; }
  label_t b() const { return word & 0x7fffffff; }
  bool has(label_t x) const { return a() < b() ? in_range(x, a(), b()) : ((int)(a() == x) | (int)(b() == x)); }
};
// n is the younger of the two labels and o the older
static bool member_old(Node const &o, label_t w) { return o.src() ? w == o.l : o.has(w); }
static bool member(Node const &n, Node const &o, label_t w) {
  bool direct = (int)n.has(w);
  bool via = (int)n.has(o.l) & (int)member_old(o, w);
  return n.src() ? w == n.l : ((int)direct | (int)via);
}
VF_ENTRY union_any_labels() {
  Node l{SYM32("l"), SYM64("left")}, r{SYM32("r"), SYM64("right")};
  vf_assume(l.l >= 1 && r.l >= 1 && l.l <= 0x7ffffffeu && r.l <= 0x7ffffffeu && l.l != r.l);
  vf_assume((Table<2, 2>::well_formed(l.word, l.l)));
  vf_assume((Table<2, 2>::well_formed(r.word, r.l)));
  bool same = (int)l.src() & (int)r.src() & (int)((l.word | CF) == (r.word | CF));
  label_t w = SYM32("byte");
  vf_assume(w >= 1 && w <= 0x7ffffffeu);
  // w is an input byte: not the label of a union or range
  vf_assume(((int)(w != l.l) | (int)l.src()) & ((int)(w != r.l) | (int)r.src()));
  bool lnew = l.l > r.l;
  Node n = lnew ? l : r, o = lnew ? r : l;
  bool ml = lnew ? member(n, o, w) : member_old(o, w);
  bool mr = lnew ? member_old(o, w) : member(n, o, w);
  // the two labels of one and the same byte count as one byte
  label_t alt = w == l.l ? r.l : l.l;
  bool alias = (int)same & ((int)(w == l.l) | (int)(w == r.l));
  bool want = (int)ml | (int)mr;
  auto res = union_::compute(l.l, decode(l.word), r.l, decode(r.word));
  if (auto *lbl = std::get_if<label_t>(&res)) {
    vf_assert(*lbl == l.l || *lbl == r.l, "a reused label is one of the operands");
    bool got = *lbl == l.l ? ml : mr;
    bool gota = *lbl == l.l ? alt == l.l : alt == r.l;
    vf_assert(got == want || (alias && gota), "the reused operand covers exactly the bytes of both");
    vf_cover("operand");
  } else {
    uint64_t e = encode(std::get<Taint>(res));
    label_t fresh_label = (l.l > r.l ? l.l : r.l) + 1;
    vf_assert(!(e >> 63), "a new union is not an input byte");
    vf_assert((Table<2, 2>::well_formed(e, fresh_label)), "a new union refers to the operands or earlier labels");
    Node u{fresh_label, e};
    bool got = (int)(w != l.l && w != r.l && u.has(w)) | ((int)u.has(l.l) & (int)ml) | ((int)u.has(r.l) & (int)mr);
    vf_assert(!want || got, "no input byte is lost");
    vf_assert(want || !got, "no input byte is added");
    vf_cover("new");
  }
}
