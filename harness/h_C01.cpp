// @sources dag
// @bound encoding: no bound - all 64-bit words, all source numbers, offsets, labels and marks
#include "taintdag/encoding.h"
#include "vf.h"
using namespace taintdag;

// Every representable source taint survives encode/decode.
VF_ENTRY enc_source() {
  uint8_t idx = SYM8("index");
  int64_t off = (int64_t)vf_upto("offset", (1ull << 54) - 1);
  bool cf = SYMBOOL("cf");
  storage_t e = encode(Taint{SourceTaint{idx, off, cf}});
  Taint t = decode(e);
  auto *s = std::get_if<SourceTaint>(&t);
  vf_assert(s != nullptr, "a source taint decodes as a source taint");
  vf_assert(s->index == idx, "source number survives");
  vf_assert(s->offset == off, "source offset survives");
  vf_assert(s->affects_control_flow == cf, "mark of a source taint survives");
  vf_assert(is_source_taint(e), "a source taint is classified as a source taint");
  vf_assert(check_affects_control_flow(e) == cf, "mark visible without decoding");
  vf_cover("source");
}

VF_ENTRY enc_range() {
  label_t a = SYM32("first"), b = SYM32("last");
  vf_assume(a < b && b <= 0x7fffffffu);
  bool cf = SYMBOOL("cf");
  storage_t e = encode(Taint{RangeTaint{a, b, cf}});
  Taint t = decode(e);
  auto *r = std::get_if<RangeTaint>(&t);
  vf_assert(r != nullptr, "a range decodes as a range");
  vf_assert(r->first == a && r->last == b, "ends of a range survive");
  vf_assert(r->affects_control_flow == cf, "mark of a range survives");
  vf_assert(!is_source_taint(e), "a range is not classified as a source taint");
  vf_assert(check_affects_control_flow(e) == cf, "mark of a range visible without decoding");
  vf_cover("range");
}

VF_ENTRY enc_union() {
  label_t a = SYM32("one"), b = SYM32("other");
  vf_assume(a <= 0x7fffffffu && b <= 0x7fffffffu);
  vf_assume(a != b && a != b + 1 && b != a + 1);
  bool cf = SYMBOOL("cf");
  storage_t e = encode(Taint{UnionTaint{a, b, cf}});
  Taint t = decode(e);
  auto *u = std::get_if<UnionTaint>(&t);
  vf_assert(u != nullptr, "a union decodes as a union");
  label_t lo = a < b ? a : b, hi = a < b ? b : a;
  vf_assert(u->lower == lo && u->higher == hi, "members of a union survive");
  vf_assert(u->affects_control_flow == cf, "mark of a union survives");
  vf_assert(!is_source_taint(e), "a union is not classified as a source taint");
  vf_assert(check_affects_control_flow(e) == cf, "mark of a union visible without decoding");
  vf_cover("union");
}

// Every word is either refused or decodes to a taint that encodes to it.
VF_ENTRY enc_words() {
  storage_t w = SYM64("word");
  bool source = (w >> 63) & 1;
  label_t a = (w >> 31) & 0x7fffffff, b = w & 0x7fffffff;
  vf_exit_ok(!source && a == b);
  Taint t = decode(w);
  vf_exit_ok(0);
  vf_assert(source || a != b, "a word that holds no taint is refused");
  vf_assert(encode(t) == w, "a word decodes to the taint it was made from");
  vf_cover("word");
}

VF_ENTRY enc_mark() {
  storage_t w = SYM64("word"), v = SYM64("other");
  const storage_t bit = 1ull << 62;
  vf_assert(add_affects_control_flow(w) == (w | bit), "setting the mark changes nothing else");
  vf_assert(check_affects_control_flow(w) == ((w & bit) != 0), "the mark is reported as stored");
  vf_assert(is_source_taint(w) == (w >> 63 != 0), "source words are recognised");
  vf_assert(equal_ignore_cf(w, v) == ((w | bit) == (v | bit)), "comparison ignores the mark and nothing else");
  vf_cover("mark");
}
