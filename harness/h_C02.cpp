// @sources dag
// @bound no bound: all source numbers, offsets below 2^54, labels below 2^31 and marks; the word at any of 3 places of the label table
#include "taintdag/encoding.h"
#include "vf.h"
using namespace taintdag;
static void out(uint64_t kind, uint64_t a, uint64_t b, bool cf, storage_t word) {
  vf_output_u64("kind", kind);
  vf_output_u64("a", a);
  vf_output_u64("b", b);
  vf_output_u64("cf", cf);
  vf_output("word", &word, sizeof word);
}
static void decoded(storage_t e) { // what the runtime itself makes of the word
  Taint t = decode(e);
  if (auto *s = std::get_if<SourceTaint>(&t))
    out(0, s->index, s->offset, s->affects_control_flow, e);
  else if (auto *u = std::get_if<UnionTaint>(&t))
    out(1, u->higher, u->lower, u->affects_control_flow, e);
  else if (auto *r = std::get_if<RangeTaint>(&t))
    out(2, r->first, r->last, r->affects_control_flow, e);
}
// @paths
VF_ENTRY written() {
  unsigned kind = vf_concretize(vf_upto("kind", 2));
  bool cf = SYMBOOL("cf");
  if (kind == 0) {
    uint8_t idx = SYM8("index");
    int64_t off = (int64_t)vf_upto("offset", (1ull << 54) - 1);
    decoded(encode(Taint{SourceTaint{idx, off, cf}}));
    vf_cover("source");
    return;
  }
  label_t a = SYM32("one"), b = SYM32("other");
  vf_assume((int)(a <= 0x7fffffffu) & (int)(b <= 0x7fffffffu) & (int)(a < b));
  if (kind == 1) {
    vf_assume(a + 1 != b);
    decoded(encode(Taint{UnionTaint{a, b, cf}}));
    vf_cover("union");
  } else {
    decoded(encode(Taint{RangeTaint{a, b, cf}}));
    vf_cover("range");
  }
}
