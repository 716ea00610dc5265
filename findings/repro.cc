// Concrete witnesses for the defects repaired by the "fix:" commits in /repo.
// Usage: repro <case>; built against /repo/src with ASan+UBSan by repro.sh. Exit 0 = behaves as documented.
#include <cstdio>
#include <cstring>
#include <memory>
#include <limits>
#include "expr/runner.h"
#include "expr/codec.h"
#include "expr/calc/string_fun.h"
#include "rel/rel_runner.h"
using namespace dingodb::expr;
using dingodb::rel::RelRunner;
static std::vector<Byte> B(const char *h) { std::vector<Byte> v(strlen(h) / 2); HexToBytes(v.data(), h, strlen(h)); return v; }
// exact-size heap buffer so that ASan sees every over-read
static Operand Eval(const char *h, const Tuple *t = nullptr) {
  auto v = B(h); std::unique_ptr<Byte[]> p(new Byte[v.size()]); std::copy(v.begin(), v.end(), p.get());
  Runner r; r.Decode(p.get(), v.size()); r.BindTuple(t); r.Run(); return r.Get();
}
template <class F> static int Rejects(F f) { try { f(); } catch (const std::exception &e) { printf("rejected: %s\n", e.what()); return 0; } printf("accepted\n"); return 1; }
int main(int, char **a) {
  std::string c = a[1];
  if (c == "type_nibble") return Rejects([] { Eval("110111018377"); });       // ADD of type 0x77
  if (c == "cast_nibble") return Rejects([] { Eval("1101F0F8"); });           // CAST type 15 <- 8
  if (c == "const_decimal") return Rejects([] { Eval("110116"); });           // CONST<DECIMAL>
  if (c == "sub_string") return Rejects([] { Eval("170161170162" "8407"); }); // 'a' - 'b'
  if (c == "trunc_op") return Rejects([] { Eval("1101110183"); });            // ADD without its type byte
  if (c == "trunc_varint") return Rejects([] { Eval("1180"); });
  if (c == "trunc_double") return Rejects([] { Eval("1540"); });
  if (c == "trunc_string") return Rejects([] { Eval("17056162"); });
  if (c == "varint_int32") return Eval("1180FFFFFFFFFFFFFFFF01") == Operand(int32_t(-128)) ? 0 : 1;  // protobuf int32 -128
  if (c == "align") return Eval("15401F333333333333") == Operand(7.8) ? 0 : 1;
  if (c == "div_min") return Eval("21FFFFFFFF07" "1101" "8401" "2101" "8601") == Operand(std::numeric_limits<int32_t>::min()) ? 0 : 1;
  if (c == "mod_min") return Eval("21FFFFFFFF07" "1101" "8401" "2101" "8701") == Operand(int32_t(0)) ? 0 : 1;
  if (c == "substr_start") return Eval("1703616263" "1105" "F12D") == Operand("") ? 0 : 1;           // SUBSTR('abc', 5)
  if (c == "substr_rev") return Eval("1703616263" "1102" "1101" "F12C") == Operand("") ? 0 : 1;      // SUBSTR('abc', 2, 1)
  if (c == "mid_overflow") return Eval("1703616263" "1102" "11FFFFFFFF07" "F12E") == Operand("bc") ? 0 : 1;
  if (c == "group_type") return Rejects([] { auto v = B("7362010110"); RelRunner r; r.Decode(v.data(), v.size()); });  // ARRAY<INT64>
  if (c == "leak_filter") { auto v = B("71310000"); RelRunner r; r.Decode(v.data(), v.size()); return Rejects([&] { r.Put(new Tuple{1}); }); }
  if (c == "leak_project") { auto v = B("72310011018301" "00"); RelRunner r; r.Decode(v.data(), v.size()); return Rejects([&] { r.Put(new Tuple{"x"}); }); }
  if (c == "leak_agg") { auto v = B("74012200"); RelRunner r; r.Decode(v.data(), v.size()); delete r.Put(new Tuple{2LL}); return Rejects([&] { r.Put(new Tuple{"x"}); }); }
  if (c == "leak_group") { auto v = B("7361010001" "2201"); RelRunner r; r.Decode(v.data(), v.size()); delete r.Put(new Tuple{1, 2LL}); return Rejects([&] { r.Put(new Tuple{1, "x"}); }); }
  if (c == "leak_decode_filter") return Rejects([] { auto v = B("711101FF"); RelRunner r; r.Decode(v.data(), v.size()); });
  if (c == "leak_decode_aggs") return Rejects([] { auto v = B("7402" "10" "FF"); RelRunner r; r.Decode(v.data(), v.size()); });
  if (c == "leak_decode_group") return Rejects([] { auto v = B("736101" "00" "01" "FF"); RelRunner r; r.Decode(v.data(), v.size()); });
  if (c == "copy") {
#ifdef COPY
    Runner r; auto v = B("1101"); r.Decode(v.data(), v.size()); Runner s = r; s.Run(); return s.Get() == Operand(1) ? 0 : 1;
#else
    return std::is_copy_constructible_v<Runner> || std::is_copy_constructible_v<RelRunner>;
#endif
  }
  return 2;
}
