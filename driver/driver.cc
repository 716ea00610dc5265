// Entry points of the analysis: one C-named function per public API operation, so that the analysis is anchored at
// the public interface only. This unit is compiled to LLVM IR together with the units of /repo; it is never run.
#include <any>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <type_traits>

#include "expr/calc/casting.h"
#include "expr/calc/string_fun.h"
#include "expr/codec.h"
#include "expr/operand.h"
#include "expr/runner.h"
#include "expr/utils.h"
#include "rel/rel_runner.h"

using namespace dingodb::expr;
using dingodb::rel::RelRunner;

#define EXPORT extern "C" __attribute__((used))

EXPORT size_t vd_sizeof_runner() { return sizeof(Runner); }
EXPORT size_t vd_sizeof_rel() { return sizeof(RelRunner); }
EXPORT size_t vd_sizeof_operand() { return sizeof(Operand); }
EXPORT size_t vd_sizeof_tuple() { return sizeof(Tuple); }

// ---- expression runner
EXPORT void vd_runner_ctor(Runner *r) { new (r) Runner(); }
EXPORT void vd_runner_dtor(Runner *r) { r->Runner::~Runner(); }
EXPORT const Byte *vd_runner_decode(Runner *r, const Byte *code, size_t len) { return r->Decode(code, len); }
EXPORT void vd_runner_bind(Runner *r, const Tuple *t) { r->BindTuple(t); }
EXPORT void vd_runner_run(Runner *r) { r->Run(); }
EXPORT void vd_runner_get(Runner *r, Operand *out) { new (out) Operand(r->Get()); }
EXPORT Byte vd_runner_type(Runner *r) { return r->GetType(); }
EXPORT Tuple *vd_runner_getall(Runner *r) { return r->GetAll(); }

#define OPT(N, T) \
  EXPORT void vd_getopt_##N(Runner *r, std::optional<T> *out) { new (out) std::optional<T>(r->GetOptional<T>()); }
OPT(i32, int32_t)
OPT(i64, int64_t)
OPT(bool, bool)
OPT(f32, float)
OPT(f64, double)
OPT(str, String)

#define OPTOF(N, T) \
  EXPORT bool vd_opt_has_##N(const std::optional<T> *o) { return o->has_value(); } \
  EXPORT T vd_opt_value_##N(const std::optional<T> *o) { return **o; }
OPTOF(i32, int32_t)
OPTOF(i64, int64_t)
OPTOF(bool, bool)
OPTOF(f32, float)
OPTOF(f64, double)
EXPORT bool vd_opt_has_str(const std::optional<String> *o) { return o->has_value(); }
EXPORT const std::string *vd_opt_text(const std::optional<String> *o) { return &***o; }

// ---- operands
EXPORT void vd_operand_null(Operand *o) { new (o) Operand(nullptr); }
EXPORT void vd_operand_default(Operand *o) { new (o) Operand(); }
EXPORT bool vd_operand_eq(const Operand *a, const Operand *b) { return *a == *b; }
EXPORT bool vd_operand_ne(const Operand *a, const Operand *b) { return *a != *b; }
EXPORT bool vd_operand_eqnull(const Operand *a) { return *a == nullptr; }
EXPORT bool vd_operand_nenull(const Operand *a) { return *a != nullptr; }
EXPORT size_t vd_operand_hash(const Operand *a) { return std::hash<Operand>()(*a); }
EXPORT size_t vd_tuple_hash(const Tuple *a) { return std::hash<Tuple>()(*a); }
EXPORT bool vd_string_eq(const String *a, const String *b) { return *a == *b; }
EXPORT bool vd_string_ne(const String *a, const String *b) { return *a != *b; }
EXPORT bool vd_string_lt(const String *a, const String *b) { return *a < *b; }
EXPORT bool vd_string_le(const String *a, const String *b) { return *a <= *b; }
EXPORT bool vd_string_gt(const String *a, const String *b) { return *a > *b; }
EXPORT bool vd_string_ge(const String *a, const String *b) { return *a >= *b; }
EXPORT size_t vd_string_hash(const String *a) { return std::hash<String>()(*a); }

#define OPERAND(N, T)                                                              \
  EXPORT void vd_operand_##N(Operand *o, T v) { new (o) Operand(v); }               \
  EXPORT void vd_any_from_##N(const Operand *o, std::any *out) {                    \
    new (out) std::any(any_optional_data_adaptor::FromOperand<T>(*o));              \
  }                                                                                 \
  EXPORT void vd_any_to_##N(const std::any *a, Operand *o) {                        \
    new (o) Operand(any_optional_data_adaptor::ToOperand<T>(*a));                   \
  }                                                                                 \
  EXPORT void vd_any_some_##N(std::any *a, T v) { new (a) std::any(std::make_any<std::optional<T>>(v)); } \
  EXPORT void vd_any_none_##N(std::any *a) { new (a) std::any(std::make_any<std::optional<T>>(std::nullopt)); } \
  EXPORT bool vd_any_has_##N(const std::any *a) { return std::any_cast<const std::optional<T> &>(*a).has_value(); } \
  EXPORT T vd_any_value_##N(const std::any *a) { return *std::any_cast<const std::optional<T> &>(*a); }
OPERAND(i32, int32_t)
OPERAND(i64, int64_t)
OPERAND(bool, bool)
OPERAND(f32, float)
OPERAND(f64, double)
OPERAND(sptr, String::ValueType)
#define VALUE(N, T) \
  EXPORT T vd_value_##N(const Operand *o) { return o->GetValue<T>(); }
VALUE(i32, int32_t)
VALUE(i64, int64_t)
VALUE(bool, bool)
VALUE(f32, float)
VALUE(f64, double)
EXPORT void vd_operand_str(Operand *o, const String *v) { new (o) Operand(*v); }
EXPORT void vd_value_str(const Operand *o, String *out) { new (out) String(o->GetValue<String>()); }

EXPORT void vd_operand_text(Operand *o, const std::string *s) { new (o) Operand(String(std::make_shared<std::string>(*s))); }
EXPORT void vd_string_make(String *o, const std::string *s) { new (o) String(std::make_shared<std::string>(*s)); }
EXPORT const std::string *vd_string_text(const String *s) { return &**s; }
EXPORT const std::string *vd_operand_text_of(const Operand *o) { return &*o->GetValue<String>(); }
EXPORT void vd_any_some_str(std::any *a, const std::string *s) {
  new (a) std::any(std::make_any<std::optional<String::ValueType>>(std::make_shared<std::string>(*s)));
}
EXPORT const std::string *vd_any_text(const std::any *a) { return &**std::any_cast<const std::optional<String::ValueType> &>(*a); }
EXPORT void vd_operand_copy(Operand *o, const Operand *p) { new (o) Operand(*p); }
EXPORT void vd_operand_dtor(Operand *o) { o->~Operand(); }
EXPORT void vd_tuple_delete(const Tuple *t) { delete t; }
EXPORT size_t vd_tuple_size(const Tuple *t) { return t->size(); }
EXPORT const Operand *vd_tuple_at(const Tuple *t, size_t i) { return &(*t)[i]; }
EXPORT Tuple *vd_tuple_new(size_t n) { return new Tuple(n); }
EXPORT Operand *vd_tuple_slot(Tuple *t, size_t i) { return &(*t)[i]; }
EXPORT bool vd_tuple_eq(const Tuple *a, const Tuple *b) { return *a == *b; }
EXPORT void vd_operand_assign(Operand *o, const Operand *p) { *o = *p; }
EXPORT void vd_any_dtor(std::any *a) { a->~any(); }

// ---- relational runner
EXPORT void vd_rel_ctor(RelRunner *r) { new (r) RelRunner(); }
EXPORT void vd_rel_dtor(RelRunner *r) { r->RelRunner::~RelRunner(); }
EXPORT const Byte *vd_rel_decode(RelRunner *r, const Byte *code, size_t len) { return r->Decode(code, len); }
EXPORT const Tuple *vd_rel_put(RelRunner *r, const Tuple *t) { return r->Put(t); }
EXPORT const Tuple *vd_rel_get(RelRunner *r) { return r->Get(); }
EXPORT const Byte *vd_decode_agg(const dingodb::rel::op::Agg **out, const Byte *p, const Byte *end) {
  return DecodeValue<const dingodb::rel::op::Agg *>(*out, p, end);
}

template <typename R>
static bool copied(R *to, const R *from) {
  if constexpr (std::is_copy_constructible_v<R>) {
    new (to) R(*from);
    return true;
  }
  return false;
}
template <typename R>
static bool assigned(R *to, const R *from) {
  if constexpr (std::is_copy_assignable_v<R>) {
    *to = *from;
    return true;
  }
  return false;
}
template <typename R>
static bool moved(R *to, R *from) {
  if constexpr (std::is_move_constructible_v<R>) {
    new (to) R(std::move(*from));
    return true;
  }
  return false;
}
EXPORT bool vd_copy_runner(Runner *to, const Runner *from) { return copied(to, from); }
EXPORT bool vd_assign_runner(Runner *to, const Runner *from) { return assigned(to, from); }
EXPORT bool vd_move_runner(Runner *to, Runner *from) { return moved(to, from); }
EXPORT bool vd_copy_rel(RelRunner *to, const RelRunner *from) { return copied(to, from); }
EXPORT bool vd_assign_rel(RelRunner *to, const RelRunner *from) { return assigned(to, from); }
EXPORT bool vd_move_rel(RelRunner *to, RelRunner *from) { return moved(to, from); }

// ---- utilities
EXPORT int vd_hex_nibble(char c) { return HexToNibble(c); }
EXPORT char vd_nibble_hex(int n) { return NibbleToHex(n); }
EXPORT void vd_hex_bytes(Byte *buf, const char *hex, size_t len) { HexToBytes(buf, hex, len); }
EXPORT void vd_bytes_hex(char *hex, const Byte *buf, size_t len) { BytesToHex(hex, buf, len); }
EXPORT void vd_hex_of_bytes(std::string *out, const Byte *buf, size_t len) { new (out) std::string(HexOfBytes(buf, len)); }
EXPORT Tuple *vd_concat(const Tuple *a, const Tuple *b) { return ConcatTuple(*a, *b); }
EXPORT Tuple *vd_map(const Tuple *a, const int *idx, size_t n) { return MapTuple(*a, idx, n); }
EXPORT const char *vd_type_name(Byte t) { return TypeName(t); }
