#ifndef SHIM_DERIVED_QTYPE_H_
#define SHIM_DERIVED_QTYPE_H_
#include "arolla/qtype/typed_ref.h"
#include "arolla/qtype/typed_value.h"
namespace arolla {
class BasicDerivedQType : public QType {
 public:
  struct ConstructorArgs {
    std::string name;
    QTypePtr base_qtype;
    QTypePtr value_qtype = nullptr;
    std::string qtype_specialization_key;
  };
  explicit BasicDerivedQType(ConstructorArgs a)
      : QType(Args{.name = std::move(a.name), .type = a.base_qtype->type_id(), .ops = a.base_qtype->ops(), .value_qtype = a.value_qtype,
                   .key = std::move(a.qtype_specialization_key), .base = a.base_qtype}) {}
};
QTypePtr DecayDerivedQType(QTypePtr t);
TypedRef DecayDerivedQValue(TypedRef r);
TypedRef UnsafeDowncastDerivedQValue(QTypePtr derived, TypedRef r);
}  // namespace arolla
#endif
