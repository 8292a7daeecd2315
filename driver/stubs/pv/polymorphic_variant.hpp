// Declarations only: lets the code that uses the (absent) polymorphic_variant
// package be parsed.
#pragma once
#include <type_traits>
#include <utility>
namespace pv {
template <typename Base, typename... Ts>
class polymorphic_variant {
 public:
  polymorphic_variant();
  polymorphic_variant(const polymorphic_variant &);
  polymorphic_variant(polymorphic_variant &&);
  polymorphic_variant &operator=(const polymorphic_variant &);
  polymorphic_variant &operator=(polymorphic_variant &&);
  template <typename T>
    requires((std::is_same_v<std::remove_cvref_t<T>, Ts> || ...))
  polymorphic_variant(T &&);
  template <typename T, typename... A>
  polymorphic_variant(std::in_place_type_t<T>, A &&...);
  operator Base &();
  operator const Base &() const;
  Base *operator->();
  const Base *operator->() const;
  Base &operator*();
  const Base &operator*() const;
};
}  // namespace pv
