#include <array>
#include <cctype>
#include <map>
#include <optional>
#include <stdexcept>
#include <string>

enum class Sym { A, S, N };
enum class Bk { C, S, N };
enum class Sym2 { A, S, N };
enum class Bk2 { C, S, N };
enum class Cl { S, N };

// ---- writers
namespace bad_writer_same {
std::string text(Sym2 s) {
  switch (s) {
    case Sym2::A: return "A";
    case Sym2::S: return "S";
    case Sym2::N: return "S";
  }
  throw std::runtime_error("");
}
}  // namespace bad_writer_same
namespace bad_writer_default {
std::wstring text(Bk2 b) {
  std::wstring r = L"N";
  if (b == Bk2::C) r = L"C";
  return r;
}
}  // namespace bad_writer_default
namespace bad_table_same {
std::string text(Sym2 s) {
  static const std::array<const char *, 3> names{"A", "S", "A"};
  return names[static_cast<int>(s)];
}
}  // namespace bad_table_same
namespace bad_tern {
std::string text(Bk2 b) { return b == Bk2::C ? "C" : b == Bk2::S ? "N" : "N"; }
}  // namespace bad_tern

namespace good_chain {
std::string text(Sym s) {
  if (s == Sym::A) return "A";
  if (s == Sym::S) return "S";
  return "N";
}
Sym read(char c) {
  if (c == 'A') return Sym::A;
  if (c == 'S') return Sym::S;
  if (c == 'N') return Sym::N;
  throw std::runtime_error("");
}
}  // namespace good_chain
namespace good_table {
std::string text(Sym s) {
  static const std::map<Sym, std::string> m{
      {Sym::A, "A"}, {Sym::S, "S"}, {Sym::N, "N"}};
  return m.at(s);
}
}  // namespace good_table
namespace good_array {
std::string text(Sym s) {
  static const std::array<const char *, 3> names{"A", "S", "N"};
  return names[static_cast<int>(s)];
}
}  // namespace good_array
namespace good_tern {
char one(Bk b) { return b == Bk::C ? 'C' : b == Bk::S ? 'S' : 'N'; }
std::string text(Bk b) {
  std::string r;
  r.push_back(one(b));
  return r;
}
}  // namespace good_tern
namespace good_element {
std::wstring text(Bk b) {
  std::wstring r(1, L'N');
  if (b == Bk::C)
    r[0] = L'C';
  else if (b == Bk::S)
    r.replace(0, 1, L"S");
  return r;
}
}  // namespace good_element
namespace bad_element {
std::wstring text(Bk2 b) {
  std::wstring r(1, L'N');
  if (b == Bk2::C) r[0] = L'C';
  return r;
}
}  // namespace bad_element
namespace good_runtime {
std::string text(Sym s, int n) {
  std::string r = std::to_string(n);
  if (s == Sym::A) r += "A";
  return r;
}
}  // namespace good_runtime

// ---------------------------------------------------------------- readers
namespace serialization_t {
struct fmt {
  static std::string write(Sym s) {
    switch (s) {
      case Sym::A: return "A";
      case Sym::S: return "S";
      case Sym::N: return "N";
    }
    throw std::runtime_error("");
  }
  static Sym good_read(char c) {
    switch (std::toupper(c)) {
      case 'A': return Sym::A;
      case 'S': return Sym::S;
      case 'N': return Sym::N;
      default: throw std::runtime_error("");
    }
  }
  static std::optional<Sym> good_opt(char c) {
    const char u = static_cast<char>(std::toupper(c));
    if (u == 'A') return Sym::A;
    if (u == 'S') return Sym::S;
    if (u == 'N') return Sym::N;
    return std::nullopt;
  }
  static Sym bad_swapped(char c) {
    switch (c) {
      case 'A': return Sym::S;
      case 'S': return Sym::A;
      case 'N': return Sym::N;
    }
    throw std::runtime_error("");
  }
  static Sym bad_missing(char c) {
    switch (c) {
      case 'A': return Sym::A;
      case 'S': return Sym::S;
    }
    throw std::runtime_error("");
  }
  static Sym bad_default(char c) {
    switch (c) {
      case 'A': return Sym::A;
      case 'N': return Sym::N;
      default: return Sym::N;
    }
  }
  static Sym bad_case(char c) {
    switch (std::tolower(c)) {
      case 'A': return Sym::A;
      case 's': return Sym::S;
      case 'n': return Sym::N;
    }
    throw std::runtime_error("");
  }
};
}  // namespace serialization_t

// --------------------------------------------------------- sequences
std::string to_text(Bk b) {
  switch (b) {
    case Bk::C: return "C";
    case Bk::S: return "S";
    case Bk::N: return "N";
  }
  throw std::runtime_error("");
}
Bk to_bk(char c) {
  switch (c) {
    case 'C': return Bk::C;
    case 'S': return Bk::S;
    case 'N': return Bk::N;
  }
  throw std::runtime_error("");
}
std::string to_text(Cl b) { return b == Cl::S ? "S" : "N"; }
Cl to_cl(char c) {
  if (c == 'S') return Cl::S;
  if (c == 'N') return Cl::N;
  throw std::runtime_error("");
}
struct spec {
  char a;
  char b;
};
std::string good_write(Bk b, Cl c) { return "-" + to_text(b) + to_text(c); }
std::pair<Bk, Cl> good_pair(const spec &s) {
  Bk b = to_bk(s.a);
  Cl c = to_cl(s.b);
  return {b, c};
}
std::pair<Bk, Cl> bad_pair(const spec &s) {
  return {to_bk(s.b), to_cl(s.a)};
}

// ------------------------------------------------------------- suffixes
std::wstring good_mark_add(const std::wstring &l, Cl c) {
  return c == Cl::S ? l + L"x" : l + L"y";
}
std::wstring good_mark_remove(const std::wstring &l) {
  std::wstring r = l;
  if (!r.empty() && (r.back() == L'x' || r.back() == L'y')) r.pop_back();
  return r;
}
namespace bad_mark {
std::wstring mark2_add(const std::wstring &l, Cl c) {
  return c == Cl::S ? l + L"x" : l + L"y";
}
std::wstring mark2_remove(const std::wstring &l) {
  std::wstring r = l;
  if (!r.empty() && r.back() == L'x') r.pop_back();
  return r;
}
}  // namespace bad_mark
