// A stand-in for the C++ libraries of Nix, of which none is installed here:
// what libnixt and the evaluator of nixd use of them. An "expression" is a JSON
// description of the value it evaluates to (see lib/nixval.py), attributes are
// thunks, and thunks may fail or never have been asked for. It keeps what the
// code above it relies on: laziness (a thunk is replaced in place when it is
// forced, and stays a thunk when that fails), values that are small handles on
// shared data, attributes sorted by symbol and not by name, and aborting on the
// type of a value that has none.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <ostream>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>

namespace nix {

[[noreturn]] inline void unreachable() {
  fprintf(stderr, "runtime error: Nix aborts: the type of an uninitialized value was asked for\n");
  abort();
}

// ---- errors
struct HintFmt {
  std::string S;
  std::string str() const { return S; }
};
struct ErrorInfo {
  HintFmt msg;
};
class BaseError : public std::exception {
  ErrorInfo Err;

public:
  explicit BaseError(std::string S) : Err{{std::move(S)}} {}
  const ErrorInfo &info() const { return Err; }
  const char *what() const noexcept override { return Err.msg.S.c_str(); }
  const std::string &msg() const { return Err.msg.S; }
};
class EvalState;
#define FAKE_ERROR(N, B)                                                       \
  class N : public B {                                                         \
  public:                                                                      \
    using B::B;                                                                \
  };
FAKE_ERROR(Error, BaseError)
FAKE_ERROR(Interrupted, BaseError)
class EvalBaseError : public Error {
public:
  EvalBaseError(EvalState &, std::string S) : Error(std::move(S)) {}
};
FAKE_ERROR(EvalError, EvalBaseError)
FAKE_ERROR(ParseError, Error)
FAKE_ERROR(AssertionError, EvalError)
FAKE_ERROR(ThrownError, AssertionError)
FAKE_ERROR(Abort, EvalError)
FAKE_ERROR(TypeError, EvalError)
FAKE_ERROR(MissingArgumentError, EvalError)
FAKE_ERROR(InfiniteRecursionError, EvalError)
FAKE_ERROR(AttrPathNotFound, Error)
FAKE_ERROR(NoPositionInfo, Error)

// ---- positions
struct CanonPath {
  std::string P;
  const std::string &abs() const { return P; }
};
struct SourcePath {
  CanonPath path;
  std::string to_string() const { return path.P; }
};
class PosIdx {
public:
  uint32_t Id = 0;
  explicit operator bool() const { return Id > 0; }
  bool operator==(const PosIdx &O) const { return Id == O.Id; }
};
inline PosIdx noPos = {};
struct Pos {
  uint32_t line = 0, column = 0;
  struct Stdin {
    std::string Source;
  };
  struct String {
    std::string Source;
  };
  using Origin = std::variant<std::monostate, Stdin, String, SourcePath>;
  Origin origin = std::monostate();
  explicit operator bool() const { return line > 0; }
};
class PosTable {
  std::vector<Pos> All;

public:
  PosIdx add(Pos P) {
    All.push_back(std::move(P));
    return {static_cast<uint32_t>(All.size())};
  }
  Pos operator[](PosIdx P) const {
    if (P.Id == 0 || P.Id > All.size())
      return {};
    return All[P.Id - 1];
  }
};

// ---- symbols
class Symbol {
public:
  uint32_t Id = 0;
  explicit operator bool() const { return Id > 0; }
  auto operator<=>(const Symbol &) const = default;
};
class SymbolTable {
  std::deque<std::string> All;
  std::unordered_map<std::string, uint32_t> Ids;

public:
  Symbol create(std::string_view S) {
    auto [It, New] = Ids.try_emplace(std::string(S), All.size() + 1);
    if (New)
      All.emplace_back(S);
    return {It->second};
  }
  const std::string &operator[](Symbol S) const {
    if (S.Id == 0 || S.Id > All.size())
      abort();
    return All[S.Id - 1];
  }
  std::vector<std::string> resolve(const std::vector<Symbol> &V) const {
    std::vector<std::string> R;
    for (auto S : V)
      R.push_back((*this)[S]);
    return R;
  }
};

// ---- values
typedef enum {
  nThunk,
  nFailed,
  nInt,
  nFloat,
  nBool,
  nString,
  nPath,
  nNull,
  nAttrs,
  nList,
  nFunction,
  nExternal
} ValueType;
typedef int64_t NixIntRep;
struct NixInt {
  NixIntRep value = 0;
  NixInt() = default;
  explicit NixInt(NixIntRep V) : value(V) {}
  explicit operator int64_t() const { return value; }
  bool operator==(const NixInt &O) const { return value == O.value; }
};
typedef double NixFloat;

class Value;
class Bindings;
using Spec = llvm::json::Value;
struct Thunk {
  const Spec *S;
  bool Busy = false;
};
struct DocComment {
  std::optional<std::string> Text;
  explicit operator bool() const { return Text.has_value(); }
  std::string getInnerText(const PosTable &) const { return *Text; }
};
struct ExprLambda {
  PosIdx pos;
  DocComment docComment;
  const Spec *Ret = nullptr;
  PosIdx getPos() const { return pos; }
};
struct Env {};
struct Lambda {
  Env *env = nullptr;
  ExprLambda *fun = nullptr;
};
struct PrimOp {
  std::string name;
  std::vector<std::string> args;
  size_t arity = 0;
  std::optional<std::string> doc;
};

enum InternalType {
  tUninitialized,
  tInt,
  tBool,
  tNull,
  tFloat,
  tString,
  tPath,
  tAttrs,
  tList,
  tThunk,
  tLambda,
  tPrimOp,
  tExternal
};

struct ListBuilder {
  std::vector<Value *> *Elems;
};

class Value {
  InternalType T = tUninitialized;
  union {
    int64_t I = 0;
    double F;
    bool B;
    const std::string *S;
    const Bindings *A;
    const std::vector<Value *> *L;
    Thunk *Th;
    ExprLambda *Fn;
    const PrimOp *P;
  };
  friend class EvalState;

  void want(InternalType X) const {
    if (T != X) {
      fprintf(stderr, "runtime error: a member of a value that is not of its type was used (%d, not %d)\n", T, X);
      abort();
    }
  }

public:
  bool isThunk() const { return T == tThunk; }
  bool isApp() const { return false; }
  bool isLambda() const { return T == tLambda; }
  bool isPrimOp() const { return T == tPrimOp; }
  bool isPrimOpApp() const { return false; }
  bool isValid() const { return T != tUninitialized; }
  bool isTrivial() const { return T != tThunk; }

  template <bool InvalidIsThunk = false> ValueType type() const {
    switch (T) {
    case tInt:
      return nInt;
    case tBool:
      return nBool;
    case tNull:
      return nNull;
    case tFloat:
      return nFloat;
    case tString:
      return nString;
    case tPath:
      return nPath;
    case tAttrs:
      return nAttrs;
    case tList:
      return nList;
    case tThunk:
      return nThunk;
    case tLambda:
    case tPrimOp:
      return nFunction;
    case tExternal:
      return nExternal;
    case tUninitialized:
      break;
    }
    if (InvalidIsThunk)
      return nThunk;
    unreachable();
  }
  const Bindings *attrs() const {
    want(tAttrs);
    return A;
  }
  std::span<Value *const> listView() const {
    want(tList);
    return {L->data(), L->size()};
  }
  std::span<Value *const> listItems() const { return listView(); }
  Value *const *listElems() const { return listView().data(); }
  size_t listSize() const { return listView().size(); }
  std::string_view string_view() const {
    want(tString);
    return *S;
  }
  std::string_view str() const { return string_view(); }
  const char *c_str() const {
    want(tString);
    return S->c_str();
  }
  NixInt integer() const {
    want(tInt);
    return NixInt{I};
  }
  bool boolean() const {
    want(tBool);
    return B;
  }
  double fpoint() const {
    want(tFloat);
    return F;
  }
  SourcePath path() const {
    want(tPath);
    return {{*S}};
  }
  const char *pathStr() const {
    want(tPath);
    return S->c_str();
  }
  const PrimOp *primOp() const {
    want(tPrimOp);
    return P;
  }
  Lambda lambda() const {
    want(tLambda);
    return {nullptr, Fn};
  }
  PosIdx determinePos(const PosIdx P) const;
  void print(EvalState &State, std::ostream &OS) const;

  void mkNull() { T = tNull, I = 0; }
  void mkInt(int64_t V) { T = tInt, I = V; }
  void mkInt(NixInt V) { T = tInt, I = V.value; }
  void mkBool(bool V) { T = tBool, B = V; }
  void mkFloat(double V) { T = tFloat, F = V; }
  void mkString(std::string_view V) { T = tString, S = new std::string(V); }
  void mkPath(std::string_view V) { T = tPath, S = new std::string(V); }
  void mkAttrs(const Bindings *V) { T = tAttrs, A = V; }
  void mkList(const ListBuilder &B) { T = tList, L = B.Elems; }
  void mkThunk(const Spec *V) { T = tThunk, Th = new Thunk{V}; }
};
inline Value vNull = [] {
  Value V;
  V.mkNull();
  return V;
}();

struct Attr {
  Symbol name;
  PosIdx pos;
  Value *value = nullptr;
};

class Bindings {
public:
  PosIdx pos;
  std::vector<Attr> Attrs; // sorted by symbol
  static Bindings emptyBindings;

  const Attr *get(Symbol Name) const {
    auto It = find(Name);
    return It == end() ? nullptr : It;
  }
  const Attr *find(Symbol Name) const {
    auto It = std::lower_bound(Attrs.begin(), Attrs.end(), Name, [](const Attr &A, Symbol S) { return A.name < S; });
    return It != Attrs.end() && It->name == Name ? &*It : end();
  }
  const Attr *begin() const { return Attrs.data(); }
  const Attr *end() const { return Attrs.data() + Attrs.size(); }
  size_t size() const { return Attrs.size(); }
  bool empty() const { return Attrs.empty(); }
  const Attr &operator[](size_t I) const { return Attrs.at(I); }
  std::vector<const Attr *> lexicographicOrder(const SymbolTable &T) const {
    std::vector<const Attr *> R;
    for (const Attr &A : Attrs)
      R.push_back(&A);
    std::sort(R.begin(), R.end(), [&](const Attr *A, const Attr *B) { return T[A->name] < T[B->name]; });
    return R;
  }
};
inline Bindings Bindings::emptyBindings;

inline PosIdx Value::determinePos(const PosIdx P) const {
  if (T == tAttrs)
    return A->pos;
  if (T == tLambda)
    return Fn->pos;
  return P;
}

// ---- evaluation
struct Expr {
  std::unique_ptr<Spec> S;
};
struct LookupPath {};
struct Store {};
template <class T> using ref = std::shared_ptr<T>;
inline ref<Store> openStore() { return std::make_shared<Store>(); }
struct EvalSettings {};
struct FetchSettings {};
inline EvalSettings evalSettings;
inline FetchSettings fetchSettings;
namespace fetchers {
using Settings = FetchSettings;
}

struct StaticSymbols {
  Symbol type, name, value, system, description, outPath;
};
class EvalState {
  Value Root;
  Env Base;
  size_t Depth = 0;

public:
  SymbolTable symbols;
  PosTable positions;
  // Made before any other symbol, as in Nix.
  static constexpr StaticSymbols s{{1}, {2}, {3}, {4}, {5}, {6}};
  Env &baseEnv = Base;

  EvalState(const LookupPath &, ref<Store>, const FetchSettings &, const EvalSettings &) {
    for (const char *N : {"type", "name", "value", "system", "description", "outPath"})
      symbols.create(N);
  }

  SourcePath rootPath(std::string_view P) { return {{P == "." ? "/" : std::string(P)}}; }
  Expr *parseExprFromString(std::string S, const SourcePath &) {
    // What is no description may be the name of a file with one.
    if (const char *Dir = getenv("NIXD_FAKE_DIR"))
      if (auto F = llvm::MemoryBuffer::getFile(std::string(Dir) + "/" + S + ".json"))
        S = (*F)->getBuffer().str();
    auto V = llvm::json::parse(S);
    if (!V)
      throw ParseError("syntax error: " + llvm::toString(V.takeError()));
    return new Expr{std::make_unique<Spec>(std::move(*V))};
  }
  void eval(Expr *E, Value &V) {
    // What the expression refers to is to be found when its thunks are forced.
    Value R;
    R.mkThunk(E->S.get());
    Value Old = Root;
    Root = R;
    try {
      forceValue(Root, noPos);
    } catch (...) {
      Root = Old;
      throw;
    }
    V = Root;
  }
  Value *allocValue() { return new Value; }
  ListBuilder buildList(size_t N) { return {new std::vector<Value *>(N)}; }

  void forceValue(Value &V, const PosIdx) {
    if (V.T != tThunk)
      return;
    Thunk *T = V.Th;
    if (T->Busy)
      throw InfiniteRecursionError(*this, "infinite recursion encountered");
    struct Guard {
      Thunk *T;
      EvalState &S;
      ~Guard() {
        T->Busy = false;
        --S.Depth;
      }
    } G{T, *this};
    T->Busy = true;
    if (++Depth > 1000)
      throw EvalError(*this, "stack overflow; max-call-depth exceeded");
    Value R;
    build(*T->S, R);
    V = R;
  }
  void forceAttrs(Value &V, const PosIdx, std::string_view) {
    forceValue(V, noPos);
    if (V.T != tAttrs)
      throw TypeError(*this, "expected a set");
  }
  void forceList(Value &V, const PosIdx, std::string_view) {
    forceValue(V, noPos);
    if (V.T != tList)
      throw TypeError(*this, "expected a list");
  }
  std::string_view forceString(Value &V, const PosIdx, std::string_view) {
    forceValue(V, noPos);
    if (V.T != tString)
      throw TypeError(*this, "expected a string");
    return *V.S;
  }
  std::string_view forceStringNoCtx(Value &V, const PosIdx P, std::string_view C) { return forceString(V, P, C); }
  NixInt forceInt(Value &V, const PosIdx, std::string_view) {
    forceValue(V, noPos);
    if (V.T != tInt)
      throw TypeError(*this, "expected an integer");
    return NixInt{V.I};
  }

  void callFunction(Value &Fun, Value &Arg, Value &Res, const PosIdx) {
    (void)Arg;
    forceValue(Fun, noPos);
    if (Fun.T != tLambda)
      throw TypeError(*this, "attempt to call something which is not a function");
    if (!Fun.Fn->Ret)
      throw ThrownError(*this, "the function failed");
    Value R;
    R.mkThunk(Fun.Fn->Ret);
    forceValue(R, noPos);
    Res = R;
  }
  void callFunction(Value &Fun, std::span<Value *> Args, Value &Res, const PosIdx P) {
    callFunction(Fun, *Args[0], Res, P);
  }

private:
  PosIdx position(const llvm::json::Value *V) {
    if (!V)
      return noPos;
    const auto *A = V->getAsArray();
    if (!A)
      return noPos;
    Pos P;
    P.line = static_cast<uint32_t>(*(*A)[1].getAsInteger());
    P.column = static_cast<uint32_t>(*(*A)[2].getAsInteger());
    std::string F = (*A)[0].getAsString()->str();
    if (F == "<string>")
      P.origin = Pos::String{F};
    else if (F == "<stdin>")
      P.origin = Pos::Stdin{F};
    else if (!F.empty())
      P.origin = SourcePath{{F}};
    return positions.add(std::move(P));
  }

  /// Strings of Nix are bytes: with "l", each character below 256 is one.
  static std::string bytes(const llvm::json::Object &O) {
    std::string S = O.getString("v")->str(), R;
    if (!O.get("l"))
      return S;
    for (size_t I = 0; I < S.size(); ++I) {
      unsigned char C = S[I];
      if (C >= 0xc2 && C <= 0xc3 && I + 1 < S.size())
        R += static_cast<char>((C & 3) << 6 | (S[++I] & 63));
      else
        R += S[I];
    }
    return R;
  }

  /// The attribute's value as the parser makes it: a thunk, unless it is simple.
  void attr(const Spec &S, Value &V) {
    const auto &O = *S.getAsObject();
    llvm::StringRef K = *O.getString("t");
    if (O.get("z") || K == "set" || K == "list" || K == "throw" || K == "ref" || K == "std")
      V.mkThunk(&S);
    else
      build(S, V);
  }

  void build(const Spec &S, Value &V) {
    const auto *OP = S.getAsObject();
    if (!OP || !OP->getString("t"))
      throw ParseError("syntax error: not a description of a value");
    const auto &O = *OP;
    llvm::StringRef K = *O.getString("t");
    if (K == "null")
      V.mkNull();
    else if (K == "int")
      V.mkInt(*O.getInteger("v"));
    else if (K == "bool")
      V.mkBool(*O.getBoolean("v"));
    else if (K == "float")
      V.mkFloat(*O.getNumber("v"));
    else if (K == "string")
      V.mkString(bytes(O));
    else if (K == "path")
      V.mkPath(bytes(O));
    else if (K == "external")
      V.T = tExternal;
    else if (K == "list") {
      ListBuilder B = buildList(0);
      for (const auto &E : *O.getArray("v")) {
        B.Elems->push_back(allocValue());
        attr(E, *B.Elems->back());
      }
      V.mkList(B);
    } else if (K == "set") {
      auto *B = new Bindings;
      B->pos = position(O.get("pos"));
      for (const auto &E : *O.getArray("v")) {
        const auto &P = *E.getAsArray();
        Attr A;
        A.name = symbols.create(*P[0].getAsString());
        A.value = allocValue();
        attr(P[1], *A.value);
        B->Attrs.push_back(A);
      }
      std::sort(B->Attrs.begin(), B->Attrs.end(), [](const Attr &X, const Attr &Y) { return X.name < Y.name; });
      V.mkAttrs(B);
    } else if (K == "lambda") {
      auto *L = new ExprLambda;
      L->pos = position(O.get("pos"));
      if (auto D = O.getString("doc"))
        L->docComment.Text = D->str();
      L->Ret = O.get("ret");
      V.T = tLambda, V.Fn = L;
    } else if (K == "primop") {
      auto *P = new PrimOp;
      P->name = "p";
      P->arity = *O.getInteger("arity");
      if (auto D = O.getString("doc"))
        P->doc = D->str();
      for (const auto &A : *O.getArray("args"))
        P->args.push_back(A.getAsString()->str());
      V.T = tPrimOp, V.P = P;
    } else if (K == "throw")
      throw ThrownError(*this, bytes(O));
    else if (K == "std")
      throw std::runtime_error(O.getString("v")->str());
    else if (K == "ref") {
      Value *At = &Root;
      for (const auto &N : *O.getArray("v")) {
        forceValue(*At, noPos);
        if (At->T != tAttrs)
          throw TypeError(*this, "expected a set");
        const Attr *A = At->A->get(symbols.create(*N.getAsString()));
        if (!A)
          throw EvalError(*this, "attribute missing");
        At = A->value;
      }
      forceValue(*At, noPos);
      V = *At;
    } else
      throw ParseError("syntax error: no such value: " + K.str());
  }
};

inline void printString(std::ostream &OS, std::string_view S) {
  OS << '"';
  for (size_t I = 0; I < S.size(); ++I) {
    char C = S[I];
    if (C == '"' || C == '\\')
      OS << '\\' << C;
    else if (C == '\n')
      OS << "\\n";
    else if (C == '\r')
      OS << "\\r";
    else if (C == '\t')
      OS << "\\t";
    else if (C == '$' && I + 1 < S.size() && S[I + 1] == '{')
      OS << "\\$";
    else
      OS << C;
  }
  OS << '"';
}

inline void Value::print(EvalState &State, std::ostream &OS) const {
  switch (T) {
  case tNull:
    OS << "null";
    break;
  case tInt:
    OS << I;
    break;
  case tBool:
    OS << (B ? "true" : "false");
    break;
  case tFloat:
    OS << F;
    break;
  case tString:
    printString(OS, *S);
    break;
  case tPath:
    OS << *S;
    break;
  case tList:
    OS << "[ ";
    for (auto *E : *L) {
      E->print(State, OS);
      OS << ' ';
    }
    OS << ']';
    break;
  case tAttrs:
    OS << "{ ";
    for (const Attr *X : A->lexicographicOrder(State.symbols)) {
      OS << State.symbols[X->name] << " = ";
      X->value->print(State, OS);
      OS << "; ";
    }
    OS << '}';
    break;
  case tThunk:
    OS << "«thunk»";
    break;
  case tLambda:
    OS << "«lambda»";
    break;
  case tPrimOp:
    OS << "«primop»";
    break;
  case tExternal:
    OS << "«external»";
    break;
  case tUninitialized:
    unreachable();
  }
}

inline std::pair<Value *, PosIdx> findAlongAttrPath(EvalState &State, const std::string &Path, Bindings &, Value &In) {
  Value *V = &In;
  std::stringstream SS(Path);
  for (std::string N; std::getline(SS, N, '.');) {
    State.forceValue(*V, noPos);
    if (V->type() != nAttrs)
      throw TypeError(State, "the value is not a set");
    const Attr *A = V->attrs()->get(State.symbols.create(N));
    if (!A)
      throw AttrPathNotFound("attribute '" + N + "' not found");
    V = A->value;
  }
  return {V, noPos};
}

// ---- the program
inline void initNix(bool = true) {}
inline void initLibStore(bool = true) {}
inline void initPlugins() {}
inline void initGC() {}
inline void initLibExpr() {}
namespace flake {
struct Settings {
  void configureEvalSettings(EvalSettings &) const {}
};
} // namespace flake
inline flake::Settings flakeSettings;

} // namespace nix
