// Drives the whole of libnixf on inputs it gets on stdin and reports what the
// code did, in full, as JSON, for oracles that run elsewhere.
//
//   request:  "<length> <mode>\n" bytes         reply: "<length>\n" json
//   mode: bitmask 1=AST 2=variable lookup 4=self-checks (parent map, descend)
#include "nixf/Basic/Diagnostic.h"
#include "nixf/Basic/JSONDiagnostic.h"
#include "nixf/Basic/Nodes/Attrs.h"
#include "nixf/Basic/Nodes/Basic.h"
#include "nixf/Basic/Nodes/Expr.h"
#include "nixf/Basic/Nodes/Lambda.h"
#include "nixf/Basic/Nodes/Op.h"
#include "nixf/Basic/Nodes/Simple.h"
#include "nixf/Parse/Parser.h"
#include "nixf/Sema/ParentMap.h"
#include "nixf/Sema/VariableLookup.h"

#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace nixf;

namespace {

std::string Out;

void str(std::string_view S) {
  Out += '"';
  for (unsigned char C : S) {
    if (C == '"' || C == '\\') {
      Out += '\\';
      Out += C;
    } else if (C < 0x20 || C >= 0x7f) { // bytes as latin-1 code points
      char B[8];
      snprintf(B, sizeof B, "\\u%04x", C);
      Out += B;
    } else
      Out += C;
  }
  Out += '"';
}
void num(long long V) { Out += std::to_string(V); }

void cur(const LexerCursor &C) {
  Out += '[';
  num(C.line());
  Out += ',';
  num(C.column());
  Out += ',';
  num((long long)C.offset());
  Out += ']';
}
void range(const LexerCursorRange &R) {
  Out += '[';
  num((long long)R.lCur().offset());
  Out += ',';
  num((long long)R.rCur().offset());
  Out += ',';
  num(R.lCur().line());
  Out += ',';
  num(R.lCur().column());
  Out += ',';
  num(R.rCur().line());
  Out += ',';
  num(R.rCur().column());
  Out += ']';
}

// Every node that was reached gets a number. The ones that semantic actions
// made up (and children() does not list) are reached through their owners.
std::unordered_map<const Node *, int> Id;
std::vector<const Node *> Nodes;

int idOf(const Node *N) {
  if (!N)
    return -1;
  auto It = Id.find(N);
  return It == Id.end() ? -2 : It->second;
}

std::vector<std::pair<const Node *, bool>> Worklist;

void collect(const Node *N, std::vector<const Node *> &Order) {
  if (!N || Id.count(N))
    return;
  Id[N] = (int)Nodes.size();
  Nodes.push_back(N);
  for (const Node *C : N->children())
    collect(C, Order);
}

void ref(const char *K, const Node *N) {
  Out += ",\"";
  Out += K;
  Out += "\":";
  if (N)
    num(idOf(N));
  else
    Out += "null";
}

void parts(const InterpolatedParts &P) {
  Out += ",\"parts\":[";
  bool First = true;
  for (const auto &F : P.fragments()) {
    if (!First)
      Out += ',';
    First = false;
    if (F.kind() == InterpolablePart::SPK_Escaped)
      str(F.escaped());
    else
      num(idOf(&F.interpolation()));
  }
  Out += "]";
}

template <class V> void refs(const char *K, const V &Vec) {
  Out += ",\"";
  Out += K;
  Out += "\":[";
  bool First = true;
  for (const auto &E : Vec) {
    if (!First)
      Out += ',';
    First = false;
    if (E)
      num(idOf(&*E));
    else
      Out += "null";
  }
  Out += "]";
}

void attribute(const Attribute &A) {
  Out += "[";
  num(idOf(&A.key()));
  Out += ",";
  if (A.value())
    num(idOf(A.value()));
  else
    Out += "null";
  Out += ",";
  num((int)A.kind());
  Out += "]";
}

void semaAttrs(const SemaAttrs &SA) {
  Out += ",\"static\":[";
  bool First = true;
  for (const auto &[K, A] : SA.staticAttrs()) {
    if (!First)
      Out += ',';
    First = false;
    Out += "[";
    str(K);
    Out += ",";
    attribute(A);
    Out += "]";
  }
  Out += "],\"dynamic\":[";
  First = true;
  for (const auto &A : SA.dynamicAttrs()) {
    if (!First)
      Out += ',';
    First = false;
    attribute(A);
  }
  Out += "],\"semarec\":";
  num(SA.isRecursive());
}

void node(const Node *N) {
  Out += "{\"k\":\"";
  Out += N->name();
  Out += "\",\"r\":";
  range(N->range());
  Out += ",\"c\":[";
  bool First = true;
  for (const Node *C : N->children()) {
    if (!C)
      continue;
    if (!First)
      Out += ',';
    First = false;
    num(idOf(C));
  }
  Out += "]";
  switch (N->kind()) {
  case Node::NK_Identifier:
    Out += ",\"name\":";
    str(static_cast<const Identifier *>(N)->name());
    break;
  case Node::NK_Dot: {
    const auto *D = static_cast<const Dot *>(N);
    ref("prev", &D->prev());
    ref("next", D->next());
    break;
  }
  case Node::NK_ExprInt:
    Out += ",\"int\":";
    num(static_cast<const ExprInt *>(N)->value());
    break;
  case Node::NK_ExprFloat: {
    char B[64];
    snprintf(B, sizeof B, "%a", static_cast<const ExprFloat *>(N)->value());
    Out += ",\"float\":";
    str(B);
    break;
  }
  case Node::NK_Interpolation:
    ref("expr", static_cast<const Interpolation *>(N)->expr());
    break;
  case Node::NK_InterpolableParts:
    parts(*static_cast<const InterpolatedParts *>(N));
    break;
  case Node::NK_ExprString:
    ref("p", &static_cast<const ExprString *>(N)->parts());
    parts(static_cast<const ExprString *>(N)->parts());
    break;
  case Node::NK_ExprPath:
    ref("p", &static_cast<const ExprPath *>(N)->parts());
    parts(static_cast<const ExprPath *>(N)->parts());
    break;
  case Node::NK_ExprSPath:
    Out += ",\"text\":";
    str(static_cast<const ExprSPath *>(N)->text());
    break;
  case Node::NK_ExprParen: {
    const auto *P = static_cast<const ExprParen *>(N);
    ref("expr", P->expr());
    ref("lparen", P->lparen());
    ref("rparen", P->rparen());
    break;
  }
  case Node::NK_ExprVar:
    Out += ",\"name\":";
    str(static_cast<const ExprVar *>(N)->id().name());
    break;
  case Node::NK_AttrName: {
    const auto *A = static_cast<const AttrName *>(N);
    Out += ",\"ank\":";
    num(A->kind());
    if (A->isStatic()) {
      Out += ",\"name\":";
      str(A->staticName());
    }
    break;
  }
  case Node::NK_AttrPath:
    refs("names", static_cast<const AttrPath *>(N)->names());
    break;
  case Node::NK_Binding: {
    const auto *B = static_cast<const Binding *>(N);
    ref("path", &B->path());
    ref("value", B->value().get());
    ref("eq", B->eq().get());
    break;
  }
  case Node::NK_Inherit: {
    const auto *I = static_cast<const Inherit *>(N);
    refs("names", I->names());
    ref("expr", I->expr().get());
    break;
  }
  case Node::NK_Binds:
    refs("bindings", static_cast<const Binds *>(N)->bindings());
    break;
  case Node::NK_ExprAttrs: {
    const auto *A = static_cast<const ExprAttrs *>(N);
    ref("binds", A->binds());
    ref("rec", A->rec());
    semaAttrs(A->sema());
    break;
  }
  case Node::NK_ExprSelect: {
    const auto *S = static_cast<const ExprSelect *>(N);
    ref("expr", &S->expr());
    ref("path", S->path());
    ref("default", S->defaultExpr());
    ref("from", S->desugaredFrom());
    break;
  }
  case Node::NK_ExprCall: {
    const auto *C = static_cast<const ExprCall *>(N);
    ref("fn", &C->fn());
    refs("args", C->args());
    break;
  }
  case Node::NK_ExprList:
    refs("elements", static_cast<const ExprList *>(N)->elements());
    break;
  case Node::NK_ExprIf: {
    const auto *I = static_cast<const ExprIf *>(N);
    ref("cond", I->cond());
    ref("then", I->then());
    ref("else", I->elseExpr());
    break;
  }
  case Node::NK_ExprAssert: {
    const auto *A = static_cast<const ExprAssert *>(N);
    ref("cond", A->cond());
    ref("value", A->value());
    break;
  }
  case Node::NK_ExprLet: {
    const auto *L = static_cast<const ExprLet *>(N);
    ref("let", &L->let());
    ref("in", L->in());
    ref("attrs", L->attrs());
    ref("expr", L->expr());
    break;
  }
  case Node::NK_ExprLegacyLet: {
    const auto *L = static_cast<const ExprLegacyLet *>(N);
    ref("let", &L->let());
    ref("attrs", L->attrs());
    break;
  }
  case Node::NK_ExprWith: {
    const auto *W = static_cast<const ExprWith *>(N);
    ref("kw", &W->kwWith());
    ref("semi", W->tokSemi());
    ref("with", W->with());
    ref("expr", W->expr());
    break;
  }
  case Node::NK_Op:
    Out += ",\"op\":";
    str(tok::spelling(static_cast<const Op *>(N)->op()));
    break;
  case Node::NK_ExprBinOp: {
    const auto *B = static_cast<const ExprBinOp *>(N);
    Out += ",\"op\":";
    str(tok::spelling(B->op().op()));
    ref("opnode", &B->op());
    ref("lhs", B->lhs());
    ref("rhs", B->rhs());
    break;
  }
  case Node::NK_ExprUnaryOp: {
    const auto *U = static_cast<const ExprUnaryOp *>(N);
    Out += ",\"op\":";
    str(tok::spelling(U->op().op()));
    ref("expr", U->expr());
    break;
  }
  case Node::NK_ExprOpHasAttr: {
    const auto *H = static_cast<const ExprOpHasAttr *>(N);
    ref("expr", H->expr());
    ref("path", H->attrpath());
    break;
  }
  case Node::NK_Formal: {
    const auto *F = static_cast<const Formal *>(N);
    Out += ",\"ellipsis\":";
    num(F->isEllipsis());
    ref("id", F->id());
    ref("default", F->defaultExpr());
    Out += ",\"comma\":";
    if (F->comma())
      range(F->comma()->range());
    else
      Out += "null";
    break;
  }
  case Node::NK_Formals: {
    const auto *F = static_cast<const Formals *>(N);
    refs("members", F->members());
    Out += ",\"dedup\":[";
    bool First = true;
    for (const auto &[K, V] : F->dedup()) {
      if (!First)
        Out += ',';
      First = false;
      Out += "[";
      str(K);
      Out += ",";
      num(idOf(V));
      Out += "]";
    }
    Out += "]";
    break;
  }
  case Node::NK_LambdaArg: {
    const auto *L = static_cast<const LambdaArg *>(N);
    ref("id", L->id());
    ref("formals", L->formals());
    break;
  }
  case Node::NK_ExprLambda: {
    const auto *L = static_cast<const ExprLambda *>(N);
    ref("arg", L->arg());
    ref("body", L->body());
    break;
  }
  default:
    break;
  }
  Out += "}";
}

// Nodes that only semantic actions made: reach them through the attribute sets.
void collectSynth(size_t From) {
  for (size_t I = From; I < Nodes.size(); ++I) {
    const Node *N = Nodes[I];
    std::vector<const Node *> Order;
    if (N->kind() == Node::NK_ExprAttrs) {
      const auto &SA = static_cast<const ExprAttrs *>(N)->sema();
      for (const auto &[K, A] : SA.staticAttrs()) {
        collect(&A.key(), Order);
        collect(A.value(), Order);
      }
      for (const auto &A : SA.dynamicAttrs()) {
        collect(&A.key(), Order);
        collect(A.value(), Order);
      }
    }
  }
}

void partial(const PartialDiagnostic &D) {
  Out += "\"r\":";
  range(D.range());
  Out += ",\"msg\":";
  str(D.format());
  Out += ",\"raw\":";
  str(D.message());
  Out += ",\"args\":[";
  for (size_t I = 0; I < D.args().size(); ++I) {
    if (I)
      Out += ",";
    str(D.args()[I]);
  }
  Out += "],\"tags\":[";
  for (size_t I = 0; I < D.tags().size(); ++I) {
    if (I)
      Out += ",";
    num((int)D.tags()[I]);
  }
  Out += "]";
}

void diags(const std::vector<Diagnostic> &Ds) {
  Out += "[";
  bool First = true;
  for (const auto &D : Ds) {
    if (!First)
      Out += ",";
    First = false;
    Out += "{\"s\":";
    str(D.sname());
    Out += ",\"sev\":";
    num(Diagnostic::severity(D.kind()));
    Out += ",";
    partial(D);
    Out += ",\"notes\":[";
    for (size_t I = 0; I < D.notes().size(); ++I) {
      if (I)
        Out += ",";
      Out += "{\"s\":";
      str(D.notes()[I].sname());
      Out += ",";
      partial(D.notes()[I]);
      Out += "}";
    }
    Out += "],\"fixes\":[";
    for (size_t I = 0; I < D.fixes().size(); ++I) {
      if (I)
        Out += ",";
      Out += "{\"m\":";
      str(D.fixes()[I].message());
      Out += ",\"e\":[";
      bool F2 = true;
      for (const auto &E : D.fixes()[I].edits()) {
        if (!F2)
          Out += ",";
        F2 = false;
        Out += "[";
        range(E.oldRange());
        Out += ",";
        str(E.newText());
        Out += "]";
      }
      Out += "]}";
    }
    Out += "]}";
  }
  Out += "]";
}

void definition(const Definition *D) {
  if (!D) {
    Out += "null";
    return;
  }
  Out += "[";
  num((int)D->source());
  Out += ",";
  if (D->syntax())
    num(idOf(D->syntax()));
  else
    Out += "null";
  Out += ",[";
  bool First = true;
  for (const ExprVar *U : D->uses()) {
    if (!First)
      Out += ",";
    First = false;
    num(idOf(U));
  }
  Out += "]]";
}

void lookup(const VariableLookupAnalysis &VLA) {
  Out += ",\"vars\":[";
  bool First = true;
  for (const Node *N : Nodes) {
    if (N->kind() != Node::NK_ExprVar)
      continue;
    auto R = VLA.query(*static_cast<const ExprVar *>(N));
    if (!First)
      Out += ",";
    First = false;
    Out += "[";
    num(idOf(N));
    Out += ",";
    num((int)R.Kind);
    Out += ",";
    if (R.Def && R.Def->isBuiltin()) // has every use in the program: skip
      Out += "[7,null,[]]";
    else
      definition(R.Def.get());
    Out += ",[";
    bool F2 = true;
    for (const ExprWith *W :
         VLA.getWithScopes(*static_cast<const ExprVar *>(N))) {
      if (!F2)
        Out += ",";
      F2 = false;
      num(idOf(W));
    }
    Out += "]]";
  }
  Out += "],\"defs\":[";
  First = true;
  for (const Node *N : Nodes) {
    const Definition *D = VLA.toDef(*N);
    if (!D)
      continue;
    if (!First)
      Out += ",";
    First = false;
    Out += "[";
    num(idOf(N));
    Out += ",";
    definition(D);
    Out += "]";
  }
  Out += "],\"envs\":[";
  First = true;
  for (const Node *N : Nodes) {
    const EnvNode *E = VLA.env(N);
    if (!E)
      continue;
    if (!First)
      Out += ",";
    First = false;
    Out += "[";
    num(idOf(N));
    Out += ",[";
    bool F2 = true;
    for (const EnvNode *P = E; P && P->syntax(); P = P->parent()) {
      if (!F2)
        Out += ",";
      F2 = false;
      num(idOf(P->syntax()));
    }
    Out += "]]";
  }
  Out += "]";
}

// Things that are cheapest to check in process.
void selfChecks(const Node *Root, const std::string &Src, size_t NTree) {
  std::vector<std::string> Errs;
  ParentMapAnalysis PMA;
  PMA.runOnAST(*Root);
  auto say = [&](const char *What, const Node *N) {
    if (Errs.size() < 5)
      Errs.push_back(std::string(What) + ": " + N->name() + " at " +
                     std::to_string(N->lCur().offset()) + ".." +
                     std::to_string(N->rCur().offset()));
  };
  if (!PMA.isRoot(*Root))
    say("the root is not its own root in the parent map", Root);
  long Chains = 0, Descends = 0;
  // The `let` keyword is shared by the let node and its attribute set: a node
  // has to be mapped to one of the nodes it is a child of.
  std::map<const Node *, std::set<const Node *>> Owners;
  std::function<void(const Node *)> Own = [&](const Node *N) {
    for (const Node *C : N->children())
      if (C && Owners[C].insert(N).second)
        Own(C);
  };
  Own(Root);
  std::function<void(const Node *)> Walk = [&](const Node *N) {
    for (const Node *C : N->children()) {
      if (!C)
        continue;
      if (!Owners[C].count(PMA.query(*C)))
        say("parent map disagrees with the tree", C);
      if (PMA.isRoot(*C))
        say("non-root node claims to be the root", C);
      Walk(C);
    }
  };
  Walk(Root);
  for (size_t I = 0; I < NTree; ++I) {
    // upExpr, upTo: compare with a walk along the parent chain
    const Node *N = Nodes[I];
    std::vector<const Node *> Chain{N};
    while (Chain.back() != Root) {
      const Node *P = PMA.query(*Chain.back());
      if (!P || Chain.size() > NTree) {
        say("parent chain does not reach the root", N);
        break;
      }
      Chain.push_back(P);
    }
    const Node *WantExpr = nullptr;
    for (const Node *P : Chain)
      if (Expr::isExpr(P->kind())) {
        WantExpr = P;
        break;
      }
    if (PMA.upExpr(*N) != WantExpr)
      say("nearest enclosing expression is wrong", N);
    std::set<int> Seen;
    for (const Node *P : Chain)
      if (Seen.insert(P->kind()).second)
        if (PMA.upTo(*N, P->kind()) != P)
          say("nearest enclosing node of a kind is wrong", N);
    for (int K : {(int)Node::NK_Binding, (int)Node::NK_ExprLambda,
                  (int)Node::NK_ExprWith, (int)Node::NK_AttrName})
      if (!Seen.count(K) && PMA.upTo(*N, (Node::NodeKind)K))
        say("an enclosing node is reported where there is none", N);
    ++Chains;
  }
  // descend: for each position, the deepest node that contains it
  std::vector<LexerCursor> Points;
  for (size_t I = 0; I < NTree; ++I) {
    Points.push_back(Nodes[I]->lCur());
    Points.push_back(Nodes[I]->rCur());
  }
  for (const auto &P : Points) {
    PositionRange R{P.position(), P.position()};
    const Node *Got = Root->descend(R);
    if (!Root->positionRange().contains(R)) {
      if (Got)
        say("descend outside the root", Got);
      continue;
    }
    ++Descends;
    if (!Got) {
      say("descend finds nothing inside the root", Root);
      continue;
    }
    if (!Got->positionRange().contains(R))
      say("descend returns a node that does not contain the position", Got);
    for (const Node *C : Got->children())
      if (C && C->positionRange().contains(R)) {
        say("descend stops above a child that contains the position", Got);
        break;
      }
  }
  Out += ",\"chains\":";
  num(Chains);
  Out += ",\"descends\":";
  num(Descends);
  Out += ",\"errs\":[";
  for (size_t I = 0; I < Errs.size(); ++I) {
    if (I)
      Out += ",";
    str(Errs[I]);
  }
  Out += "]";
}

} // namespace

int main() {
  std::vector<char> Buf;
  char Line[128];
  while (fgets(Line, sizeof Line, stdin)) {
    size_t Len = 0;
    int Mode = 7;
    if (sscanf(Line, "%zu %d", &Len, &Mode) < 1)
      return 2;
    // A heap block of exactly the right size, so that AddressSanitizer sees
    // every read beyond either end.
    char *Raw = (char *)malloc(Len ? Len : 1);
    if (Len && fread(Raw, 1, Len, stdin) != Len)
      return 2;
    Out.clear();
    Id.clear();
    Nodes.clear();
    {
      std::string Src(Raw, Len);
      std::string_view View(Len ? Raw : "", Len);
      std::vector<Diagnostic> Ds;
      std::shared_ptr<Node> AST = nixf::parse(View, Ds);
      size_t NParse = Ds.size();
      Out += "{\"nparse\":";
      num((long long)NParse);
      Out += ",\"root\":";
      Out += AST ? "0" : "null";
      std::unique_ptr<VariableLookupAnalysis> VLA;
      size_t NTree = 0;
      if (AST) {
        std::vector<const Node *> Order;
        collect(AST.get(), Order);
        NTree = Nodes.size();
        collectSynth(0);
        if (Mode & 2) {
          VLA = std::make_unique<VariableLookupAnalysis>(Ds);
          VLA->runOnAST(*AST);
        }
        Out += ",\"ntree\":";
        num((long long)NTree);
        if (Mode & 1) {
          Out += ",\"nodes\":[";
          for (size_t I = 0; I < Nodes.size(); ++I) {
            if (I)
              Out += ",";
            node(Nodes[I]);
          }
          Out += "]";
        }
        if (VLA)
          lookup(*VLA);
        if (Mode & 4)
          selfChecks(AST.get(), Src, NTree);
      }
      Out += ",\"diags\":";
      diags(Ds);
      Out += "}";
    }
    free(Raw);
    printf("%zu\n", Out.size());
    fwrite(Out.data(), 1, Out.size(), stdout);
    fflush(stdout);
  }
  return 0;
}
