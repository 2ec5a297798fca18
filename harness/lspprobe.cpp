// Runs lspserver's text, draft, URI and codec functions on request.
//   in:  "<len> <mode>\n" + JSON {"op": ...}      out: "<len>\n" + JSON
#include "lspserver/DraftStore.h"
#include "lspserver/Protocol.h"
#include "lspserver/SourceCode.h"
#include "lspserver/URI.h"

#include <llvm/ADT/StringExtras.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Path.h>
#include <llvm/Support/MemoryBuffer.h>

#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <thread>
#include <vector>

using namespace llvm;
using namespace lspserver;
using json::Array;
using json::Object;
using json::Value;

namespace {

std::string hex(StringRef S) { return toHex(S, true); }
std::string unhex(StringRef S) { return fromHex(S); }

Value expected(Expected<size_t> E) {
  if (E)
    return (int64_t)*E;
  consumeError(E.takeError());
  return nullptr;
}

Value opPos(const Object &O) {
  // A block of exactly the right size, for AddressSanitizer.
  std::string S = unhex(*O.getString("hex"));
  char *Raw = (char *)malloc(S.size() ? S.size() : 1);
  memcpy(Raw, S.data(), S.size());
  StringRef Code(Raw, S.size());
  Array Pos, Strict, Lax, Len;
  for (size_t I = 0; I <= Code.size(); ++I) {
    Position P = offsetToPosition(Code, I);
    Pos.push_back(Array{P.line, P.character});
    Len.push_back((int64_t)lspLength(Code.substr(I)));
  }
  for (const auto &Q : *O.getArray("queries")) {
    Position P;
    P.line = *(*Q.getAsArray())[0].getAsInteger();
    P.character = *(*Q.getAsArray())[1].getAsInteger();
    Strict.push_back(expected(positionToOffset(Code, P, false)));
    Lax.push_back(expected(positionToOffset(Code, P, true)));
  }
  free(Raw);
  return Object{{"pos", std::move(Pos)},
                {"strict", std::move(Strict)},
                {"lax", std::move(Lax)},
                {"len", std::move(Len)}};
}

Value opChanges(const Object &O) {
  std::string S = O.getString("text")->str();
  Array Out;
  for (const auto &C : *O.getArray("changes")) {
    TextDocumentContentChangeEvent Ev;
    json::Path::Root Root;
    if (!fromJSON(C, Ev, Root)) {
      Out.push_back(Array{"undecodable", S});
      continue;
    }
    auto E = applyChange(S, Ev);
    bool Bad = !!E;
    consumeError(std::move(E));
    Out.push_back(Array{Bad ? "error" : "ok", S});
  }
  return Object{{"out", std::move(Out)}};
}

Value draft(const std::optional<DraftStore::Draft> &D) {
  if (!D)
    return nullptr;
  return Array{D->Version, *D->Contents};
}

Value opDraft(const Object &O) {
  DraftStore S;
  Array Out;
  std::vector<std::optional<DraftStore::Draft>> Held;
  for (const auto &V : *O.getArray("ops")) {
    const auto &A = *V.getAsArray();
    StringRef Op = *A[0].getAsString();
    if (Op == "add")
      Out.push_back(S.addDraft(*A[1].getAsString(), *A[2].getAsString(),
                               *A[3].getAsString()));
    else if (Op == "remove") {
      S.removeDraft(*A[1].getAsString());
      Out.push_back(nullptr);
    } else if (Op == "get") {
      Held.push_back(S.getDraft(*A[1].getAsString()));
      Out.push_back(draft(Held.back()));
    } else if (Op == "files") {
      auto F = S.getActiveFiles();
      llvm::sort(F);
      Out.push_back(Array(F));
    } else if (Op == "vfs") {
      auto FS = S.asVFS();
      auto B = FS->getBufferForFile(*A[1].getAsString());
      if (B)
        Out.push_back((*B)->getBuffer().str());
      else
        Out.push_back(nullptr);
    } else if (Op == "enc") {
      std::optional<int64_t> I;
      if (auto X = A[1].getAsInteger())
        I = *X;
      Out.push_back(DraftStore::encodeVersion(I));
    } else if (Op == "dec") {
      auto R = DraftStore::decodeVersion(*A[1].getAsString());
      if (R)
        Out.push_back(*R);
      else
        Out.push_back(nullptr);
    } else
      Out.push_back("?");
  }
  // what was handed out earlier has to be unaffected by what came later
  Array H;
  for (auto &D : Held)
    H.push_back(draft(D));
  return Object{{"out", std::move(Out)}, {"held", std::move(H)}};
}

int64_t now() {
  return std::chrono::steady_clock::now().time_since_epoch().count();
}

// Concurrent histories of one draft store.
Value opDraftMT(const Object &O) {
  DraftStore S;
  const auto &Progs = *O.getArray("threads");
  std::vector<Array> Logs(Progs.size());
  std::atomic<int> Ready{0};
  std::vector<std::thread> Ts;
  for (size_t I = 0; I < Progs.size(); ++I)
    Ts.emplace_back([&, I] {
      struct Rec {
        int64_t A, B;
        Value R;
      };
      std::vector<Rec> Rs;
      const auto &P = *Progs[I].getAsArray();
      Rs.reserve(P.size());
      ++Ready;
      while (Ready.load() < (int)Progs.size())
        ;
      for (const auto &V : P) {
        const auto &A = *V.getAsArray();
        StringRef Op = *A[0].getAsString();
        Value R = nullptr;
        int64_t T0 = now();
        if (Op == "add")
          R = S.addDraft(*A[1].getAsString(), *A[2].getAsString(),
                         *A[3].getAsString());
        else if (Op == "remove")
          S.removeDraft(*A[1].getAsString());
        else if (Op == "get")
          R = draft(S.getDraft(*A[1].getAsString()));
        else if (Op == "files") {
          auto F = S.getActiveFiles();
          llvm::sort(F);
          R = Array(F);
        } else if (Op == "vfs") {
          auto FS = S.asVFS();
          auto B = FS->getBufferForFile(*A[1].getAsString());
          if (B)
            R = (*B)->getBuffer().str();
        }
        Rs.push_back({T0, now(), std::move(R)});
      }
      for (auto &R : Rs)
        Logs[I].push_back(Array{R.A, R.B, std::move(R.R)});
    });
  for (auto &T : Ts)
    T.join();
  Array Out;
  for (auto &L : Logs)
    Out.push_back(std::move(L));
  return Object{{"logs", std::move(Out)}};
}

Value uri(const URI &U) {
  return Object{{"scheme", hex(U.scheme())},
                {"authority", hex(U.authority())},
                {"body", hex(U.body())},
                {"string", hex(U.toString())}};
}

Value opUri(const Object &O) {
  Array Paths, Uris, Files;
  for (const auto &V : *O.getArray("paths")) {
    std::string P = unhex(*V.getAsString());
    URI U = URI::createFile(P);
    auto R = URI::resolve(U);
    auto R2 = URI::resolve(U.toString());
    Object Out{{"uri", hex(U.toString())}};
    if (R)
      Out["resolve"] = hex(*R);
    else
      consumeError(R.takeError());
    if (R2)
      Out["resolve2"] = hex(*R2);
    else
      consumeError(R2.takeError());
    if (sys::path::is_absolute(P)) {
      auto C = URIForFile::canonicalize(P, P);
      Out["canonical"] = hex(C.file());
      Out["canonicaluri"] = hex(C.uri());
    }
    Paths.push_back(std::move(Out));
  }
  for (const auto &V : *O.getArray("uris")) {
    std::string S = unhex(*V.getAsString());
    auto U = URI::parse(S);
    if (!U) {
      consumeError(U.takeError());
      Uris.push_back(nullptr);
      continue;
    }
    // "authority and a body that does not start with /" cannot be built
    Uris.push_back(uri(*U));
  }
  for (const auto &V : *O.getArray("files")) {
    URIForFile F;
    json::Path::Root Root;
    if (fromJSON(V, F, Root)) {
      Object Out{{"file", hex(F.file())}};
      Out["uri"] = toJSON(F);
      Files.push_back(std::move(Out));
    } else
      Files.push_back(nullptr);
  }
  return Object{{"paths", std::move(Paths)},
                {"uris", std::move(Uris)},
                {"files", std::move(Files)}};
}

// --- codec -----------------------------------------------------------------

template <typename T> Value codec(const Value &V) {
  T X;
  json::Path::Root Root;
  if (!fromJSON(V, X, Root))
    return Object{{"ok", false}};
  return Object{{"ok", true}, {"enc", toJSON(X)}};
}

template <typename T> Value decode(const Value &V, Value (*Dump)(const T &)) {
  T X;
  json::Path::Root Root;
  if (!fromJSON(V, X, Root))
    return Object{{"ok", false}};
  return Object{{"ok", true}, {"enc", Dump(X)}};
}

template <typename T> Value orNull(const std::optional<T> &X) {
  if (!X)
    return nullptr;
  return toJSON(*X);
}
Value intOrNull(std::optional<int> X) {
  if (!X)
    return nullptr;
  return *X;
}

Value dumpItem(const TextDocumentItem &X) {
  Object O{{"uri", X.uri}, {"languageId", X.languageId}, {"text", X.text}};
  if (X.version)
    O["version"] = *X.version;
  return O;
}
Value dumpChange(const TextDocumentContentChangeEvent &X) {
  Object O{{"text", X.text}};
  if (X.range)
    O["range"] = *X.range;
  if (X.rangeLength)
    O["rangeLength"] = *X.rangeLength;
  return O;
}
Value dumpOpen(const DidOpenTextDocumentParams &X) {
  return Object{{"textDocument", dumpItem(X.textDocument)}};
}
Value dumpDidChange(const DidChangeTextDocumentParams &X) {
  Array A;
  for (const auto &C : X.contentChanges)
    A.push_back(dumpChange(C));
  Object O{{"textDocument", toJSON(X.textDocument)},
           {"contentChanges", std::move(A)}};
  if (X.wantDiagnostics)
    O["wantDiagnostics"] = *X.wantDiagnostics;
  O["forceRebuild"] = X.forceRebuild;
  return O;
}
Value dumpClose(const DidCloseTextDocumentParams &X) {
  return Object{{"textDocument", X.textDocument}};
}
Value dumpTDP(const TextDocumentPositionParams &X) {
  return Object{{"textDocument", X.textDocument}, {"position", X.position}};
}
Value dumpCompletion(const CompletionParams &X) {
  Object O{{"textDocument", X.textDocument},
           {"position", X.position},
           {"trigger", (int)X.context.triggerKind},
           {"char", X.context.triggerCharacter}};
  O["limit"] = intOrNull(X.limit);
  return O;
}
Value dumpRename(const RenameParams &X) {
  return Object{{"textDocument", X.textDocument},
                {"position", X.position},
                {"newName", X.newName}};
}
Value dumpReference(const ReferenceParams &X) {
  return Object{{"textDocument", X.textDocument},
                {"position", X.position},
                {"includeDeclaration", X.context.includeDeclaration}};
}
Value dumpCodeAction(const CodeActionParams &X) {
  return Object{{"textDocument", X.textDocument},
                {"range", X.range},
                {"diagnostics", Array(X.context.diagnostics)},
                {"only", Array(X.context.only)}};
}
Value dumpInlay(const InlayHintsParams &X) {
  Object O{{"textDocument", X.textDocument}};
  if (X.range)
    O["range"] = *X.range;
  return O;
}
template <typename T> Value dumpDoc(const T &X) {
  return Object{{"textDocument", X.textDocument}};
}
Value dumpShow(const ShowDocumentResult &X) {
  return Object{{"success", X.success}};
}
Value dumpInit(const InitializeParams &X) {
  Object O;
  O["processId"] = intOrNull(X.processId);
  if (X.rootPath)
    O["rootPath"] = *X.rootPath;
  if (X.rootUri)
    O["rootUri"] = *X.rootUri;
  const auto &C = X.capabilities;
  O["caps"] = Object{{"documentChanges", C.DocumentChanges},
                     {"configuration", C.WorkspaceConfiguration},
                     {"progress", C.WorkDoneProgress},
                     {"implicit", C.ImplicitProgressCreation},
                     {"snippets", C.CompletionSnippets},
                     {"related", C.DiagnosticRelatedInformation},
                     {"hierarchical", C.HierarchicalDocumentSymbol},
                     {"prepare", C.RenamePrepareSupport},
                     {"tokens", C.SemanticTokens},
                     {"annotation", C.ChangeAnnotation},
                     {"lineFoldingOnly", C.LineFoldingOnly}};
  O["raw"] = Object(X.rawCapabilities);
  return O;
}

// --- encoders of what the server sends --------------------------------------

Position P(const Value &V) {
  Position X;
  json::Path::Root R;
  if (!fromJSON(V, X, R))
    abort();
  return X;
}
Range R(const Value &V) {
  Range X;
  json::Path::Root Rt;
  if (!fromJSON(V, X, Rt))
    abort();
  return X;
}
URIForFile U(StringRef File) { return URIForFile::canonicalize(File, File); }

DocumentSymbol symbol(const Object &O) {
  DocumentSymbol S;
  S.name = O.getString("name")->str();
  S.detail = O.getString("detail")->str();
  S.kind = (SymbolKind)*O.getInteger("kind");
  S.deprecated = *O.getBoolean("deprecated");
  S.range = R(*O.get("range"));
  S.selectionRange = R(*O.get("selectionRange"));
  for (const auto &C : *O.getArray("children"))
    S.children.push_back(symbol(*C.getAsObject()));
  return S;
}

Diagnostic diag(const Object &O) {
  Diagnostic D;
  D.range = R(*O.get("range"));
  D.severity = *O.getInteger("severity");
  D.code = O.getString("code")->str();
  D.source = O.getString("source")->str();
  D.message = O.getString("message")->str();
  for (const auto &T : *O.getArray("tags"))
    D.tags.push_back((DiagnosticTag)*T.getAsInteger());
  if (const auto *A = O.getArray("related")) {
    D.relatedInformation.emplace();
    for (const auto &V : *A) {
      const auto &X = *V.getAsObject();
      D.relatedInformation->push_back(
          {Location{U(*X.getString("file")), R(*X.get("range"))},
           X.getString("message")->str()});
    }
  }
  return D;
}

Value encode(StringRef T, const Object &O) {
  if (T == "FoldingRange") {
    FoldingRange F;
    F.startLine = *O.getInteger("startLine");
    F.startCharacter = *O.getInteger("startCharacter");
    F.endLine = *O.getInteger("endLine");
    F.endCharacter = *O.getInteger("endCharacter");
    F.kind = O.getString("kind")->str();
    return toJSON(F);
  }
  if (T == "DocumentSymbol")
    return toJSON(symbol(O));
  if (T == "PublishDiagnostics") {
    PublishDiagnosticsParams X;
    X.uri = U(*O.getString("file"));
    for (const auto &D : *O.getArray("diagnostics"))
      X.diagnostics.push_back(diag(*D.getAsObject()));
    if (auto V = O.getInteger("version"))
      X.version = *V;
    return toJSON(X);
  }
  if (T == "Hover") {
    Hover H;
    H.contents.kind = (MarkupKind)*O.getInteger("kind");
    H.contents.value = O.getString("value")->str();
    if (const auto *X = O.get("range"))
      H.range = R(*X);
    return toJSON(H);
  }
  if (T == "InlayHint") {
    InlayHint H;
    H.position = P(*O.get("position"));
    H.label = O.getString("label")->str();
    H.kind = (InlayHintKind)*O.getInteger("kind");
    H.paddingLeft = *O.getBoolean("paddingLeft");
    H.paddingRight = *O.getBoolean("paddingRight");
    return toJSON(H);
  }
  if (T == "DocumentHighlight") {
    DocumentHighlight H;
    H.range = R(*O.get("range"));
    H.kind = (DocumentHighlightKind)*O.getInteger("kind");
    return toJSON(H);
  }
  if (T == "DocumentLink") {
    DocumentLink L;
    L.range = R(*O.get("range"));
    L.target = U(*O.getString("file"));
    return toJSON(L);
  }
  if (T == "SemanticTokens") {
    SemanticTokens S;
    S.resultId = O.getString("resultId")->str();
    for (const auto &V : *O.getArray("tokens")) {
      const auto &A = *V.getAsArray();
      SemanticToken K;
      K.deltaLine = *A[0].getAsInteger();
      K.deltaStart = *A[1].getAsInteger();
      K.length = *A[2].getAsInteger();
      K.tokenType = *A[3].getAsInteger();
      K.tokenModifiers = *A[4].getAsInteger();
      S.tokens.push_back(K);
    }
    return toJSON(S);
  }
  if (T == "ShowDocument") {
    ShowDocumentParams X;
    if (auto E = O.getString("external_uri"))
      X.externalUri = E->str();
    else
      X.uri = U(*O.getString("file"));
    if (auto B = O.getBoolean("external"))
      X.external = *B;
    if (auto B = O.getBoolean("takeFocus"))
      X.takeFocus = *B;
    if (const auto *S = O.get("selection"))
      X.selection = R(*S);
    return toJSON(X);
  }
  if (T == "Configuration") {
    ConfigurationParams X;
    for (const auto &V : *O.getArray("items")) {
      ConfigurationItem I;
      if (auto S = V.getAsObject()->getString("section"))
        I.section = S->str();
      if (auto S = V.getAsObject()->getString("scope"))
        I.scopeUri = U(*S);
      X.items.push_back(I);
    }
    return toJSON(X);
  }
  return nullptr;
}

Value opCodec(const Object &O) {
  static const std::map<std::string, std::function<Value(const Value &)>> M = {
      {"URIForFile", codec<URIForFile>},
      {"TextDocumentIdentifier", codec<TextDocumentIdentifier>},
      {"VersionedTextDocumentIdentifier",
       codec<VersionedTextDocumentIdentifier>},
      {"Position", codec<Position>},
      {"Range", codec<Range>},
      {"Location", codec<Location>},
      {"TextEdit", codec<TextEdit>},
      {"ChangeAnnotation", codec<ChangeAnnotation>},
      {"TextDocumentEdit", codec<TextDocumentEdit>},
      {"DocumentChange", codec<DocumentChange>},
      {"Diagnostic", codec<Diagnostic>},
      {"WorkspaceEdit", codec<WorkspaceEdit>},
      {"TweakArgs", codec<TweakArgs>},
      {"CodeAction", codec<CodeAction>},
      {"CompletionItem", codec<CompletionItem>},
      {"MarkupContent", codec<MarkupContent>},
      {"TypeHierarchyItem", codec<TypeHierarchyItem>},
      {"CallHierarchyItem", codec<CallHierarchyItem>},
      {"DidOpen",
       [](const Value &V) {
         return decode<DidOpenTextDocumentParams>(V, dumpOpen);
       }},
      {"DidChange",
       [](const Value &V) {
         return decode<DidChangeTextDocumentParams>(V, dumpDidChange);
       }},
      {"DidClose",
       [](const Value &V) {
         return decode<DidCloseTextDocumentParams>(V, dumpClose);
       }},
      {"TextDocumentPosition",
       [](const Value &V) {
         return decode<TextDocumentPositionParams>(V, dumpTDP);
       }},
      {"Completion",
       [](const Value &V) {
         return decode<CompletionParams>(V, dumpCompletion);
       }},
      {"Rename",
       [](const Value &V) { return decode<RenameParams>(V, dumpRename); }},
      {"Reference",
       [](const Value &V) {
         return decode<ReferenceParams>(V, dumpReference);
       }},
      {"CodeActionParams",
       [](const Value &V) {
         return decode<CodeActionParams>(V, dumpCodeAction);
       }},
      {"InlayHints",
       [](const Value &V) { return decode<InlayHintsParams>(V, dumpInlay); }},
      {"DocumentSymbolParams",
       [](const Value &V) {
         return decode<DocumentSymbolParams>(V, dumpDoc<DocumentSymbolParams>);
       }},
      {"SemanticTokensParams",
       [](const Value &V) {
         return decode<SemanticTokensParams>(V, dumpDoc<SemanticTokensParams>);
       }},
      {"DocumentFormatting",
       [](const Value &V) {
         return decode<DocumentFormattingParams>(
             V, dumpDoc<DocumentFormattingParams>);
       }},
      {"FoldingRangeParams",
       [](const Value &V) {
         return decode<FoldingRangeParams>(V, dumpDoc<FoldingRangeParams>);
       }},
      {"DocumentLinkParams",
       [](const Value &V) {
         return decode<DocumentLinkParams>(V, dumpDoc<DocumentLinkParams>);
       }},
      {"ShowDocumentResult",
       [](const Value &V) { return decode<ShowDocumentResult>(V, dumpShow); }},
      {"Initialize",
       [](const Value &V) { return decode<InitializeParams>(V, dumpInit); }},
  };
  Array Out;
  for (const auto &V : *O.getArray("items")) {
    const auto &A = *V.getAsArray();
    StringRef T = *A[0].getAsString();
    if (T.consume_front("enc:")) {
      Out.push_back(Object{{"enc", encode(T, *A[1].getAsObject())}});
      continue;
    }
    auto It = M.find(T.str());
    Out.push_back(It == M.end() ? Value(nullptr) : It->second(A[1]));
  }
  return Object{{"out", std::move(Out)}};
}

} // namespace

int main() {
  char Line[128];
  while (fgets(Line, sizeof Line, stdin)) {
    size_t Len = 0;
    if (sscanf(Line, "%zu", &Len) != 1)
      return 2;
    std::string S(Len, 0);
    if (Len && fread(S.data(), 1, Len, stdin) != Len)
      return 2;
    auto V = json::parse(S);
    if (!V) {
      fprintf(stderr, "bad request: %s\n", toString(V.takeError()).c_str());
      return 2;
    }
    const Object &O = *V->getAsObject();
    StringRef Op = *O.getString("op");
    Value Out = nullptr;
    if (Op == "pos")
      Out = opPos(O);
    else if (Op == "changes")
      Out = opChanges(O);
    else if (Op == "draft")
      Out = opDraft(O);
    else if (Op == "draftmt")
      Out = opDraftMT(O);
    else if (Op == "uri")
      Out = opUri(O);
    else if (Op == "codec")
      Out = opCodec(O);
    std::string Text;
    raw_string_ostream OS(Text);
    OS << Out;
    OS.flush();
    printf("%zu\n", Text.size());
    fwrite(Text.data(), 1, Text.size(), stdout);
    fflush(stdout);
  }
}
