// Exercises lspserver's ports and server.
//   portprobe          in: "<len> <mode>\n" + JSON {"op": ...}, out: "<len>\n" + JSON
//   portprobe server   an LSPServer on stdin/stdout with the methods below
#include "lspserver/Connection.h"
#include "lspserver/LSPServer.h"
#include "lspserver/Logger.h"

#include <llvm/ADT/StringExtras.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <condition_variable>
#include <deque>
#include <fcntl.h>
#include <mutex>
#include <pthread.h>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

using namespace llvm;
using namespace lspserver;
using json::Array;
using json::Object;
using json::Value;

namespace {

class Quiet : public Logger {
  // Formats the message like the real logger, and drops it.
  void log(Level, const char *, const formatv_object_base &M) override {
    Size += M.str().size();
  }
  std::atomic<size_t> Size{0};
};

void nap(int64_t US) {
  if (US > 0)
    std::this_thread::sleep_for(std::chrono::microseconds(US));
}

struct Recorder : MessageHandler {
  Array Events;
  int64_t StopAfter = -1;
  bool more() { return StopAfter < 0 || (int64_t)Events.size() < StopAfter; }
  bool onNotify(StringRef M, Value P) override {
    Events.push_back(Array{"notify", M.str(), std::move(P)});
    return more();
  }
  bool onCall(StringRef M, Value P, Value ID) override {
    Events.push_back(Array{"call", M.str(), std::move(P), std::move(ID)});
    return more();
  }
  bool onReply(Value ID, Expected<Value> R) override {
    if (R)
      Events.push_back(Array{"reply", std::move(ID), std::move(*R)});
    else {
      std::string Msg;
      int64_t Code = 0;
      bool HasCode = false;
      handleAllErrors(
          R.takeError(),
          [&](const LSPError &E) {
            Msg = E.Message;
            Code = (int64_t)E.Code;
            HasCode = true;
          },
          [&](const ErrorInfoBase &E) { Msg = E.message(); });
      Events.push_back(Array{"error", std::move(ID), Msg,
                             HasCode ? Value(Code) : Value(nullptr)});
    }
    return more();
  }
};

void onSig(int) {}

Value opInbound(const Object &O) {
  int P[2];
  if (pipe(P))
    abort();
  if (auto C = O.getInteger("capacity"))
    fcntl(P[1], F_SETPIPE_SZ, (int)*C);
  bool Lit = O.getString("style") == std::optional<StringRef>("lit");
  InboundPort In(P[0], Lit ? JSONStreamStyle::LitTest
                           : JSONStreamStyle::Standard);
  Recorder R;
  if (auto N = O.getInteger("stop"))
    R.StopAfter = *N;
  pthread_t Self = pthread_self();
  std::atomic<bool> Done{false};
  std::thread W([&] {
    for (const auto &V : *O.getArray("chunks")) {
      const auto &A = *V.getAsArray();
      nap(*A[1].getAsInteger());
      if (auto K = A.size() > 2 ? A[2].getAsInteger() : std::nullopt)
        for (int64_t I = 0; I < *K; ++I)
          pthread_kill(Self, SIGUSR1);
      std::string B = fromHex(*A[0].getAsString());
      size_t Off = 0;
      while (Off < B.size()) {
        ssize_t N = write(P[1], B.data() + Off, B.size() - Off);
        if (N <= 0)
          break;
        Off += N;
      }
    }
    if (O.getBoolean("hold").value_or(false)) {
      // keep the pipe open; the port has to notice that it was closed
      nap(O.getInteger("hold_us").value_or(1000));
      In.close();
      while (!Done)
        nap(1000);
    }
    close(P[1]);
  });
  In.loop(R);
  Done = true;
  close(P[0]);
  W.join();
  return Object{{"events", std::move(R.Events)}};
}

Value opOutbound(const Object &O) {
  int P[2];
  if (pipe(P))
    abort();
  if (auto C = O.getInteger("capacity"))
    fcntl(P[1], F_SETPIPE_SZ, (int)*C);
  std::string Got;
  {
    raw_fd_ostream OS(P[1], /*shouldClose=*/true,
                      O.getBoolean("unbuffered").value_or(false));
    OutboundPort Out(OS, O.getBoolean("pretty").value_or(false));
    const auto &Ths = *O.getArray("threads");
    std::atomic<int> Ready{0};
    std::vector<std::thread> Ts;
    for (const auto &T : Ths)
      Ts.emplace_back([&] {
        ++Ready;
        while (Ready.load() < (int)Ths.size())
          ;
        for (const auto &V : *T.getAsArray()) {
          const auto &A = *V.getAsArray();
          StringRef K = *A[0].getAsString();
          if (K == "notify")
            Out.notify(*A[1].getAsString(), A[2]);
          else if (K == "call")
            Out.call(*A[1].getAsString(), A[2], A[3]);
          else if (K == "reply")
            Out.reply(A[1], A[2]);
          else if (K == "lsperror")
            Out.reply(A[1], make_error<LSPError>(
                                A[2].getAsString()->str(),
                                (ErrorCode)*A[3].getAsInteger()));
          else if (K == "error")
            Out.reply(A[1], make_error<StringError>(
                                A[2].getAsString()->str(),
                                inconvertibleErrorCode()));
        }
      });
    std::thread Rd([&] {
      std::vector<char> B(O.getInteger("read").value_or(4096));
      for (;;) {
        ssize_t N = read(P[0], B.data(), B.size());
        if (N <= 0)
          break;
        Got.append(B.data(), N);
      }
    });
    for (auto &T : Ts)
      T.join();
    OS.close();
    Rd.join();
  }
  close(P[0]);
  return Object{{"hex", toHex(Got, true)}};
}

// --- the server --------------------------------------------------------------

struct Pos {
  int64_t line = 0, character = 0;
};
bool fromJSON(const Value &V, Pos &P, json::Path Path) {
  json::ObjectMapper O(V, Path);
  return O && O.map("line", P.line) && O.map("character", P.character);
}
Value toJSON(const Pos &P) {
  return Object{{"line", P.line}, {"character", P.character}};
}

std::string describe(Error E) {
  std::string S;
  handleAllErrors(
      std::move(E),
      [&](const LSPError &X) {
        S = "lsp:" + std::to_string((int)X.Code) + ":" + X.Message;
      },
      [&](const ErrorInfoBase &X) { S = "err:" + X.message(); });
  return S;
}

class Server : public LSPServer {
  std::mutex M;
  std::condition_variable CV;
  std::deque<std::function<void()>> Q;
  bool Stop = false;
  std::vector<std::thread> Ts;
  Object Table;
  Array Notes;

  llvm::unique_function<void(const Value &, Callback<Value>)> Ask;
  llvm::unique_function<void(const Value &, Callback<Pos>)> AskTyped;
  llvm::unique_function<void(const Value &)> Tell;

  void post(std::function<void()> F) {
    {
      std::lock_guard<std::mutex> G(M);
      Q.push_back(std::move(F));
    }
    CV.notify_one();
  }

  void outcome(const std::string &Token, Value V) {
    std::lock_guard<std::mutex> G(M);
    auto It = Table.try_emplace(Token, Array{});
    It.first->second.getAsArray()->push_back(std::move(V));
  }

  void onEcho(const Value &P, Callback<Value> Reply) { Reply(P); }
  void onTyped(const Pos &P, Callback<Value> Reply) { Reply(toJSON(P)); }
  void onFail(const Value &P, Callback<Value> Reply) {
    const Object *O = P.getAsObject();
    Reply(make_error<LSPError>(O->getString("message")->str(),
                               (ErrorCode)*O->getInteger("code")));
  }
  void onDefer(const Value &P, Callback<Value> Reply) {
    auto R = std::make_shared<Callback<Value>>(std::move(Reply));
    post([P, R] {
      nap(P.getAsObject()->getInteger("us").value_or(0));
      (*R)(P);
    });
  }

  void ask(const Value &P) {
    const Object *O = P.getAsObject();
    std::string T = O->getString("token")->str();
    if (O->getBoolean("typed").value_or(false)) {
      AskTyped(P, [this, T](Expected<Pos> R) {
        if (R)
          outcome(T, toJSON(*R));
        else
          outcome(T, describe(R.takeError()));
      });
      return;
    }
    int64_t Again = O->getInteger("again").value_or(0);
    Ask(P, [this, T, Again](Expected<Value> R) {
      bool Ok = !!R;
      if (R)
        outcome(T, Array{*R});
      else
        outcome(T, describe(R.takeError()));
      // a callback may send further calls
      if (Ok && Again > 0)
        ask(Object{{"token", T + "+"}, {"again", Again - 1}});
    });
  }
  void onAsk(const Value &P, Callback<Value> Reply) {
    if (P.getAsObject()->getBoolean("thread").value_or(false))
      post([this, P] { ask(P); });
    else
      ask(P);
    Reply(nullptr);
  }
  // replies once the client has replied
  void onRelay(const Value &P, Callback<Value> Reply) {
    Ask(P, [Reply = std::move(Reply)](Expected<Value> R) mutable {
      Reply(std::move(R));
    });
  }
  void onTable(const Value &, Callback<Value> Reply) {
    std::unique_lock<std::mutex> G(M);
    Value V = Object(Table);
    G.unlock();
    Reply(std::move(V));
  }
  void onNotes(const Value &, Callback<Value> Reply) {
    std::unique_lock<std::mutex> G(M);
    Value V = Array(Notes);
    G.unlock();
    Reply(std::move(V));
  }
  void onNote(const Value &P) {
    std::lock_guard<std::mutex> G(M);
    Notes.push_back(P);
  }
  void onTypedNote(const Pos &P) {
    std::lock_guard<std::mutex> G(M);
    Notes.push_back(toJSON(P));
  }

public:
  Server(std::unique_ptr<InboundPort> I, std::unique_ptr<OutboundPort> O)
      : LSPServer(std::move(I), std::move(O)) {
    Ask = mkOutMethod<Value, Value>("client/ask");
    AskTyped = mkOutMethod<Value, Pos>("client/asktyped");
    Tell = mkOutNotifiction<Value>("client/tell");
    Registry.addMethod("echo", this, &Server::onEcho);
    Registry.addMethod("typed", this, &Server::onTyped);
    Registry.addMethod("fail", this, &Server::onFail);
    Registry.addMethod("defer", this, &Server::onDefer);
    Registry.addMethod("ask", this, &Server::onAsk);
    Registry.addMethod("relay", this, &Server::onRelay);
    Registry.addMethod("table", this, &Server::onTable);
    Registry.addMethod("notes", this, &Server::onNotes);
    Registry.addNotification("note", this, &Server::onNote);
    Registry.addNotification("typednote", this, &Server::onTypedNote);
    for (int I = 0; I < 4; ++I)
      Ts.emplace_back([this] {
        for (;;) {
          std::function<void()> F;
          {
            std::unique_lock<std::mutex> L(M);
            CV.wait(L, [&] { return Stop || !Q.empty(); });
            if (Q.empty())
              return;
            F = std::move(Q.front());
            Q.pop_front();
          }
          F();
        }
      });
  }
  ~Server() override {
    {
      std::lock_guard<std::mutex> G(M);
      Stop = true;
    }
    CV.notify_all();
    for (auto &T : Ts)
      T.join();
  }
};

int server() {
  Quiet L;
  LoggingSession S(L);
  Server Srv(std::make_unique<InboundPort>(), std::make_unique<OutboundPort>());
  Srv.run();
  return 0;
}

} // namespace

int main(int argc, char **argv) {
  signal(SIGPIPE, SIG_IGN);
  struct sigaction SA;
  memset(&SA, 0, sizeof SA);
  SA.sa_handler = onSig; // without SA_RESTART: reads are interrupted
  sigaction(SIGUSR1, &SA, nullptr);
  if (argc > 1 && !strcmp(argv[1], "server"))
    return server();
  Quiet L;
  LoggingSession Session(L);
  char Line[128];
  while (fgets(Line, sizeof Line, stdin)) {
    size_t Len = 0;
    if (sscanf(Line, "%zu", &Len) != 1)
      return 2;
    std::string S(Len, 0);
    if (Len && fread(S.data(), 1, Len, stdin) != Len)
      return 2;
    auto V = json::parse(S);
    if (!V) {
      fprintf(stderr, "bad request: %s\n", toString(V.takeError()).c_str());
      return 2;
    }
    const Object &O = *V->getAsObject();
    StringRef Op = *O.getString("op");
    Value Out = nullptr;
    if (Op == "inbound")
      Out = opInbound(O);
    else if (Op == "outbound")
      Out = opOutbound(O);
    std::string Text;
    raw_string_ostream OS(Text);
    OS << Out;
    OS.flush();
    printf("%zu\n", Text.size());
    fwrite(Text.data(), 1, Text.size(), stdout);
    fflush(stdout);
  }
}
