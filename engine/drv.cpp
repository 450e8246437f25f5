// Black-box driver: loads ClazyPlugin.so exactly as clang does and analyses in-memory translation units.
// It uses clang's public API only; nothing of clazy but its plugin name is known here.
// stdin: one JSON job per line.  stdout: one JSON result per line.
//   job: {"id":n, "args":[driver args], "main":"/v/x.cpp", "files":{"/v/x.cpp":"..."}, "env":{...},
//         "seq":[{"main":..,"files":..,"args":..}...] (several TUs in one process, in order)}
// Every job runs in a forked child, so that no job sees another job's process state.
#include <clang/Basic/Diagnostic.h>
#include <clang/Basic/DiagnosticOptions.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Driver/Compilation.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/CompilerInvocation.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Frontend/TextDiagnosticPrinter.h>
#include <clang/Frontend/Utils.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/Core/Replacement.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/TargetSelect.h>
#include <llvm/Support/VirtualFileSystem.h>
#include <llvm/Support/raw_ostream.h>
#include <dlfcn.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
#include <iostream>
#include <map>
using namespace clang;
namespace json = llvm::json;

struct Collect : DiagnosticConsumer {
    json::Array out;
    const LangOptions *lo = nullptr;
    void BeginSourceFile(const LangOptions &l, const Preprocessor *) override { lo = &l; }
    void HandleDiagnostic(DiagnosticsEngine::Level level, const Diagnostic &info) override
    {
        DiagnosticConsumer::HandleDiagnostic(level, info);
        json::Object d;
        static const char *names[] = {"ignored", "note", "remark", "warning", "error", "fatal"};
        d["level"] = names[level];
        llvm::SmallString<256> msg;
        info.FormatDiagnostic(msg);
        d["msg"] = json::fixUTF8(msg.str());
        if (info.hasSourceManager() && info.getLocation().isValid()) {
            auto &sm = info.getSourceManager();
            SourceLocation f = sm.getFileLoc(info.getLocation());
            PresumedLoc p = sm.getPresumedLoc(f);
            if (p.isValid()) {
                d["file"] = json::fixUTF8(p.getFilename());
                d["line"] = p.getLine();
                d["col"] = p.getColumn();
                d["off"] = sm.getFileOffset(f);
            }
            d["macro"] = info.getLocation().isMacroID();
            json::Array fx;
            for (const FixItHint &h : info.getFixItHints()) {
                json::Object o;
                LangOptions dl;
                CharSourceRange fr = Lexer::makeFileCharRange(h.RemoveRange, sm, lo ? *lo : dl);
                if (fr.isInvalid()) {
                    o["bad"] = true;
                } else {
                    auto b = sm.getDecomposedLoc(fr.getBegin());
                    auto e = sm.getDecomposedLoc(fr.getEnd());
                    auto fe = sm.getFileEntryRefForID(b.first);
                    o["file"] = fe ? json::fixUTF8(fe->getName()) : std::string();
                    o["off"] = b.second;
                    o["len"] = e.first == b.first ? int64_t(e.second) - int64_t(b.second) : -1;
                    o["macro"] = h.RemoveRange.getBegin().isMacroID() || h.RemoveRange.getEnd().isMacroID();
                }
                o["text"] = json::fixUTF8(h.CodeToInsert);
                fx.push_back(std::move(o));
            }
            if (!fx.empty())
                d["fix"] = std::move(fx);
        }
        out.push_back(std::move(d));
    }
};

static std::map<std::string, std::shared_ptr<CompilerInvocation>> g_cache;

static std::shared_ptr<CompilerInvocation> invocation(const std::vector<std::string> &args)
{
    std::string key;
    for (auto &a : args)
        key += a + '\n';
    auto it = g_cache.find(key);
    if (it != g_cache.end())
        return it->second;
    std::vector<const char *> cargs{"clang++"};
    for (auto &a : args)
        cargs.push_back(a.c_str());
    cargs.push_back("-fsyntax-only");
    cargs.push_back("/dev/null");
    bool hasx = false;
    for (auto &a : args)
        hasx |= a == "-x";
    if (!hasx) {
        cargs.insert(cargs.begin() + 1, "c++");
        cargs.insert(cargs.begin() + 1, "-x");
    }
    CreateInvocationOptions o;
    o.Diags = CompilerInstance::createDiagnostics(*llvm::vfs::getRealFileSystem(), new DiagnosticOptions, new IgnoringDiagConsumer);
    auto inv = createInvocation(cargs, o);
    std::shared_ptr<CompilerInvocation> r(std::move(inv));
    g_cache[key] = r;
    return r;
}

static json::Object runTU(const json::Object &job)
{
    json::Object res;
    std::vector<std::string> args;
    if (auto *a = job.getArray("args"))
        for (auto &v : *a)
            args.push_back(v.getAsString()->str());
    auto base = invocation(args);
    if (!base) {
        res["ok"] = false;
        res["err"] = "bad args";
        return res;
    }
    auto inv = std::make_shared<CompilerInvocation>(*base);
    std::string mainFile = job.getString("main")->str();
    auto kind = inv->getFrontendOpts().Inputs.empty() ? InputKind(Language::CXX) : inv->getFrontendOpts().Inputs[0].getKind();
    inv->getFrontendOpts().Inputs.clear();
    inv->getFrontendOpts().Inputs.emplace_back(mainFile, kind);
    inv->getFrontendOpts().DisableFree = false;
    auto mem = llvm::makeIntrusiveRefCnt<llvm::vfs::InMemoryFileSystem>();
    if (auto *files = job.getObject("files"))
        for (auto &kv : *files)
            mem->addFile(kv.first.str(), 0, llvm::MemoryBuffer::getMemBufferCopy(*kv.second.getAsString(), kv.first.str()));
    auto over = llvm::makeIntrusiveRefCnt<llvm::vfs::OverlayFileSystem>(llvm::vfs::getRealFileSystem());
    over->pushOverlay(mem);
    CompilerInstance ci;
    ci.setInvocation(inv);
    Collect col;
    ci.createDiagnostics(*over, &col, /*own*/ false);
    ci.createFileManager(over);
    SyntaxOnlyAction act;
    bool ok = ci.ExecuteAction(act);
    res["ok"] = ok;
    res["nwarn"] = int64_t(col.getNumWarnings());
    res["nerr"] = int64_t(col.getNumErrors());
    res["diags"] = std::move(col.out);
    return res;
}

static json::Object runJob(const json::Object &job)
{
    if (auto *env = job.getObject("env"))
        for (auto &kv : *env) {
            if (auto s = kv.second.getAsString())
                setenv(kv.first.str().c_str(), s->str().c_str(), 1);
            else
                unsetenv(kv.first.str().c_str());
        }
    if (auto *seq = job.getArray("seq")) {
        json::Object res;
        json::Array a;
        for (auto &v : *seq)
            a.push_back(runTU(*v.getAsObject()));
        res["seq"] = std::move(a);
        return res;
    }
    return runTU(job);
}

int main(int argc, char **argv)
{
    if (argc < 2) {
        llvm::errs() << "usage: drv ClazyPlugin.so [--nofork]\n";
        return 2;
    }
    bool nofork = argc > 2 && !strcmp(argv[2], "--nofork");
    if (strcmp(argv[1], "-") && !dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL)) {
        llvm::errs() << dlerror() << "\n";
        return 2;
    }
    std::string line;
    while (std::getline(std::cin, line)) {
        auto v = json::parse(line);
        if (!v) {
            llvm::errs() << "bad job\n";
            return 2;
        }
        json::Object job = std::move(*v->getAsObject());
        int64_t id = *job.getInteger("id");
        int timeout = int(job.getInteger("timeout").value_or(120));
        // Parse the arguments before forking, so that the result is cached.
        auto warm = [](const json::Object &j) {
            std::vector<std::string> args;
            if (auto *a = j.getArray("args"))
                for (auto &x : *a)
                    args.push_back(x.getAsString()->str());
            invocation(args);
        };
        if (auto *seq = job.getArray("seq")) {
            for (auto &x : *seq)
                warm(*x.getAsObject());
        } else {
            warm(job);
        }
        if (nofork) {
            json::Object r = runJob(job);
            r["id"] = id;
            llvm::outs() << json::Value(std::move(r)) << "\n";
            llvm::outs().flush();
            continue;
        }
        int fd[2];
        if (pipe(fd))
            return 2;
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            alarm(timeout);
            int cap = -1;
            if (job.getBoolean("stderr").value_or(false)) {
                cap = memfd_create("err", 0);
                dup2(cap, 2);
            }
            json::Object r = runJob(job);
            r["id"] = id;
            if (cap >= 0) {
                llvm::errs().flush();
                std::string e;
                char b[4096];
                ssize_t k;
                lseek(cap, 0, SEEK_SET);
                while ((k = read(cap, b, sizeof b)) > 0)
                    e.append(b, k);
                r["stderr"] = json::fixUTF8(e);
            }
            std::string s;
            llvm::raw_string_ostream os(s);
            os << json::Value(std::move(r)) << "\n";
            os.flush();
            size_t off = 0;
            while (off < s.size()) {
                ssize_t n = write(fd[1], s.data() + off, s.size() - off);
                if (n <= 0)
                    _exit(3);
                off += n;
            }
            close(fd[1]);
            _exit(0);
        }
        close(fd[1]);
        std::string buf;
        char tmp[65536];
        ssize_t n;
        while ((n = read(fd[0], tmp, sizeof tmp)) > 0)
            buf.append(tmp, n);
        close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st) || buf.empty()) {
            json::Object r;
            r["id"] = id;
            r["crash"] = WIFSIGNALED(st) ? WTERMSIG(st) : -1;
            llvm::outs() << json::Value(std::move(r)) << "\n";
        } else {
            llvm::outs() << buf;
        }
        llvm::outs().flush();
    }
    return 0;
}
