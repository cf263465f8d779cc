// C21: programs made of several binaries, loaded and unloaded in every order; ids are checked after every step.
#include "../lib/explore.hpp"
#include <spawn.h>
#include <sys/wait.h>
extern char** environ;

static std::string run(const std::vector<std::string>& argv, int& status) {
    int p[2];
    if (pipe(p)) mc::internal_error("pipe");
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, p[1], 1);
    posix_spawn_file_actions_adddup2(&fa, p[1], 2);
    posix_spawn_file_actions_addclose(&fa, p[0]);
    posix_spawn_file_actions_addclose(&fa, p[1]);
    std::vector<char*> a;
    for (auto& s : argv) a.push_back(const_cast<char*>(s.c_str()));
    a.push_back(nullptr);
    pid_t pid;
    if (posix_spawn(&pid, a[0], &fa, nullptr, a.data(), environ)) mc::internal_error("spawn");
    posix_spawn_file_actions_destroy(&fa);
    close(p[1]);
    std::string out;
    char b[4096];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) out.append(b, size_t(n));
    close(p[0]);
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    return out;
}
static void judge(const std::string& out, int status) {
    std::string o = out.substr(0, out.find('\n'));
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && o.rfind("OK", 0) == 0) {
        uint64_t h = 7;
        for (char c : o) h = mc::mix(h, uint64_t(c));
        mc::outcome(h);
        return;
    }
    if (o.rfind("FAIL ", 0) == 0) mc::fail("%s", o.c_str() + 5);
    if (WIFSIGNALED(status)) mc::fail("the program dies with signal %d", WTERMSIG(status));
    mc::fail("the program ends with status %x: %s", status, o.c_str());
}
static const char* const cfgs[] = { "gcc", "gccH", "clang", "clangH" };
static const char* const layouts[] = { "exe_is_host", "exe_is_client", "exe_is_neutral" };

// layout 0: the executable is the host; 1: it is a client linked to the host; 2: it has no part in it
static void programs(int cfg, int layout, int nclients, int depth, bool local) {
    std::string base = std::string(DIR "/") + cfgs[cfg];
    std::vector<std::string> argv{ base + "/" + layouts[layout], base + (layout ? "/linked" : "/free") };
    std::vector<std::string> names{ "ca", "cb", "cc", "cd" };
    names.resize(size_t(nclients));
    if (layout == 2) names.push_back("host");
    std::vector<bool> in(names.size());
    uint64_t h = mc::mix(uint64_t(cfg), uint64_t(layout));
    for (int i = 0; i < depth; ++i) {
        // load one that is not loaded, globally or locally, or unload one
        std::vector<std::pair<char, size_t>> ops;
        for (size_t k = 0; k < names.size(); ++k) {
            if (in[k]) ops.push_back({ '-', k });
            else {
                ops.push_back({ '*', k });
                if (local) ops.push_back({ '+', k });
            }
        }
        auto op = ops[mc::choose(unsigned(ops.size()))];
        char o = op.first;
        size_t k = op.second;
        in[k] = o != '-';
        argv.push_back(o + names[k]);
        mc::step();
        h = mc::mix(h, k * 3 + (o == '*') + 2 * (o == '-'));
        mc::state(h);
    }
    std::string line;
    for (auto& s : argv) line += " " + s;
    mc::log(" %s", line.c_str());
    int st;
    std::string out = run(argv, st);
    judge(out, st);
}
int main(int argc, char** argv) {
    for (int c = 0; c < 4; ++c)
        for (int l = 0; l < 3; ++l) {
            mc::Suite s;
            s.name = std::string("C21.") + cfgs[c] + "." + layouts[l];
            // ELF looks up symbols of a locally loaded binary in that binary first; without gnu_unique nothing is shared then
            bool local = !(c >= 2 && l == 2);
            s.body = [=] { programs(c, l, 4, mc::quick ? 4 : 6, local); };
            s.quick_cap = 20;
            s.thorough_cap = 600;
            mc::suites().push_back(s);
        }
    for (int c = 0; c < 2; ++c)
        for (int o = 0; o < 2; ++o) {
            mc::Suite s;
            s.name = std::string("C21.global-objects.") + cfgs[c] + (o ? ".user-first" : ".definer-first");
            s.body = [=] {
                std::string exe = std::string(DIR "/") + cfgs[c] + (o ? "/siof12" : "/siof21");
                mc::log("  %s", exe.c_str());
                mc::step();
                int st;
                std::string out = run({ exe }, st);
                judge(out, st);
            };
            mc::suites().push_back(s);
        }
    return mc::main(argc, argv);
}
